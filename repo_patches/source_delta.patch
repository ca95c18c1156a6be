From 421f39d8bf1a0fbf8fa4da24a9619bd95119c978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:29 +0000
Subject: [PATCH 01/32] fix: keep tokens and shares when a service or operator
 is updated

---
 x/operators/types/models.go | 16 ++++++++--------
 x/services/types/models.go  | 19 +++++++++----------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/x/operators/types/models.go b/x/operators/types/models.go
index 9f67af3..bb21f8c 100644
--- a/x/operators/types/models.go
+++ b/x/operators/types/models.go
@@ -220,14 +220,14 @@ func (o *Operator) Update(update OperatorUpdate) Operator {
 		update.PictureURL = o.PictureURL
 	}
 
-	return NewOperator(
-		o.ID,
-		o.Status,
-		update.Moniker,
-		update.Website,
-		update.PictureURL,
-		o.Admin,
-	)
+	// Only the descriptive fields change: everything else, including the tokens
+	// and shares accounting, must be carried over
+	updated := *o
+	updated.Moniker = update.Moniker
+	updated.Website = update.Website
+	updated.PictureURL = update.PictureURL
+
+	return updated
 }
 
 // --------------------------------------------------------------------------------------------------------------------
diff --git a/x/services/types/models.go b/x/services/types/models.go
index 0426655..1255f22 100644
--- a/x/services/types/models.go
+++ b/x/services/types/models.go
@@ -241,16 +241,15 @@ func (s *Service) Update(update ServiceUpdate) Service {
 		update.PictureURL = s.PictureURL
 	}
 
-	return NewService(
-		s.ID,
-		s.Status,
-		update.Name,
-		update.Description,
-		update.Website,
-		update.PictureURL,
-		s.Admin,
-		s.Accredited,
-	)
+	// Only the descriptive fields change: everything else, including the tokens
+	// and shares accounting, must be carried over
+	updated := *s
+	updated.Name = update.Name
+	updated.Description = update.Description
+	updated.Website = update.Website
+	updated.PictureURL = update.PictureURL
+
+	return updated
 }
 
 // --------------------------------------------------------------------------------------------------------------------
-- 
2.43.0


From 42a435f3203bf6d2b1f8efb8e151a91728c4dbb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:15 +0000
Subject: [PATCH 02/32] fix: do not fail the end blocker when an unbonding
 delegation is queued twice

---
 x/restaking/keeper/end_blocker.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/restaking/keeper/end_blocker.go b/x/restaking/keeper/end_blocker.go
index 8e3aa90..20695d2 100644
--- a/x/restaking/keeper/end_blocker.go
+++ b/x/restaking/keeper/end_blocker.go
@@ -3,6 +3,7 @@ package keeper
 import (
 	"fmt"
 
+	"cosmossdk.io/errors"
 	sdk "github.com/cosmos/cosmos-sdk/types"
 
 	"github.com/milkyway-labs/milkyway/v3/x/restaking/types"
@@ -19,6 +20,11 @@ func (k *Keeper) CompleteMatureUnbondingDelegations(ctx sdk.Context) error {
 	for _, data := range matureUnbonds {
 
 		balances, err := k.CompleteUnbonding(ctx, data)
+		if errors.IsOf(err, types.ErrNoUnbondingDelegation) {
+			// The same unbonding delegation can be queued more than once: its mature
+			// entries have already been completed all together
+			continue
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 90ef10b8594c466bdc93892b1fd8658373c89c5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 03/32] fix: pay an operator's commission from the rewards pool
 when it is deleted

---
 x/rewards/keeper/alias_functions.go | 21 +++------------------
 x/rewards/keeper/target.go          |  2 +-
 2 files changed, 4 insertions(+), 19 deletions(-)

diff --git a/x/rewards/keeper/alias_functions.go b/x/rewards/keeper/alias_functions.go
index 568393b..8af64d9 100644
--- a/x/rewards/keeper/alias_functions.go
+++ b/x/rewards/keeper/alias_functions.go
@@ -69,30 +69,15 @@ func (k *Keeper) DeleteOperatorAccumulatedCommission(ctx context.Context, operat
 	return k.OperatorAccumulatedCommissions.Remove(ctx, operatorID)
 }
 
-// GetOperatorWithdrawAddr returns the outstanding rewards coins for an operator
+// GetOperatorWithdrawAddr returns the address to which the commission of an operator is sent
 func (k *Keeper) GetOperatorWithdrawAddr(ctx context.Context, operator operatorstypes.Operator) (sdk.AccAddress, error) {
-	// Try getting a custom withdraw address
-	operatorAddr, err := sdk.AccAddressFromBech32(operator.Address)
-	if err != nil {
-		return nil, err
-	}
-
-	withdrawAddr, err := k.GetDelegatorWithdrawAddr(ctx, operatorAddr)
-	if err != nil {
-		return nil, err
-	}
-
-	if withdrawAddr != nil {
-		return withdrawAddr, nil
-	}
-
-	// By default, use the operator admin address as the withdraw address
 	adminAddress, err := sdk.AccAddressFromBech32(operator.Admin)
 	if err != nil {
 		return nil, err
 	}
 
-	return adminAddress, nil
+	// Use the withdraw address of the operator admin, as when withdrawing the commission
+	return k.GetDelegatorWithdrawAddr(ctx, adminAddress)
 }
 
 // GetDelegatorWithdrawAddr returns the delegator's withdraw address if set, otherwise the delegator address is returned.
diff --git a/x/rewards/keeper/target.go b/x/rewards/keeper/target.go
index 1737ee0..a85d5d3 100644
--- a/x/rewards/keeper/target.go
+++ b/x/rewards/keeper/target.go
@@ -352,7 +352,7 @@ func (k *Keeper) clearOperator(ctx context.Context, outstanding sdk.DecCoins, op
 				return outstanding, err
 			}
 
-			err = k.bankKeeper.SendCoinsFromModuleToAccount(ctx, types.ModuleName, withdrawAddr, coins)
+			err = k.bankKeeper.SendCoinsFromModuleToAccount(ctx, types.RewardsPoolName, withdrawAddr, coins)
 			if err != nil {
 				return outstanding, err
 			}
-- 
2.43.0


From 50683a742a3fc8a223d16e516e6395369faa483b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 04/32] fix: look up the allowed operator in the allowed
 operators invariant

---
 x/restaking/keeper/invariants.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/restaking/keeper/invariants.go b/x/restaking/keeper/invariants.go
index 606a7e8..c11b736 100644
--- a/x/restaking/keeper/invariants.go
+++ b/x/restaking/keeper/invariants.go
@@ -374,7 +374,7 @@ func AllowedOperatorsExistInvariant(k *Keeper) sdk.Invariant {
 		// Iterate over all the services joined by operators
 		var notFoundOperatorsIDs []uint32
 		err := k.IterateAllServicesAllowedOperators(ctx, func(serviceID uint32, operatorID uint32) (stop bool, err error) {
-			_, found, err := k.operatorsKeeper.GetOperator(ctx, serviceID)
+			_, found, err := k.operatorsKeeper.GetOperator(ctx, operatorID)
 			if err != nil {
 				return true, err
 			}
-- 
2.43.0


From ef260202d0358bf262c226877660be28357d21d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 05/32] fix: reject a restake when the insurance fund cannot be
 read

---
 x/liquidvesting/keeper/restake_restriction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/liquidvesting/keeper/restake_restriction.go b/x/liquidvesting/keeper/restake_restriction.go
index 2aba1b4..0a27203 100644
--- a/x/liquidvesting/keeper/restake_restriction.go
+++ b/x/liquidvesting/keeper/restake_restriction.go
@@ -39,7 +39,7 @@ func (k *Keeper) RestakeRestrictionFn(ctx context.Context, restakerAddress strin
 	// Get the user's insurance fund
 	userInsuranceFund, err := k.GetUserInsuranceFund(ctx, restakerAddress)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	// Get the module params
-- 
2.43.0


From 1cdac6dc7ff6eae6c4f4ee9fb629ec19eecc6215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:13 +0000
Subject: [PATCH 06/32] fix: count operators and services rewards in the
 rewards module account invariant

---
 x/rewards/keeper/invariants.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/x/rewards/keeper/invariants.go b/x/rewards/keeper/invariants.go
index e89a773..18e69e3 100644
--- a/x/rewards/keeper/invariants.go
+++ b/x/rewards/keeper/invariants.go
@@ -350,10 +350,19 @@ func checkReferencesCount[T any](
 func ModuleAccountInvariant(k *Keeper) sdk.Invariant {
 	return func(ctx sdk.Context) (string, bool) {
 		var expectedCoins sdk.DecCoins
-		err := k.PoolOutstandingRewards.Walk(ctx, nil, func(_ uint32, rewards types.OutstandingRewards) (stop bool, err error) {
+		sumOutstanding := func(_ uint32, rewards types.OutstandingRewards) (stop bool, err error) {
 			expectedCoins = expectedCoins.Add(rewards.Rewards.Sum()...)
 			return false, nil
-		})
+		}
+		err := k.PoolOutstandingRewards.Walk(ctx, nil, sumOutstanding)
+		if err != nil {
+			return sdk.FormatInvariant(types.ModuleName, "module account coins", err.Error()), true
+		}
+		err = k.OperatorOutstandingRewards.Walk(ctx, nil, sumOutstanding)
+		if err != nil {
+			return sdk.FormatInvariant(types.ModuleName, "module account coins", err.Error()), true
+		}
+		err = k.ServiceOutstandingRewards.Walk(ctx, nil, sumOutstanding)
 		if err != nil {
 			return sdk.FormatInvariant(types.ModuleName, "module account coins", err.Error()), true
 		}
-- 
2.43.0


From e3efd897454e6b7898015cf5b8f5066a8cc696e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 07/32] fix: import the user preferences before the
 delegations, whose settlement their hooks require

---
 x/restaking/keeper/genesis.go | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/x/restaking/keeper/genesis.go b/x/restaking/keeper/genesis.go
index 2e197e7..2aa8cee 100644
--- a/x/restaking/keeper/genesis.go
+++ b/x/restaking/keeper/genesis.go
@@ -86,6 +86,16 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, data *types.GenesisState) error {
 		}
 	}
 
+	// Store the user preferences. This must be done before storing the delegations:
+	// the hooks that are called react to the change of preferences by settling the
+	// existing delegations of the user, while what is imported is already settled.
+	for _, entry := range data.UsersPreferences {
+		err := k.SetUserPreferences(ctx, entry.UserAddress, entry.Preferences)
+		if err != nil {
+			return err
+		}
+	}
+
 	// Store the delegations
 	for _, delegation := range data.Delegations {
 		err := k.SetDelegation(ctx, delegation)
@@ -109,14 +119,6 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, data *types.GenesisState) error {
 		}
 	}
 
-	// Store the user preferences
-	for _, entry := range data.UsersPreferences {
-		err := k.SetUserPreferences(ctx, entry.UserAddress, entry.Preferences)
-		if err != nil {
-			return err
-		}
-	}
-
 	// Store the params
 	return k.SetParams(ctx, data.Params)
 }
-- 
2.43.0


From 234599ac553c536282e7738d8d643b2250a79d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 08/32] fix: replace the historical rewards initialized by the
 targets import when importing the rewards genesis

---
 x/rewards/keeper/genesis.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/x/rewards/keeper/genesis.go b/x/rewards/keeper/genesis.go
index af6b170..fee4442 100644
--- a/x/rewards/keeper/genesis.go
+++ b/x/rewards/keeper/genesis.go
@@ -360,6 +360,15 @@ func (k *Keeper) initializeDelegationRecords(
 		totalOutstandingRewards = totalOutstandingRewards.Add(outstanding.OutstandingRewards.Sum()...)
 	}
 
+	// Remove the historical rewards that have been initialized when the targets have
+	// been imported, since they would be counted on top of the ones being imported
+	for _, current := range records.CurrentRewards {
+		err = historicalRewardsCollection.Clear(ctx, collections.NewPrefixedPairRange[uint32, uint64](current.DelegationTargetID))
+		if err != nil {
+			return nil, err
+		}
+	}
+
 	// Store the historical rewards
 	for _, historical := range records.HistoricalRewards {
 		err = historicalRewardsCollection.Set(ctx, collections.Join(historical.DelegationTargetID, historical.Period), historical.Rewards)
-- 
2.43.0


From cfcbbb80c9fd08e3f70cf49c4031abd84daf210d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 09/32] fix: read the delegations of a service through its
 index, whose values are empty

---
 x/restaking/keeper/alias_functions.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/x/restaking/keeper/alias_functions.go b/x/restaking/keeper/alias_functions.go
index ae6a80e..4c298e3 100644
--- a/x/restaking/keeper/alias_functions.go
+++ b/x/restaking/keeper/alias_functions.go
@@ -462,11 +462,21 @@ func (k *Keeper) IterateAllServiceDelegations(ctx context.Context, cb func(del t
 func (k *Keeper) IterateServiceDelegations(ctx context.Context, serviceID uint32, cb func(del types.Delegation) (stop bool, err error)) error {
 	store := k.storeService.OpenKVStore(ctx)
 
-	iterator := storetypes.KVStorePrefixIterator(runtime.KVStoreAdapter(store), types.DelegationsByServiceIDStorePrefix(serviceID))
+	// The values stored within this index are empty: get the delegator from the key
+	prefix := types.DelegationsByServiceIDStorePrefix(serviceID)
+	iterator := storetypes.KVStorePrefixIterator(runtime.KVStoreAdapter(store), prefix)
 	defer iterator.Close()
 
 	for ; iterator.Valid(); iterator.Next() {
-		delegation := types.MustUnmarshalDelegation(k.cdc, iterator.Value())
+		delegation, found, err := k.GetServiceDelegation(ctx, serviceID, string(iterator.Key()[len(prefix):]))
+		if err != nil {
+			return err
+		}
+
+		if !found {
+			continue
+		}
+
 		stop, err := cb(delegation)
 		if err != nil {
 			return err
-- 
2.43.0


From 2a9b0e4aa506dc1169ed71ada4a5a33680c5cffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 10/32] fix: update the trusted pool shares of a service also
 for pools that do not secure it

---
 x/rewards/keeper/pool_service_shares.go | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/x/rewards/keeper/pool_service_shares.go b/x/rewards/keeper/pool_service_shares.go
index b5dfe43..c02e8d0 100644
--- a/x/rewards/keeper/pool_service_shares.go
+++ b/x/rewards/keeper/pool_service_shares.go
@@ -21,15 +21,6 @@ func (k *Keeper) AfterUserTrustedServiceUpdated(
 	}
 
 	return k.restakingKeeper.IterateUserPoolDelegations(ctx, userAddress, func(del restakingtypes.Delegation) (stop bool, err error) {
-		isSecured, err := k.restakingKeeper.IsServiceSecuredByPool(ctx, serviceID, del.TargetID)
-		if err != nil {
-			return true, err
-		}
-
-		if !isSecured {
-			return false, nil
-		}
-
 		pool, err := k.GetDelegationTarget(ctx, restakingtypes.DELEGATION_TYPE_POOL, del.TargetID)
 		if err != nil {
 			return true, err
-- 
2.43.0


From b813f352303b8971a7c633e6850e7e8b4565124f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 11/32] fix: keep the trusted pool shares in step with created
 services and changed accreditations

---
 x/rewards/keeper/hooks.go               | 48 +++++++++++++-----
 x/rewards/keeper/pool_service_shares.go | 66 ++++++++++++++-----------
 x/rewards/keeper/services_hooks.go      |  7 ++-
 x/services/keeper/services.go           | 11 +++--
 x/services/types/hooks.go               |  2 +-
 5 files changed, 86 insertions(+), 48 deletions(-)

diff --git a/x/rewards/keeper/hooks.go b/x/rewards/keeper/hooks.go
index ff1e17c..89ec609 100644
--- a/x/rewards/keeper/hooks.go
+++ b/x/rewards/keeper/hooks.go
@@ -131,6 +131,35 @@ func (k *Keeper) AfterDelegationModified(ctx context.Context, delType restakingt
 	return nil
 }
 
+// AfterServiceCreated is called after a service is created. It counts the pool
+// delegations of the users that already trust the new service within the total
+// delegator shares of the service.
+func (k *Keeper) AfterServiceCreated(ctx context.Context, serviceID uint32) error {
+	service, found, err := k.servicesKeeper.GetService(ctx, serviceID)
+	if err != nil {
+		return err
+	}
+
+	if !found {
+		return servicestypes.ErrServiceNotFound
+	}
+
+	return k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
+		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, del.UserAddress)
+		if err != nil {
+			return true, err
+		}
+
+		if preferences.IsServiceTrusted(service) {
+			err = k.IncrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
+			if err != nil {
+				return true, err
+			}
+		}
+		return false, nil
+	})
+}
+
 // AfterServiceAccreditationModified implements servicestypes.ServicesHooks
 func (k *Keeper) AfterServiceAccreditationModified(ctx context.Context, serviceID uint32) error {
 	service, found, err := k.servicesKeeper.GetService(ctx, serviceID)
@@ -142,31 +171,28 @@ func (k *Keeper) AfterServiceAccreditationModified(ctx context.Context, serviceI
 		return servicestypes.ErrServiceNotFound
 	}
 
-	err = k.restakingKeeper.IterateServiceDelegations(ctx, serviceID, func(del restakingtypes.Delegation) (stop bool, err error) {
+	return k.restakingKeeper.IterateAllPoolDelegations(ctx, func(del restakingtypes.Delegation) (stop bool, err error) {
 		preferences, err := k.restakingKeeper.GetUserPreferences(ctx, del.UserAddress)
 		if err != nil {
 			return true, err
 		}
 
 		// Clone the service and invert the accreditation status to get the
-		// previous state
-		serviceBefore := service
-		serviceBefore.Accredited = !serviceBefore.Accredited
+		// next state: the stored service is updated only after this hook, so that
+		// the rewards are settled based on what the user was trusting until now
+		serviceAfter := service
+		serviceAfter.Accredited = !serviceAfter.Accredited
 
-		trustedBefore := preferences.IsServiceTrusted(serviceBefore)
-		trustedAfter := preferences.IsServiceTrusted(service)
+		trustedBefore := preferences.IsServiceTrusted(service)
+		trustedAfter := preferences.IsServiceTrusted(serviceAfter)
 		if trustedBefore != trustedAfter {
-			err = k.AfterUserTrustedServiceUpdated(ctx, del.UserAddress, service.ID, trustedAfter)
+			err = k.updateTrustedServiceShares(ctx, del, service.ID, trustedAfter)
 			if err != nil {
 				return true, err
 			}
 		}
 		return false, nil
 	})
-	if err != nil {
-		return err
-	}
-	return nil
 }
 
 // AfterUserPreferencesModified is called after a user's trust in a service is
diff --git a/x/rewards/keeper/pool_service_shares.go b/x/rewards/keeper/pool_service_shares.go
index c02e8d0..b4b1035 100644
--- a/x/rewards/keeper/pool_service_shares.go
+++ b/x/rewards/keeper/pool_service_shares.go
@@ -15,38 +15,44 @@ func (k *Keeper) AfterUserTrustedServiceUpdated(
 	serviceID uint32,
 	trusted bool,
 ) error {
-	delAddr, err := k.accountKeeper.AddressCodec().StringToBytes(userAddress)
+	return k.restakingKeeper.IterateUserPoolDelegations(ctx, userAddress, func(del restakingtypes.Delegation) (stop bool, err error) {
+		err = k.updateTrustedServiceShares(ctx, del, serviceID, trusted)
+		return err != nil, err
+	})
+}
+
+// updateTrustedServiceShares settles the given pool delegation, and adds its shares
+// to (or removes them from) the total delegator shares of the given service.
+func (k *Keeper) updateTrustedServiceShares(
+	ctx context.Context,
+	del restakingtypes.Delegation,
+	serviceID uint32,
+	trusted bool,
+) error {
+	delAddr, err := k.accountKeeper.AddressCodec().StringToBytes(del.UserAddress)
 	if err != nil {
 		return err
 	}
 
-	return k.restakingKeeper.IterateUserPoolDelegations(ctx, userAddress, func(del restakingtypes.Delegation) (stop bool, err error) {
-		pool, err := k.GetDelegationTarget(ctx, restakingtypes.DELEGATION_TYPE_POOL, del.TargetID)
-		if err != nil {
-			return true, err
-		}
-
-		// Calling these two methods has same effect as calling
-		// BeforePoolDelegationSharesModified and then AfterPoolDelegationModified.
-		_, err = k.withdrawDelegationRewards(ctx, pool, del)
-		if err != nil {
-			return true, err
-		}
-
-		err = k.initializeDelegation(ctx, pool, delAddr)
-		if err != nil {
-			return true, err
-		}
-
-		if trusted {
-			err = k.IncrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
-		} else {
-			err = k.DecrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
-		}
-		if err != nil {
-			return true, err
-		}
-
-		return false, nil
-	})
+	pool, err := k.GetDelegationTarget(ctx, restakingtypes.DELEGATION_TYPE_POOL, del.TargetID)
+	if err != nil {
+		return err
+	}
+
+	// Calling these two methods has same effect as calling
+	// BeforePoolDelegationSharesModified and then AfterPoolDelegationModified.
+	_, err = k.withdrawDelegationRewards(ctx, pool, del)
+	if err != nil {
+		return err
+	}
+
+	err = k.initializeDelegation(ctx, pool, delAddr)
+	if err != nil {
+		return err
+	}
+
+	if trusted {
+		return k.IncrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
+	}
+	return k.DecrementPoolServiceTotalDelegatorShares(ctx, del.TargetID, serviceID, del.Shares)
 }
diff --git a/x/rewards/keeper/services_hooks.go b/x/rewards/keeper/services_hooks.go
index d36a5ae..92d8b54 100644
--- a/x/rewards/keeper/services_hooks.go
+++ b/x/rewards/keeper/services_hooks.go
@@ -19,7 +19,12 @@ func (k *Keeper) ServicesHooks() ServicesHooks {
 
 // AfterServiceCreated implements servicestypes.ServicesHooks
 func (h ServicesHooks) AfterServiceCreated(ctx context.Context, serviceID uint32) error {
-	return h.k.AfterDelegationTargetCreated(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
+	err := h.k.AfterDelegationTargetCreated(ctx, restakingtypes.DELEGATION_TYPE_SERVICE, serviceID)
+	if err != nil {
+		return err
+	}
+
+	return h.k.AfterServiceCreated(ctx, serviceID)
 }
 
 // AfterServiceActivated implements servicestypes.ServicesHooks
diff --git a/x/services/keeper/services.go b/x/services/keeper/services.go
index 1535933..fdecdb4 100644
--- a/x/services/keeper/services.go
+++ b/x/services/keeper/services.go
@@ -167,15 +167,16 @@ func (k *Keeper) SetServiceAccredited(ctx context.Context, serviceID uint32, acc
 		return nil
 	}
 
-	// Update the service accreditation status
-	service.Accredited = accredited
-	err = k.SaveService(ctx, service)
+	// Call the hook before saving the service, so that the listeners can settle
+	// what depends on the accreditation the service had until now
+	err = k.AfterServiceAccreditationModified(ctx, service.ID)
 	if err != nil {
 		return err
 	}
 
-	// Call the hook
-	return k.AfterServiceAccreditationModified(ctx, service.ID)
+	// Update the service accreditation status
+	service.Accredited = accredited
+	return k.SaveService(ctx, service)
 }
 
 // HasService checks if a Service with the given ID exists in the KVStore
diff --git a/x/services/types/hooks.go b/x/services/types/hooks.go
index 33c5069..697cbda 100644
--- a/x/services/types/hooks.go
+++ b/x/services/types/hooks.go
@@ -17,7 +17,7 @@ type ServicesHooks interface {
 	AfterServiceCreated(ctx context.Context, serviceID uint32) error               // Must be called after a service is created
 	AfterServiceActivated(ctx context.Context, serviceID uint32) error             // Must be called after a service is registered
 	AfterServiceDeactivated(ctx context.Context, serviceID uint32) error           // Must be called after a service is deregistered
-	AfterServiceAccreditationModified(ctx context.Context, serviceID uint32) error // Must be called after a service accreditation is changed
+	AfterServiceAccreditationModified(ctx context.Context, serviceID uint32) error // Must be called when a service accreditation is changed, right before it is stored
 	BeforeServiceDeleted(ctx context.Context, serviceID uint32) error              // Must be called before a service is deleted
 }
 
-- 
2.43.0


From 4f9892542b7c0eaa5b02a1520023661822fe4faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 12/32] fix: apply the restakable denoms to services that do
 not restrict them further

---
 x/rewards/keeper/allocation.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 09330e4..1a072a4 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -127,7 +127,7 @@ func (k *Keeper) AllocateRewards(ctx context.Context) error {
 			return false, err
 		}
 
-		var serviceRestakableDenoms []string
+		serviceRestakableDenoms := restakableDenoms
 		if len(restakableDenoms) == 0 {
 			// The global restakable denoms are not set: use the one configured
 			// in the service params
-- 
2.43.0


From 4c12130734ec398ef261839e2bdebd3b3f4fcd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 13/32] fix: take the rewards of a plan only when there is
 someone to allocate them to

---
 x/rewards/keeper/allocation.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 1a072a4..e29e175 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -191,12 +191,6 @@ func (k *Keeper) AllocateRewardsByPlan(
 		return nil
 	}
 
-	// Send the current block's rewards to the global rewards pool.
-	err := k.bankKeeper.SendCoinsFromAccountToModule(ctx, planRewardsPoolAddr, types.RewardsPoolName, rewardsTruncated)
-	if err != nil {
-		return err
-	}
-
 	service, found, err := k.servicesKeeper.GetService(ctx, plan.ServiceID)
 	if err != nil {
 		return err
@@ -247,6 +241,12 @@ func (k *Keeper) AllocateRewardsByPlan(
 		return nil
 	}
 
+	// Send the current block's rewards to the global rewards pool.
+	err = k.bankKeeper.SendCoinsFromAccountToModule(ctx, planRewardsPoolAddr, types.RewardsPoolName, rewardsTruncated)
+	if err != nil {
+		return err
+	}
+
 	// Only sum weights with non-zero delegation values.
 	totalWeightsNonZeroDelValues := uint32(0)
 	if totalPoolsDelValues.IsPositive() {
-- 
2.43.0


From a7598d1ca1a380077aa129a2d6631ebdc909f095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:51 +0000
Subject: [PATCH 14/32] fix: allocate rewards only to the tokens counted in the
 delegations value

---
 x/rewards/keeper/allocation.go | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index e29e175..7877b17 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -25,7 +25,10 @@ import (
 // delegation value.
 type DistributionInfo struct {
 	DelegationTarget DelegationTarget
-	DelegationsValue math.LegacyDec
+	// DelegationsTokens are the delegated tokens that are allowed to be restaked, and
+	// the only ones rewards are allocated to
+	DelegationsTokens sdk.Coins
+	DelegationsValue  math.LegacyDec
 }
 
 // GetLastRewardsAllocationTime returns the last time rewards were allocated.
@@ -295,6 +298,7 @@ func (k *Keeper) AllocateRewardsByPlan(
 			ctx,
 			plan.UsersDistribution,
 			service,
+			tokensDelegatedToService,
 			totalUsersDelValues,
 			usersRewards,
 		)
@@ -415,8 +419,9 @@ func (k *Keeper) getDistrInfos(
 		}
 
 		distrInfos = append(distrInfos, DistributionInfo{
-			DelegationTarget: target,
-			DelegationsValue: delValue,
+			DelegationTarget:  target,
+			DelegationsTokens: targetTokens,
+			DelegationsValue:  delValue,
 		})
 		totalDelValues = totalDelValues.Add(delValue)
 	}
@@ -537,6 +542,7 @@ func (k *Keeper) allocateRewardsToUsers(
 	ctx context.Context,
 	distr types.UsersDistribution,
 	service servicestypes.Service,
+	tokens sdk.Coins,
 	totalDelValues math.LegacyDec,
 	rewards sdk.DecCoins,
 ) error {
@@ -552,8 +558,9 @@ func (k *Keeper) allocateRewardsToUsers(
 			return err
 		}
 		return k.allocateDelegationTargetRewards(ctx, service.ID, DistributionInfo{
-			DelegationTarget: target,
-			DelegationsValue: totalDelValues,
+			DelegationTarget:  target,
+			DelegationsTokens: tokens,
+			DelegationsValue:  totalDelValues,
 		}, rewards)
 	default:
 		panic("unknown operators distribution type")
@@ -564,7 +571,7 @@ func (k *Keeper) allocateRewardsToUsers(
 func (k *Keeper) allocateDelegationTargetRewards(
 	ctx context.Context, serviceID uint32, distrInfo DistributionInfo, rewards sdk.DecCoins,
 ) error {
-	for _, token := range distrInfo.DelegationTarget.GetTokens() {
+	for _, token := range distrInfo.DelegationsTokens {
 		tokenValue, err := k.GetCoinValue(ctx, token)
 		if err != nil {
 			return err
-- 
2.43.0


From c027b81cf6683d6ef7420a14a4b984eb38375540 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:00 +0000
Subject: [PATCH 15/32] fix: refuse to delete services and operators that still
 have delegations

---
 x/restaking/keeper/alias_functions.go | 23 +++++++++++++++++++++++
 x/restaking/keeper/operators_hooks.go | 12 ++++++++++++
 x/restaking/keeper/services_hooks.go  | 12 ++++++++++++
 x/restaking/types/errors.go           |  1 +
 4 files changed, 48 insertions(+)

diff --git a/x/restaking/keeper/alias_functions.go b/x/restaking/keeper/alias_functions.go
index 4c298e3..aa75c6a 100644
--- a/x/restaking/keeper/alias_functions.go
+++ b/x/restaking/keeper/alias_functions.go
@@ -1094,6 +1094,29 @@ func (k *Keeper) GetAllUnbondingDelegations(ctx context.Context) ([]types.Unbond
 	return unbondingDelegations, nil
 }
 
+// ensureNoDelegations returns an error if the target with the given ID has delegations,
+// which are listed under the given prefix, or one of the given unbonding delegations
+func (k *Keeper) ensureNoDelegations(
+	ctx context.Context, targetID uint32, delegationsPrefix []byte, unbondingDelegations []types.UnbondingDelegation,
+) error {
+	store := k.storeService.OpenKVStore(ctx)
+
+	iterator := storetypes.KVStorePrefixIterator(runtime.KVStoreAdapter(store), delegationsPrefix)
+	defer iterator.Close()
+
+	if iterator.Valid() {
+		return errors.Wrapf(types.ErrTargetHasDelegations, "target %d has delegations", targetID)
+	}
+
+	for _, unbondingDelegation := range unbondingDelegations {
+		if unbondingDelegation.TargetID == targetID {
+			return errors.Wrapf(types.ErrTargetHasDelegations, "target %d has unbonding delegations", targetID)
+		}
+	}
+
+	return nil
+}
+
 // GetAllUserUnbondingDelegations returns all the user's unbonding delegations
 func (k *Keeper) GetAllUserUnbondingDelegations(ctx context.Context, userAddress string) []types.UnbondingDelegation {
 	var unbondingDelegations []types.UnbondingDelegation
diff --git a/x/restaking/keeper/operators_hooks.go b/x/restaking/keeper/operators_hooks.go
index 0c3bd91..5c01669 100644
--- a/x/restaking/keeper/operators_hooks.go
+++ b/x/restaking/keeper/operators_hooks.go
@@ -7,6 +7,7 @@ import (
 	"cosmossdk.io/collections"
 
 	operatorstypes "github.com/milkyway-labs/milkyway/v3/x/operators/types"
+	"github.com/milkyway-labs/milkyway/v3/x/restaking/types"
 )
 
 var _ operatorstypes.OperatorsHooks = &OperatorsHooks{}
@@ -23,6 +24,17 @@ func (k *Keeper) OperatorsHooks() operatorstypes.OperatorsHooks {
 
 // BeforeOperatorDeleted implements types.OperatorsHooks.
 func (o *OperatorsHooks) BeforeOperatorDeleted(ctx context.Context, operatorID uint32) error {
+	// Make sure there are no delegations left: without the operator they could
+	// neither be undelegated nor paid back
+	unbondingDelegations, err := o.GetAllOperatorUnbondingDelegations(ctx)
+	if err != nil {
+		return err
+	}
+	err = o.ensureNoDelegations(ctx, operatorID, types.DelegationsByOperatorIDStorePrefix(operatorID), unbondingDelegations)
+	if err != nil {
+		return err
+	}
+
 	// After the operator has been deleted
 	// we remove the data that we keep in the x/restaking module that are linked
 	// to the operator.
diff --git a/x/restaking/keeper/services_hooks.go b/x/restaking/keeper/services_hooks.go
index 54485ae..b55c386 100644
--- a/x/restaking/keeper/services_hooks.go
+++ b/x/restaking/keeper/services_hooks.go
@@ -5,6 +5,7 @@ import (
 
 	"cosmossdk.io/collections"
 
+	"github.com/milkyway-labs/milkyway/v3/x/restaking/types"
 	servicestypes "github.com/milkyway-labs/milkyway/v3/x/services/types"
 )
 
@@ -20,6 +21,17 @@ func (k *Keeper) ServicesHooks() servicestypes.ServicesHooks {
 
 // BeforeServiceDeleted implements types.ServicesHooks.
 func (h *ServicesHooks) BeforeServiceDeleted(ctx context.Context, serviceID uint32) error {
+	// Make sure there are no delegations left: without the service they could
+	// neither be undelegated nor paid back
+	unbondingDelegations, err := h.GetAllServiceUnbondingDelegations(ctx)
+	if err != nil {
+		return err
+	}
+	err = h.ensureNoDelegations(ctx, serviceID, types.DelegationsByServiceIDStorePrefix(serviceID), unbondingDelegations)
+	if err != nil {
+		return err
+	}
+
 	// After the service has been deleted
 	// we remove the data that we keep in the x/restaking
 	// associated to this service.
diff --git a/x/restaking/types/errors.go b/x/restaking/types/errors.go
index ca193d8..7c55480 100644
--- a/x/restaking/types/errors.go
+++ b/x/restaking/types/errors.go
@@ -19,4 +19,5 @@ var (
 	ErrPoolAlreadySecuringService     = errors.Register(ModuleName, 12, "pool already securing the service")
 	ErrPoolNotSecuringService         = errors.Register(ModuleName, 13, "pool not securing the service")
 	ErrDenomNotRestakable             = errors.Register(ModuleName, 14, "denom not restakable")
+	ErrTargetHasDelegations           = errors.Register(ModuleName, 15, "delegation target has delegations")
 )
-- 
2.43.0


From bd976c926efc8fd4d0fdc441265eef0b76d68a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:14 +0000
Subject: [PATCH 16/32] fix: do not fail the begin blocker on the rewards plans
 of deleted services

---
 x/rewards/keeper/allocation.go   |  4 +++-
 x/rewards/keeper/rewards_plan.go | 30 ++++++++++++++++++------------
 2 files changed, 21 insertions(+), 13 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 7877b17..56e8d3b 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -199,8 +199,10 @@ func (k *Keeper) AllocateRewardsByPlan(
 		return err
 	}
 
+	// A service can be deleted while its plans are still there: they allocate
+	// nothing until they are terminated
 	if !found {
-		return servicestypes.ErrServiceNotFound
+		return nil
 	}
 
 	// Ensure that we are distribution rewards only for active services
diff --git a/x/rewards/keeper/rewards_plan.go b/x/rewards/keeper/rewards_plan.go
index 3eda7d4..a9b8a23 100644
--- a/x/rewards/keeper/rewards_plan.go
+++ b/x/rewards/keeper/rewards_plan.go
@@ -122,7 +122,8 @@ func (k *Keeper) GetRewardsPlan(ctx context.Context, planID uint64) (types.Rewar
 }
 
 // terminateRewardsPlan removes a rewards plan and transfers the remaining
-// rewards in the plan's rewards pool to the service's address.
+// rewards in the plan's rewards pool to the service's address, or to the
+// community pool if the service does not exist anymore.
 func (k *Keeper) terminateRewardsPlan(ctx context.Context, plan types.RewardsPlan) error {
 	// Transfer remaining rewards in the plan's rewards pool to the service's
 	// address.
@@ -136,18 +137,23 @@ func (k *Keeper) terminateRewardsPlan(ctx context.Context, plan types.RewardsPla
 		}
 
 		if !found {
-			return servicestypes.ErrServiceNotFound
-		}
-
-		serviceAddr, err := k.accountKeeper.AddressCodec().StringToBytes(service.Address)
-		if err != nil {
-			return err
-		}
+			// The service has been deleted: give the remaining rewards to the
+			// community pool.
+			err = k.communityPoolKeeper.FundCommunityPool(ctx, remaining, rewardsPoolAddr)
+			if err != nil {
+				return err
+			}
+		} else {
+			serviceAddr, err := k.accountKeeper.AddressCodec().StringToBytes(service.Address)
+			if err != nil {
+				return err
+			}
 
-		// Transfer all the remaining rewards to the service's address.
-		err = k.bankKeeper.SendCoins(ctx, rewardsPoolAddr, serviceAddr, remaining)
-		if err != nil {
-			return err
+			// Transfer all the remaining rewards to the service's address.
+			err = k.bankKeeper.SendCoins(ctx, rewardsPoolAddr, serviceAddr, remaining)
+			if err != nil {
+				return err
+			}
 		}
 	}
 
-- 
2.43.0


From 1092d81e3466a4110181ebee21a7f91f699c6eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:38 +0000
Subject: [PATCH 17/32] fix: do not overflow the sum of the weights of a
 rewards plan

---
 x/rewards/keeper/allocation.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/x/rewards/keeper/allocation.go b/x/rewards/keeper/allocation.go
index 56e8d3b..0d4fc68 100644
--- a/x/rewards/keeper/allocation.go
+++ b/x/rewards/keeper/allocation.go
@@ -252,16 +252,17 @@ func (k *Keeper) AllocateRewardsByPlan(
 		return err
 	}
 
-	// Only sum weights with non-zero delegation values.
-	totalWeightsNonZeroDelValues := uint32(0)
+	// Only sum weights with non-zero delegation values. The sum of the weights
+	// can exceed the range of a single weight.
+	totalWeightsNonZeroDelValues := uint64(0)
 	if totalPoolsDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.PoolsDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.PoolsDistribution.Weight)
 	}
 	if totalOperatorsDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.OperatorsDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.OperatorsDistribution.Weight)
 	}
 	if totalUsersDelValues.IsPositive() {
-		totalWeightsNonZeroDelValues += plan.UsersDistribution.Weight
+		totalWeightsNonZeroDelValues += uint64(plan.UsersDistribution.Weight)
 	}
 
 	var poolsRewards, operatorsRewards, usersRewards sdk.DecCoins
-- 
2.43.0


From 836615692c9e0234171a317d1e4517cde0fb8e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:13 +0000
Subject: [PATCH 18/32] fix: value coins of assets with an exponent over 18

---
 x/assets/types/models.go   | 8 ++++++++
 x/rewards/keeper/oracle.go | 3 +--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/x/assets/types/models.go b/x/assets/types/models.go
index a8eb6e6..e748f0e 100644
--- a/x/assets/types/models.go
+++ b/x/assets/types/models.go
@@ -6,6 +6,10 @@ import (
 	sdk "github.com/cosmos/cosmos-sdk/types"
 )
 
+// MaxAssetExponent is the maximum exponent of an asset: 10^MaxAssetExponent is
+// the largest power of 10 that an amount of coins can be divided by.
+const MaxAssetExponent = 77
+
 // NewAsset returns a new Asset instance
 func NewAsset(denom, ticker string, exponent uint32) Asset {
 	return Asset{
@@ -27,5 +31,9 @@ func (asset *Asset) Validate() error {
 		return fmt.Errorf("invalid ticker: %w", err)
 	}
 
+	if asset.Exponent > MaxAssetExponent {
+		return fmt.Errorf("invalid exponent: %d, it must not exceed %d", asset.Exponent, MaxAssetExponent)
+	}
+
 	return nil
 }
diff --git a/x/rewards/keeper/oracle.go b/x/rewards/keeper/oracle.go
index 388a7c6..bb6f900 100644
--- a/x/rewards/keeper/oracle.go
+++ b/x/rewards/keeper/oracle.go
@@ -2,7 +2,6 @@ package keeper
 
 import (
 	"context"
-	stdmath "math"
 
 	"cosmossdk.io/collections"
 	"cosmossdk.io/errors"
@@ -55,7 +54,7 @@ func (k *Keeper) GetCoinValue(ctx context.Context, coin sdk.Coin) (math.LegacyDe
 		return math.LegacyZeroDec(), nil
 	}
 
-	return price.MulInt(coin.Amount).QuoInt64(int64(stdmath.Pow10(int(asset.Exponent)))), nil
+	return price.MulInt(coin.Amount).QuoInt(math.NewIntWithDecimal(1, int(asset.Exponent))), nil
 }
 
 func (k *Keeper) GetCoinsValue(ctx context.Context, coins sdk.Coins) (math.LegacyDec, error) {
-- 
2.43.0


From e7751388b2f835bde0657caaade9dfa16008bf1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:48 +0000
Subject: [PATCH 19/32] fix: price assets whose market has more than 18
 decimals

---
 x/rewards/keeper/oracle.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/x/rewards/keeper/oracle.go b/x/rewards/keeper/oracle.go
index bb6f900..ae7e5e3 100644
--- a/x/rewards/keeper/oracle.go
+++ b/x/rewards/keeper/oracle.go
@@ -40,8 +40,14 @@ func (k *Keeper) GetAssetAndPrice(ctx context.Context, denom string) (assetstype
 	}
 
 	// Divide returned quote price by 10^{decimals} gives us the real price in
-	// decimal number.
-	return asset, math.LegacyNewDecFromIntWithPrec(qpn.Price, int64(decimals)), nil
+	// decimal number. Decimals that don't fit in the precision of a decimal
+	// number are truncated.
+	price := qpn.Price
+	if decimals > math.LegacyPrecision {
+		price = price.Quo(math.NewIntWithDecimal(1, int(decimals)-math.LegacyPrecision))
+		decimals = math.LegacyPrecision
+	}
+	return asset, math.LegacyNewDecFromIntWithPrec(price, int64(decimals)), nil
 }
 
 func (k *Keeper) GetCoinValue(ctx context.Context, coin sdk.Coin) (math.LegacyDec, error) {
-- 
2.43.0


From ccc7b9dafa1991f5442171fdb2461e6638c890fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:31:56 +0000
Subject: [PATCH 20/32] fix: burn restaked locked tokens also of users with
 delegations to other pools

---
 x/restaking/keeper/alias_functions.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x/restaking/keeper/alias_functions.go b/x/restaking/keeper/alias_functions.go
index aa75c6a..1334c7e 100644
--- a/x/restaking/keeper/alias_functions.go
+++ b/x/restaking/keeper/alias_functions.go
@@ -860,9 +860,14 @@ func (k *Keeper) UnbondRestakedAssets(ctx context.Context, user sdk.AccAddress,
 			return false, nil
 		}
 
+		// Consider only the tokens that have been restaked with this delegation,
+		// since a pool returns an error when it receives any other denom
+		delegatedTokens := target.TokensFromShares(delegation.Shares)
+		involvedTokens := utils.FilterDecCoinsByDenom(toUndelegateTokens, delegatedTokens)
+
 		// Compute the shares that this delegation should have to undelegate
 		// all the remaining tokens
-		involvedShares, err := target.SharesFromDecCoins(toUndelegateTokens)
+		involvedShares, err := target.SharesFromDecCoins(involvedTokens)
 		if err != nil {
 			return true, err
 		}
-- 
2.43.0


From 8d2ce34b7736148ba06b5aa82fe570fd41893a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:41 +0000
Subject: [PATCH 21/32] fix: credit the insurance deposits made with returning
 coins in the received denom

---
 x/liquidvesting/keeper/ibc.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/x/liquidvesting/keeper/ibc.go b/x/liquidvesting/keeper/ibc.go
index 3769463..1b724c5 100644
--- a/x/liquidvesting/keeper/ibc.go
+++ b/x/liquidvesting/keeper/ibc.go
@@ -63,18 +63,15 @@ func (k *Keeper) OnRecvPacket(
 		return fmt.Errorf("amount received is not equal to the amounts to deposit in the users' insurance fund")
 	}
 
+	// Get the denom that the received coins have on this chain
+	receivedDenom := getReceivedDenom(packet, data)
+
 	// Deposit the amounts into the users' insurance fund
 	for _, deposit := range msgDepositInsurance.Amounts {
-		// Convert the coin denom to its IBC representation
-		sourcePrefix := transfertypes.GetDenomPrefix(packet.GetDestPort(), packet.GetDestChannel())
-		// NOTE: sourcePrefix contains the trailing "/"
-		prefixedDenom := sourcePrefix + data.Denom
-		// construct the denomination trace from the full raw denomination
-		denomTrace := transfertypes.ParseDenomTrace(prefixedDenom)
-		// Convert the insurance deposit to its IBC representation
-		ibcCoin := sdk.NewCoin(denomTrace.IBCDenom(), deposit.Amount)
-
-		err = k.AddToUserInsuranceFund(ctx, deposit.Depositor, sdk.NewCoins(ibcCoin))
+		// Convert the insurance deposit to the coin received by this chain
+		depositCoin := sdk.NewCoin(receivedDenom, deposit.Amount)
+
+		err = k.AddToUserInsuranceFund(ctx, deposit.Depositor, sdk.NewCoins(depositCoin))
 		if err != nil {
 			return err
 		}
@@ -90,3 +87,20 @@ func (k *Keeper) OnRecvPacket(
 
 	return nil
 }
+
+// getReceivedDenom returns the denom that the coins transferred with the provided
+// packet have on this chain.
+func getReceivedDenom(packet channeltypes.Packet, data transfertypes.FungibleTokenPacketData) string {
+	if transfertypes.ReceiverChainIsSource(packet.GetSourcePort(), packet.GetSourceChannel(), data.Denom) {
+		// The coins were sent from this chain and are now returning: remove the prefix
+		// added by the sender chain, the coins will be taken out of the escrow account
+		voucherPrefix := transfertypes.GetDenomPrefix(packet.GetSourcePort(), packet.GetSourceChannel())
+		// NOTE: IBCDenom returns the base denom if the path of the trace is empty
+		return transfertypes.ParseDenomTrace(data.Denom[len(voucherPrefix):]).IBCDenom()
+	}
+
+	// The coins come from another chain, get the denom of their IBC representation
+	// NOTE: sourcePrefix contains the trailing "/"
+	sourcePrefix := transfertypes.GetDenomPrefix(packet.GetDestPort(), packet.GetDestChannel())
+	return transfertypes.ParseDenomTrace(sourcePrefix + data.Denom).IBCDenom()
+}
-- 
2.43.0


From 7b76129377890c2e038e1c241e919ba306dc6308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:59 +0000
Subject: [PATCH 22/32] fix: accept in the genesis more coins than the
 insurance funds in the liquid vesting module

---
 x/liquidvesting/keeper/genesis.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x/liquidvesting/keeper/genesis.go b/x/liquidvesting/keeper/genesis.go
index cc39266..9a9441c 100644
--- a/x/liquidvesting/keeper/genesis.go
+++ b/x/liquidvesting/keeper/genesis.go
@@ -72,13 +72,14 @@ func (k *Keeper) InitGenesis(ctx sdk.Context, state *types.GenesisState) error {
 		}
 	}
 
-	// Ensure that the balance of the liquid vesting module is equal to the
-	// sum of the users' insurance fund
+	// Ensure that the balance of the liquid vesting module covers the sum of the
+	// users' insurance fund. The balance can be higher, since anyone can send coins
+	// to the module
 	coins, err := k.GetInsuranceFundBalance(ctx)
 	if err != nil {
 		return err
 	}
-	if !coins.Equal(totalCoins) {
+	if !coins.IsAllGTE(totalCoins) {
 		return fmt.Errorf("the liquid vesting module doesn't have the coins specified in the users' insurance fund")
 	}
 
-- 
2.43.0


From a8418fb93749948104c7d3d0c9868ef5a11ca476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:21 +0000
Subject: [PATCH 23/32] fix: delete the operator params together with the
 operator

---
 x/operators/keeper/operators.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x/operators/keeper/operators.go b/x/operators/keeper/operators.go
index 16adc5d..ea9f570 100644
--- a/x/operators/keeper/operators.go
+++ b/x/operators/keeper/operators.go
@@ -136,6 +136,12 @@ func (k *Keeper) DeleteOperator(ctx context.Context, operator types.Operator) er
 		return err
 	}
 
+	// Delete the params, which could have been set again after the inactivation
+	err = k.DeleteOperatorParams(ctx, operator.ID)
+	if err != nil {
+		return err
+	}
+
 	return k.operatorAddressSet.Remove(ctx, operator.Address)
 }
 
-- 
2.43.0


From 308195f02c69bed06425673b703f67e69c26262f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:15 +0000
Subject: [PATCH 24/32] fix: report the failure to unpack a reward distribution

---
 x/rewards/types/messages.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/x/rewards/types/messages.go b/x/rewards/types/messages.go
index 3179796..f1d4caf 100644
--- a/x/rewards/types/messages.go
+++ b/x/rewards/types/messages.go
@@ -100,17 +100,17 @@ func (m *MsgCreateRewardsPlan) GetSigners() []sdk.AccAddress {
 func (m *MsgCreateRewardsPlan) UnpackInterfaces(unpacker codectypes.AnyUnpacker) error {
 	err := m.PoolsDistribution.UnpackInterfaces(unpacker)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	err = m.OperatorsDistribution.UnpackInterfaces(unpacker)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	err = m.UsersDistribution.UnpackInterfaces(unpacker)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	return nil
@@ -200,17 +200,17 @@ func (m *MsgEditRewardsPlan) GetSigners() []sdk.AccAddress {
 func (m *MsgEditRewardsPlan) UnpackInterfaces(unpacker codectypes.AnyUnpacker) error {
 	err := m.PoolsDistribution.UnpackInterfaces(unpacker)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	err = m.OperatorsDistribution.UnpackInterfaces(unpacker)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	err = m.UsersDistribution.UnpackInterfaces(unpacker)
 	if err != nil {
-		return nil
+		return err
 	}
 
 	return nil
-- 
2.43.0


From f8e1a094bd14f89636ce15bedf7eeb7c8beb41fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:15 +0000
Subject: [PATCH 25/32] fix: report the failure to collect the assets when
 exporting the genesis

---
 x/assets/keeper/genesis.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/x/assets/keeper/genesis.go b/x/assets/keeper/genesis.go
index 51129ee..7e72194 100644
--- a/x/assets/keeper/genesis.go
+++ b/x/assets/keeper/genesis.go
@@ -10,10 +10,13 @@ import (
 func (k *Keeper) ExportGenesis(ctx sdk.Context) (*types.GenesisState, error) {
 	// Get all the assets
 	var assets []types.Asset
-	_ = k.Assets.Walk(ctx, nil, func(_ string, asset types.Asset) (stop bool, err error) {
+	err := k.Assets.Walk(ctx, nil, func(_ string, asset types.Asset) (stop bool, err error) {
 		assets = append(assets, asset)
 		return false, nil
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	return types.NewGenesisState(assets), nil
 }
-- 
2.43.0


From 9bb2a6bbbfe2c87df43d2bc7383fae3fb0191b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:22 +0000
Subject: [PATCH 26/32] fix: reject negative restaking unbonding times

---
 x/restaking/types/params.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/restaking/types/params.go b/x/restaking/types/params.go
index f85eaab..4e79399 100644
--- a/x/restaking/types/params.go
+++ b/x/restaking/types/params.go
@@ -24,7 +24,7 @@ func DefaultParams() Params {
 
 // Validate performs basic validation of params
 func (p *Params) Validate() error {
-	if p.UnbondingTime == 0 {
+	if p.UnbondingTime <= 0 {
 		return fmt.Errorf("invalid unbonding time: %s", p.UnbondingTime)
 	}
 
-- 
2.43.0


From 27cda8282a086ee3a5ac687c29ddc95d01042756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:19 +0000
Subject: [PATCH 27/32] fix: query the operators of a service with the
 arguments in order

---
 x/restaking/keeper/grpc_query.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x/restaking/keeper/grpc_query.go b/x/restaking/keeper/grpc_query.go
index 7c63b28..06dfd1c 100644
--- a/x/restaking/keeper/grpc_query.go
+++ b/x/restaking/keeper/grpc_query.go
@@ -140,7 +140,7 @@ func (k Querier) ServiceOperators(ctx context.Context, req *types.QueryServiceOp
 			// Here is k2 the operator id since the Service index provides association
 			// between a service and the operator securing it
 			operatorID := key.K2()
-			return k.CanOperatorValidateService(ctx, operatorID, req.ServiceId)
+			return k.CanOperatorValidateService(ctx, req.ServiceId, operatorID)
 		},
 		func(key collections.Pair[uint32, uint32], _ collections.NoValue) (operatorstypes.Operator, error) {
 			// Here is k2 the operator id since the Service index provides association
-- 
2.43.0


From dc4abcc3343eca23a318f8cafc714ffd4225d85b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:46 +0000
Subject: [PATCH 28/32] fix: filter the unbonding delegations queried for a
 target

---
 x/restaking/keeper/grpc_query.go | 54 +++++++++++++++++++-------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/x/restaking/keeper/grpc_query.go b/x/restaking/keeper/grpc_query.go
index 06dfd1c..6000ca2 100644
--- a/x/restaking/keeper/grpc_query.go
+++ b/x/restaking/keeper/grpc_query.go
@@ -253,19 +253,23 @@ func (k Querier) PoolUnbondingDelegations(ctx context.Context, req *types.QueryP
 	delegationsStore := prefix.NewStore(runtime.KVStoreAdapter(store), types.PoolUnbondingDelegationPrefix)
 
 	// Query the pool unbonding delegations for the given pool id
-	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
-		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
-		if err != nil {
-			return err
+	unbonds, pageRes, err := query.GenericFilteredPaginate(k.cdc, delegationsStore, req.Pagination, func(key []byte, unbond *types.UnbondingDelegation) (*types.UnbondingDelegation, error) {
+		if unbond.TargetID != req.PoolId {
+			return nil, nil
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		return unbond, nil
+	}, func() *types.UnbondingDelegation {
+		return &types.UnbondingDelegation{}
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
 	}
 
+	unbondingDelegations := make([]types.UnbondingDelegation, len(unbonds))
+	for i, unbond := range unbonds {
+		unbondingDelegations[i] = *unbond
+	}
+
 	return &types.QueryPoolUnbondingDelegationsResponse{
 		UnbondingDelegations: unbondingDelegations,
 		Pagination:           pageRes,
@@ -392,19 +396,23 @@ func (k Querier) OperatorUnbondingDelegations(ctx context.Context, req *types.Qu
 	delegationsStore := prefix.NewStore(runtime.KVStoreAdapter(store), types.OperatorUnbondingDelegationPrefix)
 
 	// Query the operator unbonding delegations for the given pool id
-	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
-		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
-		if err != nil {
-			return err
+	unbonds, pageRes, err := query.GenericFilteredPaginate(k.cdc, delegationsStore, req.Pagination, func(key []byte, unbond *types.UnbondingDelegation) (*types.UnbondingDelegation, error) {
+		if unbond.TargetID != req.OperatorId {
+			return nil, nil
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		return unbond, nil
+	}, func() *types.UnbondingDelegation {
+		return &types.UnbondingDelegation{}
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
 	}
 
+	unbondingDelegations := make([]types.UnbondingDelegation, len(unbonds))
+	for i, unbond := range unbonds {
+		unbondingDelegations[i] = *unbond
+	}
+
 	return &types.QueryOperatorUnbondingDelegationsResponse{
 		UnbondingDelegations: unbondingDelegations,
 		Pagination:           pageRes,
@@ -531,19 +539,23 @@ func (k Querier) ServiceUnbondingDelegations(ctx context.Context, req *types.Que
 	delegationsStore := prefix.NewStore(runtime.KVStoreAdapter(store), types.ServiceUnbondingDelegationPrefix)
 
 	// Query the service unbonding delegations for the given pool id
-	var unbondingDelegations []types.UnbondingDelegation
-	pageRes, err := query.Paginate(delegationsStore, req.Pagination, func(key []byte, value []byte) error {
-		unbond, err := types.UnmarshalUnbondingDelegation(k.cdc, value)
-		if err != nil {
-			return err
+	unbonds, pageRes, err := query.GenericFilteredPaginate(k.cdc, delegationsStore, req.Pagination, func(key []byte, unbond *types.UnbondingDelegation) (*types.UnbondingDelegation, error) {
+		if unbond.TargetID != req.ServiceId {
+			return nil, nil
 		}
-		unbondingDelegations = append(unbondingDelegations, unbond)
-		return nil
+		return unbond, nil
+	}, func() *types.UnbondingDelegation {
+		return &types.UnbondingDelegation{}
 	})
 	if err != nil {
 		return nil, status.Error(codes.Internal, err.Error())
 	}
 
+	unbondingDelegations := make([]types.UnbondingDelegation, len(unbonds))
+	for i, unbond := range unbonds {
+		unbondingDelegations[i] = *unbond
+	}
+
 	return &types.QueryServiceUnbondingDelegationsResponse{
 		UnbondingDelegations: unbondingDelegations,
 		Pagination:           pageRes,
-- 
2.43.0


From f7b154e2a10c0d6a698eea67554fe198fb8617f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:38 +0000
Subject: [PATCH 29/32] fix: forget the old ticker of an asset that is
 registered again

SetAsset kept the ticker index entry of the asset it replaced, so the asset was
still listed under its former ticker.
---
 x/assets/keeper/assets.go | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/x/assets/keeper/assets.go b/x/assets/keeper/assets.go
index c6e0afa..57f01dd 100644
--- a/x/assets/keeper/assets.go
+++ b/x/assets/keeper/assets.go
@@ -2,14 +2,26 @@ package keeper
 
 import (
 	"context"
+	"errors"
 
 	"cosmossdk.io/collections"
 
 	"github.com/milkyway-labs/milkyway/v3/x/assets/types"
 )
 
-// SetAsset stores an asset in the store
+// SetAsset stores an asset in the store, replacing the one that has the same denom (if any)
 func (k *Keeper) SetAsset(ctx context.Context, asset types.Asset) error {
+	// Make sure the replaced asset is not found through its old ticker anymore
+	replaced, err := k.GetAsset(ctx, asset.Denom)
+	if err != nil && !errors.Is(err, collections.ErrNotFound) {
+		return err
+	}
+	if err == nil {
+		if err := k.TickerIndexes.Remove(ctx, collections.Join(replaced.Ticker, replaced.Denom)); err != nil {
+			return err
+		}
+	}
+
 	if err := k.Assets.Set(ctx, asset.Denom, asset); err != nil {
 		return err
 	}
-- 
2.43.0


From 641ca98cb93a67f329116f5c38e777efb82f0a12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:25 +0000
Subject: [PATCH 30/32] fix: check the stake of weighted votes

A weighted vote is a vote as well, but the decorator only looked at the plain
ones, so anybody could vote without the minimum stake.
---
 ante/gov_vote_ante.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ante/gov_vote_ante.go b/ante/gov_vote_ante.go
index 0da4081..ac4755c 100644
--- a/ante/gov_vote_ante.go
+++ b/ante/gov_vote_ante.go
@@ -72,6 +72,16 @@ func (g GovVoteDecorator) ValidateVoteMsgs(ctx sdk.Context, msgs []sdk.Msg) erro
 			if err != nil {
 				return err
 			}
+		case *govv1beta1.MsgVoteWeighted:
+			accAddr, err = sdk.AccAddressFromBech32(msg.Voter)
+			if err != nil {
+				return err
+			}
+		case *govv1.MsgVoteWeighted:
+			accAddr, err = sdk.AccAddressFromBech32(msg.Voter)
+			if err != nil {
+				return err
+			}
 		default:
 			// not a vote message - nothing to validate
 			return nil
-- 
2.43.0


From 13f3acf6c22bdce5e29425179e27df091ca53992 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:36 +0000
Subject: [PATCH 31/32] fix: check the votes of nested authz executions

Votes wrapped in two authz executions were not checked.
---
 ante/gov_vote_ante.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ante/gov_vote_ante.go b/ante/gov_vote_ante.go
index ac4755c..6fb4e39 100644
--- a/ante/gov_vote_ante.go
+++ b/ante/gov_vote_ante.go
@@ -130,7 +130,8 @@ func (g GovVoteDecorator) ValidateVoteMsgs(ctx sdk.Context, msgs []sdk.Msg) erro
 			if err := g.cdc.UnpackAny(v, &innerMsg); err != nil {
 				return errorsmod.Wrap(milkywayerrors.ErrUnauthorized, "cannot unmarshal authz exec msgs")
 			}
-			if err := validMsg(innerMsg); err != nil {
+			// The executed message can be a vote, or execute other messages in turn
+			if err := g.ValidateVoteMsgs(ctx, []sdk.Msg{innerMsg}); err != nil {
 				return err
 			}
 		}
-- 
2.43.0


From e6f582ad42f45e84e5e1244de0a6727864bd221e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:36 +0000
Subject: [PATCH 32/32] fix: check the expedited proposals submitted through
 authz

An expedited proposal wrapped in an authz execution bypassed the whitelist.
---
 ante/gov_expedited_ante.go | 41 +++++++++++++++++++++++++++++---------
 1 file changed, 32 insertions(+), 9 deletions(-)

diff --git a/ante/gov_expedited_ante.go b/ante/gov_expedited_ante.go
index b6282aa..182bc6b 100644
--- a/ante/gov_expedited_ante.go
+++ b/ante/gov_expedited_ante.go
@@ -5,6 +5,7 @@ import (
 
 	"github.com/cosmos/cosmos-sdk/codec"
 	sdk "github.com/cosmos/cosmos-sdk/types"
+	"github.com/cosmos/cosmos-sdk/x/authz"
 	govv1 "github.com/cosmos/cosmos-sdk/x/gov/types/v1"
 
 	milkywayerrors "github.com/milkyway-labs/milkyway/v3/types/errors"
@@ -39,19 +40,41 @@ func NewGovExpeditedProposalsDecorator(cdc codec.BinaryCodec) GovExpeditedPropos
 // Legacy proposals submitted using "milkywayd tx gov submit-legacy-proposal" cannot be marked as expedited.
 func (g GovExpeditedProposalsDecorator) AnteHandle(ctx sdk.Context, tx sdk.Tx, simulate bool, next sdk.AnteHandler) (newCtx sdk.Context, err error) {
 	if expeditedPropDecoratorEnabled {
-		for _, msg := range tx.GetMsgs() {
-			prop, ok := msg.(*govv1.MsgSubmitProposal)
-			if !ok {
-				continue
-			}
-			if prop.Expedited {
-				if err := g.validateExpeditedGovProp(prop); err != nil {
-					return ctx, err
+		if err := g.ValidateExpeditedMsgs(tx.GetMsgs()); err != nil {
+			return ctx, err
+		}
+	}
+	return next(ctx, tx, simulate)
+}
+
+// ValidateExpeditedMsgs checks every expedited proposal that is submitted by the messages,
+// either directly or through an authz execution.
+func (g GovExpeditedProposalsDecorator) ValidateExpeditedMsgs(msgs []sdk.Msg) error {
+	for _, msg := range msgs {
+		if execMsg, ok := msg.(*authz.MsgExec); ok {
+			for _, v := range execMsg.Msgs {
+				var innerMsg sdk.Msg
+				if err := g.cdc.UnpackAny(v, &innerMsg); err != nil {
+					return errorsmod.Wrap(milkywayerrors.ErrUnauthorized, "cannot unmarshal authz exec msgs")
+				}
+				if err := g.ValidateExpeditedMsgs([]sdk.Msg{innerMsg}); err != nil {
+					return err
 				}
 			}
+			continue
+		}
+
+		prop, ok := msg.(*govv1.MsgSubmitProposal)
+		if !ok {
+			continue
+		}
+		if prop.Expedited {
+			if err := g.validateExpeditedGovProp(prop); err != nil {
+				return err
+			}
 		}
 	}
-	return next(ctx, tx, simulate)
+	return nil
 }
 
 func (g GovExpeditedProposalsDecorator) isWhitelisted(msgType string) bool {
-- 
2.43.0

