#!/bin/bash
# usage: d.sh mode fn...
m=$1; shift
for f in "$@"; do echo "== $f"; /tmp/chk dump $f $m 2>&1 | grep -v '^[0-9.]*s [0-9]' | sed 's#services/keeper.Keeper#SK#g; s#services/types#ST#g;s#operators/keeper.Keeper#OK#g; s#operators/types#OT#g;s#restaking/keeper.Keeper#RK#g; s#restaking/types#RT#g;s#rewards/keeper.Keeper#WK#g; s#rewards/types#WT#g;s#pools/keeper.Keeper#PK#g; s#pools/types#PT#g;s#liquidvesting/keeper.Keeper#LK#g;s#liquidvesting/types#LT#g;s#collections\.#c.#g' | head -c ${N:-3500}; done
