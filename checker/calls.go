package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// calleeName resolves a call to a canonical name and, when it is known, to
// the function that runs.
func (e *Engine) calleeName(i *Inst, com *ssa.CallCommon) (string, *ssa.Function) {
	if com.IsInvoke() {
		recv := com.Value.Type()
		n := namedOf(recv)
		m := com.Method
		if n != nil {
			if f := e.resolveInvoke(n, m); f != nil {
				return e.fnName(f), f
			}
			if i != nil && repoIface(recv) {
				t := i.T(com.Value)
				if t.Op == "addr" && t.cell != nil {
					t = i.loadAny(t)
				}
				if d := dynType(t); d != nil {
					if f := e.prog.LookupMethod(d, m.Pkg(), m.Name()); f != nil {
						return e.fnName(f), f
					}
				}
			}
			name := n.Obj().Name()
			if strings.HasSuffix(name, "Keeper") || n.Obj().Pkg() == nil {
				return name + "." + m.Name(), nil
			}
			return shortPkg(n.Obj().Pkg().Path()) + "." + name + "." + m.Name(), nil
		}
		return "iface." + m.Name(), nil
	}
	switch v := com.Value.(type) {
	case *ssa.Builtin:
		return "builtin." + v.Name(), nil
	case *ssa.Function:
		n := e.fnName(v)
		return normKeeper(n), v
	case *ssa.MakeClosure:
		f := v.Fn.(*ssa.Function)
		return e.fnName(f), f
	}
	if i != nil {
		t := i.T(com.Value)
		switch t.Op {
		case "closure", "func":
			f := t.fn.(*ssa.Function)
			return e.fnName(f), f
		}
		return "dyn." + t.str(3), nil
	}
	return "dyn", nil
}

// concrete SDK keepers called directly are named like the interfaces.
func normKeeper(n string) string { return n }

func (e *Engine) resolveInvoke(n *types.Named, m *types.Func) *ssa.Function {
	if n.Obj().Pkg() == nil || !inRepo(n.Obj().Pkg()) {
		return nil
	}
	k := n.Obj().Pkg().Path() + "." + n.Obj().Name() + "." + m.Name()
	if f, ok := e.resolved[k]; ok {
		return f
	}
	e.resolved[k] = nil
	mod := ""
	if strings.HasSuffix(n.Obj().Name(), "Keeper") {
		mod = e.ifaceModule(n)
	}
	if mod == "" {
		return nil
	}
	pt := types.NewPointer(e.keepers[mod])
	f := e.prog.LookupMethod(pt, m.Pkg(), m.Name())
	e.resolved[k] = f
	return f
}

func (i *Inst) call(c ssa.CallInstruction) *callInfo {
	if ci, ok := i.callMemo[c]; ok {
		return ci
	}
	if ci, ok := i.provCall[c]; ok {
		return ci
	}
	if i.callBusy == nil {
		i.callBusy = map[ssa.CallInstruction]int{}
	}
	if i.callBusy[c] > 2 {
		if v, ok := c.(*ssa.Call); ok {
			i.pending[v] = true
		}
		return &callInfo{term: tRec}
	}
	i.callBusy[c]++
	i.memActive++
	saved := i.pending
	i.pending = map[ssa.Value]bool{}
	ci := i.call0(c)
	keep := len(i.pending) == 0
	if !keep {
		keep = true
		for x := range i.pending {
			al, _ := x.(*ssa.Alloc)
			if i.prog[x] > 0 || al != nil && i.busyAlloc[al] > 0 {
				keep = false
				saved[x] = true
			}
		}
	}
	i.pending = saved
	i.memActive--
	i.callBusy[c]--
	if keep {
		i.callMemo[c] = ci
	} else {
		if i.provCall == nil {
			i.provCall = map[ssa.CallInstruction]*callInfo{}
		}
		i.provCall[c] = ci
	}
	i.settle()
	return ci
}

func (i *Inst) call0(c ssa.CallInstruction) *callInfo {
	ci := &callInfo{term: tRec}
	com := c.Common()
	name, fn := i.e.calleeName(i, com)
	ci.name, ci.fn = name, fn
	if strings.HasPrefix(name, "builtin.") {
		ci.builtin = strings.TrimPrefix(name, "builtin.")
	}
	var all []*Term
	var snap map[int]*Term
	if com.IsInvoke() {
		all = append(all, i.T(com.Value))
	}
	for n, a := range com.Args {
		t := i.T(a)
		if t.Op == "addr" && t.cell != nil {
			p := n
			if com.IsInvoke() {
				p++
			}
			if fn == nil || !i.e.analyzable(fn) || !i.e.mutates(fn, p, 0) {
				t = i.load(t, c)
			} else if t.cell.inst == i || i.snap[t.cell.id] != nil {
				if snap == nil {
					snap = map[int]*Term{}
				}
				snap[t.cell.id] = i.contentAt(t.cell, c)
			}
		}
		all = append(all, t)
	}
	var free []*Term
	if fn != nil && !com.IsInvoke() {
		t := (*Term)(nil)
		if _, isFn := com.Value.(*ssa.Function); !isFn {
			t = i.T(com.Value)
		}
		if t != nil && t.Op == "closure" {
			free = t.Args
		}
	}
	for _, a := range all {
		if a.Op == "K" || a == tCtx {
			continue
		}
		if a.Op == "addr" && a.cell != nil {
			a = i.load(a, c)
		}
		ci.args = append(ci.args, a)
	}
	if strings.HasPrefix(name, "dyn.") {
		// a function value: app(function, arguments)
		name = "app"
		ci.name = name
		ci.args = append([]*Term{i.T(com.Value)}, ci.args...)
	}
	ci.term = mk("call", name, ci.args...)
	if _, isGo := c.(*ssa.Go); isGo {
		return ci
	}
	if fn != nil && i.e.analyzable(fn) {
		params := all
		if len(params) > len(fn.Params) {
			params = params[:len(fn.Params)]
		}
		ci.sub = i.e.Analyze(fn, params, free, snap)
		if ci.sub != nil {
			if mc := closureOf(com.Value); mc != nil {
				i.closureStores[closureCall{mc, c}] = []*Inst{ci.sub}
			}
		}
	}
	if fn == nil || !i.e.analyzable(fn) {
		// a list of all that an iterator yields
		if strings.HasSuffix(name, ".Iterator.Values") || strings.HasSuffix(name, "Iterator.Keys") {
			if len(all) > 0 && all[0].Op == "call" && strings.HasSuffix(all[0].S, ".Iterate") {
				ci.walked = all[0]
			}
		}
		// callbacks handed to external code
		for n, a := range com.Args {
			t := i.T(a)
			if t.Op != "closure" && t.Op != "func" {
				continue
			}
			f := t.fn.(*ssa.Function)
			if !i.e.analyzable(f) {
				continue
			}
			var recvT *Term
			if len(all) > 0 {
				recvT = all[0]
				if recvT.Op == "addr" && recvT.cell != nil {
					recvT = i.load(recvT, c)
				}
			} else {
				recvT = mk("unknown", name)
			}
			walked, keys := walkedOver(name, recvT, all)
			if walked != nil {
				recvT = walked
			}
			var ps []*Term
			np := 0
			nonctx := 0
			for _, p := range f.Params {
				if !isCtx(p.Type()) && i.e.keeperName(p.Type()) == "" {
					nonctx++
				}
			}
			for _, p := range f.Params {
				if isCtx(p.Type()) {
					ps = append(ps, tCtx)
					continue
				}
				if kn := i.e.keeperName(p.Type()); kn != "" {
					ps = append(ps, mk("K", kn))
					continue
				}
				switch {
				case nonctx == 2 && np == 0, keys:
					ps = append(ps, mkKey(recvT))
				case nonctx <= 2:
					ps = append(ps, mkElem(recvT))
				default:
					ps = append(ps, mk("cbparam", mkConst(name).S, recvT))
				}
				np++
			}
			var fr []*Term
			if t.Op == "closure" {
				fr = t.Args
			}
			sub := i.e.Analyze(f, ps, fr, nil)
			if sub != nil {
				ci.cbs = append(ci.cbs, sub)
				ci.walked = walked
				if mc := closureOf(com.Args[n]); mc != nil {
					i.closureStores[closureCall{mc, c}] = []*Inst{sub}
				}
			}
		}
	} else {
		// closures given to analysed repo functions: remember their instance
		// for stores to captured variables
		for _, a := range com.Args {
			if mc := closureOf(a); mc != nil {
				if s := findClosureInsts(ci.sub, mc.Fn.(*ssa.Function), 0); len(s) > 0 {
					i.closureStores[closureCall{mc, c}] = s
				}
			}
		}
	}
	ci.term = i.normCall(ci, com)
	return ci
}

// closureCall: a closure together with a call that receives it.
type closureCall struct {
	mc   *ssa.MakeClosure
	call ssa.CallInstruction
}

func closureOf(v ssa.Value) *ssa.MakeClosure {
	for {
		switch x := v.(type) {
		case *ssa.MakeClosure:
			return x
		case *ssa.ChangeType:
			v = x.X
		default:
			return nil
		}
	}
}

// findClosureInsts: the instances of the closure f under in, in program order.
func findClosureInsts(in *Inst, f *ssa.Function, d int) []*Inst {
	if in == nil || d > 3 {
		return nil
	}
	var out []*Inst
	var subs []*Inst
	add := func(s *Inst) {
		for _, o := range out {
			if o == s {
				return
			}
		}
		out = append(out, s)
	}
	for _, b := range in.fn.Blocks {
		for _, ins := range b.Instrs {
			c, ok := ins.(ssa.CallInstruction)
			if !ok {
				continue
			}
			ci := in.callMemo[c]
			if ci == nil {
				continue
			}
			if ci.sub != nil && ci.sub.fn == f {
				add(ci.sub)
			} else if ci.sub != nil {
				subs = append(subs, ci.sub)
			}
			for _, x := range ci.cbs {
				if x.fn == f {
					add(x)
				} else {
					subs = append(subs, x)
				}
			}
		}
	}
	if len(out) > 0 {
		return out
	}
	for _, s := range subs {
		for _, r := range findClosureInsts(s, f, d+1) {
			add(r)
		}
	}
	return out
}

func (e *Engine) analyzable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	n := e.fnName(fn)
	if e.noInline[n] {
		return false
	}
	if fn.Pkg != nil && !inRepo(fn.Pkg.Pkg) {
		return false
	}
	if fn.Pkg == nil {
		// synthetic wrapper / instantiation
		if o := fn.Origin(); o != nil && o.Pkg != nil && !inRepo(o.Pkg.Pkg) {
			return false
		}
	}
	if fn.Prog != nil && fn.Pos().IsValid() {
		p := fn.Prog.Fset.Position(fn.Pos()).Filename
		if strings.HasSuffix(p, ".pb.go") || strings.HasSuffix(p, ".pb.gw.go") {
			return false
		}
	}
	return true
}

var bech32Names = map[string]bool{
	"sdk.AccAddressFromBech32": true, "sdk.MustAccAddressFromBech32": true,
	"address.Codec.StringToBytes": true,
}
var addrStrNames = map[string]bool{
	"sdk.AccAddress.String": true, "address.Codec.BytesToString": true,
}

func (i *Inst) normCall(ci *callInfo, com *ssa.CallCommon) *Term {
	a := ci.args
	n := ci.name
	if ci.builtin != "" {
		switch ci.builtin {
		case "len":
			return mk("len", "", a...)
		case "append":
			return mk("append", "", a...)
		}
		return mk("call", n, a...)
	}
	if bech32Names[n] && len(a) >= 1 {
		x := a[len(a)-1]
		if x.Op == "call" && x.S == "str" {
			return x.Args[0]
		}
		return mk("call", "bech32", x)
	}
	if addrStrNames[n] && len(a) >= 1 {
		x := a[len(a)-1]
		if x.Op == "call" && x.S == "bech32" {
			return x.Args[0]
		}
		return mk("call", "str", x)
	}
	if k := strings.LastIndex(n, "."); k >= 0 {
		base, m := n[:k], n[k+1:]
		switch base {
		case "math.Int", "math.LegacyDec", "math.Uint", "time.Time", "sdk.AccAddress":
			if len(a) == 2 {
				switch m {
				case "Equal", "Equals", "EQ":
					return mkEq(a[0], a[1])
				case "GT", "After":
					return mkLt(a[1], a[0])
				case "LT", "Before":
					return mkLt(a[0], a[1])
				case "GTE":
					return mkNot(mkLt(a[0], a[1]))
				case "LTE":
					return mkNot(mkLt(a[1], a[0]))
				}
			}
			if len(a) == 1 {
				switch m {
				case "IsZero":
					return mkEq(a[0], mkConst("0"))
				case "IsPositive":
					return mkLt(mkConst("0"), a[0])
				case "IsNegative":
					return mkLt(a[0], mkConst("0"))
				}
			}
		case "sdk.Coin", "sdk.DecCoin":
			if len(a) == 1 {
				switch m {
				case "IsZero":
					return mkEq(mkField(a[0], "Amount"), mkConst("0"))
				case "IsPositive":
					return mkLt(mkConst("0"), mkField(a[0], "Amount"))
				}
			}
		case "sdk.Coins", "sdk.DecCoins":
			if len(a) == 1 && (m == "Empty" || m == "IsZero") {
				return mk("call", "iszero", a[0])
			}
		case "math":
			switch n {
			case "math.LegacyZeroDec", "math.ZeroInt":
				return mkConst("0")
			}
		}
		if m == "BlockTime" && base == "sdk.Context" {
			return mk("call", "BlockTime")
		}
		if (strings.HasSuffix(base, ".Iterator") || base == "collections.KeySetIterator") && len(a) == 1 {
			switch m {
			case "Key":
				return mkKey(a[0])
			case "Value":
				return mkElem(a[0])
			case "Values":
				return mkUnion(mk("append", "", tRec, mk("list", "", mkElem(a[0]))), tNil)
			case "Keys":
				return mkUnion(mk("append", "", tRec, mk("list", "", mkKey(a[0]))), tNil)
			case "KeyValue":
				return mkUpd(mkUpd(mk("zero", ""), "Key", mkKey(a[0])), "Value", mkElem(a[0]))
			}
		}
	}
	switch n {
	case "errorsmod.IsOf":
		if len(a) == 2 && a[1].Op == "list" && len(a[1].Args) == 1 {
			return mk("call", "errors.Is", a[0], a[1].Args[0])
		}
	case "math.NewInt", "math.LegacyNewDec", "math.NewUint":
		if len(a) == 1 && a[0].Op == "const" {
			return a[0]
		}
	case "collections.Pair.K1", "collections.Pair.K2":
		if len(a) == 1 && a[0].Op == "call" && a[0].S == "collections.Join" && len(a[0].Args) == 2 {
			return a[0].Args[int(n[len(n)-1]-'1')]
		}
	case "math.OneInt", "math.LegacyOneDec":
		return mkConst("1")
	case "restaking/types.DelegationTarget.GetID":
		if x := a[len(a)-1]; x.Op == "field" && x.S == "DelegationTarget" && x.Args[0].Op == "call" && x.Args[0].S == "rewards/keeper.Keeper.GetDelegationTarget" && len(x.Args[0].Args) == 2 {
			return x.Args[0].Args[1]
		}
	case "binary.bigEndian.Uint64":
		if x := a[len(a)-1]; x.Op == "call" && x.S == "encbe64" {
			return x.Args[0]
		}
	case "sdk.NewCoin":
		if len(a) == 2 && a[0].Op == "field" && a[0].S == "Denom" && a[1].Op == "field" && a[1].S == "Amount" && a[0].Args[0] == a[1].Args[0] {
			return a[0].Args[0]
		}
	case "sdk.Uint64ToBigEndian":
		return mk("call", "encbe64", a...)
	}
	if n == "bytes.Equal" && len(a) == 2 {
		return mkEq(a[0], a[1])
	}
	// generated protobuf getters
	if ci.fn != nil || com.IsInvoke() {
		if f := pbGetter(ci, com); f != "" && len(a) == 1 {
			return mkField(a[0], f)
		}
	}
	return mk("call", n, a...)
}

func pbGetter(ci *callInfo, com *ssa.CallCommon) string {
	fn := ci.fn
	if fn == nil || fn.Signature.Recv() == nil || fn.Signature.Params().Len() != 0 || fn.Signature.Results().Len() != 1 {
		return ""
	}
	if !strings.HasPrefix(fn.Name(), "Get") {
		return ""
	}
	pos := ""
	if fn.Pos().IsValid() {
		pos = fn.Prog.Fset.Position(fn.Pos()).Filename
	}
	n := namedOf(fn.Signature.Recv().Type())
	if n == nil {
		return ""
	}
	if !strings.HasSuffix(pos, ".pb.go") && inRepo(n.Obj().Pkg()) {
		return ""
	}
	st, ok := n.Underlying().(*types.Struct)
	if !ok {
		return ""
	}
	f := strings.TrimPrefix(fn.Name(), "Get")
	for k := 0; k < st.NumFields(); k++ {
		// (ibc packets: GetDestPort returns DestinationPort)
		if n := st.Field(k).Name(); n == f || strings.HasPrefix(f, "Dest") && n == "Destination"+f[4:] {
			return n
		}
	}
	return ""
}

func (i *Inst) resultTerm(c ssa.CallInstruction, idx int) *Term {
	ci := i.call(c)
	sig := c.Common().Signature()
	if idx < sig.Results().Len() && isErrorType(sig.Results().At(idx).Type()) {
		return mk("res", "err", ci.term)
	}
	if ci.sub != nil && ci.fn != nil && i.e.isTransparent(ci.fn) && idx < len(ci.sub.results) {
		t := ci.sub.results[idx]
		if t != nil && !t.contains(func(x *Term) bool { return x.Op == "unknown" || x.Op == "big" || x.Op == "addr" }) {
			return t
		}
		if t != nil && t.Op == "addr" && t.cell != nil && t.cell.inst != i {
			// pointer to a struct built by the callee
			r := t.cell.inst.exitContent(t)
			if r != nil {
				return r
			}
		}
	}
	if sig.Results().Len() > 1 {
		if idx == 0 {
			return ci.term
		}
		return mk("res", itoa(idx), ci.term)
	}
	return ci.term
}

func itoa(n int) string {
	const d = "0123456789"
	if n < 10 {
		return d[n : n+1]
	}
	return itoa(n/10) + d[n%10:n%10+1]
}

// exitContent: content of a local cell at the function's successful returns.
func (i *Inst) exitContent(a *Term) *Term {
	var ts []*Term
	for _, r := range i.rets {
		if !r.ok {
			continue
		}
		ts = append(ts, i.load(a, r.instr))
	}
	if len(ts) == 0 {
		return nil
	}
	return mkUnion(ts...)
}

// walkedOver: Walk(coll, range, f) visits what Iterate(coll, range) yields; keys:
// f is given the keys only.
func walkedOver(name string, recv *Term, all []*Term) (t *Term, keys bool) {
	coll := strings.TrimSuffix(name, ".Walk")
	switch coll {
	case "collections.Map", "collections.IndexedMap", "collections.KeySet":
	default:
		return nil, false
	}
	var as []*Term
	for _, a := range all[1:] {
		if a != tCtx && a.Op != "closure" && a.Op != "func" {
			as = append(as, a)
		}
	}
	if len(as) != 1 {
		return nil, false
	}
	return mk("call", coll+".Iterate", recv, as[0]), coll == "collections.KeySet"
}

// walkFacts: a completed walk whose callback never asks to stop saw everything.
func (ci *callInfo) walkFacts() []*Fact {
	if ci.walked == nil {
		return nil
	}
	for _, cb := range ci.cbs {
		if !cb.neverStops() {
			return nil
		}
	}
	it := "collections.Iterator.Valid"
	if strings.HasPrefix(ci.walked.S, "collections.KeySet.") {
		it = "collections.KeySetIterator.Valid"
	}
	return []*Fact{mkFact('O', ci.walked, false), mkFact('T', mk("call", it, ci.walked), true)}
}
