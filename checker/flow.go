package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func (i *Inst) errIndex() int {
	rs := i.fn.Signature.Results()
	for k := rs.Len() - 1; k >= 0; k-- {
		if isErrorType(rs.At(k).Type()) {
			return k
		}
	}
	return -1
}

// ---- constant reachability (only parameters and constants decide) ----

func (i *Inst) cheapConst(v ssa.Value, d int) (*Term, bool) {
	if d > 6 {
		return nil, false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v), true
	case *ssa.Parameter, *ssa.FreeVar:
		t := i.T(v)
		return t, isConst(t)
	case *ssa.BinOp:
		if v.Op == token.EQL || v.Op == token.NEQ {
			a, ok1 := i.cheapConst(v.X, d+1)
			b, ok2 := i.cheapConst(v.Y, d+1)
			if ok1 && ok2 {
				r := mkEq(a, b)
				if v.Op == token.NEQ {
					r = mkNot(r)
				}
				return r, r == tTrue || r == tFalse
			}
			// hooks and optional callbacks held by keepers are wired (see the
			// wiring rules): comparisons with nil are decided.
			if isNilConst(v.Y) && i.isKeeperSlot(v.X) {
				if v.Op == token.NEQ {
					return tTrue, true
				}
				return tFalse, true
			}
		}
	case *ssa.UnOp:
		if v.Op == token.NOT {
			a, ok := i.cheapConst(v.X, d+1)
			if ok {
				return mkNot(a), true
			}
		}
	case *ssa.Call:
		// time.Time.IsZero of the block time (never zero) or of the zero time
		if f := v.Call.StaticCallee(); f != nil && f.String() == "(time.Time).IsZero" && len(v.Call.Args) == 1 {
			x := v.Call.Args[0]
			if u, ok := x.(*ssa.UnOp); ok {
				if p := spilledParam(u); p != nil {
					x = p
				}
			}
			switch x.(type) {
			case *ssa.Parameter, *ssa.FreeVar, *ssa.Const:
				t := i.T(x)
				if t.Op == "call" && t.S == "BlockTime" {
					return tFalse, true
				}
				if t.Op == "zero" {
					return tTrue, true
				}
			}
		}
	case *ssa.Convert:
		return i.cheapConst(v.X, d+1)
	case *ssa.ChangeType:
		return i.cheapConst(v.X, d+1)
	}
	return nil, false
}

func isNilConst(v ssa.Value) bool {
	c, ok := v.(*ssa.Const)
	return ok && c.Value == nil
}

// isKeeperSlot: v is a load of a field named hooks/…Restriction of a keeper.
func (i *Inst) isKeeperSlot(v ssa.Value) bool {
	u, ok := v.(*ssa.UnOp)
	if !ok || u.Op != token.MUL {
		if f, ok := v.(*ssa.Field); ok {
			return i.e.keeperName(f.X.Type()) != "" && slotName(fieldName(f.X.Type(), f.Field))
		}
		return false
	}
	fa, ok := u.X.(*ssa.FieldAddr)
	if !ok {
		return false
	}
	return i.e.keeperName(fa.X.Type()) != "" && slotName(fieldName(fa.X.Type(), fa.Field))
}

func slotName(n string) bool { return n == "hooks" || n == "restakeRestriction" }

type edgeKey struct{ a, b int }

func (i *Inst) edgeFeasible(p, b *ssa.BasicBlock) bool {
	if len(i.top) > p.Index && i.top[p.Index] { // statically unreachable
		return false
	}
	if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		t, ok := i.cheapConst(ifi.Cond, 0)
		if dv, dok := i.decided[p]; !ok && dok {
			t, ok = tFalse, true
			if dv {
				t = tTrue
			}
		}
		if ok {
			if t == tTrue && b == p.Succs[1] {
				return false
			}
			if t == tFalse && b == p.Succs[0] {
				return false
			}
		}
	}
	return true
}

func (i *Inst) staticReach() {
	n := len(i.fn.Blocks)
	i.top = make([]bool, n)
	seen := make([]bool, n)
	work := []*ssa.BasicBlock{i.fn.Blocks[0]}
	if recovers(i.fn) {
		work = append(work, i.fn.Recover)
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if seen[b.Index] {
			continue
		}
		seen[b.Index] = true
		for _, s := range b.Succs {
			if i.edgeFeasible(b, s) {
				work = append(work, s)
			}
		}
	}
	for k := range seen {
		i.top[k] = !seen[k]
	}
}

// ---- facts ----

func (i *Inst) addFacts(s Set, fs ...*Fact) Set {
	if len(fs) == 0 {
		return s
	}
	if len(i.e.derived) > 0 {
		var ds []*Fact
		for _, f := range fs {
			ds = append(ds, i.e.derive(f)...)
		}
		fs = append(fs, ds...)
	}
	return s.add(fs...)
}

func (e *Engine) derive(f *Fact) []*Fact {
	var out []*Fact
	if f.Kind == 'D' {
		return nil
	}
	for _, d := range e.derived {
		v, ok := d.cache[f.id]
		if !ok {
			v = d.Match(f)
			d.cache[f.id] = v
		}
		if v {
			out = append(out, mkFact('D', mk("derived", d.Name), f.Each))
		}
	}
	return out
}

func opposite(k byte) byte {
	switch k {
	case 'T':
		return 'F'
	case 'F':
		return 'T'
	case 'N':
		return 'Z'
	case 'Z':
		return 'N'
	}
	return 0
}

var manyMemo = map[int]bool{}

// manyValued: different occurrences of the term may denote different values.
func manyValued(t *Term) bool {
	if v, ok := manyMemo[t.id]; ok {
		return v
	}
	v := t.contains(func(x *Term) bool {
		switch x.Op {
		case "union", "rec", "elem", "key":
			return true
		}
		return x == tRec || x == tMem
	})
	manyMemo[t.id] = v
	return v
}

func contradicts(s Set, f *Fact) bool {
	if f.Kind != 'N' && f.Kind != 'Z' && manyValued(f.T) {
		return false
	}
	if o := opposite(f.Kind); o != 0 {
		if g, ok := factTab[fkey(o, f.Each, f.T)]; ok && s.has(g.id) {
			return true
		}
	}
	if f.Kind == 'T' && f.T.Op == "eq" && isConst(f.T.Args[1]) && !f.Each {
		for _, id := range s {
			g := factList[id]
			if g.Kind == 'T' && !g.Each && g.T.Op == "eq" && g.T.Args[0] == f.T.Args[0] && isConst(g.T.Args[1]) && g.T.Args[1] != f.T.Args[1] {
				return true
			}
		}
	}
	return false
}

func condFact(t *Term, truth bool) *Fact {
	for t.Op == "not" {
		t = t.Args[0]
		truth = !truth
	}
	k := byte('T')
	if !truth {
		k = 'F'
	}
	return mkFact(k, t, false)
}

func (i *Inst) errKey(v ssa.Value) *Term {
	return mkx("ssaerr", i.key+"/"+v.Name(), nil, nil)
}

const maxImplied = 10

// implied: facts that hold when v evaluates to truth; ok=false if impossible.
func (i *Inst) implied(v ssa.Value, truth bool, cur Set, d int) ([]*Fact, bool) {
	if d > maxImplied {
		return nil, true
	}
	switch v := v.(type) {
	case *ssa.Const:
		t := constTerm(v)
		if t == tTrue {
			return nil, truth
		}
		if t == tFalse {
			return nil, !truth
		}
		return nil, true
	case *ssa.UnOp:
		if v.Op == token.NOT {
			return i.implied(v.X, !truth, cur, d+1)
		}
		if v.Op == token.MUL {
			// load of a local bool with a single reaching store
			if st := i.singleStore(v); st != nil {
				return i.implied(st, truth, cur, d+1)
			}
		}
	case *ssa.BinOp:
		if v.Op == token.EQL || v.Op == token.NEQ {
			eq := truth == (v.Op == token.EQL)
			if isErrorType(v.X.Type()) && isNilConst(v.Y) {
				if eq {
					return i.errNil(v.X, cur, d+1)
				}
				return i.errNonNil(v.X, cur, d+1)
			}
			if isErrorType(v.Y.Type()) && isNilConst(v.X) {
				if eq {
					return i.errNil(v.Y, cur, d+1)
				}
				return i.errNonNil(v.Y, cur, d+1)
			}
			if c, ok := v.Y.(*ssa.Const); ok {
				t := constTerm(c)
				if t == tTrue {
					return i.implied(v.X, eq, cur, d+1)
				}
				if t == tFalse {
					return i.implied(v.X, !eq, cur, d+1)
				}
			}
		}
		if t, ok := i.cheapConst(v, 0); ok {
			return nil, (t == tTrue) == truth
		}
	case *ssa.Phi:
		return i.phiImplied(v, cur, d, func(ed ssa.Value, c Set) ([]*Fact, bool) { return i.implied(ed, truth, c, d+1) })
	case *ssa.Call:
		fs, ok := i.callImplied(v, 0, truth, cur, d)
		if !ok {
			return nil, false
		}
		t := i.T(v)
		if t == tTrue || t == tFalse {
			return fs, (t == tTrue) == truth
		}
		return append(fs, condFact(t, truth)), true
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			fs, ok := i.callImplied(c, v.Index, truth, cur, d)
			if !ok {
				return nil, false
			}
			t := i.T(v)
			if t == tTrue || t == tFalse {
				if ci := i.call(c); ci.sub != nil && !i.errKnownNil(c, ci.sub, cur) {
					return fs, true // the term leaves out what comes with an error
				}
				return fs, (t == tTrue) == truth
			}
			return append(fs, condFact(t, truth)), true
		}
	}
	t := i.T(v)
	if t == tTrue {
		return nil, truth
	}
	if t == tFalse {
		return nil, !truth
	}
	return []*Fact{condFact(t, truth)}, true
}

// singleStore: the only value ever stored to the local cell v loads from.
func (i *Inst) singleStore(v *ssa.UnOp) ssa.Value {
	al, ok := v.X.(*ssa.Alloc)
	if !ok {
		return nil
	}
	// the last store before the load wins, back along a chain of blocks with a
	// single predecessor
	captured := false
	for _, r := range *al.Referrers() {
		if mc, ok := r.(*ssa.MakeClosure); ok {
			g := mc.Fn.(*ssa.Function)
			for k, bd := range mc.Bindings {
				captured = captured || bd == al && closureWrites(g, g.FreeVars[k], 0)
			}
		}
	}
	until := ssa.Instruction(v)
	for b, n := v.Block(), 0; b != nil && n < 64; n++ {
		var last ssa.Value
		bad := false
		for _, ins := range b.Instrs {
			if ins == until {
				break
			}
			if st, ok := ins.(*ssa.Store); ok && st.Addr == al {
				last, bad = st.Val, false
			}
			if _, ok := ins.(*ssa.RunDefers); ok && captured {
				last, bad = nil, true
			}
			if c, ok := ins.(ssa.CallInstruction); ok {
				if _, builtin := c.Common().Value.(*ssa.Builtin); captured && !builtin {
					last, bad = nil, true // the closure may run
				}
				for _, a := range c.Common().Args {
					if a == al {
						last, bad = nil, true
					}
				}
			}
		}
		if last != nil {
			return last
		}
		if bad {
			break
		}
		if len(b.Preds) != 1 {
			break
		}
		b, until = b.Preds[0], nil
	}
	var val ssa.Value
	n := 0
	for _, r := range *al.Referrers() {
		switch r := r.(type) {
		case *ssa.Store:
			if r.Addr == al {
				val = r.Val
				n++
			}
		case *ssa.UnOp:
		case *ssa.DebugRef:
		default:
			return nil
		}
	}
	if n == 1 {
		return val
	}
	return nil
}

// phiImplied threads a condition on a phi through its predecessors.
func (i *Inst) phiImplied(v *ssa.Phi, cur Set, d int, f func(ssa.Value, Set) ([]*Fact, bool)) ([]*Fact, bool) {
	var acc Set
	first := true
	b := v.Block()
	for n, ed := range v.Edges {
		p := b.Preds[n]
		if !i.edgeFeasible(p, b) {
			continue
		}
		var base Set
		if i.out != nil {
			if i.outTop(p) {
				continue
			}
			var ok bool
			if d < 3 {
				base, ok = i.edgeFacts(p, b, d+1)
				if !ok {
					continue
				}
			} else {
				base = i.out[p.Index]
			}
		}
		fs, ok := f(ed, base)
		if !ok {
			continue
		}
		bad := false
		for _, x := range fs {
			if i.e.assumedAway(x) {
				bad = true
			}
		}
		for _, x := range fs {
			if contradicts(base, x) {
				bad = true
			}
		}
		if bad {
			continue
		}
		s := i.addFacts(base, fs...)
		if first {
			acc, first = s, false
		} else {
			acc = join(acc, s)
		}
	}
	if first {
		return nil, false
	}
	return minus(acc, cur).facts(), true
}

func (i *Inst) outTop(b *ssa.BasicBlock) bool { return i.out[b.Index] == nil }

// callImplied: facts from inside an analysed callee when result idx == truth.
func (i *Inst) callImplied(c *ssa.Call, idx int, truth bool, cur Set, d int) ([]*Fact, bool) {
	ci := i.call(c)
	if ci.sub == nil {
		return nil, true
	}
	sub := ci.sub
	errKnownNil := i.errKnownNil(c, sub, cur)
	var acc Set
	first := true
	for _, r := range sub.rets {
		if idx >= len(r.instr.Results) {
			return nil, true
		}
		base := r.raw
		if errKnownNil {
			if !r.ok {
				continue
			}
			base = r.facts
		}
		fs, ok := sub.implied(r.val(idx), truth, base, d+1)
		if !ok {
			continue
		}
		bad := false
		for _, x := range fs {
			if contradicts(base, x) {
				bad = true
			}
		}
		if bad {
			continue
		}
		s := sub.addFacts(base, fs...)
		if first {
			acc, first = s, false
		} else {
			acc = join(acc, s)
		}
	}
	if first {
		if len(sub.rets) == 0 {
			return nil, true
		}
		return nil, false
	}
	return exported(acc).facts(), true
}

// errKnownNil: the error that c returns is known to be nil, or it returns none.
func (i *Inst) errKnownNil(c *ssa.Call, sub *Inst, cur Set) bool {
	if sub.errIdx < 0 {
		return true
	}
	for _, r := range *c.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == sub.errIdx {
			if g, ok := factTab[fkey('Z', false, i.errKey(ex))]; ok && cur.has(g.id) {
				return true
			}
		}
	}
	return false
}

// unchecked: v depends on what an analysed call returned although its error, which
// may come with other results, has not been looked at yet.
func (i *Inst) unchecked(v ssa.Value, cur Set, d int) bool {
	if d > 6 {
		return false
	}
	switch v := v.(type) {
	case *ssa.UnOp:
		return v.Op == token.NOT && i.unchecked(v.X, cur, d+1)
	case *ssa.BinOp:
		return i.unchecked(v.X, cur, d+1) || i.unchecked(v.Y, cur, d+1)
	case *ssa.Extract:
		c, ok := v.Tuple.(*ssa.Call)
		if !ok {
			return false
		}
		sub := i.call(c).sub
		if sub == nil || v.Index == sub.errIdx || i.errKnownNil(c, sub, cur) {
			return false
		}
		for _, r := range sub.rets {
			if !r.ok {
				return true
			}
		}
	}
	return false
}

// exported drops facts about SSA-local error values.
func exported(s Set) Set {
	out := make(Set, 0, len(s))
	for _, id := range s {
		if k := factList[id].Kind; k != 'N' && k != 'Z' {
			out = append(out, id)
		}
	}
	return out
}

var neverNil = map[string]bool{
	"fmt.Errorf": true, "errors.New": true, "errorsmod.Error.Wrap": true, "errorsmod.Error.Wrapf": true,
	"status.Error": true, "status.Errorf": true, "errorsmod.New": true,
}

func (i *Inst) errNil(v ssa.Value, cur Set, d int) ([]*Fact, bool) {
	if d > maxImplied {
		return nil, true
	}
	z := mkFact('Z', i.errKey(v), false)
	switch v := v.(type) {
	case *ssa.Const:
		return nil, true
	case *ssa.MakeInterface:
		return nil, false
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if _, ok := v.X.(*ssa.Global); ok {
				return nil, false
			}
			if st := i.singleStore(v); st != nil {
				fs, ok := i.errNil(st, cur, d+1)
				return append(fs, z), ok
			}
		}
		return []*Fact{z}, true
	case *ssa.Phi:
		fs, ok := i.phiImplied(v, cur, d, func(ed ssa.Value, c Set) ([]*Fact, bool) { return i.errNil(ed, c, d+1) })
		return append(fs, z), ok
	case *ssa.ChangeInterface:
		return i.errNil(v.X, cur, d+1)
	case *ssa.Call:
		fs, ok := i.callErrNil(v, cur, d)
		return append(fs, z), ok
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			fs, ok := i.callErrNil(c, cur, d)
			return append(fs, z), ok
		}
	}
	return []*Fact{z}, true
}

func (i *Inst) callErrNil(c *ssa.Call, cur Set, d int) ([]*Fact, bool) {
	ci := i.call(c)
	if neverNil[ci.name] {
		return nil, false
	}
	if ci.name == "errorsmod.Wrap" || ci.name == "errorsmod.Wrapf" {
		return i.errNil(c.Common().Args[0], cur, d+1)
	}
	fs := []*Fact{mkFact('O', ci.term, false)}
	if ci.sub != nil {
		if !ci.sub.succOK && len(ci.sub.rets) > 0 {
			return nil, false
		}
		fs = append(fs, exported(ci.sub.succ).facts()...)
	}
	for _, cb := range ci.cbs {
		fs = append(fs, cb.callbackFacts()...)
	}
	return append(fs, ci.walkFacts()...), true
}

// callbackFacts: facts established for every element when the callback never
// asks to stop early.
func (i *Inst) callbackFacts() []*Fact {
	if !i.neverStops() {
		return nil
	}
	return eachFacts(exported(i.succ))
}

// neverStops: a (stop bool, err error) callback that never asks to stop.
func (i *Inst) neverStops() bool {
	if !i.succOK {
		return false
	}
	rs := i.fn.Signature.Results()
	if rs.Len() == 2 {
		for _, r := range i.rets {
			if !r.ok {
				continue
			}
			switch v := r.val(0).(type) {
			case *ssa.Const:
				if constTerm(v) != tFalse {
					return false
				}
			case *ssa.Extract: // whatever another callback answers
				c, ok := v.Tuple.(*ssa.Call)
				if !ok || v.Index != 0 {
					return false
				}
				if ci := i.call(c); ci.sub == nil || !ci.sub.neverStops() {
					return false
				}
			default:
				return false
			}
		}
	}
	return true
}

func eachFacts(s Set) []*Fact {
	var out []*Fact
	for _, f := range s.facts() {
		if f.Kind == 'N' || f.Kind == 'Z' {
			continue
		}
		if f.Each || f.Kind == 'D' || !loopCond(f) && f.T.contains(func(x *Term) bool { return x.Op == "elem" || x.Op == "key" }) {
			if f.Kind == 'D' {
				out = append(out, mkFact(f.Kind, f.T, true))
				continue
			}
			out = append(out, f)
			continue
		}
		out = append(out, mkFact(f.Kind, f.T, true))
	}
	return out
}

// loopCond: the condition under which a loop goes on to its next element.
func loopCond(f *Fact) bool {
	if f.Kind != 'T' {
		return false
	}
	return f.T.Op == "lt" && f.T.Args[1].Op == "len" || f.T.Op == "call" && strings.HasSuffix(f.T.S, "Iterator.Valid")
}

func (i *Inst) errNonNil(v ssa.Value, cur Set, d int) ([]*Fact, bool) {
	n := mkFact('N', i.errKey(v), false)
	if c, ok := v.(*ssa.Const); ok && c.Value == nil {
		return nil, false
	}
	fs := []*Fact{n}
	if u, ok := v.(*ssa.UnOp); ok && u.Op == token.MUL && d < maxImplied {
		if st := i.singleStore(u); st != nil {
			more, ok := i.errNonNil(st, cur, d+1)
			if !ok {
				return nil, false
			}
			fs = append(fs, more...)
		}
	}
	return fs, true
}

// mayNil: can the error value be nil given the facts?
func (i *Inst) mayNil(v ssa.Value, s Set, d int) bool {
	if d > maxImplied {
		return true
	}
	if g, ok := factTab[fkey('N', false, i.errKey(v))]; ok && s.has(g.id) {
		return false
	}
	switch v := v.(type) {
	case *ssa.Const:
		return true
	case *ssa.MakeInterface:
		return false
	case *ssa.ChangeInterface:
		return i.mayNil(v.X, s, d+1)
	case *ssa.UnOp:
		if v.Op == token.MUL {
			if _, ok := v.X.(*ssa.Global); ok {
				return false
			}
			if st := i.singleStore(v); st != nil {
				return i.mayNil(st, s, d+1)
			}
		}
	case *ssa.Call:
		n, _ := i.e.calleeName(i, v.Common())
		if neverNil[n] {
			return false
		}
		if n == "errorsmod.Wrap" || n == "errorsmod.Wrapf" || n == "errors.Join" {
			return i.mayNil(v.Common().Args[0], s, d+1)
		}
		ci := i.call(v)
		if ci.sub != nil && !ci.sub.succOK && len(ci.sub.rets) > 0 {
			return false
		}
	case *ssa.Phi:
		for n, ed := range v.Edges {
			p := v.Block().Preds[n]
			if !i.edgeFeasible(p, v.Block()) {
				continue
			}
			if i.out != nil && i.outTop(p) {
				continue
			}
			c := s
			if i.out != nil {
				c = i.out[p.Index]
			}
			if i.mayNil(ed, c, d+1) {
				return true
			}
		}
		return false
	}
	return true
}

// edgeFacts: facts on the edge p->b (ok=false: infeasible).
func (i *Inst) edgeFacts(p, b *ssa.BasicBlock, d int) (Set, bool) {
	if i.out[p.Index] == nil {
		return nil, false
	}
	s := i.out[p.Index]
	if !i.edgeFeasible(p, b) {
		return nil, false
	}
	if i.e.marks {
		s = i.phiMarks(p, b, s)
	}
	if ifi, ok := p.Instrs[len(p.Instrs)-1].(*ssa.If); ok && p.Succs[0] != p.Succs[1] {
		truth := b == p.Succs[0]
		fs, ok := i.implied(ifi.Cond, truth, s, d)
		if !ok {
			return nil, false
		}
		for _, f := range fs {
			if contradicts(s, f) {
				return nil, false
			}
		}
		s = i.addFacts(s, fs...)
		// normal loop exit: facts of every completed iteration
		if lc, ok := i.lc[p.Index]; ok && !i.inLoop(p, b) {
			s = union(s, lc).add(perElement(lc)...)
		}
	}
	return s, true
}

// perElement: what a completed loop over a list written out says of each of
// the elements of that list.
func perElement(lc Set) []*Fact {
	var out []*Fact
	for _, id := range lc {
		l := factList[id]
		if !l.Each || l.Kind != 'T' || l.T.Op != "lt" || l.T.Args[1].Op != "len" || l.T.Args[1].Args[0].Op != "list" {
			continue
		}
		es := l.T.Args[1].Args[0].Args
		if len(es) > 8 {
			continue
		}
		for _, id := range lc {
			f := factList[id]
			if !f.Each || f == l || f.Kind == 'D' {
				continue
			}
			for k := range es {
				if t := elementOf(f.T, es, k, 0); t != f.T || len(es) == 1 {
					out = append(out, mkFact(f.Kind, t, false))
				}
			}
		}
	}
	return out
}

// elementOf: t with the k-th of es (or of a field of theirs) in the place of
// all of them.
func elementOf(t *Term, es []*Term, k, d int) *Term {
	if d > 20 || len(t.Args) == 0 {
		return t
	}
	if t.Op == "union" {
		var path []string
		for x := t.Args[0]; ; x = x.Args[0] {
			var us []*Term
			for _, e := range es {
				for n := len(path) - 1; n >= 0; n-- {
					e = mkField(e, path[n])
				}
				us = append(us, e)
			}
			if mkUnion(us...) == t {
				return us[k]
			}
			if x.Op != "field" || len(path) > 4 {
				break
			}
			path = append(path, x.S)
		}
	}
	as := make([]*Term, len(t.Args))
	same := true
	for n, a := range t.Args {
		as[n] = elementOf(a, es, k, d+1)
		same = same && as[n] == a
	}
	if same {
		return t
	}
	return rebuild(t, as)
}

// phiMarks: along p→b a variable gets a value computed on the way (not its
// zero value, and not the value it had before).
func (i *Inst) phiMarks(p, b *ssa.BasicBlock, s Set) Set {
	k := -1
	for n, q := range b.Preds {
		if q == p {
			k = n
		}
	}
	for _, ins := range b.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		if !markType(phi.Type()) || loopCounter(phi) {
			continue
		}
		switch v := phi.Edges[k].(type) {
		case *ssa.Phi, *ssa.Parameter, *ssa.FreeVar:
		case *ssa.Const:
			if v.Value != nil && v.Value.Kind() == constant.Bool && constant.BoolVal(v.Value) {
				s = i.addFacts(s, mkFact('C', mk("call", "mark", tTrue), false))
			}
		default:
			s = i.addFacts(s, mkFact('C', mk("call", "mark", i.T(v)), false))
		}
	}
	return s
}

// markType: variables that can record a finding: flags, counts, collections.
func markType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return u.Info()&(types.IsBoolean|types.IsInteger) != 0
	case *types.Slice, *types.Map:
		return true
	}
	return false
}

// loopCounter: the variable that the condition of its own loop tests.
func loopCounter(phi *ssa.Phi) bool {
	ifi, ok := phi.Block().Instrs[len(phi.Block().Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	cond, ok := ifi.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	for _, v := range []ssa.Value{cond.X, cond.Y} {
		if v == phi {
			return true
		}
		if b, ok := v.(*ssa.BinOp); ok && (b.X == phi || b.Y == phi) {
			return true
		}
	}
	return false
}

// inLoop: is b inside the natural loop of header h?
func (i *Inst) inLoop(h, b *ssa.BasicBlock) bool {
	if !h.Dominates(b) {
		return false
	}
	// b reaches h without leaving the region dominated by h
	seen := map[*ssa.BasicBlock]bool{}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[len(work)-1]
		work = work[:len(work)-1]
		if x == h {
			return true
		}
		if seen[x] || !h.Dominates(x) {
			continue
		}
		seen[x] = true
		work = append(work, x.Succs...)
	}
	return false
}

func (i *Inst) transfer(b *ssa.BasicBlock, s Set, visit func(ssa.CallInstruction, *callInfo, Set)) Set {
	for _, ins := range b.Instrs {
		switch ins := ins.(type) {
		case *ssa.Store:
			if _, ok := ins.Addr.(*ssa.FreeVar); ok && i.e.marks && markType(ins.Val.Type()) {
				s = i.addFacts(s, mkFact('C', mk("call", "mark", i.T(ins.Val)), false))
			}
		case *ssa.IndexAddr:
			for _, f := range i.collected(ins.X) {
				if !contradicts(s, f) {
					s = i.addFacts(s, f)
				}
			}
		case *ssa.Call:
			ci := i.call(ins)
			if visit != nil {
				visit(ins, ci, s)
			}
			if ci.builtin != "" {
				continue
			}
			fs := []*Fact{mkFact('C', ci.term, false)}
			if ci.sub != nil && ci.sub.errIdx < 0 && ci.sub.succOK {
				fs = append(fs, exported(ci.sub.succ).facts()...)
			}
			if ci.sub == nil && len(ci.cbs) > 0 && !callHasErr(ins) {
				for _, cb := range ci.cbs {
					fs = append(fs, cb.callbackFacts()...)
				}
			}
			s = i.addFacts(s, fs...)
		case *ssa.Defer, *ssa.Go:
			c := ins.(ssa.CallInstruction)
			if visit != nil {
				visit(c, i.call(c), s)
			}
		}
	}
	return s
}

func callHasErr(c *ssa.Call) bool {
	rs := c.Common().Signature().Results()
	for k := 0; k < rs.Len(); k++ {
		if isErrorType(rs.At(k).Type()) {
			return true
		}
	}
	return false
}

func fkey(kind byte, each bool, t *Term) string {
	if each {
		return string([]byte{kind}) + "true" + itoa(t.id)
	}
	return string([]byte{kind}) + "false" + itoa(t.id)
}

func (i *Inst) run() {
	i.errIdx = i.errIndex()
	for round := 0; round < 4; round++ {
		i.fixpoint()
		// branch conditions that turned out constant prune the graph
		more := false
		for _, b := range i.fn.Blocks {
			if i.top[b.Index] || i.out[b.Index] == nil {
				continue
			}
			ifi, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
			if !ok || b.Succs[0] == b.Succs[1] {
				continue
			}
			if _, done := i.decided[b]; done {
				continue
			}
			if _, done := i.cheapConst(ifi.Cond, 0); done {
				continue
			}
			if i.unchecked(ifi.Cond, i.out[b.Index], 0) {
				continue
			}
			switch i.T(ifi.Cond) {
			case tTrue:
				i.decided[b] = true
				more = true
			case tFalse:
				i.decided[b] = false
				more = true
			default:
				if len(i.e.assume) > 0 {
					if i.refuted(ifi.Cond, true, b) {
						i.decided[b] = false
						more = true
					} else if i.refuted(ifi.Cond, false, b) {
						i.decided[b] = true
						more = true
					}
				}
			}
		}
		if !more {
			break
		}
		i.env, i.contMemo, i.callMemo = map[ssa.Value]*Term{}, map[string]*Term{}, map[ssa.CallInstruction]*callInfo{}
		i.lc, i.closureStores = map[int]Set{}, map[closureCall][]*Inst{}
	}
	i.exits()
}

// refuted: cond being truth is against an assumption of the current section.
func (i *Inst) refuted(cond ssa.Value, truth bool, b *ssa.BasicBlock) bool {
	fs, ok := i.implied(cond, truth, i.out[b.Index], 0)
	if !ok {
		return false
	}
	for _, f := range fs {
		if i.e.assumedAway(f) {
			return true
		}
	}
	return false
}

// assumedAway: f contradicts an assumption of the current section.
func (e *Engine) assumedAway(f *Fact) bool {
	if f.Each {
		return false
	}
	for _, a := range e.assume {
		if a.kind == 'E' && f.Kind == 'O' && a.p.match(f.T, Env{}) {
			a.hits++
			return true
		}
		if o := opposite(f.Kind); o != 0 && o == a.kind && a.p.match(f.T, Env{}) {
			a.hits++
			return true
		}
		if a.kind == 'T' && f.Kind == 'T' && f.T.Op == "istype" && a.p.op == "istype" && a.p.s != f.T.S && a.p.args[0].match(f.T.Args[0], Env{}) {
			a.hits++
			return true // the value is of another concrete type
		}
		if a.kind == 'T' && f.Kind == 'T' && f.T.Op == "eq" && isConst(f.T.Args[1]) {
			// the same term equal to another constant
			if p := a.p; p.op == "eq" && p.args[1].op == "const" && p.args[1].s != f.T.Args[1].S && p.args[0].match(f.T.Args[0], Env{}) {
				a.hits++
				return true
			}
		}
	}
	return false
}

func (i *Inst) fixpoint() {
	fn := i.fn
	i.staticReach()
	n := len(fn.Blocks)
	i.in = make([]Set, n)
	i.out = make([]Set, n)
	order := rpo(fn)
	// back edges
	type loop struct {
		h       *ssa.BasicBlock
		latches []*ssa.BasicBlock
	}
	loops := map[int]*loop{}
	for _, b := range fn.Blocks {
		if i.top[b.Index] {
			continue
		}
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s.Index]
				if l == nil {
					l = &loop{h: s}
					loops[s.Index] = l
				}
				l.latches = append(l.latches, b)
			}
		}
	}
	for phase := 0; phase < 6; phase++ {
		if phase > 0 {
			// loop facts may survive later loops: restart optimistically
			for k := range i.in {
				i.in[k], i.out[k] = nil, nil
			}
		}
		for iter := 0; iter < 50; iter++ {
			changed := false
			for _, b := range order {
				if i.top[b.Index] {
					continue
				}
				var in Set
				if b.Index == 0 || b == fn.Recover {
					in = Set{}
				} else {
					first := true
					for _, p := range b.Preds {
						if i.top[p.Index] || i.out[p.Index] == nil {
							continue
						}
						es, ok := i.edgeFacts(p, b, 0)
						if !ok {
							continue
						}
						if first {
							in, first = es, false
						} else {
							in = join(in, es)
						}
					}
					if first {
						if i.out[b.Index] != nil {
							i.in[b.Index], i.out[b.Index] = nil, nil
							changed = true
						}
						continue // not (yet) reachable
					}
				}
				out := i.transfer(b, in, nil)
				if out == nil {
					out = Set{}
				}
				if i.out[b.Index] == nil || !equalSet(out, i.out[b.Index]) || !equalSet(in, i.in[b.Index]) {
					changed = true
				}
				i.in[b.Index] = in
				i.out[b.Index] = out
			}
			if !changed {
				break
			}
		}
		if len(loops) == 0 {
			break
		}
		grew := false
		for idx, l := range loops {
			var acc Set
			first := true
			for _, lt := range l.latches {
				if i.out[lt.Index] == nil {
					continue
				}
				es, ok := i.edgeFacts(lt, l.h, 0)
				if !ok {
					continue
				}
				if first {
					acc, first = es, false
				} else {
					acc = inter(acc, es)
				}
			}
			if first {
				continue
			}
			nw := Set{}.add(eachFacts(minus(acc, i.in[idx]))...)
			if !equalSet(nw, i.lc[idx]) {
				grew = true
				i.lc[idx] = nw
			}
		}
		if !grew {
			break
		}
	}
}

// val is result k of the return.
func (r *Ret) val(k int) ssa.Value {
	v := r.instr.Results[k]
	if p, ok := v.(*ssa.Phi); ok && r.pred != nil && p.Block() == r.block {
		for n, q := range r.block.Preds {
			if q == r.pred {
				return p.Edges[n]
			}
		}
	}
	return v
}

// retWays: the return at the end of b, once for each way into b.
func (i *Inst) retWays(b *ssa.BasicBlock, ret *ssa.Return) []*Ret {
	whole := []*Ret{{block: b, instr: ret, facts: i.out[b.Index], raw: i.out[b.Index], ok: true}}
	if len(b.Preds) < 2 || len(b.Preds) > 8 || i.e.marks {
		return whole
	}
	seen := map[*ssa.BasicBlock]bool{}
	var out []*Ret
	for _, p := range b.Preds {
		if seen[p] || b.Dominates(p) {
			return whole
		}
		seen[p] = true
		if i.outTop(p) {
			continue
		}
		fs, ok := i.edgeFacts(p, b, 0)
		if !ok {
			continue
		}
		fs = union(fs, i.out[b.Index])
		out = append(out, &Ret{block: b, instr: ret, pred: p, facts: fs, raw: fs, ok: true})
	}
	if len(out) == 0 {
		return whole
	}
	return out
}

func (i *Inst) exits() {
	fn := i.fn
	order := rpo(fn)
	first := true
	for _, b := range order {
		if i.top[b.Index] || i.out[b.Index] == nil {
			continue
		}
		ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return)
		if !ok {
			continue
		}
		for _, r := range i.retWays(b, ret) {
			if i.errIdx >= 0 {
				ev := r.val(i.errIdx)
				if !i.mayNil(ev, r.facts, 0) {
					r.ok = false
				} else {
					fs, ok := i.errNil(ev, r.facts, 0)
					if !ok {
						r.ok = false
					} else {
						for _, f := range fs {
							if contradicts(r.facts, f) {
								r.ok = false
							}
						}
						r.facts = i.addFacts(r.facts, fs...)
					}
				}
			}
			i.rets = append(i.rets, r)
			if r.ok {
				i.succOK = true
				if first {
					i.succ, first = r.facts, false
				} else {
					i.succ = join(i.succ, r.facts)
				}
			}
		}
	}
	i.succ = exported(i.succ)
	// results
	nres := fn.Signature.Results().Len()
	i.results = make([]*Term, nres)
	for k := 0; k < nres; k++ {
		var ts []*Term
		for _, r := range i.rets {
			if !r.ok {
				continue
			}
			t := i.T(r.val(k))
			if t.Op == "addr" && t.cell != nil && t.cell.inst == i {
				t = i.load(t, r.instr)
			}
			ts = append(ts, t)
		}
		if len(ts) > 0 {
			i.results[k] = mkUnion(ts...)
		}
	}
	// sites
	for _, b := range order {
		if i.top[b.Index] || i.out[b.Index] == nil {
			continue
		}
		i.transfer(b, i.in[b.Index], func(c ssa.CallInstruction, ci *callInfo, s Set) {
			st := &Site{inst: i, instr: c, name: ci.name, call: ci.term, args: ci.args, facts: s, kind: "call"}
			switch c.(type) {
			case *ssa.Go:
				st.kind = "go"
			case *ssa.Defer:
				st.kind = "defer"
			}
			if ci.sub != nil {
				st.subs = append(st.subs, ci.sub)
			}
			st.subs = append(st.subs, ci.cbs...)
			i.sites = append(i.sites, st)
		})
	}
}

func rpo(fn *ssa.Function) []*ssa.BasicBlock {
	seen := make([]bool, len(fn.Blocks))
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b.Index] {
			return
		}
		seen[b.Index] = true
		for k := len(b.Succs) - 1; k >= 0; k-- {
			dfs(b.Succs[k])
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	if recovers(fn) {
		dfs(fn.Recover)
	}
	for l, r := 0, len(post)-1; l < r; l, r = l+1, r-1 {
		post[l], post[r] = post[r], post[l]
	}
	return post
}

// ---- site walking ----

// Visit walks all call sites reachable from the instance; facts are the
// must-facts accumulated along the call chain.
func (i *Inst) Visit(f func(st *Site, facts Set, stack []*Site)) {
	seen := map[string]bool{}
	var walk func(in *Inst, base Set, stack []*Site, lists [][]*Term)
	walk = func(in *Inst, base Set, stack []*Site, lists [][]*Term) {
		if len(stack) > 20 {
			return
		}
		for _, st := range in.sites {
			facts := union(base, st.facts)
			if !st.lset {
				st.lset = true
				for _, id := range st.facts {
					if l := factList[id].list; l != nil {
						st.lists = append(st.lists, l)
					}
				}
			}
			lists := append(lists[:len(lists):len(lists)], st.lists...)
			each := st.perElement(facts, lists)
			for _, e := range each {
				f(e.st, e.facts, stack)
			}
			if each == nil {
				f(st, facts, stack)
			}
			for _, sub := range st.subs {
				k := sub.key + "|" + setKey(facts)
				if seen[k] {
					continue
				}
				seen[k] = true
				walk(sub, exported(facts), append(append([]*Site{}, stack...), st), lists)
			}
		}
	}
	walk(i, Set{}, nil, nil)
}

type siteCase struct {
	st    *Site
	facts Set
}

// perElement: a call made for each of the elements of written-out lists, as
// one call per element (nil if it does not depend on the element).
func (st *Site) perElement(facts Set, lists [][]*Term) []siteCase {
	var out []siteCase
	for _, l := range lists {
		cs := out
		if out == nil {
			cs = []siteCase{{st, facts}}
		}
		var next []siteCase
		changed := false
		for _, c := range cs {
			for k := range l {
				call := elementOf(c.st.call, l, k, 0)
				if call == c.st.call {
					next = append(next, c)
					break
				}
				changed = true
				n := *c.st
				n.call = call
				n.args = nil
				for _, a := range c.st.args {
					n.args = append(n.args, elementOf(a, l, k, 0))
				}
				var fs []*Fact
				for _, f := range c.facts.facts() {
					if t := elementOf(f.T, l, k, 0); t != f.T && f.Kind != 'D' {
						fs = append(fs, mkFact(f.Kind, t, f.Each))
					}
				}
				next = append(next, siteCase{&n, c.facts.add(fs...)})
			}
		}
		if changed {
			out = next
		}
	}
	return out
}

func setKey(s Set) string {
	b := make([]byte, 0, len(s)*3)
	for _, x := range s {
		b = append(b, byte(x), byte(x>>8), byte(x>>16))
	}
	return string(b)
}

// recovers: may the function resume at its recover block? Only when a deferred
// call can call recover().
func recovers(fn *ssa.Function) bool {
	if fn.Recover == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			d, ok := ins.(*ssa.Defer)
			if !ok {
				continue
			}
			var f *ssa.Function
			switch v := d.Call.Value.(type) {
			case *ssa.Function:
				f = v
			case *ssa.MakeClosure:
				f, _ = v.Fn.(*ssa.Function)
			}
			if f == nil {
				if d.Call.IsInvoke() {
					continue // interface method (Close, Unlock): external contract
				}
				if _, ok := d.Call.Value.(*ssa.Builtin); ok {
					continue
				}
				return true
			}
			for _, fb := range f.Blocks {
				for _, fi := range fb.Instrs {
					if c, ok := fi.(*ssa.Call); ok {
						if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
							return true
						}
					}
				}
			}
		}
	}
	return false
}
