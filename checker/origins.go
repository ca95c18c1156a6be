package main

import (
	"go/token"

	"golang.org/x/tools/go/ssa"
)

// origin: one place where an element is put into a collected slice, with the
// facts that hold there.
type origin struct {
	elem  *Term
	facts Set
}

// origins lists how the elements of the slice v got there (known=false: there
// may be others).
func (i *Inst) origins(v ssa.Value, seen map[ssa.Value]bool, d int) (out []origin, known bool) {
	if seen[v] {
		return nil, true
	}
	if d > 12 {
		return nil, false
	}
	seen[v] = true
	switch v := v.(type) {
	case *ssa.Const:
		return nil, v.Value == nil
	case *ssa.Phi:
		known = true
		for n, ed := range v.Edges {
			if p := v.Block().Preds[n]; i.top != nil && !i.edgeFeasible(p, v.Block()) {
				continue
			}
			o, k := i.origins(ed, seen, d+1)
			out, known = append(out, o...), known && k
		}
		return out, known
	case *ssa.MakeSlice:
		if c, ok := v.Len.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "0" {
			return nil, true
		}
		return nil, false
	case *ssa.Slice: // make([]T, 0, n) and literals
		if al, ok := v.X.(*ssa.Alloc); ok && v.High != nil {
			if c, ok := v.High.(*ssa.Const); ok && c.Value != nil && c.Value.ExactString() == "0" {
				_ = al
				return nil, true
			}
		}
		return nil, false
	case *ssa.ChangeType:
		return i.origins(v.X, seen, d+1)
	case *ssa.Call:
		if b, ok := v.Call.Value.(*ssa.Builtin); ok {
			if b.Name() != "append" || len(v.Call.Args) != 2 {
				return nil, false
			}
			out, known = i.origins(v.Call.Args[0], seen, d+1)
			s := i.in[v.Block().Index]
			if i.out[v.Block().Index] == nil {
				return out, false
			}
			s = exported(s)
			t := i.T(v.Call.Args[1])
			if t.Op == "addr" && t.cell != nil && t.cell.inst == i {
				t = i.load(t, v)
			}
			if t.Op == "list" {
				for _, e := range t.Args {
					out = append(out, origin{e, s})
				}
				return out, known
			}
			return append(out, origin{mkElem(t), s}), known
		}
		return i.callOrigins(v, 0, d)
	case *ssa.Extract:
		if c, ok := v.Tuple.(*ssa.Call); ok {
			return i.callOrigins(c, v.Index, d)
		}
	case *ssa.UnOp:
		if v.Op != token.MUL {
			return nil, false
		}
		al, ok := v.X.(*ssa.Alloc)
		if !ok {
			if _, fv := v.X.(*ssa.FreeVar); fv {
				return nil, true // the accumulator of the enclosing function
			}
			return nil, false
		}
		known = true
		for _, r := range *al.Referrers() {
			switch r := r.(type) {
			case *ssa.Store:
				if r.Addr == al {
					o, k := i.origins(r.Val, seen, d+1)
					out, known = append(out, o...), known && k
				} else {
					known = false
				}
			case *ssa.MakeClosure:
				fn := r.Fn.(*ssa.Function)
				for n, bd := range r.Bindings {
					if bd != al {
						continue
					}
					fv := fn.FreeVars[n]
					for _, b := range fn.Blocks {
						for _, ins := range b.Instrs {
							st, ok := ins.(*ssa.Store)
							if !ok || st.Addr != fv {
								continue
							}
							var subs []*Inst
							for k, v := range i.closureStores {
								if k.mc == r {
									subs = append(subs, v...)
								}
							}
							if len(subs) == 0 {
								known = false
							}
							for _, sub := range subs {
								if sub.out == nil || sub.out[b.Index] == nil {
									continue
								}
								o, k := sub.origins(st.Val, map[ssa.Value]bool{}, d+1)
								out, known = append(out, o...), known && k
							}
						}
					}
				}
			case *ssa.UnOp, *ssa.DebugRef:
			default:
				known = false
			}
		}
		return out, known
	}
	return nil, false
}

func (i *Inst) callOrigins(c *ssa.Call, idx, d int) (out []origin, known bool) {
	ci := i.call(c)
	if ci.sub == nil || ci.fn == nil || !i.e.isTransparent(ci.fn) {
		return nil, false
	}
	known = true
	for _, r := range ci.sub.rets {
		if !r.ok || idx >= len(r.instr.Results) {
			continue
		}
		o, k := ci.sub.origins(r.val(idx), map[ssa.Value]bool{}, d+1)
		out, known = append(out, o...), known && k
	}
	return out, known
}

// collected: facts that hold of every element of the slice v because of how it
// was filled.
func (i *Inst) collected(v ssa.Value) []*Fact {
	os, known := i.origins(v, map[ssa.Value]bool{}, 0)
	if !known || len(os) == 0 {
		return nil
	}
	s := os[0].facts
	for _, o := range os[1:] {
		if o.elem != os[0].elem {
			return nil
		}
		s = join(s, o.facts)
	}
	return s.facts()
}
