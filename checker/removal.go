package main

import (
	"go/constant"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { custom["removal"] = ruleRemoval }

// ruleRemoval: in every function of the packages whose path contains arg, a loop
// that removes the element at its index from the slice it visits leaves the index
// where the next element has moved to (or walks downwards), and does not read the
// element at that index again before moving on.
func ruleRemoval(c *Check, arg string) {
	seen := 0
	for _, fn := range c.e.coreFns() {
		if fn.Pkg == nil || !strings.Contains(fn.Pkg.Pkg.Path(), strings.TrimSpace(arg)) {
			continue
		}
		for _, b := range fn.Blocks {
			for i, ins := range b.Instrs {
				idx, removed := removalIndex(ins)
				if idx == nil {
					continue
				}
				phi, off := indexPhi(idx)
				if phi == nil || !isLoopHeader(phi.Block()) || !inLoop(phi.Block(), b) {
					continue
				}
				seen++
				c.sites++
				c.fns[c.e.fnName(fn)] = true
				w := &removalWalk{header: phi.Block(), phi: phi, rem: b, removed: removed}
				w.block(b, i+1, nil, 0)
				key := "removal:" + c.e.fnName(fn)
				if off != 0 || w.bad != "" {
					at := w.at
					if at == nil {
						at = ins
					}
					c.fail(key, "removal-in-loop", c.e.where(at), "%s removes the element at its loop index and then %s", c.e.fnName(fn), w.bad)
				} else {
					c.pass(key, "removal-in-loop")
				}
			}
		}
	}
	c.noteS("removal: %d loops that remove at their index", seen)
}

// removalIndex gives the index at which an instruction removes an element from a
// slice: append(s[:i], s[i+1:]...), slices.Delete(s, i, i+1), or a call to a
// function whose body does so with a parameter.
func removalIndex(ins ssa.Instruction) (ssa.Value, types.Type) {
	call, ok := ins.(*ssa.Call)
	if !ok {
		return nil, nil
	}
	args := call.Call.Args
	if bi, ok := call.Call.Value.(*ssa.Builtin); ok {
		if bi.Name() != "append" || len(args) != 2 {
			return nil, nil
		}
		a, okA := args[0].(*ssa.Slice)
		b, okB := args[1].(*ssa.Slice)
		if !okA || !okB || a.Low != nil || a.High == nil || b.Low == nil || b.High != nil {
			return nil, nil
		}
		if add, ok := stripConv(b.Low).(*ssa.BinOp); ok && add.Op == token.ADD && isOne(add.Y) && stripConv(add.X) == stripConv(a.High) {
			return stripConv(a.High), a.Type()
		}
		return nil, nil
	}
	f := call.Call.StaticCallee()
	if f == nil {
		return nil, nil
	}
	if org := f.Origin(); org != nil && org.Pkg != nil && org.Pkg.Pkg.Path() == "slices" && org.Name() == "Delete" && len(args) == 3 {
		return stripConv(args[1]), args[0].Type()
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if in == ins {
				continue
			}
			if c, ok := in.(*ssa.Call); ok {
				if _, isB := c.Call.Value.(*ssa.Builtin); isB {
					if v, t := removalIndex(c); v != nil {
						for k, p := range f.Params {
							if v == ssa.Value(p) && k < len(args) {
								return stripConv(args[k]), t
							}
						}
					}
				}
			}
		}
	}
	return nil, nil
}

func stripConv(v ssa.Value) ssa.Value {
	for {
		switch x := v.(type) {
		case *ssa.Convert:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		default:
			return v
		}
	}
}

func isOne(v ssa.Value) bool { k, ok := intConst(v); return ok && k == 1 }

func intConst(v ssa.Value) (int64, bool) {
	c, ok := stripConv(v).(*ssa.Const)
	if !ok || c.Value == nil || c.Value.Kind() != constant.Int {
		return 0, false
	}
	return c.Int64(), true
}

// indexPhi resolves v to a phi plus a constant.
func indexPhi(v ssa.Value) (*ssa.Phi, int64) {
	var off int64
	for {
		switch x := stripConv(v).(type) {
		case *ssa.Phi:
			return x, off
		case *ssa.BinOp:
			k, ok := intConst(x.Y)
			if !ok || x.Op != token.ADD && x.Op != token.SUB {
				return nil, 0
			}
			// the index of a range loop: the header's phi plus one
			if x.Op == token.ADD && k == 1 && isLoopHeader(x.Block()) {
				if p, ok := x.X.(*ssa.Phi); ok && p.Block() == x.Block() {
					return p, off
				}
			}
			if x.Op == token.SUB {
				k = -k
			}
			off += k
			v = x.X
		default:
			return nil, 0
		}
	}
}

func isLoopHeader(b *ssa.BasicBlock) bool {
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func inLoop(h, b *ssa.BasicBlock) bool {
	if !h.Dominates(b) {
		return false
	}
	seen := map[*ssa.BasicBlock]bool{b: true}
	work := []*ssa.BasicBlock{b}
	for len(work) > 0 {
		x := work[0]
		work = work[1:]
		for _, s := range x.Succs {
			if s == h {
				return true
			}
			if !seen[s] && h.Dominates(s) {
				seen[s] = true
				work = append(work, s)
			}
		}
	}
	return false
}

// removalWalk follows every path from a removal to the loop's back edge.
type removalWalk struct {
	header  *ssa.BasicBlock
	phi     *ssa.Phi
	rem     *ssa.BasicBlock
	removed types.Type
	bad     string
	at      ssa.Instruction
	steps   int
}

func (w *removalWalk) block(b *ssa.BasicBlock, from int, path []*ssa.BasicBlock, depth int) {
	w.steps++
	if w.bad != "" || w.steps > 20000 {
		return
	}
	path = append(append([]*ssa.BasicBlock(nil), path...), b)
	for _, ins := range b.Instrs[from:] {
		if ia, ok := ins.(*ssa.IndexAddr); ok && types.Identical(ia.X.Type(), w.removed) {
			if off, ok := w.offset(ia.Index, path); ok && off == 0 {
				w.bad, w.at = "reads the element that took its place", ins
				return
			}
		}
	}
	for _, s := range b.Succs {
		if s == w.header {
			for i, p := range s.Preds {
				if p != b {
					continue
				}
				off, ok := w.offset(w.phi.Edges[i], path)
				// the index phi of a range loop starts at -1: its step comes after the header
				if ok && w.rangeLoop() {
					off++
				}
				if ok && off > 0 {
					w.bad, w.at = "moves past the element that took its place", b.Instrs[len(b.Instrs)-1]
				}
			}
			continue
		}
		looped := false
		for _, p := range path {
			looped = looped || p == s
		}
		if !looped && w.header.Dominates(s) {
			w.block(s, 0, path, depth+1)
		}
	}
}

// rangeLoop reports that the header itself advances the phi before it is used.
func (w *removalWalk) rangeLoop() bool {
	for _, ins := range w.header.Instrs {
		if x, ok := ins.(*ssa.BinOp); ok && x.Op == token.ADD && x.X == ssa.Value(w.phi) && isOne(x.Y) {
			return true
		}
	}
	return false
}

// offset of a value from the index that was removed, along a path.
func (w *removalWalk) offset(v ssa.Value, path []*ssa.BasicBlock) (int64, bool) {
	var off int64
	for n := 0; n < 50; n++ {
		switch x := stripConv(v).(type) {
		case *ssa.Phi:
			if x == w.phi {
				if w.rangeLoop() {
					return off - 1, true
				}
				return off, true
			}
			at := -1
			for i := len(path) - 1; i > 0; i-- {
				if path[i] == x.Block() {
					at = i
					break
				}
			}
			if at < 1 {
				return 0, false
			}
			found := false
			for i, p := range x.Block().Preds {
				if p == path[at-1] {
					v, found = x.Edges[i], true
					break
				}
			}
			if !found {
				return 0, false
			}
		case *ssa.BinOp:
			k, ok := intConst(x.Y)
			if !ok || x.Op != token.ADD && x.Op != token.SUB {
				return 0, false
			}
			if x.Op == token.SUB {
				k = -k
			}
			off += k
			v = x.X
		default:
			return 0, false
		}
	}
	return 0, false
}

func init() { custom["chosen"] = ruleChosen }

// ruleChosen: "FN ; PAT => FACT && FACT": wherever FN or code inlined into it keeps a
// value that matches PAT in a variable, the facts hold.
func ruleChosen(c *Check, arg string) {
	p := strings.SplitN(arg, " ; ", 2)
	name := expandAbbrev(strings.TrimSpace(p[0]))
	fn := c.Fn(name)
	if fn == nil {
		return
	}
	q := strings.SplitN(p[1], "=>", 2)
	pat := c.e.P(strings.TrimSpace(q[0]))
	var fps []*FactPat
	for _, x := range strings.Split(q[1], "&&") {
		fps = append(fps, c.e.F(strings.TrimSpace(x)))
	}
	n := 0
	check := func(ins ssa.Instruction, facts Set) {
		n++
		c.sites++
		for _, fp := range fps {
			key := "chosen:" + name + ":" + fp.src
			if fp.holds(facts, Env{}) {
				c.pass(key, "chosen-under")
			} else {
				c.fail(key, "chosen-under", c.e.where(ins), "%s takes %s without %s", name, strings.TrimSpace(q[0]), fp.src)
			}
		}
	}
	scan := func(in *Inst, base Set) {
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Store:
					if in.in[b.Index] != nil && pat.match(in.T(x.Val), Env{}) {
						check(ins, union(base, in.in[b.Index]))
					}
				case *ssa.Phi:
					for i, v := range x.Edges {
						if _, isPhi := v.(*ssa.Phi); isPhi || in.out[b.Preds[i].Index] == nil || !pat.match(in.T(v), Env{}) {
							continue
						}
						if s, ok := in.edgeFacts(b.Preds[i], b, 0); ok {
							check(ins, union(base, s))
						}
					}
				}
			}
		}
	}
	root := c.e.Root(fn)
	scan(root, nil)
	seen := map[*Inst]bool{}
	root.Visit(func(st *Site, base Set, stack []*Site) {
		for _, sub := range st.subs {
			if !seen[sub] {
				seen[sub] = true
				scan(sub, base)
			}
		}
	})
	c.noteS("chosen: %d places in %s", n, name)
}
