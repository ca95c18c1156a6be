package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	custom["ctor"] = ruleCtor
	custom["writers"] = ruleWriters
	custom["argtype"] = ruleArgType
}

// ruleCtor: "FN field pattern": the constructor stores exactly the given value
// in the field of the structure it builds.
func ruleCtor(c *Check, arg string) {
	f := strings.SplitN(arg, " ", 3)
	fn := c.Fn(f[0])
	if fn == nil {
		return
	}
	in := c.e.Root(fn)
	p := c.e.P(f[2])
	key := "ctor:" + f[0] + "." + f[1]
	n := 0
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok {
				continue
			}
			fa, ok := st.Addr.(*ssa.FieldAddr)
			if !ok || fieldName(fa.X.Type(), fa.Field) != f[1] || c.e.keeperName(fa.X.Type()) == "" {
				continue
			}
			n++
			t := in.T(st.Val)
			if p.match(t, Env{}) {
				c.pass(key, "constructor-field")
			} else {
				c.fail(key, "constructor-field", c.e.where(ins), "%s stores %s in field %s, expected %s", f[0], t.str(5), f[1], f[2])
			}
		}
	}
	if n == 0 {
		c.fail(key, "constructor-field", c.e.whereFn(fn), "%s does not set field %s", f[0], f[1])
	}
}

// ruleArgType: "FN idx TYPE": every call of FN in the application passes a
// value of the given type.
func ruleArgType(c *Check, arg string) {
	f := strings.Fields(arg)
	key := "argtype:" + f[0]
	idx := 0
	fmt.Sscan(f[1], &idx)
	n := 0
	for _, fn := range c.e.repoFns {
		pos := c.e.fset.Position(fn.Pos()).Filename
		if strings.HasSuffix(pos, "_test.go") || strings.Contains(pos, "/testutils/") || fn.Pkg == nil || !strings.HasPrefix(shortPkg(fn.Pkg.Pkg.Path()), "app") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sc := call.Common().StaticCallee()
				if sc == nil || c.e.fnName(sc) != expandAbbrev(f[0]) {
					continue
				}
				n++
				a := call.Common().Args[idx]
				if mi, ok := a.(*ssa.MakeInterface); ok {
					a = mi.X
				}
				t := a.Type()
				got := types.TypeString(derefType(t), func(p *types.Package) string { return shortPkg(p.Path()) })
				if got == f[2] {
					c.pass(key, "wiring-type")
				} else {
					c.fail(key, "wiring-type", c.e.where(ins), "%s is given a %s, expected %s", f[0], got, f[2])
				}
			}
		}
	}
	if n != 1 {
		c.fail(key, "wiring-count", "", "%s is called %d times by the application, expected once", f[0], n)
	}
}

// ruleWriters: "STORE root root …": only the given entry points reach a write
// of the store ("root:Op,Op" restricts the operations too).
func ruleWriters(c *Check, arg string) {
	f := strings.Fields(arg)
	allowed := map[string]string{}
	for _, r := range f[1:] {
		n, ops := r, ""
		if k := strings.Index(r, ":"); k > 0 {
			n, ops = r[:k], r[k+1:]
		}
		allowed[expandAbbrev(n)] = ops
	}
	if c.e.writersMemo == nil {
		c.e.writersMemo = c.e.storeWriters()
	}
	got := c.e.writersMemo[f[0]]
	if sub, ok := strings.CutPrefix(f[0], "~"); ok {
		// every store whose name contains the text
		got = map[string]map[string]string{}
		for st, m := range c.e.writersMemo {
			if !strings.Contains(st, sub) {
				continue
			}
			for r, ops := range m {
				if got[r] == nil {
					got[r] = map[string]string{}
				}
				for op, w := range ops {
					if o, has := got[r][op]; !has || w < o {
						got[r][op] = w
					}
				}
			}
		}
	}
	if len(got) == 0 {
		c.fail("writers:"+f[0], "store-writers", "", "no entry point writes store %s", f[0])
		return
	}
	var roots []string
	for r := range got {
		roots = append(roots, r)
	}
	sort.Strings(roots)
	for _, r := range roots {
		ops, ok := allowed[r]
		for op, where := range got[r] {
			key := "writers:" + f[0] + ":" + r + ":" + op
			if star, has := allowed["*"]; !ok && has {
				if star == op {
					c.pass(key, "store-writers")
					continue
				}
			}
			if !ok || (ops != "" && !strings.Contains(","+ops+",", ","+op+",")) {
				c.fail(key, "store-writers", where, "entry point %s reaches %s of store %s, which only %s may do", r, op, f[0], strings.Join(f[1:], " "))
			} else {
				c.pass(key, "store-writers")
			}
		}
	}
}
