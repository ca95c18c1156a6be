package main

import (
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() { custom["found"] = ruleFound }

// ruleFound: "FN ; SITEPAT => FACT && FACT": wherever a call that matches SITEPAT is
// reached in FN, each fact holds about the element it deals with, either directly (a
// search loop) or because a search of the standard library found the element with a
// predicate that is true only under the fact.
func ruleFound(c *Check, arg string) {
	p := strings.SplitN(arg, " ; ", 2)
	name := expandAbbrev(strings.TrimSpace(p[0]))
	fn := c.Fn(name)
	if fn == nil {
		return
	}
	q := strings.SplitN(p[1], "=>", 2)
	pat := c.e.P(strings.TrimSpace(q[0]))
	var fps []*FactPat
	for _, x := range strings.Split(q[1], "&&") {
		fps = append(fps, c.e.F(strings.TrimSpace(x)))
	}
	n := 0
	c.e.Root(fn).Visit(func(st *Site, s Set, stack []*Site) {
		if !pat.match(st.call, Env{}) {
			return
		}
		n++
		c.sites++
		for _, fp := range fps {
			key := "found:" + name + ":" + fp.src
			if fp.holds(s, Env{}) || c.searched(s, fp) {
				c.pass(key, "found-under")
			} else {
				c.fail(key, "found-under", c.e.where(st.instr), "%s reaches %s for an element that was not looked up by %s", name, st.call.str(3), fp.src)
			}
		}
	})
	if n == 0 {
		c.fail("found:"+name, "found-under", c.e.whereFn(fn), "%s never reaches %s", name, strings.TrimSpace(q[0]))
	}
}

// searched: one of the facts says that sort.Search or slices.IndexFunc found an
// element, and its predicate is true only under fp.
func (c *Check) searched(s Set, fp *FactPat) bool {
	for _, id := range s {
		f := factList[id]
		if f.Kind != 'F' && f.Kind != 'T' || f.T.Op == "call" || len(f.T.Args) != 2 {
			continue
		}
		for k, x := range f.T.Args {
			if x.Op != "call" || len(x.Args) != 2 {
				continue
			}
			o := f.T.Args[1-k]
			ok := false
			switch x.S {
			case "sort.Search":
				// i != n, or i < n
				ok = o == x.Args[0] && (f.T.Op == "eq" && f.Kind == 'F' || f.T.Op == "lt" && f.Kind == 'T' && k == 0)
			case "slices.IndexFunc":
				// i != -1, or i >= 0
				ok = f.T.Op == "eq" && f.Kind == 'F' && o.str(2) == "-1" || f.T.Op == "lt" && (f.Kind == 'F' && k == 0 && o.str(2) == "0" || f.Kind == 'T' && k == 1 && o.str(2) == "-1")
			}
			if !ok {
				continue
			}
			pred, isFn := x.Args[1].fn.(*ssa.Function)
			if !isFn || pred == nil {
				continue
			}
			if c.e.closures == nil {
				c.e.closures = map[*ssa.Function][]*Term{}
			}
			c.e.closures[pred] = x.Args[1].Args
			in := c.e.Root(pred)
			good := len(in.rets) > 0
			for _, r := range in.rets {
				if !r.ok || len(r.instr.Results) == 0 {
					continue
				}
				fs, ok := in.implied(r.val(0), true, r.facts, 0)
				if !ok {
					continue
				}
				if k, known := branchKnown(r.val(0), r.instr.Block()); known && !k {
					continue
				}
				if !fp.holds(in.addFacts(r.facts, fs...), Env{}) {
					good = false
				}
			}
			if good {
				return true
			}
		}
	}
	return false
}
