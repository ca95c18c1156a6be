package main

import (
	"sort"
	"strings"
)

// Frame: each write of a stored record (storePat: write call with ?id, ?val)
// reachable from entry stores the previously stored record with only the given
// fields changed (nil = removal/creation not allowed).
func (c *Check) Frame(entry, writeName, store string, basePat string, min int, fields ...string) {
	fn := c.Fn(entry)
	if fn == nil {
		return
	}
	wp := c.e.P(writeName + "(K:" + store + ", _, ?val)")
	bp := c.e.P(basePat)
	label := writeName + "(" + store + ")"
	n := 0
	allowed := map[string]bool{}
	for _, f := range fields {
		allowed[strings.SplitN(f, "=", 2)[0]] = true
	}
	c.e.Root(fn).Visit(func(st *Site, s Set, stack []*Site) {
		env := Env{}
		if !wp.match(st.call, env) {
			return
		}
		n++
		c.sites++
		key := "frame:" + entry + ":" + label
		v := env["val"]
		vals := []*Term{v}
		if v.Op == "union" {
			vals = v.Args
		}
		for _, v := range vals {
			upd := map[string]*Term{}
			b := v
			for b.Op == "upd" {
				if _, ok := upd[b.S]; !ok {
					upd[b.S] = b.Args[1]
				}
				b = b.Args[0]
			}
			benv := Env{}
			if !bp.match(b, benv) {
				c.fail(key, "frame-condition", c.e.where(st.instr), "%s stores %s which is not derived from the stored record (%s)%s", entry, v.str(5), basePat, chain(c.e, stack))
				continue
			}
			var bad []string
			for f, x := range upd {
				// rewriting a field with its old value is no change
				if x == mkField(b, f) {
					continue
				}
				if !allowed[f] {
					bad = append(bad, f)
				}
			}
			sort.Strings(bad)
			if len(bad) > 0 {
				c.fail(key, "frame-condition", c.e.where(st.instr), "%s changes field(s) %s of the record; only %s may change%s", entry, strings.Join(bad, ","), strings.Join(fields, ","), chain(c.e, stack))
				continue
			}
			c.pass(key, "frame-condition")
			for _, f := range fields {
				kv := strings.SplitN(f, "=", 2)
				if len(kv) != 2 {
					continue
				}
				k2 := key + ":" + f
				x := mkField(v, kv[0])
				if c.e.P(kv[1]).match(x, benv.clone()) {
					c.pass(k2, "frame-value")
				} else {
					c.fail(k2, "frame-value", c.e.where(st.instr), "%s sets %s to %s, expected %s%s", entry, kv[0], x.str(6), kv[1], chain(c.e, stack))
				}
			}
		}
	})
	key := "sites:" + entry + ":" + label
	if n < min {
		c.fail(key, "instance-count", c.e.whereFn(fn), "%s: %d writes %s, expected at least %d", entry, n, label, min)
	} else {
		c.pass(key, "instance-count")
	}
}
