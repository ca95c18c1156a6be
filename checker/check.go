package main

import (
	"encoding/json"
	"fmt"
	"go/token"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

type Violation struct {
	Key   string `json:"key"`
	Rule  string `json:"rule"`
	Where string `json:"where"`
	Msg   string `json:"message"`
}

// Check accumulates the obligations of one property.
type Check struct {
	e           *Engine
	id          string
	group       string
	obl         map[string]bool // key -> discharged
	order       []string
	viol        []Violation
	sites       int
	fns         map[string]bool
	rules       map[string]int
	assumptions []string
	samples     []string
	anchors     map[string]*ssa.Function // closures already resolved
	used        map[string]bool          // lint: assumptions that decided something
	underMemo   map[string]map[string]*Inst
	under       string // assumption of the section being decided (part of keys)
}

func (c *Check) fail(key, rule, where, format string, a ...interface{}) {
	c.obligation(key, rule, false)
	c.viol = append(c.viol, Violation{Key: key + c.under, Rule: rule, Where: where, Msg: fmt.Sprintf(format, a...)})
}

func (c *Check) obligation(key, rule string, ok bool) {
	key += c.under
	if _, seen := c.obl[key]; !seen {
		c.order = append(c.order, key)
		c.obl[key] = ok
		c.rules[rule]++
	} else if !ok {
		c.obl[key] = false
	}
}

func (c *Check) pass(key, rule string) { c.obligation(key, rule, true) }

// Fn resolves an anchor; nil (plus a violation) if it is gone.
func (c *Check) Fn(name string) *ssa.Function {
	name = expandAbbrev(name)
	if p := strings.Split(name, "@"); len(p) >= 3 {
		n := len(p)
		if f := c.anchors[name]; f != nil {
			return f
		}
		if c.anchors == nil {
			c.anchors = map[string]*ssa.Function{}
		}
		f := c.closureFn(name, strings.Join(p[:n-2], "@"), p[n-2], p[n-1])
		if f != nil {
			c.anchors[name] = f
		}
		return f
	}
	if fn, ok := c.e.byName[name]; ok {
		c.fns[name] = true
		return fn
	}
	var hit *ssa.Function
	n := 0
	for k, f := range c.e.byName {
		if nameMatch(name, k) {
			hit = f
			n++
		}
	}
	if n == 1 {
		c.fns[c.e.fnName(hit)] = true
		return hit
	}
	c.fail("anchor:"+name, "anchor", "", "anchor function %s not found (%d candidates)", name, n)
	return nil
}

// closureFn resolves "FN@return@K", the closure that FN returns as its K-th
// result, and "FN@CALL@K": the function value that FN passes as the
// K-th argument (from 0) of its only call of CALL.  Its parameters are $_1, $_2…
// and what it captures keeps its value.
func (c *Check) closureFn(name, fnName, call, k string) *ssa.Function {
	fn := c.Fn(fnName)
	if fn == nil {
		return nil
	}
	path := strings.Split(k, ":") // "K:F": the function value in field F of that argument
	idx, err := strconv.Atoi(path[0])
	if err != nil {
		panic("bad closure anchor " + name)
	}
	inField := func(t *Term) *Term {
		for _, f := range path[1:] {
			t = mkField(t, f)
		}
		return t
	}
	var hits []*Term
	seen := map[int32]bool{}
	if call == "return" {
		if r := c.e.Root(fn); idx < len(r.results) && r.results[idx] != nil {
			hits = append(hits, inField(r.results[idx]))
		}
	}
	own := false // calls made by fn itself come first
	c.e.Root(fn).Visit(func(st *Site, s Set, stack []*Site) {
		if call != "return" && nameMatch(call, st.name) && idx < len(st.call.Args) && st.inst.fn == fn && !own {
			own = true
			hits, seen = nil, map[int32]bool{}
		}
		if own && st.inst.fn != fn {
			return
		}
		if call == "return" || !nameMatch(call, st.name) || idx >= len(st.call.Args) {
			return
		}
		if t := inField(st.call.Args[idx]); !seen[int32(t.id)] {
			seen[int32(t.id)] = true
			hits = append(hits, t)
		}
	})
	if len(hits) == 1 {
		if f, ok := hits[0].fn.(*ssa.Function); ok && f != nil {
			if c.e.closures == nil {
				c.e.closures = map[*ssa.Function][]*Term{}
			}
			c.e.closures[f] = hits[0].Args
			return f
		}
	}
	c.fail("anchor:"+name, "anchor", c.e.whereFn(fn), "%s: no single function value passed to %s (%d)", fnName, call, len(hits))
	return nil
}

func (c *Check) Root(name string) *Inst {
	fn := c.Fn(name)
	if fn == nil {
		return nil
	}
	return c.e.Root(fn)
}

// withDerived runs f with extra disjunction facts; analyses are not shared.
func (c *Check) withDerived(ds []*Derived, f func()) {
	oldM, oldD := c.e.memo, c.e.derived
	c.e.memo, c.e.derived = map[string]*Inst{}, ds
	f()
	c.e.memo, c.e.derived = oldM, oldD
}

// splitAlt splits "a || b || c".
func splitAlt(s string) []string {
	var out []string
	for _, p := range strings.Split(s, "||") {
		out = append(out, strings.TrimSpace(p))
	}
	return out
}

func (c *Check) derivedFor(name string, alts []string) *Derived {
	var fps []*FactPat
	for _, a := range alts {
		fps = append(fps, c.e.F(a))
	}
	return &Derived{Name: name, cache: map[int32]bool{}, Match: func(f *Fact) bool {
		for _, fp := range fps {
			if fp.match(f, Env{}) {
				return true
			}
		}
		return false
	}}
}

func hasDerived(s Set, name string) bool {
	f, ok := factTab[fkey('D', false, mk("derived", name))]
	return ok && s.has(f.id)
}

// Success: on every success return of entry each of facts holds.  "a || b"
// means: on every path, a or b.
func (c *Check) Success(entry string, facts ...string) {
	fn := c.Fn(entry)
	if fn == nil {
		return
	}
	for _, src := range facts {
		key := "success:" + entry + ":" + src
		if src == "never" {
			if in := c.e.Root(fn); in.succOK {
				c.fail(key, "on-success", c.e.whereFn(fn), "%s can return success in this case%s", entry, c.badReturns(in, func(s Set) bool { return false }))
			} else {
				c.pass(key, "on-success")
			}
			continue
		}
		alts := splitAlt(src)
		if len(alts) == 1 {
			in := c.e.Root(fn)
			if !in.succOK {
				c.fail(key, "on-success", c.e.whereFn(fn), "%s has no success path", entry)
				continue
			}
			if c.e.F(src).holds(in.succ, Env{}) {
				c.pass(key, "on-success")
			} else {
				c.fail(key, "on-success", c.e.whereFn(fn), "%s can return success without: %s%s", entry, src, c.badReturns(in, func(s Set) bool { return c.e.F(src).holds(s, Env{}) }))
			}
			continue
		}
		d := c.derivedFor(src, alts)
		c.withDerived([]*Derived{d}, func() {
			in := c.e.Root(fn)
			if !in.succOK {
				c.fail(key, "on-success", c.e.whereFn(fn), "%s has no success path", entry)
				return
			}
			whole := hasDerived(in.succ, src)
			for _, a := range alts {
				whole = whole || c.e.F(a).holds(in.succ, Env{})
			}
			if whole {
				c.pass(key, "on-success")
			} else {
				c.fail(key, "on-success", c.e.whereFn(fn), "%s can return success with none of: %s%s", entry, src, c.badReturns(in, func(s Set) bool { return hasDerived(s, src) }))
			}
		})
	}
}

func (c *Check) badReturns(in *Inst, ok func(Set) bool) string {
	var ws []string
	for _, r := range in.rets {
		if r.ok && !ok(exported(r.facts)) {
			ws = append(ws, c.e.where(r.instr))
		}
	}
	if len(ws) == 0 {
		return ""
	}
	return " (success return at " + strings.Join(ws, ", ") + ")"
}

// Guard: every site reachable from entry whose call matches sitePat has all
// facts; at least min sites must exist.
func (c *Check) Guard(entry, sitePat string, min int, facts ...string) {
	fn := c.Fn(entry)
	if fn == nil {
		return
	}
	p := c.e.P(sitePat)
	c.guardSites(entry, fn, sitePat, func(st *Site, env Env) bool { return p.match(st.call, env) }, min, facts)
}

func (c *Check) guardSites(entry string, fn *ssa.Function, label string, sel func(*Site, Env) bool, min int, facts []string) {
	var ds []*Derived
	for _, f := range facts {
		if alts := splitAlt(f); len(alts) > 1 && !strings.Contains(f, "?") {
			ds = append(ds, c.derivedFor(f, alts))
		}
	}
	run := func() {
		in := c.e.Root(fn)
		n := 0
		in.Visit(func(st *Site, s Set, stack []*Site) {
			env := Env{}
			if !sel(st, env) {
				return
			}
			n++
			c.sites++
			for _, src := range facts {
				key := "guard:" + entry + ":" + label + ":" + src
				ok := false
				alts := splitAlt(src)
				if len(alts) > 1 && hasDerived(s, src) {
					ok = true
				}
				for _, a := range alts {
					if ok {
						break
					}
					ok = c.e.F(a).holds(s, env.clone())
				}
				if ok {
					c.pass(key, "guarded-effect")
				} else {
					c.fail(key, "guarded-effect", c.e.where(st.instr), "%s reaches %s without: %s%s", entry, st.call.str(4), src, chain(c.e, stack))
				}
			}
		})
		key := "sites:" + entry + ":" + label
		if n < min {
			c.fail(key, "instance-count", c.e.whereFn(fn), "%s: %d sites match %s, expected at least %d", entry, n, label, min)
		} else {
			c.pass(key, "instance-count")
		}
	}
	if len(ds) > 0 {
		c.withDerived(ds, run)
	} else {
		run()
	}
}

func chain(e *Engine, stack []*Site) string {
	if len(stack) == 0 {
		return ""
	}
	var ss []string
	for _, s := range stack {
		ss = append(ss, s.name+"@"+e.where(s.instr))
	}
	return " via " + strings.Join(ss, " > ")
}

// Calls: at least min (and, when max>=0, at most max) sites reachable from entry match.
func (c *Check) Calls(entry, sitePat string, min, max int) {
	fn := c.Fn(entry)
	if fn == nil {
		return
	}
	p := c.e.P(sitePat)
	key := "calls:" + entry + ":" + sitePat
	n := 0
	seen := map[ssa.CallInstruction]bool{}
	c.e.Root(fn).Visit(func(st *Site, s Set, stack []*Site) {
		if p.match(st.call, Env{}) && !seen[st.instr] {
			seen[st.instr] = true
			n++
		}
	})
	c.sites += n
	if n < min || max >= 0 && n > max {
		c.fail(key, "instance-count", c.e.whereFn(fn), "%s: %d sites match %s, expected %d..%d", entry, n, sitePat, min, max)
	} else {
		c.pass(key, "instance-count")
	}
}

// Only: every site reachable from entry whose callee matches one of names must match one of pats.
func (c *Check) Only(entry string, names []string, min int, pats ...string) {
	fn := c.Fn(entry)
	if fn == nil {
		return
	}
	var ps []*Pat
	for _, s := range pats {
		ps = append(ps, c.e.P(s))
	}
	label := strings.Join(names, "|")
	n := 0
	c.e.Root(fn).Visit(func(st *Site, s Set, stack []*Site) {
		hit := false
		for _, nm := range names {
			if nameMatch(expandAbbrev(nm), st.name) {
				hit = true
			}
		}
		if !hit {
			return
		}
		n++
		c.sites++
		key := "only:" + entry + ":" + label
		for _, p := range ps {
			if p.match(st.call, Env{}) {
				c.pass(key, "allowed-effect")
				return
			}
		}
		c.fail(key, "allowed-effect", c.e.where(st.instr), "%s performs %s, which is none of: %s%s", entry, st.call.str(6), strings.Join(pats, " ; "), chain(c.e, stack))
	})
	key := "sites:" + entry + ":only:" + label
	if n < min {
		c.fail(key, "instance-count", c.e.whereFn(fn), "%s: %d sites of %s, expected at least %d", entry, n, label, min)
	} else {
		c.pass(key, "instance-count")
	}
}

// Result: result idx of entry (on success) matches pat.
func (c *Check) Result(entry string, idx int, pat string) {
	fn := c.Fn(entry)
	if fn == nil {
		return
	}
	key := fmt.Sprintf("result:%s:%d:%s", entry, idx, pat)
	in := c.e.Root(fn)
	if idx >= len(in.results) || in.results[idx] == nil {
		c.fail(key, "result-shape", c.e.whereFn(fn), "%s: no result %d", entry, idx)
		return
	}
	p := c.e.P(pat)
	ok := p.match(in.results[idx], Env{})
	if ok && p.op == "alt" && p.s != "any" {
		// every alternative must be taken by some member
		ms := []*Term{in.results[idx]}
		if ms[0].Op == "union" {
			ms = ms[0].Args
		}
		for _, a := range p.args {
			hit := false
			for _, m := range ms {
				hit = hit || a.match(m, Env{})
			}
			ok = ok && hit
		}
	}
	if ok {
		c.pass(key, "result-shape")
	} else {
		c.fail(key, "result-shape", c.e.whereFn(fn), "%s: result %d is %s, want %s", entry, idx, in.results[idx].str(8), pat)
	}
}

// ReturnsUnder: on every return of entry where result idx may be truth, fact holds.
func (c *Check) ReturnsUnder(entry string, idx int, truth bool, facts ...string) {
	fn := c.Fn(entry)
	if fn == nil {
		return
	}
	for _, src := range facts {
		key := fmt.Sprintf("returns:%s:%d=%v:%s", entry, idx, truth, src)
		alts := splitAlt(src)
		run := func() {
			in := c.e.Root(fn)
			n := 0
			for _, r := range in.rets {
				if !r.ok || idx >= len(r.instr.Results) {
					continue
				}
				fs, ok := in.implied(r.val(idx), truth, r.facts, 0)
				for _, f := range fs {
					if in.e.assumedAway(f) || contradicts(r.facts, f) {
						ok = false
					}
				}
				if !ok {
					continue
				}
				if k, known := branchKnown(r.val(idx), r.instr.Block()); known && k != truth {
					continue
				}
				n++
				s := in.addFacts(r.facts, fs...)
				good := false
				if len(alts) > 1 && hasDerived(s, src) {
					good = true
				}
				for _, a := range alts {
					if !good {
						good = c.e.F(a).holds(s, Env{})
					}
				}
				if good {
					c.pass(key, "result-implies")
				} else {
					c.fail(key, "result-implies", c.e.where(r.instr), "%s can return %v without: %s", entry, truth, src)
				}
			}
			if n == 0 {
				c.fail(key, "result-implies", c.e.whereFn(fn), "%s never returns %v", entry, truth)
			}
		}
		if len(alts) > 1 {
			c.withDerived([]*Derived{c.derivedFor(src, alts)}, run)
		} else {
			run()
		}
	}
}

// ---- write effects ----

var writeSuffix = []string{
	"collections.Map.Set", "collections.Map.Remove", "collections.Map.Clear",
	"collections.Item.Set", "collections.Item.Remove",
	"collections.KeySet.Set", "collections.KeySet.Remove", "collections.KeySet.Clear",
	"collections.Sequence.Set", "collections.Sequence.Next",
	"collections.IndexedMap.Set", "collections.IndexedMap.Remove", "collections.IndexedMap.Clear",
	"store.KVStore.Set", "store.KVStore.Delete",
	"prefix.Store.Set", "prefix.Store.Delete",
	"BankKeeper.SendCoins", "BankKeeper.SendCoinsFromAccountToModule", "BankKeeper.SendCoinsFromModuleToAccount",
	"BankKeeper.SendCoinsFromModuleToModule", "BankKeeper.MintCoins", "BankKeeper.BurnCoins", "BankKeeper.InputOutputCoins",
	"BankKeeper.DelegateCoins", "BankKeeper.UndelegateCoins", "BankKeeper.SetDenomMetaData",
	"FundCommunityPool", "AccountKeeper.SetAccount", "AccountKeeper.SetModuleAccount",
}

func isWrite(name string) bool {
	for _, w := range writeSuffix {
		if name == w || strings.HasSuffix(name, "."+w) || !strings.Contains(w, ".") && strings.HasSuffix(name, "."+w) {
			return true
		}
	}
	return false
}

// GuardWrites: every state write reachable from entry is preceded by facts.
func (c *Check) GuardWrites(entry string, min int, facts ...string) {
	c.GuardWritesExcept(entry, min, nil, facts...)
}

func (c *Check) GuardWritesExcept(entry string, min int, except []string, facts ...string) {
	fn := c.Fn(entry)
	if fn == nil {
		return
	}
	var ps []*Pat
	for _, s := range except {
		ps = append(ps, c.e.P(s))
	}
	c.guardSites(entry, fn, "any state write", func(st *Site, env Env) bool {
		if !isWrite(st.name) && !isHookCall(st.name) {
			return false
		}
		for _, p := range ps {
			if p.match(st.call, Env{}) {
				return false
			}
		}
		return true
	}, min, facts)
}

// Writes: every state write or hook call reachable from entry matches one of
// pats, and every pattern (unless prefixed "?? ") is matched by some site.
func (c *Check) Writes(entry string, pats ...string) {
	c.effects(entry, func(n string) bool { return isWrite(n) || isHookCall(n) }, "writes", pats)
}

// BankEffects: like Writes for movements of coins only.
func (c *Check) BankEffects(entry string, pats ...string) {
	c.effects(entry, isBankEffect, "bank", pats)
}

func isBankEffect(n string) bool {
	if !isWrite(n) {
		return false
	}
	for _, x := range []string{"SendCoins", "MintCoins", "BurnCoins", "InputOutputCoins", "DelegateCoins", "FundCommunityPool"} {
		if strings.Contains(n, x) {
			return true
		}
	}
	return false
}

func (c *Check) effects(entry string, sel func(string) bool, label string, pats []string) {
	fn := c.Fn(entry)
	if fn == nil {
		return
	}
	type ep struct {
		src string
		p   *Pat
		opt bool
		hit bool
		fn  bool // a repository function: stands for everything it does
	}
	var ps []*ep
	for _, s := range pats {
		x := &ep{src: s}
		if strings.HasPrefix(s, "?? ") {
			x.opt = true
			s = s[3:]
		}
		x.p = c.e.P(s)
		x.fn = x.p.op == "call" && c.e.repoFn(x.p.s) != nil && !isHookCall(x.p.s)
		ps = append(ps, x)
	}
	c.e.Root(fn).Visit(func(st *Site, s Set, stack []*Site) {
		for _, x := range ps {
			if !x.fn {
				continue
			}
			if st.call != nil && x.p.match(st.call, Env{}) {
				x.hit = true
				c.sites++
				return
			}
			for _, up := range stack {
				if up.call != nil && x.p.match(up.call, Env{}) {
					x.hit = true
					return
				}
			}
		}
		if !sel(st.name) {
			return
		}
		c.sites++
		ok := false
		for _, x := range ps {
			if x.p.match(st.call, Env{}) {
				x.hit, ok = true, true
			}
		}
		key := "effect:" + entry + ":" + label + ":" + shortEffect(st)
		if ok {
			c.pass(key, "allowed-effect")
		} else {
			c.fail(key, "allowed-effect", c.e.where(st.instr), "%s performs %s, which is not one of its specified effects%s", entry, st.call.str(7), chain(c.e, stack))
		}
	})
	for _, x := range ps {
		if x.opt {
			continue
		}
		key := "effect-present:" + entry + ":" + x.src
		if x.hit {
			c.pass(key, "effect-present")
		} else {
			c.fail(key, "effect-present", c.e.whereFn(fn), "%s never performs %s", entry, x.src)
		}
	}
}

func shortEffect(st *Site) string {
	n := st.name
	if len(st.call.Args) > 0 && st.call.Op == "call" {
		a := st.call.Args[0]
		if a.Op == "field" && a.Args[0].Op == "K" {
			n += "(" + a.Args[0].S + "." + a.S + ")"
		}
	}
	return n
}

func isHookCall(name string) bool {
	return strings.Contains(name, "Hooks.After") || strings.Contains(name, "Hooks.Before")
}

// ---- reporting ----

type KnownFinding struct {
	Property string `json:"property"`
	Key      string `json:"key"`
	What     string `json:"what"`
}

func loadKnown(dir string) []KnownFinding {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if err != nil {
		return nil
	}
	var k struct {
		Findings []KnownFinding `json:"findings"`
	}
	if err := json.Unmarshal(b, &k); err != nil {
		return nil
	}
	return k.Findings
}

func (c *Check) finish(out, tier string, seed int, t0 time.Time, explanation string) int {
	known := loadKnown(out)
	var bad []Violation
	seen := map[string]bool{}
	knownHit := 0
	for _, v := range c.viol {
		kk := v.Key + v.Where
		if seen[kk] {
			continue
		}
		seen[kk] = true
		isK := false
		for _, k := range known {
			if k.Property == c.id && k.Key == v.Key {
				isK = true
				if !seen["K"+k.Key] {
					seen["K"+k.Key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s (%s at %s)\n", c.id, k.What, v.Key, v.Where)
					knownHit++
				}
			}
		}
		if !isK {
			bad = append(bad, v)
		}
	}
	dis := 0
	for _, ok := range c.obl {
		if ok {
			dis++
		}
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	var und []string
	for _, k := range c.order {
		if !c.obl[k] {
			und = append(und, k)
		}
	}
	ev := map[string]interface{}{
		"property": c.id, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":         explanation,
			"obligations":         len(c.order),
			"discharged":          dis,
			"undischarged":        und,
			"rules":               c.rules,
			"anchor_functions":    fns,
			"call_sites_matched":  c.sites,
			"function_instances":  c.e.stats.insts,
			"packages_analysed":   len(c.e.pkgs),
			"source_functions":    len(c.e.repoFns),
			"known_findings_seen": knownHit,
			"obligation_keys":     c.order,
		},
		"assumptions": c.assumptions,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(bad),
	}
	os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(out, "evidence", c.id+".json"), b, 0o644)
	fmt.Printf("%s: %d obligations, %d discharged, %d anchor functions, %d matched call sites, %d violations\n", c.id, len(c.order), dis, len(fns), c.sites, len(bad))
	if len(bad) > 0 {
		rp := filepath.Join(out, "evidence", c.id+".violations.json")
		b, _ := json.MarshalIndent(bad, "", " ")
		os.WriteFile(rp, b, 0o644)
		for n, v := range bad {
			if n >= 20 {
				fmt.Printf("  … %d more\n", len(bad)-n)
				break
			}
			fmt.Printf("  [%s] %s: %s\n", v.Rule, v.Where, v.Msg)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, rp)
		return 1
	}
	os.Remove(filepath.Join(out, "evidence", c.id+".violations.json"))
	return 0
}

// branchKnown: the value of v in b, when b is only reached through a branch on v.
func branchKnown(v ssa.Value, b *ssa.BasicBlock) (bool, bool) {
	for c := b; c.Idom() != nil; c = c.Idom() {
		d := c.Idom()
		ifi, ok := d.Instrs[len(d.Instrs)-1].(*ssa.If)
		if !ok || d.Succs[0] == d.Succs[1] {
			continue
		}
		cond, neg := ifi.Cond, false
		if u, ok := cond.(*ssa.UnOp); ok && u.Op == token.NOT {
			cond, neg = u.X, true
		}
		if cond != v {
			continue
		}
		for k, s := range d.Succs {
			if len(s.Preds) == 1 && s.Dominates(b) {
				return (k == 0) != neg, true
			}
		}
	}
	return false, false
}
