package main

import (
	"embed"
	"fmt"
	"go/token"
	"os"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

//go:embed rules/*.txt
var ruleFS embed.FS

// Rule is one line of the rule files.
type Rule struct {
	op   string
	text string
	pos  string
}

type Section struct {
	name  string // entry point
	under string // assumed facts ("a && b")
	rules []Rule
	pos   string
}

type RuleProp struct {
	id   string
	why  string
	secs []*Section
	cust []Rule
	ass  []string
}

var fnSecs = map[string][]*Section{} // function semantics shared by all properties
var ruleProps = map[string]*RuleProp{}
var custom = map[string]func(c *Check, arg string){}

func perr(pos, f string, a ...interface{}) {
	panic(fmt.Sprintf("%s: %s", pos, fmt.Sprintf(f, a...)))
}

type srcLine struct{ text, pos string }

func loadRules() {
	es, err := ruleFS.ReadDir("rules")
	if err != nil {
		panic(err)
	}
	blocks := map[string][]srcLine{}
	var defs []string
	for _, pass := range []int{0, 1, 2} {
		if pass == 1 {
			// longest names first: &OQID must not be read as &OQ
			var ks []int
			for k := 0; k < len(defs); k += 2 {
				ks = append(ks, k)
			}
			sort.SliceStable(ks, func(a, b int) bool { return len(defs[ks[a]]) > len(defs[ks[b]]) })
			var nd []string
			for _, k := range ks {
				nd = append(nd, defs[k], defs[k+1])
			}
			defs = nd
		}
		for _, f := range es {
			b, _ := ruleFS.ReadFile("rules/" + f.Name())
			var lines []srcLine
			for n, l := range strings.Split(string(b), "\n") {
				if len(lines) > 0 && strings.HasSuffix(lines[len(lines)-1].text, "\\") {
					p := &lines[len(lines)-1]
					p.text = strings.TrimSuffix(p.text, "\\") + strings.TrimSpace(l)
					continue
				}
				lines = append(lines, srcLine{strings.TrimRight(l, " \t"), fmt.Sprintf("%s:%d", f.Name(), n+1)})
			}
			for k := range lines {
				t := strings.TrimSpace(lines[k].text)
				if strings.HasPrefix(t, "#") {
					t = ""
				}
				if strings.HasPrefix(t, "def ") {
					f := strings.SplitN(t[4:], " ", 2)
					if pass == 0 {
						defs = append(defs, "&"+f[0], strings.TrimSpace(f[1]))
					}
					t = ""
				}
				if pass > 0 {
					for r := 0; r < 12 && strings.Contains(t, "&"); r++ {
						t = strings.NewReplacer(defs...).Replace(t)
					}
				}
				lines[k].text = t
			}
			lines = takeBlocks(lines, blocks, pass == 1)
			if pass == 2 {
				parseRules(expandLines(lines, blocks, 0))
			}
		}
	}
}

func takeBlocks(lines []srcLine, blocks map[string][]srcLine, store bool) []srcLine {
	var out []srcLine
	for k := 0; k < len(lines); k++ {
		if strings.HasPrefix(lines[k].text, "block ") {
			name := strings.TrimSpace(lines[k].text[6:])
			depth := 0
			var body []srcLine
			for k++; k < len(lines); k++ {
				if strings.HasPrefix(lines[k].text, "foreach ") {
					depth++
				}
				if lines[k].text == "end" {
					if depth == 0 {
						break
					}
					depth--
				}
				body = append(body, lines[k])
			}
			if store {
				if _, dup := blocks[name]; dup {
					perr(lines[k].pos, "duplicate block %s", name)
				}
				blocks[name] = body
			}
			continue
		}
		out = append(out, lines[k])
	}
	return out
}

func expandLines(lines []srcLine, blocks map[string][]srcLine, d int) []srcLine {
	if d > 8 {
		panic("rule expansion too deep")
	}
	var out []srcLine
	for k := 0; k < len(lines); k++ {
		l := lines[k]
		switch {
		case strings.HasPrefix(l.text, "use "):
			f := strings.SplitN(strings.TrimSpace(l.text[4:]), " ", 2)
			body, ok := blocks[f[0]]
			if !ok {
				perr(l.pos, "no block %s", f[0])
			}
			var args []string
			if len(f) > 1 {
				args = splitArgs(f[1])
			}
			out = append(out, expandLines(subst(body, args), blocks, d+1)...)
		case strings.HasPrefix(l.text, "foreach "):
			depth := 0
			var body []srcLine
			for k++; k < len(lines); k++ {
				if strings.HasPrefix(lines[k].text, "foreach ") {
					depth++
				}
				if lines[k].text == "end" {
					if depth == 0 {
						break
					}
					depth--
				}
				body = append(body, lines[k])
			}
			for _, tup := range strings.Split(l.text[8:], "|") {
				out = append(out, expandLines(subst(body, strings.Fields(tup)), blocks, d+1)...)
			}
		default:
			out = append(out, l)
		}
	}
	return out
}

func splitArgs(s string) []string {
	var out []string
	for _, a := range strings.Split(s, ";") {
		out = append(out, strings.TrimSpace(a))
	}
	return out
}

func subst(body []srcLine, args []string) []srcLine {
	var out []srcLine
	for _, l := range body {
		t := l.text
		for k := len(args); k >= 1; k-- {
			t = strings.ReplaceAll(t, "%"+strconv.Itoa(k), args[k-1])
		}
		out = append(out, srcLine{t, l.pos})
	}
	return out
}

func parseRules(lines []srcLine) {
	var prop *RuleProp
	var cur []*Section
	for _, l := range lines {
		if l.text == "" {
			continue
		}
		f := strings.SplitN(l.text, " ", 2)
		arg := ""
		if len(f) > 1 {
			arg = strings.TrimSpace(f[1])
		}
		switch f[0] {
		case "prop":
			prop = ruleProps[arg]
			if prop == nil {
				prop = &RuleProp{id: arg}
				ruleProps[arg] = prop
			}
			cur = nil
		case "global":
			prop, cur = nil, nil
		case "why":
			prop.why = arg
		case "assume":
			prop.ass = append(prop.ass, arg)
		case "custom":
			prop.cust = append(prop.cust, Rule{"custom", arg, l.pos})
		case "entry":
			cur = nil
			names, under := splitUnder(arg)
			for _, n := range splitArgs(names) {
				s := &Section{name: expandAbbrev(n), under: under, pos: l.pos}
				prop.secs = append(prop.secs, s)
				cur = append(cur, s)
			}
		case "fn":
			cur = nil
			names, under := splitUnder(arg)
			for _, n := range splitArgs(names) {
				n = expandAbbrev(n)
				var s *Section
				for _, x := range fnSecs[n] {
					if x.under == under {
						s = x
					}
				}
				if s == nil {
					s = &Section{name: n, under: under, pos: l.pos}
					fnSecs[n] = append(fnSecs[n], s)
				}
				cur = append(cur, s)
			}
		case "S", "G", "W", "W?", "B", "B?", "R", "T", "V", "A", "A?", "C", "O", "F", "X", "Also":
			if cur == nil {
				perr(l.pos, "rule outside a section")
			}
			for _, s := range cur {
				s.rules = append(s.rules, Rule{f[0], arg, l.pos})
			}
		default:
			perr(l.pos, "unknown directive %s", f[0])
		}
	}
}

// splitUnder: "NAME ; NAME under FACT && FACT".
func splitUnder(arg string) (names, under string) {
	if k := strings.Index(arg, " under "); k >= 0 {
		return strings.TrimSpace(arg[:k]), strings.TrimSpace(arg[k+7:])
	}
	return arg, ""
}

// runSection decides the rules of one entry point, under its assumption.
func (c *Check) runSection(s *Section) {
	if s.under == "" {
		c.runSection0(s)
		return
	}
	if strings.Count(s.name, "@") >= 2 {
		c.Fn(s.name) // what the closure captures does not depend on the assumption
	}
	memo := c.e.memo
	if c.underMemo == nil {
		c.underMemo = map[string]map[string]*Inst{}
	}
	m := c.underMemo[s.under]
	if m == nil {
		m = map[string]*Inst{}
		c.underMemo[s.under] = m
	}
	var as []*FactPat
	for _, f := range strings.Split(s.under, "&&") {
		if strings.TrimSpace(f) == "marks" {
			c.e.marks = true
			continue
		}
		as = append(as, c.e.F(f))
	}
	defer func() { c.e.marks = false }()
	c.e.memo, c.e.assume, c.under = m, as, " under "+s.under
	c.runSection0(s)
	if os.Getenv("VERIF_LINT") != "" {
		for _, a := range as {
			c.lintHits(s, a)
		}
	}
	c.e.memo, c.e.assume, c.under = memo, nil, ""
}

// lintHits reports an assumption that decides nothing (the analyses of a section
// may be shared with an earlier one that has the same assumptions).
func (c *Check) lintHits(s *Section, a *FactPat) {
	k := s.under + "/" + a.src
	if c.used == nil {
		c.used = map[string]bool{}
	}
	if a.hits > 0 {
		c.used[k] = true
	}
	if !c.used[k] {
		fmt.Println("  idle assumption:", s.name, "under", s.under, ":", a.src)
	}
}

func (c *Check) runSection0(s *Section) {
	fn := c.Fn(s.name)
	if fn == nil {
		return
	}
	var ws, bs, succ, guards []string
	hasW, hasB := false, false
	for _, r := range s.rules {
		switch r.op {
		case "S":
			succ = append(succ, r.text)
		case "G":
			guards = append(guards, r.text)
		case "W", "W?":
			hasW = true
			if r.text != "none" {
				if r.op == "W?" {
					ws = append(ws, "?? "+r.text)
				} else {
					ws = append(ws, r.text)
				}
			}
		case "B", "B?":
			hasB = true
			if r.text != "none" {
				if r.op == "B?" {
					bs = append(bs, "?? "+r.text)
				} else {
					bs = append(bs, r.text)
				}
			}
		case "R":
			f := strings.SplitN(r.text, " ", 2)
			n, err := strconv.Atoi(f[0])
			if err != nil {
				perr(r.pos, "R wants an index")
			}
			c.Result(s.name, n, strings.TrimSpace(f[1]))
		case "T":
			f := strings.SplitN(r.text, " ", 3)
			n, _ := strconv.Atoi(f[0])
			c.ReturnsUnder(s.name, n, f[1] == "true", strings.TrimSpace(f[2]))
		case "V":
			f := strings.SplitN(r.text, " ", 2)
			n, err := strconv.Atoi(f[0])
			if err != nil {
				perr(r.pos, "V wants an index")
			}
			p := strings.SplitN(f[1], "=>", 2)
			if len(p) != 2 {
				perr(r.pos, "V wants pattern => fact")
			}
			for _, x := range strings.Split(p[1], "&&") {
				c.ResultCase(s.name, n, strings.TrimSpace(p[0]), strings.TrimSpace(x))
			}
		case "A", "A?":
			p := strings.SplitN(r.text, "=>", 2)
			if len(p) != 2 {
				perr(r.pos, "A wants site => facts")
			}
			var fs []string
			for _, x := range strings.Split(p[1], "&&") {
				fs = append(fs, strings.TrimSpace(x))
			}
			min := 1
			if r.op == "A?" {
				min = 0
			}
			c.Guard(s.name, strings.TrimSpace(p[0]), min, fs...)
		case "C":
			f := strings.SplitN(r.text, " ", 3)
			mn, _ := strconv.Atoi(f[0])
			mx, _ := strconv.Atoi(f[1])
			c.Calls(s.name, f[2], mn, mx)
		case "O":
			p := strings.SplitN(r.text, "=>", 2)
			var ps []string
			for _, x := range strings.Split(p[1], ";;") {
				ps = append(ps, strings.TrimSpace(x))
			}
			c.Only(s.name, strings.Fields(p[0]), 1, ps...)
		case "F":
			// F write store base => fields
			p := strings.SplitN(r.text, "=>", 2)
			h := strings.Fields(p[0])
			c.Frame(s.name, h[0], h[1], strings.Join(h[2:], " "), 1, splitArgs(p[1])...)
		}
	}
	if len(succ) > 0 {
		c.Success(s.name, succ...)
	}
	if len(guards) > 0 {
		c.GuardWrites(s.name, 1, guards...)
	}
	if hasW {
		c.Writes(s.name, ws...)
	}
	if hasB {
		c.BankEffects(s.name, bs...)
	}
}

// mentions lists the repository functions named in a section's patterns.
func (e *Engine) mentions(s *Section) []string {
	set := map[string]bool{}
	var pw func(p *Pat)
	pw = func(p *Pat) {
		if p == nil {
			return
		}
		if p.op == "call" {
			for _, n := range e.repoName(p.s) {
				set[n] = true
			}
		}
		for _, a := range p.args {
			pw(a)
		}
	}
	pat := func(x, pos string) {
		defer func() {
			if r := recover(); r != nil {
				panic(fmt.Sprintf("%s: %v", pos, r))
			}
		}()
		if x == "none" {
			return
		}
		pw(e.F(strings.TrimSpace(x)).p)
	}
	if s.under != "" {
		for _, f := range strings.Split(s.under, "&&") {
			pat(f, s.pos)
		}
	}
	for _, r := range s.rules {
		t := r.text
		switch r.op {
		case "S", "G":
			for _, a := range splitAlt(t) {
				pat(a, r.pos)
			}
		case "W", "W?", "B", "B?":
			pat(t, r.pos)
			if q := e.F(t).p; t != "none" && q.op == "call" {
				if fn := e.repoFn(q.s); fn != nil && !isHookCall(q.s) {
					set[e.fnName(fn)] = true
				}
			}
		case "R":
			pat(strings.SplitN(t, " ", 2)[1], r.pos)
		case "T":
			for _, a := range splitAlt(strings.SplitN(t, " ", 3)[2]) {
				pat(a, r.pos)
			}
		case "V":
			p := strings.SplitN(strings.SplitN(t, " ", 2)[1], "=>", 2)
			pat(p[0], r.pos)
			for _, x := range strings.Split(p[1], "&&") {
				for _, a := range splitAlt(x) {
					pat(a, r.pos)
				}
			}
		case "A", "A?":
			p := strings.SplitN(t, "=>", 2)
			pat(p[0], r.pos)
			for _, x := range strings.Split(p[1], "&&") {
				for _, a := range splitAlt(x) {
					pat(a, r.pos)
				}
			}
		case "C":
			pat(strings.SplitN(t, " ", 3)[2], r.pos)
		case "O":
			p := strings.SplitN(t, "=>", 2)
			for _, x := range strings.Split(p[1], ";;") {
				pat(x, r.pos)
			}
		case "F":
			p := strings.SplitN(t, "=>", 2)
			h := strings.Fields(p[0])
			pat(strings.Join(h[2:], " "), r.pos)
			for _, x := range splitArgs(p[1]) {
				if kv := strings.SplitN(x, "=", 2); len(kv) == 2 {
					pat(kv[1], r.pos)
				}
			}
		case "Also":
			for _, n := range strings.Fields(t) {
				for _, x := range e.repoName(n) {
					set[x] = true
				}
			}
		}
	}
	var out []string
	for n := range set {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}

// repoName resolves a call pattern's name to opaque repository functions.
func (e *Engine) repoName(s string) []string {
	fn := e.repoFn(s)
	if fn == nil {
		return nil
	}
	if e.isTransparent(fn) && len(fnSecs[e.fnName(fn)]) == 0 {
		return nil
	}
	return []string{e.fnName(fn)}
}

// repoFn resolves a call pattern's name to a repository function.
func (e *Engine) repoFn(s string) *ssa.Function {
	s = expandAbbrev(s)
	if strings.HasSuffix(s, "*") || !strings.Contains(s, ".") || strings.HasSuffix(s, ".NewKeeper") {
		return nil
	}
	fn := e.byName[s]
	if fn == nil {
		var hit []string
		for k := range e.byName {
			if nameMatch(s, k) {
				hit = append(hit, k)
			}
		}
		if len(hit) != 1 {
			return nil
		}
		fn = e.byName[hit[0]]
	}
	return fn
}

// sectionsOf: the property's own sections and, transitively, the semantics
// of every repository function they mention.
func (e *Engine) sectionsOf(p *RuleProp) (secs []*Section, missing []string) {
	done := map[string]bool{}
	var work []*Section
	work = append(work, p.secs...)
	secs = append(secs, p.secs...)
	for len(work) > 0 {
		s := work[0]
		work = work[1:]
		for _, n := range e.mentions(s) {
			if done[n] {
				continue
			}
			done[n] = true
			fs := fnSecs[n]
			if fs == nil {
				missing = append(missing, n+"  (from "+s.name+")")
				continue
			}
			secs = append(secs, fs...)
			work = append(work, fs...)
		}
	}
	return
}

func registerRules(e *Engine) {
	loadRules()
	for id, rp := range ruleProps {
		rp := rp
		old := props[id]
		props[id] = &Prop{ID: id, Explanation: rp.why, Assumptions: rp.ass, Run: func(c *Check) {
			if old != nil {
				old.Run(c)
			}
			secs, missing := e.sectionsOf(rp)
			if os.Getenv("VERIF_LINT") != "" {
				for _, m := range missing {
					fmt.Println("  no semantics:", m)
				}
			}
			for _, s := range secs {
				c.runSection(s)
			}
			for _, r := range rp.cust {
				f := strings.SplitN(r.text, " ", 2)
				g := custom[f[0]]
				if g == nil {
					perr(r.pos, "no custom rule %s", f[0])
				}
				a := ""
				if len(f) > 1 {
					a = f[1]
				}
				g(c, a)
			}
		}}
	}
}

// ---- result cases ----

type rcase struct {
	t     *Term
	facts Set
	at    ssa.Instruction
}

// cases splits a result into (value, facts) alternatives along its phis and
// the returns of analysed callees.
func (i *Inst) cases(v ssa.Value, idx int, cur Set, at ssa.Instruction, d int) []rcase {
	if d < 6 {
		switch v := v.(type) {
		case *ssa.Phi:
			if i.isLoopPhi(v) {
				break
			}
			var out []rcase
			b := v.Block()
			for n, ed := range v.Edges {
				p := b.Preds[n]
				if !i.edgeFeasible(p, b) || i.outTop(p) {
					continue
				}
				fs, ok := i.edgeFacts(p, b, 0)
				if !ok {
					continue
				}
				out = append(out, i.cases(ed, 0, union(fs, minus(cur, Set{})), at, d+1)...)
			}
			return out
		case *ssa.UnOp:
			if st := i.singleStore(v); st != nil {
				return i.cases(st, 0, cur, at, d+1)
			}
			if a := i.addrOf(v); a != nil {
				if r := i.loadCases(a, v, v.Block(), cur, at, d); r != nil {
					return r
				}
			}
		case *ssa.Extract:
			if c, ok := v.Tuple.(*ssa.Call); ok {
				if r := i.callCases(c, v.Index, cur, at, d); r != nil {
					return r
				}
			}
		case *ssa.Call:
			if r := i.callCases(v, 0, cur, at, d); r != nil {
				return r
			}
		}
	}
	t := i.T(v)
	if t.Op == "addr" && t.cell != nil && t.cell.inst == i {
		t = i.load(t, at)
	}
	alts := []*Term{t}
	if t.Op == "union" {
		alts = t.Args
	}
	var out []rcase
	var os []origin
	for _, a := range alts {
		if a.Op == "append" && os == nil {
			os, _ = i.origins(v, map[ssa.Value]bool{}, 0)
		}
	}
	for _, a := range alts {
		fs := cur
		if a.Op == "append" && len(a.Args) == 2 {
			var acc Set
			n := 0
			for _, o := range os {
				if mk("list", "", o.elem) == a.Args[1] || o.elem == mkElem(a.Args[1]) {
					if n == 0 {
						acc = o.facts
					} else {
						acc = join(acc, o.facts)
					}
					n++
				}
			}
			if n > 0 {
				fs = union(cur, acc)
			}
		}
		out = append(out, rcase{a, fs, at})
	}
	return out
}

// addrOf: the local variable that v loads.
func (i *Inst) addrOf(v *ssa.UnOp) *Term {
	if v.Op != token.MUL {
		return nil
	}
	if _, ok := v.X.(*ssa.Alloc); !ok {
		return nil
	}
	a := i.T(v.X)
	if a.Op != "addr" || a.cell == nil || a.cell.inst != i {
		return nil
	}
	return a
}

// loadCases splits the content of a variable by the ways into the block.
func (i *Inst) loadCases(a *Term, from ssa.Instruction, b *ssa.BasicBlock, cur Set, at ssa.Instruction, d int) []rcase {
	t := i.load(a, from)
	if t.Op != "union" || d > 5 || t.contains(func(x *Term) bool { return x.Op == "append" || x == tRec }) {
		return nil
	}
	for _, ins := range b.Instrs {
		if ins == from {
			break
		}
		switch ins := ins.(type) {
		case *ssa.Store:
			if r, ok := rootAddr(ins.Addr); ok && r == a.cell.alloc {
				return nil
			}
		case ssa.CallInstruction:
			if i.mutBy(ins, a.cell) != nil {
				return nil
			}
		}
	}
	var out []rcase
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return nil
		}
		if !i.edgeFeasible(p, b) || i.outTop(p) {
			continue
		}
		fs, ok := i.edgeFacts(p, b, 0)
		if !ok {
			continue
		}
		last := p.Instrs[len(p.Instrs)-1]
		fs = union(fs, cur)
		r := i.loadCases(a, last, p, fs, at, d+1)
		if r == nil {
			x := i.load(a, last)
			if x.Op == "union" {
				return nil
			}
			r = []rcase{{x, fs, at}}
		}
		out = append(out, r...)
	}
	return out
}

func (i *Inst) isLoopPhi(v *ssa.Phi) bool {
	b := v.Block()
	for _, p := range b.Preds {
		if b.Dominates(p) {
			return true
		}
	}
	return false
}

func (i *Inst) callCases(c *ssa.Call, idx int, cur Set, at ssa.Instruction, d int) []rcase {
	ci := i.call(c)
	if ci.sub == nil || ci.fn == nil || !i.e.isTransparent(ci.fn) {
		return nil
	}
	var out []rcase
	for _, r := range ci.sub.rets {
		if !r.ok || idx >= len(r.instr.Results) {
			continue
		}
		out = append(out, ci.sub.cases(r.val(idx), 0, union(cur, exported(r.facts)), at, d+1)...)
	}
	return out
}

// ResultCase: whenever result idx takes a value matching pat (on a success
// return), fact holds.
func (c *Check) ResultCase(entry string, idx int, pat, src string) {
	fn := c.Fn(entry)
	if fn == nil {
		return
	}
	key := fmt.Sprintf("case:%s:%d:%s=>%s", entry, idx, pat, src)
	alts := splitAlt(src)
	run := func() {
		in := c.e.Root(fn)
		p := c.e.P(pat)
		n := 0
		for _, r := range in.rets {
			if !r.ok || idx >= len(r.instr.Results) {
				continue
			}
			for _, rc := range in.cases(r.val(idx), 0, r.facts, r.instr, 0) {
				env := Env{}
				if !p.match(rc.t, env) {
					continue
				}
				n++
				good := len(alts) > 1 && hasDerived(rc.facts, src)
				for _, a := range alts {
					if !good {
						good = c.e.F(a).holds(rc.facts, env.clone())
					}
				}
				if good {
					c.pass(key, "result-case")
				} else {
					c.fail(key, "result-case", c.e.where(r.instr), "%s can return %s without: %s", entry, rc.t.str(5), src)
				}
			}
		}
		if n == 0 {
			c.fail(key, "result-case", c.e.whereFn(fn), "%s never returns %s", entry, pat)
		}
	}
	if len(alts) > 1 {
		c.withDerived([]*Derived{c.derivedFor(src, alts)}, run)
	} else {
		run()
	}
}
