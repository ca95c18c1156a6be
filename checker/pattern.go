package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"regexp"
	"strings"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// Pat is a pattern over terms.
type Pat struct {
	op    string // any var contains param const global call field res elem key upd alt not eq lt list bin len ctx K idx op
	s     string
	args  []*Pat
	rest  bool
	e     *Engine
	inner bool // part of a longer update chain
}

type patParser struct {
	s string
	p int
	e *Engine
}

func expandAbbrev(s string) string {
	return abbrev.ReplaceAllStringFunc(s, func(m string) string {
		return abbrevs[m]
	})
}

func (e *Engine) P(s string) *Pat {
	s = expandAbbrev(s)
	pp := &patParser{s: s, e: e}
	r := pp.expr()
	pp.ws()
	if pp.p != len(pp.s) {
		panic(fmt.Sprintf("pattern %q: trailing %q", s, pp.s[pp.p:]))
	}
	return r
}

var abbrev = regexp.MustCompile(`\b(SK|OK|PK|RK|WK|LK|AK|SM|OM|RM|WM|LM|AM|ST|OT|PT|RT|WT|LT|AT|MAP|SET|ITEM|SEQ)\.`)

var abbrevs = map[string]string{
	"SK.": "services/keeper.Keeper.", "OK.": "operators/keeper.Keeper.", "PK.": "pools/keeper.Keeper.",
	"RK.": "restaking/keeper.Keeper.", "WK.": "rewards/keeper.Keeper.", "LK.": "liquidvesting/keeper.Keeper.",
	"AK.": "assets/keeper.Keeper.",
	"SM.": "services/keeper.msgServer.", "OM.": "operators/keeper.msgServer.", "RM.": "restaking/keeper.msgServer.",
	"WM.": "rewards/keeper.msgServer.", "LM.": "liquidvesting/keeper.msgServer.", "AM.": "assets/keeper.msgServer.",
	"ST.": "services/types.", "OT.": "operators/types.", "PT.": "pools/types.", "RT.": "restaking/types.",
	"WT.": "rewards/types.", "LT.": "liquidvesting/types.", "AT.": "assets/types.",
	"MAP.": "collections.Map.", "SET.": "collections.KeySet.", "ITEM.": "collections.Item.", "SEQ.": "collections.Sequence.",
}

func (p *patParser) ws() {
	for p.p < len(p.s) && (p.s[p.p] == ' ' || p.s[p.p] == '\n' || p.s[p.p] == '\t') {
		p.p++
	}
}

func (p *patParser) peek() byte {
	p.ws()
	if p.p < len(p.s) {
		return p.s[p.p]
	}
	return 0
}

func (p *patParser) fail(m string) { panic(fmt.Sprintf("pattern %q at %d: %s", p.s, p.p, m)) }

func (p *patParser) expect(c byte) {
	if p.peek() != c {
		p.fail("expected " + string(c))
	}
	p.p++
}

func identByte(c byte) bool {
	return c == '_' || c == '/' || c == '*' || c == '-' || unicode.IsLetter(rune(c)) || unicode.IsDigit(rune(c))
}

func (p *patParser) ident() string {
	st := p.p
	for p.p < len(p.s) && identByte(p.s[p.p]) {
		p.p++
	}
	return p.s[st:p.p]
}

func (p *patParser) args(close byte) ([]*Pat, bool) {
	var out []*Pat
	for {
		if p.peek() == close {
			p.p++
			return out, false
		}
		if strings.HasPrefix(p.s[p.p:], "...") {
			p.p += 3
			p.expect(close)
			return out, true
		}
		out = append(out, p.expr())
		if p.peek() == ',' {
			p.p++
		}
	}
}

func (p *patParser) expr() *Pat {
	b := p.primary()
	for {
		if p.p >= len(p.s) {
			return b
		}
		c := p.s[p.p]
		switch {
		case c == '.' && p.p+1 < len(p.s) && identByte(p.s[p.p+1]):
			p.p++
			b = &Pat{op: "field", s: p.ident(), args: []*Pat{b}}
		case c == '#':
			p.p++
			b = &Pat{op: "res", s: p.ident(), args: []*Pat{b}}
		case strings.HasPrefix(p.s[p.p:], "[*]"):
			p.p += 3
			b = &Pat{op: "elem", args: []*Pat{b}}
		case c == '[':
			p.p++
			n := p.ident()
			p.expect(']')
			b = &Pat{op: "idx", s: n, args: []*Pat{b}}
		case strings.HasPrefix(p.s[p.p:], "<*>"): // any further fields
			p.p += 3
			b = &Pat{op: "upd", s: "*", args: []*Pat{b, {op: "any"}}}
		case c == '<':
			p.p++
			f := ""
			if p.p < len(p.s) && p.s[p.p] == '[' { // element update: <[*]=v>
				n := strings.IndexByte(p.s[p.p:], ']')
				if n < 0 {
					p.expect(']')
				}
				f = p.s[p.p : p.p+n+1]
				p.p += n + 1
			} else {
				f = p.ident()
			}
			p.expect('=')
			v := p.expr()
			p.expect('>')
			b = &Pat{op: "upd", s: f, args: []*Pat{b, v}}
		default:
			return b
		}
	}
}

func isBinName(n string) bool {
	return strings.HasPrefix(n, "bin") && len(n) > 3 && !unicode.IsLetter(rune(n[3])) && n[3] != '_' && n[3] != '.'
}

func (p *patParser) primary() *Pat {
	switch c := p.peek(); {
	case c == '{':
		p.p++
		lenient := ""
		if p.peek() == '*' {
			p.p++
			lenient = "any" // either form will do
		}
		var alts []*Pat
		for {
			req := p.peek() == '+'
			if req {
				p.p++
			}
			a := p.expr()
			if req {
				a = &Pat{op: "req", args: []*Pat{a}}
			}
			alts = append(alts, a)
			if p.peek() == '|' {
				p.p++
				continue
			}
			p.expect('}')
			return &Pat{op: "alt", s: lenient, args: alts}
		}
	case c == '~':
		p.p++
		return &Pat{op: "contains", args: []*Pat{p.expr()}}
	case c == '!':
		p.p++
		return &Pat{op: "not", args: []*Pat{p.expr()}}
	case c == '?':
		p.p++
		return &Pat{op: "var", s: p.ident()}
	case c == '$':
		p.p++
		return &Pat{op: "param", s: p.ident()}
	case c == '"':
		st := p.p
		p.p++
		for p.s[p.p] != '"' {
			p.p++
		}
		p.p++
		return &Pat{op: "const", s: p.s[st:p.p]}
	case c == '@':
		p.p++
		st := p.p
		for p.p < len(p.s) && (identByte(p.s[p.p]) || p.s[p.p] == '.') {
			p.p++
		}
		n := p.s[st:p.p]
		if v := p.e.constByName(n); v != "" {
			return &Pat{op: "const", s: v}
		}
		return &Pat{op: "global", s: n}
	}
	// dotted name up to '('
	st := p.p
	q := p.p
	for q < len(p.s) && (identByte(p.s[q]) || p.s[q] == '.' || p.s[q] == ':') {
		q++
	}
	if q < len(p.s) && p.s[q] == '(' || q < len(p.s) && strings.HasPrefix(p.s[st:q], "bin") && strings.ContainsRune("+-*/%", rune(p.s[q])) {
		name := p.s[st:q]
		if p.s[q] != '(' {
			name += string(p.s[q])
			q++
		}
		p.p = q + 1
		as, rest := p.args(')')
		switch {
		case name == "eq", name == "lt", name == "list", name == "key", name == "len", name == "append", name == "map", name == "kv", name == "lookup", name == "haskey", name == "setelem", name == "slice", name == "cat":
			return &Pat{op: name, args: as, rest: rest}
		case name == "fun": // a function value, given by its result for argument $_1
			return &Pat{op: "fun", args: as, e: p.e}
		case strings.HasPrefix(name, "is:"):
			return &Pat{op: "istype", s: name[3:], args: as}
		case isBinName(name):
			return &Pat{op: "bin", s: name[3:], args: as, rest: rest}
		}
		return &Pat{op: "call", s: name, args: as, rest: rest}
	}
	if strings.HasPrefix(p.s[st:], "K:") {
		p.p += 2
		return &Pat{op: "K", s: p.ident()}
	}
	id := p.ident()
	switch id {
	case "":
		p.fail("unexpected")
	case "_":
		return &Pat{op: "any"}
	case "ctx":
		return &Pat{op: "ctx"}
	case "zero":
		return &Pat{op: "zero"}
	case "rec":
		return &Pat{op: "rec"}
	}
	return &Pat{op: "const", s: id}
}

// constByName resolves "services/types.Name" to the constant's exact value.
func (e *Engine) constByName(n string) string {
	k := strings.LastIndex(n, ".")
	if k < 0 {
		return ""
	}
	pkg, name := n[:k], n[k+1:]
	for _, p := range e.pkgs {
		if shortPkg(p.PkgPath) == pkg {
			switch o := p.Types.Scope().Lookup(name).(type) {
			case *types.Const:
				if o.Val().Kind() == constant.String {
					return o.Val().ExactString()
				}
				return o.Val().ExactString()
			case nil:
				panic("anchor: no object " + n)
			}
			return ""
		}
	}
	return ""
}

func nameMatch(pat, name string) bool {
	if pat == "*" || pat == name {
		return true
	}
	if strings.HasSuffix(pat, "*") {
		pre := strings.TrimSuffix(pat, "*")
		if strings.HasPrefix(name, pre) || strings.Contains(name, "."+pre) || strings.Contains(name, "/"+pre) {
			return true
		}
		return false
	}
	return strings.HasSuffix(name, "."+pat) || strings.HasSuffix(name, "/"+pat)
}

type Env map[string]*Term

func (e Env) clone() Env {
	n := Env{}
	for k, v := range e {
		n[k] = v
	}
	return n
}

// match tests t against p, extending env.
func (p *Pat) match(t *Term, env Env) bool {
	switch p.op {
	case "any":
		return true
	case "var":
		if v, ok := env[p.s]; ok {
			return v == t
		}
		env[p.s] = t
		return true
	case "contains":
		found := false
		t.contains(func(x *Term) bool {
			e2 := env.clone()
			if p.args[0].match(x, e2) {
				for k, v := range e2 {
					env[k] = v
				}
				found = true
				return true
			}
			return false
		})
		return found
	case "req": // {a|+b}: the alternative b has to be there
		return p.args[0].match(t, env)
	case "alt":
		if t.Op == "union" {
			if p.s == "any" {
				for _, q := range p.args { // one of the forms for the whole
					if e2 := env.clone(); q.op == "alt" && q.match(t, e2) {
						for k, v := range e2 {
							env[k] = v
						}
						return true
					}
				}
			}
			args := p.spread(t, env)
			for _, a := range args {
				if !p.match1(a, env) {
					return false
				}
			}
			if p.s == "" {
				for _, q := range p.args {
					if !q.accumulates() {
						continue
					}
					hit := false
					for _, a := range args {
						if q.match(a, env.clone()) {
							hit = true
						}
					}
					if !hit {
						return false
					}
				}
			}
			return true
		}
		if p.s == "" && !p.inner {
			for _, q := range p.args {
				if q.accumulates() && !q.match(t, env.clone()) {
					return false
				}
			}
		}
		return p.match1(t, env)
	case "upd":
		if t.Op == "union" {
			for _, a := range t.Args {
				if !p.match(a, env) {
					return false
				}
			}
			return true
		}
		if !p.inner && p.anyUpd() {
			for q := p; q.op == "upd" && q.args[0].op == "upd"; q = q.args[0] {
				q.args[0].inner = true
			}
		} else if !p.inner {
			// the record differs from its base in the named fields only
			named := map[string]bool{}
			for q := p; q.op == "upd"; q = q.args[0] {
				named[q.s] = true
				if q.args[0].op == "upd" {
					q.args[0].inner = true
				}
			}
			base := t
			for base.Op == "upd" {
				base = base.Args[0]
			}
			for b := t; b.Op == "upd"; b = b.Args[0] {
				if !named[b.S] && !(base.Op == "zero" && isZeroTerm(b.Args[1])) {
					return false
				}
			}
		}
		if strings.HasPrefix(p.s, "[") {
			x := t
			for x.Op == "upd" && x.S != p.s {
				x = x.Args[0]
			}
			if x.Op != "upd" || !p.args[1].match(x.Args[1], env) {
				return false
			}
		} else if p.s != "*" && !p.args[1].match(mkField(t, p.s), env) {
			return false
		}
		b := t
		if p.args[0].op != "upd" {
			for b.Op == "upd" {
				b = b.Args[0]
			}
		}
		return p.args[0].match(b, env)
	}
	if t.Op == "union" && p.op != "union" {
		for _, a := range t.Args {
			if !p.match(a, env) {
				return false
			}
		}
		return true
	}
	switch p.op {
	case "param":
		return t.Op == "param" && t.S == p.s
	case "const":
		return t.Op == "const" && t.S == p.s
	case "global":
		return t.Op == "global" && (t.S == p.s || nameMatch(p.s, t.S))
	case "K":
		return t.Op == "K" && t.S == p.s
	case "ctx":
		return t == tCtx
	case "zero":
		return t.Op == "zero" || t.Op == "const" && t.S == "nil"
	case "rec":
		return t == tRec || isZeroTerm(t)
	case "field":
		if t.Op != "field" || p.s != "*" && t.S != p.s {
			return false
		}
		return p.args[0].match(t.Args[0], env)
	case "res":
		return t.Op == "res" && t.S == p.s && p.args[0].match(t.Args[0], env)
	case "elem":
		return t.Op == "elem" && p.args[0].match(t.Args[0], env)
	case "idx":
		return t.Op == "idx" && t.S == p.s && p.args[0].match(t.Args[0], env)
	case "not":
		return t.Op == "not" && p.args[0].match(t.Args[0], env)
	case "eq":
		if t.Op != "eq" {
			return false
		}
		e2 := env.clone()
		if p.args[0].match(t.Args[0], e2) && p.args[1].match(t.Args[1], e2) {
			for k, v := range e2 {
				env[k] = v
			}
			return true
		}
		return p.args[0].match(t.Args[1], env) && p.args[1].match(t.Args[0], env)
	case "bin":
		if t.Op != "bin" || t.S != p.s {
			return false
		}
		if (p.s == "+" || p.s == "*") && len(t.Args) == 2 {
			e2 := env.clone()
			if p.args[0].match(t.Args[0], e2) && p.args[1].match(t.Args[1], e2) {
				for k, v := range e2 {
					env[k] = v
				}
				return true
			}
			e2 = env.clone()
			if p.args[0].match(t.Args[1], e2) && p.args[1].match(t.Args[0], e2) {
				for k, v := range e2 {
					env[k] = v
				}
				return true
			}
			return p.s == "+" && p.matchSum(t, env)
		}
		return matchArgs(p, t.Args, env)
	case "cat": // the concatenation of the given parts, in any order
		var parts []*Term
		var walk func(x *Term)
		walk = func(x *Term) {
			if x.Op == "append" && len(x.Args) == 2 {
				walk(x.Args[0])
				walk(x.Args[1])
				return
			}
			if !isZeroTerm(x) && x != tRec {
				parts = append(parts, x)
			}
		}
		walk(t)
		if len(parts) != len(p.args) {
			return false
		}
		used := make([]bool, len(parts))
	next:
		for _, a := range p.args {
			for k, x := range parts {
				e2 := env.clone()
				if !used[k] && a.match(x, e2) {
					used[k] = true
					for k, v := range e2 {
						env[k] = v
					}
					continue next
				}
			}
			return false
		}
		return true
	case "fun":
		if t.Op != "closure" && t.Op != "func" || t.fn == nil {
			return false
		}
		r := p.e.apply(t)
		return r != nil && p.args[0].match(r, env)
	case "istype":
		return t.Op == "istype" && t.S == p.s && matchArgs(p, t.Args, env)
	case "call":
		if t.Op != "call" && t.Op != "mut" || !nameMatch(p.s, t.S) {
			return false
		}
		if commutes[t.S] && len(p.args) == 2 && len(t.Args) == 2 && !p.rest {
			e2 := env.clone()
			if matchArgs(p, t.Args, e2) {
				for k, v := range e2 {
					env[k] = v
				}
				return true
			}
			e2 = env.clone()
			if matchArgs(p, []*Term{t.Args[1], t.Args[0]}, e2) {
				for k, v := range e2 {
					env[k] = v
				}
				return true
			}
			return strings.HasSuffix(t.S, ".Add") && p.matchSum(t, env)
		}
		return matchArgs(p, t.Args, env)
	default:
		if t.Op != p.op {
			return false
		}
		return matchArgs(p, t.Args, env)
	}
}

// matchSum: the same summands in another order or nesting.
func (p *Pat) matchSum(t *Term, env Env) bool {
	var ps []*Pat
	var ts []*Term
	var fp func(x *Pat)
	fp = func(x *Pat) {
		if x.op == p.op && x.s == p.s && len(x.args) == 2 && !x.rest {
			fp(x.args[0])
			fp(x.args[1])
			return
		}
		ps = append(ps, x)
	}
	var ft func(x *Term)
	ft = func(x *Term) {
		if x.Op == t.Op && x.S == t.S && len(x.Args) == 2 {
			ft(x.Args[0])
			ft(x.Args[1])
			return
		}
		ts = append(ts, x)
	}
	fp(p)
	ft(t)
	if len(ps) != len(ts) || len(ps) < 3 || len(ps) > 6 {
		return false
	}
	used := make([]bool, len(ts))
	var rec func(k int, env Env) Env
	rec = func(k int, env Env) Env {
		if k == len(ps) {
			return env
		}
		for j, x := range ts {
			if used[j] {
				continue
			}
			e2 := env.clone()
			if ps[k].match(x, e2) {
				used[j] = true
				if r := rec(k+1, e2); r != nil {
					return r
				}
				used[j] = false
			}
		}
		return nil
	}
	r := rec(0, env.clone())
	for k, v := range r {
		env[k] = v
	}
	return r != nil
}

// commutes: x.F(y) is y.F(x).
var commutes = map[string]bool{
	"math.LegacyDec.Add": true, "math.Int.Add": true, "math.LegacyDec.Mul": true, "math.Int.Mul": true,
	"sdk.Coins.Add": true, "sdk.DecCoins.Add": true,
	"math.LegacyDec.MulTruncate": true, "math.LegacyDec.Equal": true, "math.Int.Equal": true,
}

func matchArgs(p *Pat, args []*Term, env Env) bool {
	if len(args) < len(p.args) || !p.rest && len(args) != len(p.args) {
		return false
	}
	for k, a := range p.args {
		if a.op == "rec" && p.accumulated(args[k], env) {
			continue
		}
		if !a.match(args[k], env) {
			return false
		}
	}
	return true
}

// spread: the alternatives of t; one which fits no alternative of p and has a
// choice inside it counts as one alternative per choice.
func (p *Pat) spread(t *Term, env Env) []*Term {
	var out []*Term
	for _, a := range t.Args {
		if p.match1(a, env.clone()) {
			out = append(out, a)
			continue
		}
		out = append(out, hoist(a)...)
	}
	return out
}

// hoist: t with the choices inside it (other than accumulators) made outside.
func hoist(t *Term) []*Term {
	out := []*Term{t}
	for n := 0; n < 3; n++ {
		var next []*Term
		for _, x := range out {
			u := innerChoice(x)
			if u == nil || len(out) > 8 {
				next = append(next, x)
				continue
			}
			for _, a := range u.Args {
				next = append(next, replaceTerm(x, u, a))
			}
		}
		if len(next) == len(out) {
			break
		}
		out = next
	}
	return out
}

func innerChoice(t *Term) *Term {
	var found *Term
	t.contains(func(x *Term) bool {
		if found == nil && x.Op == "union" && !x.contains(func(y *Term) bool { return y == tRec }) {
			found = x
		}
		return found != nil
	})
	return found
}

func replaceTerm(t, from, to *Term) *Term {
	if t == from {
		return to
	}
	args := make([]*Term, len(t.Args))
	same := true
	for i, a := range t.Args {
		args[i] = replaceTerm(a, from, to)
		same = same && args[i] == a
	}
	if same {
		return t
	}
	return mk(t.Op, t.S, args...)
}

// accumulated: the value of an accumulator before the step p: empty, or an
// earlier step of the same shape.
func (p *Pat) accumulated(t *Term, env Env) bool {
	if t.Op != "union" {
		return t == tRec
	}
	for _, a := range t.Args {
		if a != tRec && !isZeroTerm(a) && !isEmptyCall(a) && !p.match(a, env) {
			return false
		}
	}
	return true
}

func isEmptyCall(t *Term) bool {
	return t.Op == "call" && strings.HasPrefix(t.S, "sdk.New") && (len(t.Args) == 0 || len(t.Args) == 1 && isZeroTerm(t.Args[0]))
}

// FactPat: pattern over facts.  Syntax: [each] [ok|called|!] pattern
type FactPat struct {
	kind byte // 'T','F','O','C'
	each bool
	p    *Pat
	src  string
	hits int // how often it was used as an assumption
}

func (e *Engine) F(s string) *FactPat {
	src := s
	s = strings.TrimSpace(s)
	k := byte('T')
	each := false
	if strings.HasPrefix(s, "each ") {
		each = true
		s = s[5:]
	}
	switch {
	case strings.HasPrefix(s, "ok "):
		k, s = 'O', s[3:]
	case strings.HasPrefix(s, "fails "): // only as an assumption: the call returned an error
		k, s = 'E', s[6:]
	case strings.HasPrefix(s, "called "):
		k, s = 'C', s[7:]
	case strings.HasPrefix(s, "!"):
		k, s = 'F', s[1:]
	}
	return &FactPat{kind: k, each: each, p: e.P(s), src: src}
}

func (fp *FactPat) match(f *Fact, env Env) bool {
	if f.Kind != fp.kind || f.Each && !fp.each || fp.each && !f.Each && loopCond(f) {
		return false
	}
	return fp.p.match(f.T, env)
}

// holds: some fact of s matches fp under env.
func (fp *FactPat) holds(s Set, env Env) bool {
	for _, id := range s {
		f := factList[id]
		if f.Kind != fp.kind || f.Each && !fp.each || fp.each && !f.Each && loopCond(f) {
			continue
		}
		e2 := env.clone()
		if fp.p.match(f.T, e2) {
			for k, v := range e2 {
				env[k] = v
			}
			return true
		}
	}
	return fp.holdsContains(s, env)
}

// holdsContains: membership established by an explicit search over the slice.
func (fp *FactPat) holdsContains(s Set, env Env) bool {
	if fp.kind == 'F' && fp.p.op == "eq" {
		// no element of the slice is the value
		for _, id := range s {
			f := factList[id]
			if f.Kind != 'F' || f.T.Op != "call" || f.T.S != "slices.Contains" || len(f.T.Args) != 2 {
				continue
			}
			e2 := env.clone()
			if fp.p.match(mkEq(mkElem(f.T.Args[0]), f.T.Args[1]), e2) {
				for k, v := range e2 {
					env[k] = v
				}
				return true
			}
		}
	}
	if fp.p.op != "call" || !nameMatch(fp.p.s, "slices.Contains") || fp.kind != 'T' && fp.kind != 'F' {
		return false
	}
	for _, id := range s {
		f := factList[id]
		if f.Kind != fp.kind || f.T.Op != "eq" || f.Each && fp.kind == 'T' && !fp.each {
			continue
		}
		for k := 0; k < 2; k++ {
			if x := f.T.Args[k]; x.Op == "elem" {
				if fp.kind == 'F' && !traversed(s, x.Args[0]) {
					continue
				}
				e2 := env.clone()
				if fp.p.match(mk("call", "slices.Contains", x.Args[0], f.T.Args[1-k]), e2) {
					for k, v := range e2 {
						env[k] = v
					}
					return true
				}
			}
		}
	}
	return false
}

// traversed: a loop over x has run to its end.
func traversed(s Set, x *Term) bool {
	for _, id := range s {
		f := factList[id]
		if f.Kind == 'F' && !f.Each && f.T.Op == "lt" && f.T.Args[1].Op == "len" && f.T.Args[1].Args[0] == x {
			return true
		}
	}
	return false
}

func (p *Pat) anyUpd() bool {
	for ; p.op == "upd"; p = p.args[0] {
		if p.s == "*" {
			return true
		}
	}
	return false
}

func isZeroTerm(t *Term) bool {
	return t.Op == "zero" || t.Op == "const" && (t.S == "nil" || t.S == "0" || t.S == "false" || t.S == `""`)
}

// apply: the result of a function value for the argument $_1 (nil: unknown).
func (e *Engine) apply(t *Term) *Term {
	f, ok := t.fn.(*ssa.Function)
	if !ok || f == nil || len(f.Blocks) == 0 {
		return nil
	}
	var ps []*Term
	for k := range f.Params {
		ps = append(ps, mk("param", fmt.Sprintf("_%d", k+1)))
	}
	in := e.Analyze(f, ps, t.Args, nil)
	if in == nil || !in.succOK || len(in.results) == 0 {
		return nil
	}
	return in.results[0]
}

// match1: one of the alternatives matches.
func (p *Pat) match1(t *Term, env Env) bool {
	for _, a := range p.args {
		e2 := env.clone()
		if a.match(t, e2) {
			for k, v := range e2 {
				env[k] = v
			}
			return true
		}
	}
	return false
}

// accumulates: an alternative that builds on the value of the previous round.
func (p *Pat) accumulates() bool {
	if p.op == "rec" || p.op == "req" {
		return true
	}
	if p.op == "alt" {
		return false
	}
	for _, a := range p.args {
		if a.accumulates() {
			return true
		}
	}
	return false
}
