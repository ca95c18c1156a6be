package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// Term is a hash-consed symbolic value.  Terms are built only from the
// resolved program (SSA), never from source text.
type Term struct {
	Op    string
	S     string
	Args  []*Term
	id    int
	depth int
	size  int
	// for Op=="addr": a local memory cell
	cell *cell
	// for Op=="closure"/"func"
	fn interface{}
}

var termTab = map[string]*Term{}
var termCount int

const maxDepth = 40
const maxSize = 4000

func mk(op, s string, args ...*Term) *Term { return mkx(op, s, nil, nil, args...) }

func mkx(op, s string, c *cell, fn interface{}, args ...*Term) *Term {
	var b strings.Builder
	b.WriteString(op)
	b.WriteByte('|')
	b.WriteString(s)
	d, sz := 0, 1
	for _, a := range args {
		fmt.Fprintf(&b, ",%d", a.id)
		if a.depth > d {
			d = a.depth
		}
		sz += a.size
	}
	if c != nil {
		fmt.Fprintf(&b, "|c%d", c.id)
	}
	if fn != nil {
		fmt.Fprintf(&b, "|f%p", fn)
	}
	k := b.String()
	if t, ok := termTab[k]; ok {
		return t
	}
	if d+1 > maxDepth || sz > maxSize {
		return mk("big", op+":"+s)
	}
	termCount++
	t := &Term{Op: op, S: s, Args: args, id: termCount, depth: d + 1, size: sz, cell: c, fn: fn}
	termTab[k] = t
	return t
}

func mkConst(s string) *Term { return mk("const", s) }

var tTrue = mkConst("true")
var tFalse = mkConst("false")
var tNil = mkConst("nil")
var tCtx = mk("ctx", "")
var tRec = mk("rec", "")

// tMem: the content of a memory cell at the previous iteration of a loop.
var tMem = mk("rec", "mem")

func mkUnion(ts ...*Term) *Term {
	set := map[int]*Term{}
	var add func(t *Term)
	add = func(t *Term) {
		if t.Op == "union" {
			for _, a := range t.Args {
				add(a)
			}
			return
		}
		set[t.id] = t
	}
	for _, t := range ts {
		add(t)
	}
	var out []*Term
	for _, t := range set {
		out = append(out, t)
	}
	if len(out) == 1 {
		return out[0]
	}
	if len(out) == 0 {
		return tRec
	}
	out = mergeUpd(out)
	if len(out) == 1 {
		return out[0]
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	if len(out) > 12 {
		return mk("big", "union")
	}
	return mk("union", "", out...)
}

// mergeUpd joins alternatives that are updates of one record: X and X<F=v>
// become X<F={X.F|v}>; records built from scratch are joined only when they
// set the same fields and differ in one.
func mergeUpd(ts []*Term) []*Term {
	if len(ts) > 64 {
		return ts
	}
	any := false
	for _, t := range ts {
		if t.Op == "upd" {
			any = true
		}
	}
	if !any {
		return ts
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	for {
		merged := false
	outer:
		for a := 0; a < len(ts); a++ {
			for b := a + 1; b < len(ts); b++ {
				if m := merge2(ts[a], ts[b]); m != nil {
					ts[a] = m
					ts = append(ts[:b], ts[b+1:]...)
					merged = true
					break outer
				}
			}
		}
		if !merged {
			return ts
		}
	}
}

func updParts(t *Term) (*Term, map[string]*Term) {
	m := map[string]*Term{}
	for t.Op == "upd" {
		if _, ok := m[t.S]; !ok {
			m[t.S] = t.Args[1]
		}
		t = t.Args[0]
	}
	return t, m
}

func merge2(x, y *Term) *Term {
	if x.Op != "upd" && y.Op != "upd" {
		return nil
	}
	bx, fx := updParts(x)
	by, fy := updParts(y)
	if bx != by {
		return nil
	}
	var fs []string
	for f := range fx {
		fs = append(fs, f)
	}
	for f := range fy {
		if _, ok := fx[f]; !ok {
			fs = append(fs, f)
		}
	}
	sort.Strings(fs)
	if bx.Op == "zero" {
		if len(fx) != len(fs) || len(fy) != len(fs) {
			return nil
		}
		d := 0
		for _, f := range fs {
			if fx[f] != fy[f] {
				d++
			}
		}
		if d > 1 {
			return nil
		}
	}
	r := bx
	for _, f := range fs {
		a, ok := fx[f]
		if !ok {
			a = mkField(bx, f)
		}
		b, ok := fy[f]
		if !ok {
			b = mkField(bx, f)
		}
		r = mkUpd(r, f, mkUnion(a, b))
	}
	return r
}

func mkField(base *Term, name string) *Term {
	switch base.Op {
	case "union":
		var ts []*Term
		for _, a := range base.Args {
			ts = append(ts, mkField(a, name))
		}
		return mkUnion(ts...)
	case "upd":
		if base.S == name {
			return base.Args[1]
		}
		return mkField(base.Args[0], name)
	case "zero":
		return mk("zero", "")
	case "rec":
		if base == tRec {
			return tRec
		}
	case "call":
		// records are stored under their own identifier (rule S08 checks the
		// setters), so a record looked up by x has identifier x
		if name == "ID" && len(base.Args) == 1 && idGetters[base.S] {
			return base.Args[0]
		}
		if t := recordField(base, name); t != nil {
			return t
		}
	}
	return mk("field", name, base)
}

var idGetters = map[string]bool{
	"services/keeper.Keeper.GetService":   true,
	"operators/keeper.Keeper.GetOperator": true,
	"pools/keeper.Keeper.GetPool":         true,
}

// recordField: fields of looked-up records that equal their lookup key (the
// storage-layout rules check that records are stored under their own key).
func recordField(b *Term, name string) *Term {
	switch b.S {
	case "restaking/keeper.Keeper.GetDelegationForTarget":
		if len(b.Args) != 2 {
			return nil
		}
		switch name {
		case "UserAddress":
			return b.Args[1]
		case "TargetID":
			if dynType(b.Args[0]) != nil {
				return mkField(b.Args[0], "ID")
			}
		case "Type":
			if d := dynType(b.Args[0]); d != nil {
				switch typeName(d) {
				case "pools/types.Pool":
					return mkConst("1")
				case "operators/types.Operator":
					return mkConst("2")
				case "services/types.Service":
					return mkConst("3")
				}
			}
		}
	case "restaking/keeper.Keeper.GetUnbondingDelegation":
		if len(b.Args) != 3 {
			return nil
		}
		switch name {
		case "DelegatorAddress":
			return b.Args[0]
		case "Type":
			return b.Args[1]
		case "TargetID":
			return b.Args[2]
		}
	case "rewards/keeper.Keeper.GetDelegationTarget":
		if name == "DelegationType" && len(b.Args) == 2 {
			return b.Args[0]
		}
	case "sdk.Context.BlockHeader", "sdk.Context.HeaderInfo":
		if name == "Time" {
			return mk("call", "BlockTime")
		}
	case "pools/keeper.Keeper.CreateOrGetPoolByDenom":
		if name == "Denom" && len(b.Args) == 1 {
			return b.Args[0]
		}
	}
	return nil
}

// mkUpd is base with field name replaced by v (canonical order of updates).
func mkUpd(base *Term, name string, v *Term) *Term {
	if base.Op == "union" {
		var ts []*Term
		for _, a := range base.Args {
			ts = append(ts, mkUpd(a, name, v))
		}
		return mkUnion(ts...)
	}
	if base.Op == "upd" {
		if base.S == name {
			return mkUpd(base.Args[0], name, v)
		}
		if base.S > name {
			return mk("upd", base.S, mkUpd(base.Args[0], name, v), base.Args[1])
		}
	}
	return mk("upd", name, base, v)
}

func mkNot(t *Term) *Term {
	if t.Op == "not" {
		return t.Args[0]
	}
	if t == tTrue {
		return tFalse
	}
	if t == tFalse {
		return tTrue
	}
	return mk("not", "", t)
}

func isConst(t *Term) bool { return t.Op == "const" }

func mkEq(a, b *Term) *Term {
	if isConst(a) && isConst(b) {
		if a == b {
			return tTrue
		}
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	// constants always on the right
	if isConst(a) || a.Op == "zero" {
		a, b = b, a
	}
	if b == tTrue {
		return a
	}
	if b == tFalse {
		return mkNot(a)
	}
	// a three-way comparison tested for its outcome is that comparison
	if a.Op == "call" && (a.S == "strings.Compare" || a.S == "cmp.Compare") && len(a.Args) == 2 && isConst(b) {
		switch b.S {
		case "0":
			return mkEq(a.Args[0], a.Args[1])
		case "-1":
			return mkLt(a.Args[0], a.Args[1])
		case "1":
			return mkLt(a.Args[1], a.Args[0])
		}
	}
	// x-1 == 0 is x == 1
	if a.Op == "bin" && a.S == "-" && isConst(a.Args[1]) && isConst(b) {
		k, err1 := strconv.ParseInt(a.Args[1].S, 10, 32)
		c, err2 := strconv.ParseInt(b.S, 10, 32)
		if err1 == nil && err2 == nil && k+c >= 0 {
			return mkEq(a.Args[0], mkConst(strconv.FormatInt(k+c, 10)))
		}
	}
	return mk("eq", "", a, b)
}

// mkLt is a<b
func mkLt(a, b *Term) *Term {
	if b.Op == "len" && a.Op == "const" && a.S == "0" {
		return mkNot(mkEq(b, a))
	}
	if a.Op == "len" && b.Op == "const" && b.S == "1" {
		return mkEq(a, mkConst("0"))
	}
	return mk("lt", "", a, b)
}

func (t *Term) contains(p func(*Term) bool) bool {
	seen := map[int]bool{}
	var rec func(t *Term) bool
	rec = func(t *Term) bool {
		if seen[t.id] {
			return false
		}
		seen[t.id] = true
		if p(t) {
			return true
		}
		for _, a := range t.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

func (t *Term) String() string { return t.str(10) }

func (t *Term) str(d int) string {
	if d < 0 {
		return "…"
	}
	args := func(sep string) string {
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, a.str(d-1))
		}
		return strings.Join(ss, sep)
	}
	switch t.Op {
	case "const":
		return t.S
	case "param":
		return "$" + t.S
	case "ctx":
		return "ctx"
	case "K":
		return "K:" + t.S
	case "field":
		return t.Args[0].str(d-1) + "." + t.S
	case "res":
		return t.Args[0].str(d-1) + "#" + t.S
	case "call":
		return t.S + "(" + args(", ") + ")"
	case "union":
		return "{" + args(" | ") + "}"
	case "upd":
		return t.Args[0].str(d-1) + "<" + t.S + "=" + t.Args[1].str(d-1) + ">"
	case "elem":
		return t.Args[0].str(d-1) + "[*]"
	case "key":
		return "key(" + args("") + ")"
	case "not":
		return "!" + args("")
	case "eq":
		return "eq(" + args(", ") + ")"
	case "lt":
		return "lt(" + args(", ") + ")"
	case "bin":
		return "bin" + t.S + "(" + args(", ") + ")"
	case "list":
		return "list(" + args(", ") + ")"
	case "global":
		return "@" + t.S
	case "zero":
		return "zero"
	case "addr":
		return "&" + t.S
	case "rec":
		return "rec"
	}
	if len(t.Args) == 0 {
		return t.Op + ":" + t.S
	}
	return t.Op + ":" + t.S + "(" + args(", ") + ")"
}

// ---- facts ----

type Fact struct {
	Kind byte // 'T' cond true, 'F' cond false, 'C' called, 'O' called and returned nil error, 'N' ssa error value non-nil, 'D' derived
	T    *Term
	Each bool // holds for every iteration of some completed loop (possibly zero)
	id   int32
	// the list that the fact says is empty
	empty *Term
	// the elements of the written-out list that a loop is going through
	list []*Term
}

var factTab = map[string]*Fact{}
var factList []*Fact

func mkFact(kind byte, t *Term, each bool) *Fact {
	k := fkey(kind, each, t)
	if f, ok := factTab[k]; ok {
		return f
	}
	f := &Fact{Kind: kind, T: t, Each: each, id: int32(len(factList))}
	if kind == 'T' && !each && t.Op == "eq" && len(t.Args) == 2 && isZeroTerm(t.Args[1]) {
		if x := t.Args[0]; x.Op == "len" {
			f.empty = x.Args[0]
		} else if t.Args[1] == tNil {
			f.empty = x
		}
	}
	if kind == 'T' && !each && t.Op == "lt" && t.Args[1].Op == "len" && t.Args[1].Args[0].Op == "list" {
		if as := t.Args[1].Args[0].Args; len(as) > 1 && len(as) <= 8 {
			f.list = as
		}
	}
	factList = append(factList, f)
	factTab[k] = f
	return f
}

func (f *Fact) String() string {
	e := ""
	if f.Each {
		e = "each "
	}
	switch f.Kind {
	case 'T':
		return e + f.T.String()
	case 'F':
		return e + "!" + f.T.String()
	case 'C':
		return e + "called " + f.T.String()
	case 'O':
		return e + "ok " + f.T.String()
	case 'D':
		return e + "derived " + f.T.String()
	}
	return e + "nonnil " + f.T.String()
}

// Set is an immutable sorted set of fact ids.
type Set []int32

func (s Set) has(id int32) bool {
	i := sort.Search(len(s), func(i int) bool { return s[i] >= id })
	return i < len(s) && s[i] == id
}

func union(a, b Set) Set {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	out := make(Set, 0, len(a)+len(b))
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i] < b[j]:
			out = append(out, a[i])
			i++
		default:
			out = append(out, b[j])
			j++
		}
	}
	out = append(out, a[i:]...)
	out = append(out, b[j:]...)
	return out
}

func inter(a, b Set) Set {
	out := Set{}
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		switch {
		case a[i] == b[j]:
			out = append(out, a[i])
			i++
			j++
		case a[i] < b[j]:
			i++
		default:
			j++
		}
	}
	return out
}

// join: what holds whichever of a and b holds.  What is said of every element
// of a list holds where the list is empty.
func join(a, b Set) Set {
	out := inter(a, b)
	keep := func(a, b Set) {
		var empty []*Term
		for _, id := range a {
			if t := factList[id].empty; t != nil {
				empty = append(empty, t)
			}
		}
		if empty == nil {
			return
		}
		var fs []*Fact
		for _, id := range b {
			f := factList[id]
			if f.Kind == 'N' || f.Kind == 'Z' || f.Kind == 'D' || f.T.Op == "eq" && f.T.Args[0].Op == "len" || a.has(id) {
				continue
			}
			for _, x := range empty {
				if vacuous(f, x) {
					fs = append(fs, f)
					break
				}
			}
		}
		out = out.add(fs...)
	}
	keep(a, b)
	keep(b, a)
	return out
}

func vacuous(f *Fact, x *Term) bool {
	if f.T.Op == "lt" && (f.Each || f.Kind == 'F') && f.T.Args[1].Op == "len" && f.T.Args[1].Args[0] == x {
		return true
	}
	return f.T.contains(func(t *Term) bool { return t.Op == "elem" && t.Args[0] == x })
}

func minus(a, b Set) Set {
	out := Set{}
	for _, x := range a {
		if !b.has(x) {
			out = append(out, x)
		}
	}
	return out
}

func (s Set) add(fs ...*Fact) Set {
	if len(fs) == 0 {
		return s
	}
	var x Set
	for _, f := range fs {
		x = append(x, f.id)
	}
	sort.Slice(x, func(i, j int) bool { return x[i] < x[j] })
	y := x[:0]
	for i, v := range x {
		if i == 0 || v != x[i-1] {
			y = append(y, v)
		}
	}
	return union(s, y)
}

func equalSet(a, b Set) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s Set) facts() []*Fact {
	var out []*Fact
	for _, i := range s {
		out = append(out, factList[i])
	}
	return out
}
