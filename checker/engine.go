package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/milkyway-labs/milkyway/v3"

type cell struct {
	id    int
	inst  *Inst
	alloc *ssa.Alloc
}

var cellCount int

// Engine: interprocedural, context-sensitive must-fact analysis over SSA.
type Engine struct {
	writersMemo      map[string]map[string]map[string]string
	prog             *ssa.Program
	pkgs             []*packages.Package
	fset             *token.FileSet
	repoFns          []*ssa.Function // every source function of the repo packages
	byName           map[string]*ssa.Function
	vocab            map[string]bool
	resolved         map[string]*ssa.Function // interface method -> unique implementation
	memo             map[string]*Inst
	stack            []*ssa.Function
	maxDepth         int
	derived          []*Derived
	marks            bool       // record assignments to loop-carried and captured variables as facts
	assume           []*FactPat // facts the current section takes for granted
	mutMemo          map[string]bool
	keepers          map[string]*types.Named // module -> keeper type
	inlineHook       map[string][]*ssa.Function
	stats            struct{ insts, sites int }
	transp           map[*ssa.Function]int
	noInline         map[string]bool
	forceOpaque      map[string]bool
	forceTransparent map[string]bool
	closures         map[*ssa.Function][]*Term // anchored function values and what they capture
}

// Derived is a disjunction fact: it holds as soon as any alternative holds.
type Derived struct {
	Name  string
	Match func(f *Fact) bool
	fact  *Fact
	cache map[int32]bool
}

type Ret struct {
	block *ssa.BasicBlock
	instr *ssa.Return
	pred  *ssa.BasicBlock // the way into block, nil: any
	facts Set             // facts on success exit (error nil implied when present)
	ok    bool
	raw   Set
}

type Site struct {
	inst  *Inst
	instr ssa.CallInstruction
	name  string
	call  *Term
	args  []*Term
	facts Set
	subs  []*Inst
	kind  string // call, go, defer
	lists [][]*Term
	lset  bool
}

type Inst struct {
	e             *Engine
	fn            *ssa.Function
	params        []*Term
	free          []*Term
	env           map[ssa.Value]*Term
	prog          map[ssa.Value]int
	in            []Set
	top           []bool
	out           []Set
	lc            map[int]Set
	sites         []*Site
	rets          []*Ret
	succ          Set
	succOK        bool // at least one feasible success return
	errIdx        int  // index of the error result or -1
	results       []*Term
	callMemo      map[ssa.CallInstruction]*callInfo
	depth         int
	contMemo      map[string]*Term
	key           string
	done          bool
	closureStores map[closureCall][]*Inst
	contBusy      map[int]map[*ssa.BasicBlock]bool
	prov          map[ssa.Value]*Term
	pending       map[ssa.Value]bool
	busyAlloc     map[*ssa.Alloc]int
	soleMemo      map[int]*ssa.Store
	memActive     int
	provCont      map[string]*Term
	provCall      map[ssa.CallInstruction]*callInfo
	callBusy      map[ssa.CallInstruction]int
	snap          map[int]*Term // contents of caller cells at entry
	decided       map[*ssa.BasicBlock]bool
	mutBusy       map[string]bool
}

type callInfo struct {
	name    string
	fn      *ssa.Function
	term    *Term
	args    []*Term
	sub     *Inst   // analysed callee
	walked  *Term   // the iteration that a Walk stands for
	cbs     []*Inst // analysed callbacks passed to an external function
	builtin string
}

func derefType(t types.Type) types.Type {
	if p, ok := t.(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

func namedOf(t types.Type) *types.Named {
	t = types.Unalias(t)
	if p, ok := t.(*types.Pointer); ok {
		t = types.Unalias(p.Elem())
	}
	n, _ := t.(*types.Named)
	return n
}

func isErrorType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	return ok && n.Obj().Pkg() == nil && n.Obj().Name() == "error"
}

func shortPkg(path string) string {
	if path == modPath {
		return "root"
	}
	if strings.HasPrefix(path, modPath+"/") {
		p := strings.TrimPrefix(path, modPath+"/")
		p = strings.TrimPrefix(p, "x/")
		return p
	}
	switch path {
	case "cosmossdk.io/math":
		return "math"
	case "cosmossdk.io/collections":
		return "collections"
	case "github.com/cosmos/cosmos-sdk/types":
		return "sdk"
	case "cosmossdk.io/errors":
		return "errorsmod"
	case "cosmossdk.io/core/store", "cosmossdk.io/store/types":
		return "store"
	}
	parts := strings.Split(path, "/")
	l := parts[len(parts)-1]
	if len(parts) > 1 && len(l) > 1 && l[0] == 'v' && l[1] >= '0' && l[1] <= '9' {
		if v := l; parts[len(parts)-2] == "types" && len(parts) > 2 {
			return parts[len(parts)-3] + "/types/" + v
		}
		l = parts[len(parts)-2]
	}
	if l == "types" || l == "keeper" {
		if len(parts) > 1 {
			l = parts[len(parts)-2] + "/" + l
		}
	}
	return l
}

func inRepo(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// keeperName returns the normal name of keeper-like types ("" if not one).
func (e *Engine) keeperName(t types.Type) string {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return ""
	}
	name := n.Obj().Name()
	path := n.Obj().Pkg().Path()
	if _, isI := n.Underlying().(*types.Interface); isI {
		if strings.HasSuffix(name, "Keeper") {
			if inRepo(n.Obj().Pkg()) {
				if m := e.ifaceModule(n); m != "" {
					return m
				}
			}
			return name
		}
		return ""
	}
	if inRepo(n.Obj().Pkg()) {
		if strings.HasSuffix(path, "/keeper") {
			if name == "Keeper" || strings.HasSuffix(name, "Server") || strings.HasSuffix(name, "Hooks") || name == "Migrator" || name == "Querier" {
				return strings.TrimSuffix(shortPkg(path), "/keeper")
			}
		}
		return ""
	}
	if name == "Keeper" || name == "BaseKeeper" {
		return shortPkg(path)
	}
	return ""
}

func isCtx(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil {
		return false
	}
	p, nm := n.Obj().Pkg().Path(), n.Obj().Name()
	return nm == "Context" && (p == "context" || p == "github.com/cosmos/cosmos-sdk/types")
}

// ifaceModule: the repo module whose Keeper is the unique implementation of
// an expected-keeper interface.
func (e *Engine) ifaceModule(n *types.Named) string {
	iface, ok := n.Underlying().(*types.Interface)
	if !ok || iface.NumMethods() == 0 {
		return ""
	}
	found := ""
	for m, k := range e.keepers {
		if types.Implements(types.NewPointer(k), iface) {
			if found != "" {
				return ""
			}
			found = m
		}
	}
	return found
}

func (e *Engine) fnName(fn *ssa.Function) string {
	if o := fn.Origin(); o != nil {
		fn = o
	}
	if obj, ok := fn.Object().(*types.Func); ok && obj != nil {
		return objName(obj)
	}
	if fn.Parent() != nil {
		return e.fnName(fn.Parent()) + "$anon"
	}
	s := fn.Name()
	if fn.Pkg != nil {
		s = shortPkg(fn.Pkg.Pkg.Path()) + "." + s
	}
	return s
}

func objName(obj *types.Func) string {
	pkg := ""
	if obj.Pkg() != nil {
		pkg = shortPkg(obj.Pkg().Path())
	}
	sig := obj.Type().(*types.Signature)
	if r := sig.Recv(); r != nil {
		if n := namedOf(r.Type()); n != nil {
			return pkg + "." + n.Obj().Name() + "." + obj.Name()
		}
		return pkg + ".iface." + obj.Name()
	}
	return pkg + "." + obj.Name()
}

// isOpaque: calls to fn appear as themselves in terms.
func (e *Engine) isTransparent(fn *ssa.Function) bool {
	if fn == nil || len(fn.Blocks) == 0 {
		return false
	}
	if v, ok := e.transp[fn]; ok {
		return v == 1
	}
	r := e.isTransparent0(fn)
	e.transp[fn] = 2
	if r {
		e.transp[fn] = 1
	}
	return r
}

// plainGetter: a function which only reads fields of what it is given.
func plainGetter(fn *ssa.Function) bool {
	for _, ins := range fn.Blocks[0].Instrs {
		switch x := ins.(type) {
		case *ssa.FieldAddr, *ssa.Field, *ssa.Return, *ssa.DebugRef:
		case *ssa.UnOp:
			if x.Op != token.MUL {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (e *Engine) isTransparent0(fn *ssa.Function) bool {
	if fn.Parent() != nil || fn.Synthetic != "" && fn.Origin() == nil {
		return true
	}
	obj, _ := fn.Object().(*types.Func)
	if o := fn.Origin(); o != nil {
		obj, _ = o.Object().(*types.Func)
	}
	if obj == nil {
		return true
	}
	if !inRepo(obj.Pkg()) {
		return false
	}
	name := objName(obj)
	if e.forceOpaque[name] {
		return false
	}
	if e.forceTransparent[name] {
		return true
	}
	if !obj.Exported() {
		return true
	}
	if !e.vocab[name] {
		return true
	}
	if len(fn.Blocks) == 1 && (strings.HasSuffix(obj.Pkg().Path(), "/types") || plainGetter(fn)) {
		return true
	}
	return false
}

func (e *Engine) newInst(fn *ssa.Function, params, free []*Term) *Inst {
	return &Inst{e: e, fn: fn, params: params, free: free, env: map[ssa.Value]*Term{}, prog: map[ssa.Value]int{}, pending: map[ssa.Value]bool{}, decided: map[*ssa.BasicBlock]bool{},
		callMemo: map[ssa.CallInstruction]*callInfo{}, lc: map[int]Set{}, contMemo: map[string]*Term{}, closureStores: map[closureCall][]*Inst{}}
}

// Analyze analyses fn with the given symbolic arguments.
func (e *Engine) Analyze(fn *ssa.Function, params, free []*Term, snap map[int]*Term) *Inst {
	var kb strings.Builder
	fmt.Fprintf(&kb, "%p", fn)
	for _, p := range params {
		fmt.Fprintf(&kb, ",%d", p.id)
	}
	for _, p := range free {
		fmt.Fprintf(&kb, ";%d", p.id)
	}
	var sk []int
	for c := range snap {
		sk = append(sk, c)
	}
	sort.Ints(sk)
	for _, c := range sk {
		fmt.Fprintf(&kb, ":%d=%d", c, snap[c].id)
	}
	k := kb.String()
	if i, ok := e.memo[k]; ok {
		if !i.done {
			return nil // recursion
		}
		return i
	}
	rec := 0
	for _, f := range e.stack {
		if f == fn {
			rec++
		}
	}
	if rec >= 2 || len(e.stack) > e.maxDepth {
		return nil
	}
	inst := e.newInst(fn, params, free)
	inst.key = k
	inst.snap = snap
	e.memo[k] = inst
	e.stack = append(e.stack, fn)
	inst.run()
	e.stack = e.stack[:len(e.stack)-1]
	inst.done = true
	e.stats.insts++
	return inst
}

// Root analyses fn as an entry point with symbolic parameters.
func (e *Engine) Root(fn *ssa.Function) *Inst {
	var ps []*Term
	if free, ok := e.closures[fn]; ok {
		for k := range fn.Params {
			ps = append(ps, mk("param", fmt.Sprintf("_%d", k+1)))
		}
		return e.Analyze(fn, ps, free, nil)
	}
	n := 0
	if fn.Signature.Recv() == nil {
		n = 1
	}
	for _, p := range fn.Params {
		if isCtx(p.Type()) {
			ps = append(ps, tCtx)
			continue
		}
		if kn := e.keeperName(p.Type()); kn != "" {
			if n == 0 {
				n = 1
			}
			ps = append(ps, mk("K", kn))
			continue
		}
		ps = append(ps, mk("param", fmt.Sprint(n)))
		n++
	}
	return e.Analyze(fn, ps, nil, nil)
}

// ---------- values ----------

func (i *Inst) T(v ssa.Value) *Term {
	if t, ok := i.env[v]; ok {
		return t
	}
	if n := i.prog[v]; n > 0 {
		// cycles are cut at phis (every value cycle passes through one)
		if _, isPhi := v.(*ssa.Phi); isPhi || n > 3 {
			i.pending[v] = true
			return tRec
		}
	}
	if t, ok := i.prov[v]; ok {
		return t
	}
	// keeper / context normalisation by type
	if isCtx(v.Type()) {
		i.env[v] = tCtx
		return tCtx
	}
	if kn := i.e.keeperName(v.Type()); kn != "" {
		t := mk("K", kn)
		i.env[v] = t
		return t
	}
	if i.pending == nil {
		i.pending = map[ssa.Value]bool{}
	}
	// A value computed while an enclosing one is still in progress is only
	// provisional when it depends on that one.
	saved := i.pending
	i.pending = map[ssa.Value]bool{}
	i.prog[v]++
	t := i.t0(v)
	if i.prog[v]--; i.prog[v] == 0 {
		delete(i.prog, v)
		delete(i.pending, v)
	}
	if len(i.pending) == 0 {
		i.env[v] = t
	} else {
		if i.prov == nil {
			i.prov = map[ssa.Value]*Term{}
		}
		i.prov[v] = t
	}
	for x := range i.pending {
		al, _ := x.(*ssa.Alloc)
		if i.prog[x] > 0 || al != nil && i.busyAlloc[al] > 0 {
			if saved == nil {
				saved = map[ssa.Value]bool{}
			}
			saved[x] = true
		}
	}
	i.pending = saved
	if i.pending == nil {
		i.pending = map[ssa.Value]bool{}
	}
	i.settle()
	return t
}

// settle drops provisional results once nothing is in progress.
func (i *Inst) settle() {
	if len(i.prog) == 0 && i.memActive == 0 {
		i.prov, i.provCont, i.provCall = nil, nil, nil
		i.pending = map[ssa.Value]bool{}
	}
}

func hasRec(t *Term) bool { return t.contains(func(x *Term) bool { return x == tMem }) }

// substRec replaces the value of the previous iteration by base.
func substRec(t, base *Term, d int) *Term {
	if t == tMem {
		return base
	}
	if d > 30 || len(t.Args) == 0 || !hasRec(t) {
		return t
	}
	as := make([]*Term, len(t.Args))
	for n, a := range t.Args {
		as[n] = substRec(a, base, d+1)
	}
	return rebuild(t, as)
}

// rebuild: t with other arguments.
func rebuild(t *Term, as []*Term) *Term {
	switch t.Op {
	case "field":
		return mkField(as[0], t.S)
	case "upd":
		return mkUpd(as[0], t.S, as[1])
	case "union":
		return mkUnion(as...)
	case "elem":
		return mkElem(as[0])
	case "eq":
		return mkEq(as[0], as[1])
	case "not":
		return mkNot(as[0])
	}
	return mkx(t.Op, t.S, t.cell, t.fn, as...)
}

// dynTypes: concrete type of values stored in repository interfaces.
var dynTypes = map[int]types.Type{}
var dynConflict = map[int]bool{}

func noteDyn(t *Term, typ types.Type) {
	switch t.Op {
	case "param", "unknown", "zero", "const", "rec", "union", "big", "global":
		return
	}
	if o, ok := dynTypes[t.id]; ok && !types.Identical(o, typ) {
		dynConflict[t.id] = true
		return
	}
	dynTypes[t.id] = typ
}

// dynType: the concrete type of an interface value, nil if not known.
func dynType(t *Term) types.Type {
	if dynConflict[t.id] {
		return nil
	}
	if d := dynTypes[t.id]; d != nil {
		return d
	}
	return nil
}

func repoIface(t types.Type) bool {
	n := namedOf(t)
	if n == nil || n.Obj().Pkg() == nil || !inRepo(n.Obj().Pkg()) {
		return false
	}
	it, ok := n.Underlying().(*types.Interface)
	return ok && it.NumMethods() > 0 && !strings.HasSuffix(n.Obj().Name(), "Keeper")
}

// typeIs decides a type assertion when the concrete type is known.
func (i *Inst) typeIs(v *ssa.TypeAssert) *Term {
	if !repoIface(v.X.Type()) {
		return nil
	}
	d := dynType(i.T(v.X))
	if d == nil {
		return nil
	}
	if it, ok := v.AssertedType.Underlying().(*types.Interface); ok {
		if types.Implements(d, it) {
			return tTrue
		}
		return tFalse
	}
	if types.Identical(d, v.AssertedType) {
		return tTrue
	}
	return tFalse
}

func constTerm(c *ssa.Const) *Term {
	if c.Value == nil {
		switch c.Type().Underlying().(type) {
		case *types.Struct, *types.Array:
			return mk("zero", "")
		}
		return tNil
	}
	if c.Value.Kind() == constant.String {
		return mkConst(c.Value.ExactString())
	}
	return mkConst(c.Value.ExactString())
}

func (i *Inst) addrPath(a *Term, p string) *Term {
	s := a.S
	if s != "" {
		s += "."
	}
	return mkx("addr", s+p, a.cell, nil)
}

func fieldName(t types.Type, idx int) string {
	st, ok := derefType(t.Underlying()).Underlying().(*types.Struct)
	if !ok {
		return fmt.Sprint(idx)
	}
	return st.Field(idx).Name()
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}

func (i *Inst) t0(v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return constTerm(v)
	case *ssa.Parameter:
		for n, p := range i.fn.Params {
			if p == v {
				if n < len(i.params) {
					return i.params[n]
				}
			}
		}
		return mk("unknown", "param")
	case *ssa.FreeVar:
		for n, p := range i.fn.FreeVars {
			if p == v && n < len(i.free) {
				return i.free[n]
			}
		}
		return mk("unknown", "free")
	case *ssa.Global:
		return mk("global", shortPkg(v.Pkg.Pkg.Path())+"."+v.Name())
	case *ssa.Function:
		return mkx("func", i.e.fnName(v), nil, v)
	case *ssa.Alloc:
		cellCount++
		c := &cell{id: cellCount, inst: i, alloc: v}
		return mkx("addr", "", c, nil)
	case *ssa.Phi:
		var ts []*Term
		for n, ed := range v.Edges {
			if i.in != nil && i.top != nil && !i.edgeFeasible(v.Block().Preds[n], v.Block()) {
				continue
			}
			t := i.T(ed)
			if t == tRec {
				continue
			}
			ts = append(ts, t)
		}
		return mkUnion(ts...)
	case *ssa.Call:
		return i.resultTerm(v, 0)
	case *ssa.Extract:
		switch tup := v.Tuple.(type) {
		case *ssa.Call:
			return i.resultTerm(tup, v.Index)
		case *ssa.Next:
			r, ok := tup.Iter.(*ssa.Range)
			if !ok {
				return mk("unknown", "next")
			}
			x := i.T(r.X)
			switch v.Index {
			case 0:
				return mk("iterok", "", x)
			case 1:
				return mkKey(x)
			default:
				return mkElem(x)
			}
		case *ssa.TypeAssert:
			if v.Index == 0 {
				return i.T(tup.X)
			}
			if t := i.typeIs(tup); t != nil {
				return t
			}
			return mk("istype", typeName(tup.AssertedType), i.T(tup.X))
		case *ssa.Lookup:
			if v.Index == 0 {
				return i.lookup(tup)
			}
			return mk("haskey", "", i.T(tup.X), i.T(tup.Index))
		}
		return mk("unknown", "extract")
	case *ssa.UnOp:
		switch v.Op {
		case token.NOT:
			return mkNot(i.T(v.X))
		case token.MUL:
			a := i.T(v.X)
			if a.Op == "addr" && a.cell != nil {
				return i.load(a, v)
			}
			return a
		}
		return mk("bin", v.Op.String(), i.T(v.X))
	case *ssa.BinOp:
		return i.binop(v)
	case *ssa.FieldAddr:
		b := i.T(v.X)
		n := fieldName(v.X.Type(), v.Field)
		if b.Op == "addr" && b.cell != nil {
			return i.addrPath(b, n)
		}
		return mkField(b, n)
	case *ssa.Field:
		return mkField(i.T(v.X), fieldName(v.X.Type(), v.Field))
	case *ssa.IndexAddr:
		b := i.T(v.X)
		idx := i.T(v.Index)
		if b.Op == "addr" && b.cell != nil {
			if isConst(idx) {
				return i.addrPath(b, "["+idx.S+"]")
			}
			return mkElem(i.loadAny(b))
		}
		return mkIdx(b, idx)
	case *ssa.Index:
		return mkIdx(i.T(v.X), i.T(v.Index))
	case *ssa.Lookup:
		return i.lookup(v)
	case *ssa.Slice:
		if t := i.encoded(v); t != nil {
			return t
		}
		x := i.T(v.X)
		if x.Op == "addr" && x.cell != nil {
			x = i.load(x, v)
		}
		if v.Low == nil && v.High == nil {
			return x
		}
		lo, hi := mkConst("0"), mk("len", "", x)
		if v.Low != nil {
			lo = i.T(v.Low)
		}
		if v.High != nil {
			hi = i.T(v.High)
		}
		return mk("slice", "", x, lo, hi)
	case *ssa.MakeInterface:
		t := i.T(v.X)
		if repoIface(v.Type()) {
			noteDyn(t, v.X.Type())
		}
		return t
	case *ssa.ChangeType:
		return i.T(v.X)
	case *ssa.ChangeInterface:
		return i.T(v.X)
	case *ssa.Convert:
		return i.T(v.X)
	case *ssa.MultiConvert:
		return i.T(v.X)
	case *ssa.TypeAssert:
		return i.T(v.X)
	case *ssa.MakeClosure:
		var bs []*Term
		for _, b := range v.Bindings {
			bs = append(bs, i.T(b))
		}
		return mkx("closure", "", nil, v.Fn, bs...)
	case *ssa.MakeMap:
		var ts []*Term
		for _, r := range *v.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok {
				ts = append(ts, mk("kv", "", i.T(mu.Key), i.T(mu.Value)))
			}
		}
		sort.Slice(ts, func(a, b int) bool { return ts[a].id < ts[b].id })
		return mk("map", "", ts...)
	case *ssa.MakeSlice:
		if t := i.encoded(v); t != nil {
			return t
		}
		return i.filled(v)
	}
	return mk("unknown", fmt.Sprintf("%T", v))
}

// encoded: a fresh byte buffer filled by binary.*.PutUintN.
func (i *Inst) encoded(v ssa.Value) *Term {
	if v.Referrers() == nil {
		return nil
	}
	var out *Term
	for _, r := range *v.Referrers() {
		c, ok := r.(*ssa.Call)
		if !ok {
			continue
		}
		f := c.Common().StaticCallee()
		if f == nil || f.Pkg == nil || f.Pkg.Pkg.Path() != "encoding/binary" || !strings.HasPrefix(f.Name(), "PutUint") {
			continue
		}
		a := c.Common().Args
		if a[len(a)-2] != v || out != nil {
			return nil
		}
		en := "le"
		if n := namedOf(f.Signature.Recv().Type()); n != nil && n.Obj().Name() == "bigEndian" {
			en = "be"
		}
		out = mk("call", "enc"+en+strings.TrimPrefix(f.Name(), "PutUint"), i.T(a[len(a)-1]))
	}
	return out
}

func typeName(t types.Type) string {
	if n := namedOf(t); n != nil && n.Obj().Pkg() != nil {
		return shortPkg(n.Obj().Pkg().Path()) + "." + n.Obj().Name()
	}
	return t.String()
}

// mkElem is an arbitrary element of x.
func mkElem(x *Term) *Term {
	var out []*Term
	if !elemParts(x, &out, 0) || len(out) == 0 {
		return mk("elem", "", x)
	}
	return mkUnion(out...)
}

func elemParts(x *Term, out *[]*Term, d int) bool {
	if d > 12 {
		return false
	}
	switch x.Op {
	case "list":
		*out = append(*out, x.Args...)
		return true
	case "append":
		for _, a := range x.Args {
			if !elemParts(a, out, d+1) {
				return false
			}
		}
		return true
	case "union":
		for _, a := range x.Args {
			if !elemParts(a, out, d+1) {
				return false
			}
		}
		return true
	case "slice":
		return elemParts(x.Args[0], out, d+1)
	case "setelem":
		*out = append(*out, x.Args[1])
		return elemParts(x.Args[0], out, d+1)
	case "rec", "make":
		return true
	case "const", "zero":
		return x == tNil || x.Op == "zero"
	}
	*out = append(*out, mk("elem", "", x))
	return true
}

func mkKey(x *Term) *Term { return mk("key", "", x) }

func mkIdx(x, idx *Term) *Term {
	if isConst(idx) {
		if x.Op == "list" {
			var n int
			if _, err := fmt.Sscanf(idx.S, "%d", &n); err == nil && n >= 0 && n < len(x.Args) {
				return x.Args[n]
			}
		}
		return mk("idx", idx.S, x)
	}
	return mkElem(x)
}

func (i *Inst) lookup(v *ssa.Lookup) *Term {
	x, k := i.T(v.X), i.T(v.Index)
	if k.Op == "key" && k.Args[0] == x {
		return mkElem(x)
	}
	if isConst(k) && x.Op == "map" {
		for _, kv := range x.Args {
			if kv.Args[0] == k {
				return kv.Args[1]
			}
		}
	}
	return mk("lookup", "", x, k)
}

func (i *Inst) binop(v *ssa.BinOp) *Term {
	x, y := i.T(v.X), i.T(v.Y)
	if isInt(v.X.Type()) {
		// literals: 0 of differing widths are equal already by ExactString
	}
	if b, ok := v.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		zero := func(t *Term) bool { return t.Op == "const" && t.S == "0" }
		switch {
		case v.Op == token.GTR && zero(y):
			return mkNot(mkEq(x, y))
		case v.Op == token.LEQ && zero(y):
			return mkEq(x, y)
		case v.Op == token.LSS && zero(x):
			return mkNot(mkEq(x, y))
		case v.Op == token.GEQ && zero(x):
			return mkEq(x, y)
		}
	}
	switch v.Op {
	case token.EQL:
		return mkEq(x, y)
	case token.NEQ:
		return mkNot(mkEq(x, y))
	case token.LSS:
		return ltOf(v, x, y)
	case token.GTR:
		return ltOf(v, y, x)
	case token.LEQ:
		return mkNot(ltOf(v, y, x))
	case token.GEQ:
		return mkNot(ltOf(v, x, y))
	case token.ADD, token.MUL, token.AND, token.OR:
		if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString == 0 {
			if isConst(x) && !isConst(y) || (isConst(x) == isConst(y) && x.id > y.id) {
				x, y = y, x
			}
			switch {
			case v.Op == token.ADD && y == mkConst("0"), v.Op == token.MUL && y == mkConst("1"):
				return x
			}
		}
	}
	op := v.Op.String()
	if (v.Op == token.ADD || v.Op == token.MUL) && !isConst(x) && !isConst(y) && narrow(v.Type()) {
		op += "/narrow" // wraps around within the range of its operands
	}
	return mk("bin", op, x, y)
}

// ltOf: x < y; among whole numbers, x < K is written as !(K-1 < x).
func ltOf(v *ssa.BinOp, x, y *Term) *Term {
	b, ok := v.X.Type().Underlying().(*types.Basic)
	if ok && b.Info()&types.IsInteger != 0 && isConst(y) && !isConst(x) {
		if k, err := strconv.ParseInt(y.S, 10, 64); err == nil && k >= 1 {
			lo := mkConst(strconv.FormatInt(k-1, 10))
			if k == 1 && b.Info()&types.IsUnsigned != 0 {
				return mkEq(x, lo)
			}
			return mkNot(mkLt(lo, x))
		}
	}
	if ok && b.Info()&types.IsUnsigned != 0 && x == mkConst("0") && !isConst(y) {
		return mkNot(mkEq(y, x))
	}
	return mkLt(x, y)
}

// narrow: an integer type of less than 64 bits.
func narrow(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return false
	}
	switch b.Kind() {
	case types.Int8, types.Int16, types.Int32, types.Uint8, types.Uint16, types.Uint32:
		return true
	}
	return false
}

// ---------- local memory ----------

// loadAny: flow-insensitive content of a cell.
func (i *Inst) loadAny(a *Term) *Term {
	c := a.cell
	if t := i.settled(c); t != nil {
		return selPath(t, a.S)
	}
	base := c.inst.contentAny(c, i)
	return selPath(base, a.S)
}

// settled: the content of a captured variable which nothing modifies once the
// closure exists (nil if that is not so).
func (i *Inst) settled(c *cell) *Term {
	g := i.fn
	for g != nil && g.Parent() != c.inst.fn {
		g = g.Parent()
	}
	if g == nil {
		return nil
	}
	var mc *ssa.MakeClosure
	mods := map[ssa.Instruction]bool{}
	n := 0
	for _, b := range c.inst.fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.MakeClosure:
				f := ins.Fn.(*ssa.Function)
				if f == g {
					mc = ins
					n++
				}
				for k, bd := range ins.Bindings {
					if bd == c.alloc && closureWrites(f, f.FreeVars[k], 0) {
						return nil
					}
				}
			case *ssa.Store:
				if r, ok := rootAddr(ins.Addr); ok && r == c.alloc {
					mods[ins] = true
				}
				if sl := elemStore(ins.Addr); sl != nil {
					if r, ok := rootAddr(sl); ok && r == c.alloc {
						return nil
					}
				}
			case *ssa.MapUpdate:
				if ld, ok := ins.Map.(*ssa.UnOp); ok {
					if r, ok := rootAddr(ld.X); ok && r == c.alloc {
						return nil
					}
				}
			case ssa.CallInstruction:
				for _, a := range ins.Common().Args {
					if r, ok := rootAddr(a); ok && r == c.alloc {
						mods[ins] = true
					}
				}
			}
		}
	}
	if mc == nil || n != 1 || len(mods) < 2 {
		return nil
	}
	later := false
	for _, ins := range mc.Block().Instrs {
		if ins == ssa.Instruction(mc) {
			later = true
		} else if later && mods[ins] {
			return nil
		}
	}
	seen := map[*ssa.BasicBlock]bool{c.alloc.Block(): true}
	var walk func(b *ssa.BasicBlock) bool
	walk = func(b *ssa.BasicBlock) bool {
		for _, s := range b.Succs {
			if seen[s] {
				continue
			}
			seen[s] = true
			for _, ins := range s.Instrs {
				if mods[ins] {
					return false
				}
			}
			if !walk(s) {
				return false
			}
		}
		return true
	}
	if !walk(mc.Block()) {
		return nil
	}
	return c.inst.contentAt(c, mc)
}

func selPath(t *Term, p string) *Term {
	if p == "" {
		return t
	}
	for _, f := range strings.Split(p, ".") {
		if strings.HasPrefix(f, "[") {
			if t.Op == "union" {
				var ts []*Term
				for _, a := range t.Args {
					ts = append(ts, selPath(a, f))
				}
				t = mkUnion(ts...)
				continue
			}
			if t.Op == "upd" {
				for t.Op == "upd" && t.S != f {
					t = t.Args[0]
				}
				if t.Op == "upd" {
					t = t.Args[1]
					continue
				}
			}
			t = mkIdx(t, mkConst(strings.Trim(f, "[]")))
			continue
		}
		t = mkField(t, f)
	}
	return t
}

func updPath(t *Term, p []string, v *Term) *Term {
	if len(p) == 0 {
		return v
	}
	return mkUpd(t, p[0], updPath(selPath(t, p[0]), p[1:], v))
}

// rootAlloc finds the alloc (and static path) an address value derives from.
func rootAddr(v ssa.Value) (ssa.Value, bool) {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			v = x.X
		case *ssa.Alloc:
			return x, true
		case *ssa.FreeVar, *ssa.Parameter:
			return x, true
		case *ssa.Slice:
			v = x.X
		case *ssa.ChangeType:
			v = x.X
		case *ssa.MakeInterface:
			v = x.X
		case *ssa.ChangeInterface:
			v = x.X
		case *ssa.UnOp:
			p := spilledParam(x)
			if p == nil {
				return v, false
			}
			v = p
		default:
			return v, false
		}
	}
}

// spilledParam: x loads a pointer parameter from the cell it was spilled to
// (parameters captured by closures).
func spilledParam(x *ssa.UnOp) ssa.Value {
	if x.Op != token.MUL {
		return nil
	}
	al, ok := x.X.(*ssa.Alloc)
	if !ok || al.Referrers() == nil {
		return nil
	}
	var p ssa.Value
	for _, r := range *al.Referrers() {
		if st, ok := r.(*ssa.Store); ok && st.Addr == al {
			pa, ok := st.Val.(*ssa.Parameter)
			if !ok || p != nil {
				return nil
			}
			if _, isPtr := pa.Type().Underlying().(*types.Pointer); !isPtr {
				return nil
			}
			p = pa
		}
	}
	return p
}

// elemStore: addr is an element of a slice held in memory; the address of
// the slice variable (or field) is returned.
func elemStore(addr ssa.Value) ssa.Value {
	for {
		switch x := addr.(type) {
		case *ssa.FieldAddr:
			addr = x.X
		case *ssa.IndexAddr:
			if u, ok := x.X.(*ssa.UnOp); ok && u.Op == token.MUL && spilledParam(u) == nil {
				if _, ok := u.Type().Underlying().(*types.Slice); ok {
					return u.X
				}
				return nil
			}
			addr = x.X
		default:
			return nil
		}
	}
}

func (i *Inst) load(a *Term, at ssa.Instruction) *Term {
	if a.cell.inst != i && i.snap[a.cell.id] == nil {
		return i.loadAny(a)
	}
	t := i.contentAt(a.cell, at)
	if a.S == "" {
		t = rebase(t, a.cell.alloc.Type().Underlying().(*types.Pointer).Elem())
	}
	t = selPath(t, a.S)
	// array content as list
	if t.Op == "upd" || t.Op == "zero" {
		if l := asList(t); l != nil {
			return l
		}
	}
	return t
}

// rebase: a record whose fields were all replaced no longer depends on the one
// it started from.
func rebase(t *Term, typ types.Type) *Term {
	if typ == nil {
		return t
	}
	st, ok := typ.Underlying().(*types.Struct)
	if !ok || st.NumFields() == 0 {
		return t
	}
	if t.Op == "union" {
		var ts []*Term
		for _, a := range t.Args {
			ts = append(ts, rebase(a, typ))
		}
		return mkUnion(ts...)
	}
	if t.Op != "upd" {
		return t
	}
	set := map[string]bool{}
	b := t
	for b.Op == "upd" {
		set[b.S] = true
		b = b.Args[0]
	}
	if b.Op == "zero" || len(set) != st.NumFields() {
		return t
	}
	out := mk("zero", "")
	for k := 0; k < st.NumFields(); k++ {
		n := st.Field(k).Name()
		if !set[n] {
			return t
		}
		out = mkUpd(out, n, mkField(t, n))
	}
	return out
}

func asList(t *Term) *Term {
	vals := map[string]*Term{}
	x := t
	for x.Op == "upd" {
		if !strings.HasPrefix(x.S, "[") {
			return nil
		}
		if _, ok := vals[x.S]; !ok {
			vals[x.S] = x.Args[1]
		}
		x = x.Args[0]
	}
	if x.Op != "zero" || len(vals) == 0 {
		return nil
	}
	var out []*Term
	for n := 0; n < len(vals); n++ {
		v, ok := vals[fmt.Sprintf("[%d]", n)]
		if !ok {
			return nil
		}
		out = append(out, v)
	}
	return mk("list", "", out...)
}

// contentAny: union of every store to the cell (captured variables).
func (i *Inst) contentAny(c *cell, user *Inst) *Term {
	k := fmt.Sprintf("any%d/%p", c.id, user)
	if t, ok := i.contMemo[k]; ok {
		return t
	}
	i.contMemo[k] = tRec
	var whole []*Term
	type fs struct {
		p string
		v *Term
	}
	var parts []fs
	var updates []*Term
	scan := func(in *Inst) {
		for _, b := range in.fn.Blocks {
			for _, ins := range b.Instrs {
				if mu, ok := ins.(*ssa.MapUpdate); ok {
					if ld, ok := mu.Map.(*ssa.UnOp); ok && ld.Op == token.MUL && in.reached(b) {
						if a := in.T(ld.X); a.Op == "addr" && a.cell == c {
							updates = append(updates, mk("map", "", mk("kv", "", in.T(mu.Key), in.T(mu.Value))))
						}
					}
					continue
				}
				st, ok := ins.(*ssa.Store)
				if !ok {
					continue
				}
				if ia, ok := st.Addr.(*ssa.IndexAddr); ok {
					if _, ok := ia.X.(*ssa.MakeSlice); ok {
						continue
					}
				}
				a := in.T(st.Addr)
				if a.Op != "addr" || a.cell != c {
					continue
				}
				v := in.T(st.Val)
				if a.S == "" {
					whole = append(whole, v)
				} else {
					parts = append(parts, fs{a.S, v})
				}
			}
		}
	}
	scan(i)
	if user != i && user != nil {
		scan(user)
	}
	// the other callbacks that share the variable
	for k, subs := range i.closureStores {
		for _, bd := range k.mc.Bindings {
			if bd != c.alloc {
				continue
			}
			for _, sub := range subs {
				if sub != user && sub.out != nil {
					scan(sub)
				}
			}
		}
	}
	// pointer escapes such as Unmarshal(bz, &x)
	for _, r := range *c.alloc.Referrers() {
		if call, ok := r.(ssa.CallInstruction); ok {
			if t := i.mutBy(call, c); t != nil {
				whole = append(whole, t)
			}
		}
	}
	var t *Term
	if len(whole) == 0 {
		t = mk("zero", "")
		if !isAgg(c.alloc) {
			t = zeroOf(c.alloc)
		}
	} else {
		var ws []*Term
		for _, w := range whole {
			if w != tRec {
				ws = append(ws, w)
			}
		}
		t = mkUnion(ws...)
	}
	t = mkUnion(append(updates, t)...)
	for _, p := range parts {
		t = mkUnion(t, updPath(t, strings.Split(p.p, "."), p.v))
	}
	i.contMemo[k] = t
	return t
}

// reached: the analysis of i got to b (or has not run).
func (i *Inst) reached(b *ssa.BasicBlock) bool {
	return i.out == nil || i.out[b.Index] != nil
}

func isAgg(a *ssa.Alloc) bool {
	switch derefType(a.Type()).Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func zeroOf(a *ssa.Alloc) *Term {
	switch u := derefType(a.Type()).Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return mkConst(`""`)
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsNumeric != 0:
			return mkConst("0")
		}
	case *types.Struct, *types.Array:
		return mk("zero", "")
	}
	return tNil
}

// mutBy: the content of alloc after it is passed by address to call (nil if
// the call does not modify it).
func (i *Inst) mutBy(call ssa.CallInstruction, c *cell) *Term {
	com := call.Common()
	hit := -1
	args := com.Args
	for n, a := range args {
		if i.cellRoot(a, c) {
			if _, isPtr := a.Type().Underlying().(*types.Pointer); isPtr {
				hit = n
				break
			}
			if mi, ok := a.(*ssa.MakeInterface); ok {
				if _, isPtr := mi.X.Type().Underlying().(*types.Pointer); isPtr {
					hit = n
					break
				}
			}
		}
	}
	if hit < 0 {
		return nil
	}
	name, fn := i.e.calleeName(i, com)
	if fn != nil && len(fn.Blocks) > 0 {
		p := hit
		if com.IsInvoke() {
			p++
		}
		if !i.e.mutates(fn, p, 0) {
			return nil
		}
		if i.e.analyzable(fn) {
			mk0 := fmt.Sprintf("%p/%d", call, c.id)
			if i.mutBusy[mk0] {
				i.pending[c.alloc] = true
				return tMem
			}
			if i.mutBusy == nil {
				i.mutBusy = map[string]bool{}
			}
			i.mutBusy[mk0] = true
			ci := i.call(call)
			delete(i.mutBusy, mk0)
			if ci.sub != nil && ci.sub.snap[c.id] != nil {
				if t := ci.sub.exitCell(c); t != nil {
					return t
				}
			}
		}
	} else {
		base := name[strings.LastIndex(name, ".")+1:]
		if !strings.Contains(base, "nmarshal") && !strings.Contains(base, "Scan") && !strings.Contains(base, "Decode") && !strings.Contains(base, "UnpackAny") && !strings.Contains(base, "Reset") && !strings.Contains(base, "GetParamSet") {
			return nil
		}
	}
	var ts []*Term
	for n, a := range args {
		if n == hit {
			continue
		}
		if isCtx(a.Type()) || i.e.keeperName(a.Type()) != "" {
			continue
		}
		ts = append(ts, i.T(a))
	}
	if strings.Contains(name, "nmarshal") {
		if len(ts) > 0 {
			return mk("call", "decode", ts[0])
		}
	}
	return mk("mut", name, ts...)
}

// cellRoot: does the address derive from cell c (a local variable, or a
// caller's variable reached through a pointer parameter)?
func (i *Inst) cellRoot(v ssa.Value, c *cell) bool {
	r, ok := rootAddr(v)
	if !ok {
		return false
	}
	if r == c.alloc {
		return true
	}
	if c.inst == i {
		return false
	}
	switch r.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		t := i.T(r)
		return t.Op == "addr" && t.cell == c
	}
	return false
}

// exitCell: content of a caller's cell when the function returns successfully.
func (i *Inst) exitCell(c *cell) *Term {
	var ts []*Term
	for _, r := range i.rets {
		if r.ok {
			ts = append(ts, i.contentAt(c, r.instr))
		}
	}
	if len(ts) == 0 {
		return nil
	}
	return mkUnion(ts...)
}

func pathOf(s string) []string {
	if s == "" {
		return nil
	}
	return strings.Split(s, ".")
}

func (e *Engine) mutates(fn *ssa.Function, p int, d int) bool {
	if d > 4 || len(fn.Blocks) == 0 {
		n := e.fnName(fn)
		return strings.Contains(n, "nmarshal")
	}
	if p >= len(fn.Params) {
		return false
	}
	k := fmt.Sprintf("%p/%d", fn, p)
	if v, ok := e.mutMemo[k]; ok {
		return v
	}
	e.mutMemo[k] = false
	res := false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Store:
				if r, ok := rootAddr(ins.Addr); ok && r == fn.Params[p] {
					res = true
				}
				if sl := elemStore(ins.Addr); sl != nil {
					if r, ok := rootAddr(sl); ok && r == fn.Params[p] {
						res = true
					}
				}
			case ssa.CallInstruction:
				com := ins.Common()
				for n, a := range com.Args {
					if r, ok := rootAddr(a); ok && r == fn.Params[p] {
						if _, isPtr := a.Type().Underlying().(*types.Pointer); !isPtr {
							if _, isMI := a.(*ssa.MakeInterface); !isMI {
								continue
							}
						}
						if f := com.StaticCallee(); f != nil {
							if e.mutates(f, n, d+1) {
								res = true
							}
						} else if com.IsInvoke() && strings.Contains(com.Method.Name(), "nmarshal") {
							res = true
						}
					}
				}
			}
		}
	}
	e.mutMemo[k] = res
	return res
}

// contentAt: the content of a local cell just before instruction at.
// soleStore: the only instruction that ever changes the local cell, when it
// stores a whole value.
func (i *Inst) soleStore(c *cell) *ssa.Store {
	if c.inst != i || c.alloc == nil {
		return nil
	}
	if s, ok := i.soleMemo[c.id]; ok {
		return s
	}
	if i.soleMemo == nil {
		i.soleMemo = map[int]*ssa.Store{}
	}
	i.soleMemo[c.id] = nil
	var sole *ssa.Store
	for _, b := range i.fn.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Store:
				if elemStore(ins.Addr) != nil {
					if r, ok := rootAddr(elemStore(ins.Addr)); ok && r == c.alloc {
						return nil
					}
				}
				if r, ok := rootAddr(ins.Addr); ok && r == c.alloc {
					if sole != nil || ins.Addr != ssa.Value(c.alloc) {
						return nil
					}
					sole = ins
				}
				if r, ok := rootAddr(ins.Val); ok && r == c.alloc {
					if _, isPtr := ins.Val.Type().Underlying().(*types.Pointer); isPtr {
						return nil
					}
				}
			case *ssa.MakeClosure:
				for _, bd := range ins.Bindings {
					if bd == ssa.Value(c.alloc) {
						f := ins.Fn.(*ssa.Function)
						for n, fv := range f.FreeVars {
							if ins.Bindings[n] == ssa.Value(c.alloc) && closureWrites(f, fv, 0) {
								return nil
							}
						}
					}
				}
			case *ssa.Phi:
				for _, e := range ins.Edges {
					if r, ok := rootAddr(e); ok && r == c.alloc {
						return nil
					}
				}
			case ssa.CallInstruction:
				com := ins.Common()
				for n, a := range com.Args {
					r, ok := rootAddr(a)
					if !ok || r != c.alloc {
						continue
					}
					ptr := false
					if _, isPtr := a.Type().Underlying().(*types.Pointer); isPtr {
						ptr = true
					}
					if mi, ok := a.(*ssa.MakeInterface); ok {
						if _, isPtr := mi.X.Type().Underlying().(*types.Pointer); isPtr {
							ptr = true
						}
					}
					if !ptr {
						continue
					}
					if f := com.StaticCallee(); f != nil && len(f.Blocks) > 0 {
						if i.e.mutates(f, n, 0) {
							return nil
						}
						continue
					}
					if f := com.StaticCallee(); f != nil && !strings.Contains(f.Name(), "nmarshal") && !strings.Contains(f.Name(), "Scan") && !strings.Contains(f.Name(), "Decode") && !strings.Contains(f.Name(), "Reset") {
						continue
					}
					return nil
				}
			}
		}
	}
	i.soleMemo[c.id] = sole
	return sole
}

// closureWrites: does the function store through its free variable?
func closureWrites(f *ssa.Function, fv ssa.Value, d int) bool {
	if d > 3 {
		return true
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch ins := ins.(type) {
			case *ssa.Store:
				if r, ok := rootAddr(ins.Addr); ok && r == fv {
					return true
				}
				if sl := elemStore(ins.Addr); sl != nil {
					if r, ok := rootAddr(sl); ok && r == fv {
						return true
					}
				}
			case *ssa.MakeClosure:
				g := ins.Fn.(*ssa.Function)
				for n, bd := range ins.Bindings {
					if bd == fv && closureWrites(g, g.FreeVars[n], d+1) {
						return true
					}
				}
			case ssa.CallInstruction:
				for _, a := range ins.Common().Args {
					if r, ok := rootAddr(a); ok && r == fv {
						if _, isPtr := a.Type().Underlying().(*types.Pointer); isPtr {
							return true
						}
						if _, isMI := a.(*ssa.MakeInterface); isMI {
							return true
						}
					}
				}
			}
		}
	}
	return false
}

func (i *Inst) contentAt(c *cell, at ssa.Instruction) *Term {
	b := at.Block()
	if st := i.soleStore(c); st != nil && st != at {
		if st.Block() != b && st.Block().Dominates(b) {
			return i.T(st.Val)
		}
		if st.Block() == b {
			for _, ins := range b.Instrs {
				if ins == ssa.Instruction(st) {
					return i.T(st.Val)
				}
				if ins == at {
					break
				}
			}
		}
	}
	idx := len(b.Instrs)
	for n, ins := range b.Instrs {
		if ins == at {
			idx = n
			break
		}
	}
	if i.busyAlloc == nil {
		i.busyAlloc = map[*ssa.Alloc]int{}
	}
	i.memActive++
	i.busyAlloc[c.alloc]++
	r := i.contentBefore(c, b, idx, i.busyFor(c))
	i.busyAlloc[c.alloc]--
	i.memActive--
	i.settle()
	return r
}

// filled gives a slice made with a length and then filled element by element
// at a loop index the term of one built with append.
func (i *Inst) filled(v *ssa.MakeSlice) *Term {
	var st *ssa.Store
	for _, r := range *v.Referrers() {
		ia, ok := r.(*ssa.IndexAddr)
		if !ok {
			continue
		}
		for _, rr := range *ia.Referrers() {
			if s, ok := rr.(*ssa.Store); ok && s.Addr == ia {
				if st != nil || !loopIndex(ia.Index) {
					return mk("make", "")
				}
				st = s
			}
		}
	}
	if st == nil {
		if n, ok := v.Len.(*ssa.Const); ok && n.Int64() == 0 {
			return tNil
		}
		return mk("make", "")
	}
	return mkUnion(mk("append", "", tRec, mk("list", "", i.T(st.Val))), tNil)
}

// loopIndex: the counter of a loop that counts up by one.
func loopIndex(v ssa.Value) bool {
	up := func(p *ssa.Phi) bool {
		for _, e := range p.Edges {
			if b, ok := e.(*ssa.BinOp); ok && b.Op == token.ADD && b.X == p {
				if c, ok := b.Y.(*ssa.Const); ok && c.Int64() == 1 {
					return true
				}
			}
		}
		return false
	}
	switch x := v.(type) {
	case *ssa.Phi:
		return up(x)
	case *ssa.BinOp:
		p, ok := x.X.(*ssa.Phi)
		return ok && x.Op == token.ADD && up(p)
	}
	return false
}

func (i *Inst) busyFor(c *cell) map[*ssa.BasicBlock]bool {
	if i.contBusy == nil {
		i.contBusy = map[int]map[*ssa.BasicBlock]bool{}
	}
	m := i.contBusy[c.id]
	if m == nil {
		m = map[*ssa.BasicBlock]bool{}
		i.contBusy[c.id] = m
	}
	return m
}

func (i *Inst) contentBefore(c *cell, b *ssa.BasicBlock, idx int, busy map[*ssa.BasicBlock]bool) *Term {
	for n := idx - 1; n >= 0; n-- {
		switch ins := b.Instrs[n].(type) {
		case *ssa.Store:
			if sl := elemStore(ins.Addr); sl != nil {
				if i.cellRoot(sl, c) {
					if a := i.T(sl); a.Op == "addr" && a.cell == c {
						prev := i.contentBefore(c, b, n, busy)
						return updPath(prev, pathOf(a.S), mk("setelem", "", selPath(prev, a.S), i.T(ins.Val)))
					}
				}
			}
			if i.cellRoot(ins.Addr, c) {
				a := i.T(ins.Addr)
				if a.Op != "addr" || a.cell != c {
					// e.g. element store through non-constant index
					prev := i.contentBefore(c, b, n, busy)
					return mkUnion(prev, mk("mut", "store", i.T(ins.Val)))
				}
				v := i.T(ins.Val)
				if a.S == "" {
					return v
				}
				prev := i.contentBefore(c, b, n, busy)
				return updPath(prev, strings.Split(a.S, "."), v)
			}
		case *ssa.Alloc:
			if ins == c.alloc {
				return zeroOf(ins)
			}
		case *ssa.MapUpdate:
			if c.inst == i && mapUpdateOf(ins, c.alloc) != nil {
				prev := i.contentBefore(c, b, n, busy)
				return mkUnion(prev, mk("map", "", mk("kv", "", i.T(ins.Key), i.T(ins.Value))))
			}
		case ssa.CallInstruction:
			if t := i.mutBy(ins, c); t != nil {
				// decode of an address inside the struct: treat as whole
				return t
			}
			// closures capturing the cell
			for _, a := range append(append([]ssa.Value{}, ins.Common().Args...), ins.Common().Value) {
				mc := closureOf(a)
				if mc == nil {
					continue
				}
				captured := false
				for _, bd := range mc.Bindings {
					if bd == c.alloc {
						captured = true
					}
				}
				if !captured {
					continue
				}
				stores := i.closureStoreTerms(mc, ins, c)
				if len(stores) == 0 {
					continue
				}
				prev := i.contentBefore(c, b, n, busy)
				t := prev
				for _, s := range stores {
					if s.p == "" {
						t = mkUnion(t, s.v)
					} else {
						t = mkUnion(t, updPath(prev, strings.Split(s.p, "."), s.v))
					}
				}
				return t
			}
		}
	}
	if len(b.Preds) == 0 {
		if c.inst != i {
			return i.snap[c.id]
		}
		return zeroOf(c.alloc)
	}
	if busy[b] {
		i.pending[c.alloc] = true
		return tMem
	}
	k := fmt.Sprintf("%d@%d", c.id, b.Index)
	if t, ok := i.contMemo[k]; ok {
		return t
	}
	if t, ok := i.provCont[k]; ok {
		i.pending[c.alloc] = true
		return t
	}
	busy[b] = true
	defer delete(busy, b)
	if len(b.Preds) == 1 {
		return i.contentBefore(c, b.Preds[0], len(b.Preds[0].Instrs), busy)
	}
	var ts, recs []*Term
	cyc := false
	for _, p := range b.Preds {
		if i.top != nil && !i.edgeFeasible(p, b) {
			continue
		}
		t := i.contentBefore(c, p, len(p.Instrs), busy)
		if t == tMem {
			cyc = true
			continue
		}
		if hasRec(t) {
			cyc = true
			recs = append(recs, t)
			continue
		}
		ts = append(ts, t)
	}
	if len(recs) > 0 {
		if len(ts) > 0 {
			// one iteration of the loop around b
			base := mkUnion(ts...)
			for _, t := range recs {
				ts = append(ts, substRec(t, base, 0))
			}
		} else {
			ts = recs
		}
	}
	r := mkUnion(ts...)
	if !cyc && !i.pending[c.alloc] || len(busy) == 1 && i.memActive == 1 {
		i.contMemo[k] = r
	} else {
		if i.provCont == nil {
			i.provCont = map[string]*Term{}
		}
		i.provCont[k] = r
	}
	return r
}

// mapUpdateOf: ins writes an entry of the map held by the variable v.
func mapUpdateOf(ins ssa.Instruction, v ssa.Value) *ssa.MapUpdate {
	mu, ok := ins.(*ssa.MapUpdate)
	if !ok || v == nil {
		return nil
	}
	if ld, ok := mu.Map.(*ssa.UnOp); ok && ld.Op == token.MUL && ld.X == v {
		return mu
	}
	return nil
}

type storeTerm struct {
	p string
	v *Term
}

func (i *Inst) closureStoreTerms(mc *ssa.MakeClosure, call ssa.CallInstruction, c *cell) []storeTerm {
	fn := mc.Fn.(*ssa.Function)
	// quick check: does the closure store to the captured variable at all?
	var fv *ssa.FreeVar
	for n, bd := range mc.Bindings {
		if bd == c.alloc {
			fv = fn.FreeVars[n]
		}
	}
	any := false
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok {
				if r, ok := rootAddr(st.Addr); ok && r == fv {
					any = true
				}
			}
			if mapUpdateOf(ins, fv) != nil {
				any = true
			}
		}
	}
	if !any {
		return nil
	}
	subs := i.closureStores[closureCall{mc, call}]
	if len(subs) == 0 {
		// the call that receives it may not have been looked at yet
		i.call(call)
		subs = i.closureStores[closureCall{mc, call}]
	}
	if len(subs) == 0 {
		return []storeTerm{{"", mk("mut", "closure")}}
	}
	var out []storeTerm
	for _, b := range fn.Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok {
				if r, ok := rootAddr(st.Addr); ok && r == fv {
					for _, sub := range subs {
						if sub.out == nil || sub.out[b.Index] == nil {
							continue // not reached
						}
						a := sub.T(st.Addr)
						if a.Op == "addr" {
							out = append(out, storeTerm{a.S, sub.T(st.Val)})
						}
					}
				}
			}
			if mu := mapUpdateOf(ins, fv); mu != nil {
				for _, sub := range subs {
					if sub.out == nil || sub.out[b.Index] == nil {
						continue
					}
					out = append(out, storeTerm{"", mk("map", "", mk("kv", "", sub.T(mu.Key), sub.T(mu.Value)))})
				}
			}
		}
	}
	return out
}
