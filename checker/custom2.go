package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func init() {
	custom["determinism"] = ruleDeterminism
	custom["errflow"] = ruleErrFlow
	custom["errkept"] = func(c *Check, arg string) { errFlow(c, "", strings.Fields(arg)) }
	custom["prefixes"] = rulePrefixes
	custom["order"] = ruleOrder
	custom["perms"] = rulePerms
	custom["wire"] = ruleWire
	custom["global"] = ruleGlobal
	custom["flag"] = ruleFlag
	custom["implements"] = ruleImplements
}

// coreFns lists the functions (and closures) that take part in the state
// machine: module code, ante handlers and shared helpers.
func (e *Engine) coreFns() []*ssa.Function {
	var out []*ssa.Function
	for _, fn := range e.repoFns {
		if e.isCore(fn) {
			out = append(out, fn)
		}
	}
	return out
}

func (e *Engine) isCore(fn *ssa.Function) bool {
	pos := fn.Pos()
	if fn.Synthetic != "" && !pos.IsValid() {
		if fn.Name() != "init" || fn.Pkg == nil {
			return false
		}
		p := strings.TrimPrefix(fn.Pkg.Pkg.Path(), modPath+"/")
		return strings.HasPrefix(p, "x/") && !excludedPath("/"+p+"/") || p == "ante" || p == "utils" || strings.HasPrefix(p, "pkg/")
	}
	f := strings.TrimPrefix(e.fset.Position(pos).Filename, repoDir+"/")
	if strings.HasSuffix(f, "_test.go") || strings.HasSuffix(f, ".pb.go") || strings.HasSuffix(f, ".pb.gw.go") || excludedPath("/"+f) {
		return false
	}
	for _, d := range []string{"x/", "ante/", "utils/", "pkg/"} {
		if strings.HasPrefix(f, d) {
			return true
		}
	}
	return false
}

func excludedPath(f string) bool {
	for _, d := range []string{"/testutils/", "/testutil/", "/simulation/", "/client/", "/testing/"} {
		if strings.Contains(f, d) {
			return true
		}
	}
	return false
}

func pkgOf(fn *ssa.Function) string {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg.Path()
	}
	if o := fn.Object(); o != nil && o.Pkg() != nil {
		return o.Pkg().Path()
	}
	if fn.Origin() != nil && fn.Origin() != fn {
		return pkgOf(fn.Origin())
	}
	return ""
}

// calleeOf names the function or method a call denotes: package path, name.
func calleeOf(com *ssa.CallCommon) (pkg, recv, name string) {
	if com.IsInvoke() {
		n := ""
		if nm := namedOf(com.Value.Type()); nm != nil {
			n = nm.Obj().Name()
		}
		p := ""
		if com.Method.Pkg() != nil {
			p = com.Method.Pkg().Path()
		}
		return p, n, com.Method.Name()
	}
	if b, ok := com.Value.(*ssa.Builtin); ok {
		return "", "", b.Name()
	}
	sc := com.StaticCallee()
	if sc == nil {
		return "", "", ""
	}
	if sc.Origin() != nil {
		sc = sc.Origin()
	}
	r := ""
	if sc.Signature.Recv() != nil {
		if nm := namedOf(sc.Signature.Recv().Type()); nm != nil {
			r = nm.Obj().Name()
		}
	}
	return pkgOf(sc), r, sc.Name()
}

// nondeterministic reports functions whose result differs between nodes.
func nondeterministic(pkg, recv, name string) bool {
	switch pkg {
	case "time":
		return recv == "" && (name == "Now" || name == "Since" || name == "Until" || name == "After" || name == "Tick" || name == "NewTimer" || name == "NewTicker" || name == "Sleep" || name == "AfterFunc" || name == "LoadLocation")
	case "math/rand", "math/rand/v2", "crypto/rand", "net", "net/http", "os", "os/user", "os/exec", "runtime/debug", "github.com/google/uuid":
		return name != "init" && name != "Exit"
	case "runtime":
		return name != "Error" && name != "init" && name != "KeepAlive"
	case "reflect":
		return name == "MapKeys" || name == "MapRange"
	case "math":
		return false
	}
	return false
}

func recvOf(fn *ssa.Function) string {
	if fn.Signature.Recv() == nil {
		return ""
	}
	if n := namedOf(fn.Signature.Recv().Type()); n != nil {
		return n.Obj().Name()
	}
	return "?"
}

// isInvariant: a crisis invariant, whose only result is whether the chain stops.
func isInvariant(fn *ssa.Function) bool {
	s := fn.Signature
	if s.Params().Len() != 1 || s.Results().Len() != 2 || !isCtx(s.Params().At(0).Type()) {
		return false
	}
	a, ok1 := s.Results().At(0).Type().Underlying().(*types.Basic)
	b, ok2 := s.Results().At(1).Type().Underlying().(*types.Basic)
	return ok1 && ok2 && a.Kind() == types.String && b.Kind() == types.Bool
}

func isSortCall(com *ssa.CallCommon) bool {
	pkg, _, name := calleeOf(com)
	if pkg == "sort" || pkg == "slices" && (strings.HasPrefix(name, "Sort")) || pkg == "golang.org/x/exp/slices" && strings.HasPrefix(name, "Sort") {
		return true
	}
	return name == "Sort"
}

// benignSink: the value is only observed by telemetry or logging.
func benignSink(com *ssa.CallCommon) bool {
	pkg, recv, name := calleeOf(com)
	if strings.HasSuffix(pkg, "/telemetry") || strings.Contains(pkg, "go-metrics") {
		return true
	}
	if recv == "Logger" && (name == "Info" || name == "Debug" || name == "Error" || name == "Warn" || name == "With") {
		return true
	}
	return false
}

// onlyBenign follows every use of a value that differs between nodes.
func onlyBenign(v ssa.Value, seen map[ssa.Value]bool) (bool, ssa.Instruction) {
	if seen[v] {
		return true, nil
	}
	seen[v] = true
	if v.Referrers() == nil {
		return true, nil
	}
	for _, r := range *v.Referrers() {
		switch x := r.(type) {
		case *ssa.DebugRef:
		case ssa.CallInstruction:
			com := x.Common()
			if benignSink(com) {
				continue
			}
			pkg, recv, name := calleeOf(com)
			if pkg == "" && name == "len" {
				// the encoded length of a time does not depend on the time
				if c, ok := com.Args[0].(*ssa.Call); ok {
					if _, _, n := calleeOf(c.Common()); n == "FormatTimeBytes" {
						continue
					}
				}
				return false, r
			}
			if pkg == "time" && (name == "Since" || name == "Sub" || recv == "Time" || recv == "Duration") || name == "FormatTimeBytes" {
				if val := x.Value(); val != nil {
					if ok, at := onlyBenign(val, seen); !ok {
						return false, at
					}
					continue
				}
			}
			return false, r
		case *ssa.Store:
			if a, ok := x.Addr.(*ssa.Alloc); ok && x.Val == v {
				if ok, at := onlyBenign(a, seen); !ok {
					return false, at
				}
				continue
			}
			if a, ok := x.Addr.(*ssa.IndexAddr); ok && x.Val == v {
				if ok, at := onlyBenign(a.X, seen); !ok {
					return false, at
				}
				continue
			}
			if x.Addr == v {
				continue
			}
			return false, r
		case *ssa.UnOp, *ssa.Phi, *ssa.MakeInterface, *ssa.ChangeType, *ssa.Convert, *ssa.ChangeInterface, *ssa.BinOp, *ssa.Slice, *ssa.IndexAddr, *ssa.Extract, *ssa.FieldAddr, *ssa.Field, *ssa.MakeClosure:
			if mc, ok := r.(*ssa.MakeClosure); ok {
				okAll := true
				var bad ssa.Instruction
				f := mc.Fn.(*ssa.Function)
				for i, b := range mc.Bindings {
					if b == v {
						if ok, at := onlyBenign(f.FreeVars[i], seen); !ok {
							okAll, bad = false, at
						}
					}
				}
				if !okAll {
					return false, bad
				}
				continue
			}
			if ok, at := onlyBenign(r.(ssa.Value), seen); !ok {
				return false, at
			}
		default:
			return false, r
		}
	}
	return true, nil
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

// ruleDeterminism: nothing the state machine computes may differ between
// nodes: no clock, randomness, environment, goroutines, floats, and no result
// that depends on the order in which a map is visited.
func ruleDeterminism(c *Check, arg string) {
	fns := c.e.coreFns()
	c.noteS("determinism: %d functions", len(fns))
	for _, fn := range fns {
		c.fns[c.e.fnName(fn)] = true
		bad := 0
		report := func(ins ssa.Instruction, f string, a ...interface{}) {
			bad++
			c.fail("det:"+c.e.fnName(fn), "determinism", c.e.where(ins), "%s "+f, append([]interface{}{c.e.fnName(fn)}, a...)...)
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				switch x := ins.(type) {
				case *ssa.Go:
					report(ins, "starts a goroutine")
					continue
				case *ssa.Select, *ssa.Send, *ssa.MakeChan:
					report(ins, "uses channels")
				case *ssa.BinOp:
					if isFloat(x.X.Type()) {
						if ok, at := onlyBenign(x, map[ssa.Value]bool{}); !ok {
							report(at, "computes with floating point numbers")
						}
					}
				case *ssa.Convert:
					if isFloat(x.Type()) && !isConstVal(x.X) {
						if ok, at := onlyBenign(x, map[ssa.Value]bool{}); !ok {
							report(at, "computes with floating point numbers")
						}
					}
				case *ssa.Range:
					if _, ok := x.X.Type().Underlying().(*types.Map); ok && !isInvariant(fn) {
						c.sites++
						if why, at := mapOrder(c.e, x); why != "" {
							report(at, "depends on the order in which a map is visited: %s", why)
						}
					}
				}
				if call, ok := ins.(ssa.CallInstruction); ok {
					pkg, recv, name := calleeOf(call.Common())
					if nondeterministic(pkg, recv, name) {
						c.sites++
						v := call.Value()
						if v == nil {
							report(ins, "calls %s.%s", pkg, name)
						} else if ok, at := onlyBenign(v, map[ssa.Value]bool{}); !ok {
							report(at, "uses the result of %s.%s", pkg, name)
						}
					}
					if (pkg == "maps" || pkg == "golang.org/x/exp/maps") && (name == "Keys" || name == "Values" || name == "All") {
						c.sites++
						if v := call.Value(); v == nil || !sortedLater(v, map[ssa.Value]bool{}) {
							report(ins, "uses the elements of a map in an unspecified order")
						}
					}
				}
				// a nondeterministic function passed on as a value
				for _, op := range ins.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						if call, isCall := ins.(ssa.CallInstruction); isCall && call.Common().Value == *op {
							continue
						}
						if nondeterministic(pkgOf(f), recvOf(f), f.Name()) {
							report(ins, "passes %s.%s on as a value", pkgOf(f), f.Name())
						}
					}
				}
			}
		}
		if bad == 0 {
			c.pass("det:"+c.e.fnName(fn), "determinism")
		}
	}
}

func isConstVal(v ssa.Value) bool { _, ok := v.(*ssa.Const); return ok }

// sortedLater: the value, or the slice collected from it, is sorted before it
// is used in any other way.
func sortedLater(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return true
	}
	seen[v] = true
	if v.Referrers() == nil {
		return true
	}
	var sorts []ssa.Instruction
	for _, r := range *v.Referrers() {
		if call, ok := r.(ssa.CallInstruction); ok && isSortCall(call.Common()) {
			sorts = append(sorts, r)
		}
		if mi, ok := r.(*ssa.MakeInterface); ok {
			for _, rr := range *mi.Referrers() {
				if call, ok := rr.(ssa.CallInstruction); ok && isSortCall(call.Common()) {
					sorts = append(sorts, rr)
				}
			}
		}
		if ct, ok := r.(*ssa.ChangeType); ok {
			for _, rr := range *ct.Referrers() {
				if call, ok := rr.(ssa.CallInstruction); ok && isSortCall(call.Common()) {
					sorts = append(sorts, rr)
				}
			}
		}
	}
	after := func(r ssa.Instruction) bool {
		for _, s := range sorts {
			if s.Block() == r.Block() {
				if indexIn(s) < indexIn(r) {
					return true
				}
			} else if s.Block().Dominates(r.Block()) {
				return true
			}
		}
		return false
	}
	for _, r := range *v.Referrers() {
		if after(r) {
			continue
		}
		switch x := r.(type) {
		case *ssa.DebugRef, *ssa.MakeInterface, *ssa.ChangeType:
			continue
		case *ssa.MakeClosure:
			continue // the comparison function
		case ssa.CallInstruction:
			com := x.Common()
			if isSortCall(com) {
				continue
			}
			pkg, _, name := calleeOf(com)
			if name == "len" || name == "cap" {
				continue
			}
			if (pkg == "slices" || pkg == "golang.org/x/exp/slices") && strings.HasPrefix(name, "Sorted") {
				continue
			}
			if name == "append" || pkg == "slices" && name == "Collect" {
				if x.Value() != nil && sortedLater(x.Value(), seen) {
					continue
				}
			}
			return false
		case *ssa.Phi:
			if !sortedLater(x, seen) {
				return false
			}
		case *ssa.UnOp, *ssa.BinOp:
			continue
		case *ssa.Store:
			// a variable captured by the comparison function
			if x.Val == v {
				if a, ok := x.Addr.(*ssa.Alloc); ok {
					if !cellSorted(a, seen) {
						return false
					}
					continue
				}
				return false
			}
		default:
			return false
		}
	}
	return true
}

// cellSorted: a variable holding the slice is sorted before it is read.
func cellSorted(a *ssa.Alloc, seen map[ssa.Value]bool) bool {
	if seen[a] {
		return true
	}
	seen[a] = true
	var loads []*ssa.UnOp
	var sorts []ssa.Instruction
	for _, r := range *a.Referrers() {
		u, ok := r.(*ssa.UnOp)
		if !ok {
			continue
		}
		loads = append(loads, u)
		for _, rr := range *u.Referrers() {
			if call, ok := rr.(ssa.CallInstruction); ok && isSortCall(call.Common()) {
				sorts = append(sorts, rr)
			}
			if mi, ok := rr.(*ssa.MakeInterface); ok {
				for _, r3 := range *mi.Referrers() {
					if call, ok := r3.(ssa.CallInstruction); ok && isSortCall(call.Common()) {
						sorts = append(sorts, r3)
					}
				}
			}
		}
	}
	for _, u := range loads {
		ok := false
		for _, s := range sorts {
			if s.Block() == u.Block() && indexIn(s) < indexIn(u) || s.Block() != u.Block() && s.Block().Dominates(u.Block()) {
				ok = true
			}
		}
		if ok {
			continue
		}
		for _, rr := range *u.Referrers() {
			switch x := rr.(type) {
			case *ssa.DebugRef, *ssa.MakeInterface:
			case ssa.CallInstruction:
				_, _, name := calleeOf(x.Common())
				if isSortCall(x.Common()) || name == "len" || name == "cap" {
					continue
				}
				if name == "append" && x.Value() != nil && sortedLater(x.Value(), seen) {
					continue
				}
				return false
			default:
				return false
			}
		}
	}
	return true
}

func indexIn(ins ssa.Instruction) int {
	for k, i := range ins.Block().Instrs {
		if i == ins {
			return k
		}
	}
	return -1
}

// loopOf: the blocks of the natural loop whose header advances the iterator.
func loopOf(rng *ssa.Range) (map[*ssa.BasicBlock]bool, *ssa.BasicBlock) {
	var head *ssa.BasicBlock
	for _, r := range *rng.Referrers() {
		if n, ok := r.(*ssa.Next); ok {
			head = n.Block()
		}
	}
	if head == nil {
		return nil, nil
	}
	in := map[*ssa.BasicBlock]bool{head: true}
	var work []*ssa.BasicBlock
	for _, p := range head.Preds {
		if head.Dominates(p) {
			work = append(work, p)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		if in[b] {
			continue
		}
		in[b] = true
		work = append(work, b.Preds...)
	}
	return in, head
}

// mapOrder explains how the result can depend on the visiting order of a map.
func mapOrder(e *Engine, rng *ssa.Range) (string, ssa.Instruction) {
	loop, head := loopOf(rng)
	if loop == nil {
		return "", nil
	}
	for _, b := range rng.Parent().Blocks {
		if !loop[b] {
			continue
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Return:
				for _, r := range x.Results {
					if !isConstVal(r) {
						return "a value found on the way is returned", ins
					}
				}
			case ssa.CallInstruction:
				com := x.Common()
				pkg, _, name := calleeOf(com)
				if pkg == "" && (name == "len" || name == "cap" || name == "delete" || name == "copy" || name == "append" || name == "ssa:wrapnilchk") {
					if name == "append" {
						if v := x.Value(); v != nil && !sortedLater(v, map[ssa.Value]bool{}) {
							return "elements are collected and not sorted", ins
						}
					}
					continue
				}
				for _, a := range com.Args {
					if isCtx(a.Type()) {
						return "the state is accessed in that order", ins
					}
				}
				if com.IsInvoke() || com.StaticCallee() == nil {
					return "unknown code is called in that order", ins
				}
				if name == "WriteString" || name == "Write" || name == "WriteByte" {
					return "text is assembled in that order", ins
				}
			case *ssa.BinOp:
				if bt, ok := x.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 && x.Op == token.ADD {
					return "text is assembled in that order", ins
				}
			}
		}
		// leaving the loop early keeps what was found so far
		for _, s := range b.Succs {
			if loop[s] || b == head {
				continue
			}
			for _, ins := range s.Instrs {
				switch x := ins.(type) {
				case *ssa.Return:
					for _, r := range x.Results {
						if !isConstVal(r) && definedIn(r, loop) {
							return "a value found on the way is returned", ins
						}
					}
				case *ssa.Phi:
					for k, p := range s.Preds {
						if loop[p] && p != head && !isConstVal(x.Edges[k]) && definedIn(x.Edges[k], loop) {
							return "a value found on the way is kept", ins
						}
					}
				}
			}
		}
	}
	// a value carried round the loop that is not accumulated
	for _, ins := range head.Instrs {
		phi, ok := ins.(*ssa.Phi)
		if !ok {
			continue
		}
		for k, p := range head.Preds {
			if loop[p] && lastWins(phi, phi.Edges[k], loop) && usedOutside(phi, loop) {
				return "the last element visited wins", ins
			}
		}
	}
	return "", nil
}

func definedIn(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	ins, ok := v.(ssa.Instruction)
	return ok && loop[ins.Block()]
}

func usedOutside(v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	for _, r := range *v.Referrers() {
		if _, ok := r.(*ssa.DebugRef); !ok && !loop[r.Block()] {
			return true
		}
	}
	return false
}

// lastWins: the value carried to the next round is taken from the element.
func lastWins(phi *ssa.Phi, v ssa.Value, loop map[*ssa.BasicBlock]bool) bool {
	switch x := v.(type) {
	case *ssa.Extract:
		if _, ok := x.Tuple.(*ssa.Next); ok {
			return true
		}
	case *ssa.Phi:
		if x == phi || !loop[x.Block()] {
			return false
		}
		for _, e := range x.Edges {
			if lastWins(phi, e, loop) {
				return true
			}
		}
	}
	return false
}

// ---------------------------------------------------------------------------

type siteState map[ssa.CallInstruction]map[ssa.Value]bool // pending call -> values carrying its error

func (s siteState) clone() siteState {
	n := siteState{}
	for k, v := range s {
		m := map[ssa.Value]bool{}
		for x := range v {
			m[x] = true
		}
		n[k] = m
	}
	return n
}

func (s siteState) eq(t siteState) bool {
	if len(s) != len(t) {
		return false
	}
	for k, v := range s {
		w, ok := t[k]
		if !ok || len(v) != len(w) {
			return false
		}
		for x := range v {
			if !w[x] {
				return false
			}
		}
	}
	return true
}

func mergeState(s, t siteState) siteState {
	if s == nil {
		return t.clone()
	}
	n := s.clone()
	for k, v := range t {
		if _, ok := n[k]; !ok {
			m := map[ssa.Value]bool{}
			for x := range v {
				m[x] = true
			}
			n[k] = m
			continue
		}
		for x := range n[k] {
			if !v[x] {
				delete(n[k], x)
			}
		}
	}
	return n
}

// isErrMaker: calls whose error result is a value built by the program, not
// the outcome of an operation.
func isErrMaker(com *ssa.CallCommon) bool {
	pkg, recv, name := calleeOf(com)
	switch pkg {
	case "errors", "cosmossdk.io/errors", "github.com/pkg/errors", "google.golang.org/grpc/status":
		return true
	case "fmt":
		return name == "Errorf"
	}
	return recv == "Error" && (strings.HasPrefix(name, "Wrap") || name == "Unwrap")
}

// neverFails: an error result that is always nil, or of no consequence.
func neverFails(com *ssa.CallCommon) bool {
	pkg, recv, name := calleeOf(com)
	if name == "Close" {
		return true
	}
	switch pkg {
	case "fmt":
		return name != "Sscanf" && name != "Sscan"
	case "strings", "bytes", "hash":
		return recv == "Builder" || recv == "Buffer" || recv == "Hash"
	}
	return false
}

func errResult(call ssa.CallInstruction) (ssa.Value, bool) {
	res := call.Common().Signature().Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return nil, false
	}
	v := call.Value()
	if v == nil {
		return nil, true
	}
	if res.Len() == 1 {
		return v, true
	}
	for _, r := range *v.Referrers() {
		if ex, ok := r.(*ssa.Extract); ok && ex.Index == res.Len()-1 {
			return ex, true
		}
	}
	return nil, true
}

// carried: values through which an error is passed on unchanged in nilness.
func carriedFrom(v ssa.Value, state siteState, hit func(ssa.CallInstruction), d int) {
	if d > 6 {
		return
	}
	for k, m := range state {
		if m[v] {
			hit(k)
		}
	}
	switch x := v.(type) {
	case *ssa.ChangeInterface:
		carriedFrom(x.X, state, hit, d+1)
	case *ssa.MakeInterface:
		carriedFrom(x.X, state, hit, d+1)
	case *ssa.Call:
		if isErrMaker(x.Common()) {
			for _, a := range x.Common().Args {
				if isErrorType(a.Type()) {
					carriedFrom(a, state, hit, d+1)
				}
			}
		}
	}
}

// alwaysError: the value can not be nil.
func alwaysError(v ssa.Value, nonNil map[ssa.Value]bool, d int) bool {
	if nonNil[v] {
		return true
	}
	if d > 6 {
		return false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return true
	case *ssa.ChangeInterface:
		return alwaysError(x.X, nonNil, d+1)
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			_ = g
			return true
		}
	case *ssa.Call:
		pkg, _, name := calleeOf(x.Common())
		if pkg == "fmt" && name == "Errorf" || pkg == "errors" && name == "New" || pkg == "google.golang.org/grpc/status" {
			return true
		}
		if _, recv, name := calleeOf(x.Common()); recv == "Error" && strings.HasPrefix(name, "Wrap") {
			return true
		}
		if isErrMaker(x.Common()) {
			for _, a := range x.Common().Args {
				if isErrorType(a.Type()) {
					return alwaysError(a, nonNil, d+1)
				}
			}
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			if !alwaysError(e, nonNil, d+1) {
				return false
			}
		}
		return true
	}
	return false
}

// nilTest: the condition compares an error with nil.
func nilTest(cond ssa.Value) (v ssa.Value, nilOnTrue bool, ok bool) {
	neg := false
	for {
		if u, is := cond.(*ssa.UnOp); is && u.Op == token.NOT {
			neg = !neg
			cond = u.X
			continue
		}
		break
	}
	b, is := cond.(*ssa.BinOp)
	if !is || b.Op != token.EQL && b.Op != token.NEQ {
		return nil, false, false
	}
	isNil := func(v ssa.Value) bool { c, ok := v.(*ssa.Const); return ok && c.IsNil() }
	switch {
	case isErrorType(b.X.Type()) && isNil(b.Y):
		v = b.X
	case isErrorType(b.Y.Type()) && isNil(b.X):
		v = b.Y
	default:
		return nil, false, false
	}
	return v, (b.Op == token.EQL) != neg, true
}

// classTest: the condition tells what kind of error it is.
func classTest(cond ssa.Value) (v ssa.Value, onTrue bool, ok bool) {
	neg := false
	for {
		if u, is := cond.(*ssa.UnOp); is && u.Op == token.NOT {
			neg = !neg
			cond = u.X
			continue
		}
		break
	}
	if call, is := cond.(*ssa.Call); is {
		pkg, _, name := calleeOf(call.Common())
		if strings.HasSuffix(pkg, "errors") && (name == "Is" || name == "As" || name == "IsOf") {
			for _, a := range call.Common().Args {
				if isErrorType(a.Type()) {
					return a, !neg, true
				}
			}
		}
		for _, a := range call.Common().Args {
			if isErrorType(a.Type()) && call.Common().Signature().Results().Len() == 1 {
				return a, !neg, true
			}
		}
	}
	if b, is := cond.(*ssa.BinOp); is && (b.Op == token.EQL || b.Op == token.NEQ) && isErrorType(b.X.Type()) {
		return b.X, (b.Op == token.EQL) != neg, true
	}
	return nil, false, false
}

// lostErrors: calls whose failure the function can turn into success.
func lostErrors(fn *ssa.Function) map[ssa.CallInstruction]ssa.Instruction {
	return lostErrorsFrom(fn, nil, nil, 0)
}

// passesOn: a function handed an error as its parameter p answers with an
// error whenever that one is set.
func passesOn(call *ssa.CallCommon, i, depth int) bool {
	callee := call.StaticCallee()
	if callee == nil || depth > 4 || len(callee.Blocks) == 0 || i >= len(callee.Params) || !isErrorType(callee.Params[i].Type()) {
		return false
	}
	res := callee.Signature.Results()
	if res.Len() == 0 || !isErrorType(res.At(res.Len()-1).Type()) {
		return false
	}
	seed := &ssa.Call{}
	_, bad := lostErrorsFrom(callee, callee.Params[i], seed, depth+1)[seed]
	return !bad
}

func lostErrorsFrom(fn *ssa.Function, p *ssa.Parameter, seed ssa.CallInstruction, depth int) map[ssa.CallInstruction]ssa.Instruction {
	lost := map[ssa.CallInstruction]ssa.Instruction{}
	if len(fn.Blocks) == 0 {
		return lost
	}
	errIdx := -1
	res := fn.Signature.Results()
	if res.Len() > 0 && isErrorType(res.At(res.Len()-1).Type()) {
		errIdx = res.Len() - 1
	}
	in := map[*ssa.BasicBlock]siteState{fn.Blocks[0]: {}}
	if p != nil {
		in[fn.Blocks[0]][seed] = map[ssa.Value]bool{p: true}
	}
	nonNilIn := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	work := []*ssa.BasicBlock{fn.Blocks[0]}
	steps := 0
	for len(work) > 0 && steps < 20000 {
		steps++
		b := work[0]
		work = work[1:]
		st := in[b].clone()
		nonNil := map[ssa.Value]bool{}
		for d := b; d != nil; d = d.Idom() {
			for v := range nonNilIn[d] {
				nonNil[v] = true
			}
		}
		for _, ins := range b.Instrs {
			switch x := ins.(type) {
			case *ssa.Store:
				if !isErrorType(x.Val.Type()) {
					// an error kept in a structure or list is passed on
					continue
				}
				for k, m := range st {
					if m[x.Val] {
						m[x.Addr] = true
					} else {
						hit := false
						carriedFrom(x.Val, siteState{k: m}, func(ssa.CallInstruction) { hit = true }, 0)
						if hit {
							m[x.Addr] = true
						} else {
							delete(m, x.Addr)
						}
					}
				}
			case *ssa.UnOp:
				if x.Op == token.MUL && isErrorType(x.Type()) {
					for _, m := range st {
						if m[x.X] {
							m[x] = true
						}
					}
				}
			case *ssa.ChangeInterface:
				for _, m := range st {
					if m[x.X] {
						m[x] = true
					}
				}
			case *ssa.Return:
				var rv ssa.Value
				if errIdx >= 0 {
					rv = x.Results[errIdx]
					if alwaysError(rv, nonNil, 0) {
						continue
					}
				}
				keep := map[ssa.CallInstruction]bool{}
				if rv != nil {
					carriedFrom(rv, st, func(k ssa.CallInstruction) { keep[k] = true }, 0)
				}
				// where the error is known, false tells the caller
				for _, r := range x.Results {
					k, ok := r.(*ssa.Const)
					if !ok || k.Value == nil || k.Value.Kind() != constant.Bool || constant.BoolVal(k.Value) || errIdx >= 0 {
						continue
					}
					for call, m := range st {
						for v := range m {
							if nonNil[v] {
								keep[call] = true
							}
						}
					}
				}
				// an acknowledgement or response built from the error reports it
				for _, r := range x.Results {
					reportsError(r, st, keep, 0)
				}
				for k := range st {
					if !keep[k] {
						lost[k] = ins
					}
				}
			}
			if call, ok := ins.(ssa.CallInstruction); ok {
				if _, isDefer := ins.(*ssa.Defer); isDefer {
					continue
				}
				if isErrMaker(call.Common()) || neverFails(call.Common()) {
					// a wrapped error carries what it wraps
					if v := call.Value(); v != nil && isErrMaker(call.Common()) {
						for _, a := range call.Common().Args {
							for _, m := range st {
								if m[a] {
									m[v] = true
								}
							}
						}
					}
					continue
				}
				if v, has := errResult(call); has {
					// a helper answering for the error it is given
					for i, a := range call.Common().Args {
						for k, m := range st {
							if m[a] && passesOn(call.Common(), i, depth) {
								delete(st, k)
							}
						}
					}
					m := map[ssa.Value]bool{}
					if v != nil {
						m[v] = true
					}
					st[call] = m
				}
			}
		}
		push := func(s *ssa.BasicBlock, o siteState, nn ssa.Value) {
			o = o.clone()
			k := -1
			for i, p := range s.Preds {
				if p == b {
					k = i
				}
			}
			for _, ins := range s.Instrs {
				phi, ok := ins.(*ssa.Phi)
				if !ok {
					break
				}
				for call, m := range o {
					hit := m[phi.Edges[k]]
					if !hit {
						carriedFrom(phi.Edges[k], siteState{call: m}, func(ssa.CallInstruction) { hit = true }, 0)
					}
					if hit {
						m[phi] = true
					} else {
						delete(m, phi)
					}
				}
			}
			if nn != nil && len(s.Preds) == 1 {
				if nonNilIn[s] == nil {
					nonNilIn[s] = map[ssa.Value]bool{}
				}
				nonNilIn[s][nn] = true
			}
			old, seen := in[s]
			n := mergeState(old, o)
			if !seen || !n.eq(old) {
				in[s] = n
				work = append(work, s)
			}
		}
		iff, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
		if !ok {
			for _, s := range b.Succs {
				push(s, st, nil)
			}
			continue
		}
		drop := func(v ssa.Value) siteState {
			o := st.clone()
			carriedFrom(v, st, func(k ssa.CallInstruction) { delete(o, k) }, 0)
			return o
		}
		if v, nilOnTrue, ok := nilTest(iff.Cond); ok {
			t, f := b.Succs[0], b.Succs[1]
			if !nilOnTrue {
				t, f = f, t
			}
			push(t, drop(v), nil)
			push(f, st, v)
			continue
		}
		if v, onTrue, ok := classTest(iff.Cond); ok {
			t, f := b.Succs[0], b.Succs[1]
			if !onTrue {
				t, f = f, t
			}
			push(t, drop(v), nil)
			push(f, st, nil)
			continue
		}
		for _, s := range b.Succs {
			push(s, st, nil)
		}
	}
	return lost
}

// reportsError: the returned value was built from the error.
func reportsError(v ssa.Value, st siteState, keep map[ssa.CallInstruction]bool, d int) {
	if d > 5 {
		return
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		reportsError(x.X, st, keep, d+1)
	case *ssa.Call:
		for _, a := range x.Common().Args {
			if isErrorType(a.Type()) {
				carriedFrom(a, st, func(k ssa.CallInstruction) { keep[k] = true }, 0)
			}
		}
	case *ssa.BinOp:
		if v, _, ok := nilTest(x); ok {
			carriedFrom(v, st, func(k ssa.CallInstruction) { keep[k] = true }, 0)
		}
	case *ssa.UnOp:
		if x.Op == token.NOT {
			reportsError(x.X, st, keep, d+1)
		}
	case *ssa.Phi:
		for _, e := range x.Edges {
			reportsError(e, st, keep, d+1)
		}
	}
}

// ruleErrFlow: no function of the state machine turns a failure of something
// it called into success. arg: exceptions FN:CALLEE.
// insts lists the instances of the code inlined under in.
func insts(in *Inst) []*Inst {
	var out []*Inst
	seen := map[*Inst]bool{}
	in.Visit(func(st *Site, s Set, stack []*Site) {
		if !seen[st.inst] {
			seen[st.inst] = true
			out = append(out, st.inst)
		}
	})
	return out
}

func ruleErrFlow(c *Check, arg string) { errFlow(c, arg, nil) }

// errFlow follows the failing calls of the core functions, or of the named functions
// and of the unexported code they call, except those that arg lists.
func errFlow(c *Check, arg string, only []string) {
	var within map[*ssa.Function]bool
	if only != nil {
		within = map[*ssa.Function]bool{}
		for _, n := range only {
			fn := c.Fn(expandAbbrev(n))
			if fn == nil {
				continue
			}
			within[fn] = true
			for _, sub := range insts(c.e.Root(fn)) {
				within[sub.fn] = true
			}
		}
	}
	except := map[string]bool{}
	for _, x := range strings.Fields(arg) {
		except[x] = true
	}
	used := map[string]bool{}
	n := 0
	for _, fn := range c.e.coreFns() {
		if fn.Synthetic != "" || fn.Name() == "GetSigners" || within != nil && !within[fn] {
			continue
		}
		inv := false
		for p := fn; p != nil; p = p.Parent() {
			inv = inv || isInvariant(p)
		}
		if inv {
			continue
		}
		name := c.e.fnName(fn)
		top := fn
		for top.Parent() != nil {
			top = top.Parent()
		}
		tname := c.e.fnName(top)
		c.fns[name] = true
		lost := lostErrors(fn)
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, isDefer := ins.(*ssa.Defer); isDefer {
					continue
				}
				if isErrMaker(call.Common()) || neverFails(call.Common()) {
					continue
				}
				if _, has := errResult(call); !has {
					continue
				}
				n++
				_, recv, cn := calleeOf(call.Common())
				if recv != "" {
					cn = recv + "." + cn
				}
				key := fmt.Sprintf("err:%s:%s", name, cn)
				at, bad := lost[call]
				if !bad {
					c.pass(key, "error-kept")
					continue
				}
				ex := tname + ":" + cn
				skip := false
				for x := range except {
					f, cl, _ := strings.Cut(x, ":")
					if cl == cn && (f == tname || strings.HasSuffix(f, "*") && strings.HasPrefix(tname, strings.TrimSuffix(f, "*"))) {
						skip = true
						used[x] = true
					}
				}
				if skip {
					continue
				}
				c.fail(key, "error-kept", c.e.where(ins), "%s goes on as if %s had succeeded when it fails (returns at %s) [%s]", name, cn, c.e.where(at), ex)
			}
		}
	}
	c.sites += n
	c.noteS("errors: %d failing calls followed, exceptions: %d", n, len(used))
}

// ---------------------------------------------------------------------------

// constBytes evaluates the initial value of a package-level byte string.
func (e *Engine) constBytes(g *ssa.Global) ([]byte, bool) {
	initFn := g.Pkg.Func("init")
	if initFn == nil {
		return nil, false
	}
	for _, b := range initFn.Blocks {
		for _, ins := range b.Instrs {
			st, ok := ins.(*ssa.Store)
			if !ok || st.Addr != g {
				continue
			}
			return valueBytes(st.Val, 0)
		}
	}
	return nil, false
}

func valueBytes(v ssa.Value, d int) ([]byte, bool) {
	if d > 6 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Convert:
		return valueBytes(x.X, d+1)
	case *ssa.ChangeType:
		return valueBytes(x.X, d+1)
	case *ssa.MakeInterface:
		return valueBytes(x.X, d+1)
	case *ssa.Const:
		if x.Value == nil {
			return nil, false
		}
		if x.Value.Kind() == constant.String {
			return []byte(constant.StringVal(x.Value)), true
		}
		if x.Value.Kind() == constant.Int {
			n, ok := constant.Int64Val(x.Value)
			if ok && n >= 0 && n < 256 {
				return []byte{byte(n)}, true
			}
		}
	case *ssa.Call:
		_, _, name := calleeOf(x.Common())
		if name == "NewPrefix" && len(x.Common().Args) == 1 {
			return valueBytes(x.Common().Args[0], d+1)
		}
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			return theEngine.constBytes(g)
		}
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			return nil, false
		}
		arr, ok := derefType(a.Type()).Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		out := make([]byte, arr.Len())
		for _, r := range *a.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok {
					bs, ok := valueBytes(st.Val, d+1)
					if !ok || len(bs) != 1 {
						return nil, false
					}
					out[k.Int64()] = bs[0]
				}
			}
		}
		return out, true
	}
	return nil, false
}

// rulePrefixes: "MODULE…": in each module no storage prefix is a prefix of
// another one, so no two kinds of records can share a key.
func rulePrefixes(c *Check, arg string) {
	for _, m := range strings.Fields(arg) {
		type pfx struct {
			name string
			b    []byte
			g    *ssa.Global
		}
		used := map[*ssa.Global]bool{}
		for _, fn := range c.e.coreFns() {
			p := strings.TrimPrefix(pkgOf(fn), modPath+"/")
			if !strings.HasPrefix(p, "x/"+m+"/") && p != "x/"+m || fn.Name() == "init" && fn.Synthetic != "" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if g, ok := (*op).(*ssa.Global); ok && strings.HasPrefix(g.Pkg.Pkg.Path(), modPath+"/x/"+m) {
							used[g] = true
						}
					}
				}
			}
		}
		var ps []pfx
		var gs []*ssa.Global
		for g := range used {
			gs = append(gs, g)
		}
		sort.Slice(gs, func(a, b int) bool { return gs[a].Name() < gs[b].Name() })
		for _, g := range gs {
			t := derefType(g.Type())
			isB := false
			if s, ok := t.Underlying().(*types.Slice); ok {
				if bt, ok := s.Elem().Underlying().(*types.Basic); ok && bt.Kind() == types.Byte {
					isB = true
				}
			}
			if nm := namedOf(t); nm != nil && nm.Obj().Name() == "Prefix" {
				isB = true
			}
			if !isB || strings.HasPrefix(g.Name(), "fileDescriptor") {
				continue
			}
			bs, ok := c.e.constBytes(g)
			where := strings.TrimPrefix(c.e.fset.Position(g.Pos()).String(), repoDir+"/")
			if !ok || len(bs) == 0 {
				c.fail("prefix:"+m+"."+g.Name(), "prefix-value", where, "the storage prefix %s of %s is not a non-empty constant", g.Name(), m)
				continue
			}
			ps = append(ps, pfx{g.Name(), bs, g})
		}
		for i := range ps {
			ok := true
			for j := range ps {
				if i != j && strings.HasPrefix(string(ps[j].b), string(ps[i].b)) {
					ok = false
					c.fail("prefix:"+m+"."+ps[i].name, "prefix-free", strings.TrimPrefix(c.e.fset.Position(ps[i].g.Pos()).String(), repoDir+"/"), "the storage prefix %s (%x) of %s is a prefix of %s (%x): their records share keys", ps[i].name, ps[i].b, m, ps[j].name, ps[j].b)
				}
			}
			if ok {
				c.pass("prefix:"+m+"."+ps[i].name, "prefix-free")
			}
		}
		c.sites += len(ps)
		if len(ps) == 0 {
			c.fail("prefix:"+m, "prefix-free", "", "no storage prefix found in %s", m)
		}
		// every collection is opened under its own prefix
		own := map[*ssa.Global]string{}
		for _, fn := range c.e.coreFns() {
			if pkgOf(fn) != modPath+"/x/"+m+"/keeper" {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					call, ok := ins.(ssa.CallInstruction)
					if !ok {
						continue
					}
					pkg, _, name := calleeOf(call.Common())
					if !strings.HasPrefix(pkg, "cosmossdk.io/collections") || !strings.HasPrefix(name, "New") {
						continue
					}
					for _, a := range call.Common().Args {
						if nm := namedOf(a.Type()); nm == nil || nm.Obj().Name() != "Prefix" {
							continue
						}
						g := prefixGlobal(a, 0)
						key := fmt.Sprintf("collection:%s:%s", m, c.e.where(ins))
						if g == nil {
							if bs, ok := valueBytes(a, 0); ok {
								clash := false
								for _, p := range ps {
									if strings.HasPrefix(string(p.b), string(bs)) || strings.HasPrefix(string(bs), string(p.b)) {
										clash = true
									}
								}
								if !clash {
									c.pass(key, "collection-prefix")
									continue
								}
							}
							c.fail(key, "collection-prefix", c.e.where(ins), "a collection of %s is opened under a prefix that is not one of its constants", m)
							continue
						}
						if o, dup := own[g]; dup {
							c.fail(key, "collection-prefix", c.e.where(ins), "two collections of %s are opened under %s (the other at %s)", m, g.Name(), o)
							continue
						}
						own[g] = c.e.where(ins)
						c.pass(key, "collection-prefix")
					}
				}
			}
		}
	}
}

func prefixGlobal(v ssa.Value, d int) *ssa.Global {
	if d > 5 {
		return nil
	}
	switch x := v.(type) {
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok {
			return g
		}
	case *ssa.Call:
		if _, _, n := calleeOf(x.Common()); n == "NewPrefix" {
			return prefixGlobal(x.Common().Args[0], d+1)
		}
	case *ssa.MakeInterface:
		return prefixGlobal(x.X, d+1)
	case *ssa.ChangeType:
		return prefixGlobal(x.X, d+1)
	case *ssa.Convert:
		return prefixGlobal(x.X, d+1)
	}
	return nil
}

// ---------------------------------------------------------------------------

// stringsOf evaluates a list of constant strings.
func stringsOf(v ssa.Value, d int) ([]string, bool) {
	return listOf(v, func(v ssa.Value) (string, bool) {
		s, ok := v.(*ssa.Const)
		if !ok || s.Value == nil || s.Value.Kind() != constant.String {
			return "", false
		}
		return constant.StringVal(s.Value), true
	}, d)
}

// listOf evaluates a slice built from literals, appends and helper functions.
func listOf(v ssa.Value, elem func(ssa.Value) (string, bool), d int) ([]string, bool) {
	if d > 8 {
		return nil, false
	}
	switch x := v.(type) {
	case *ssa.Const:
		if x.IsNil() {
			return nil, true
		}
	case *ssa.Call:
		if b, ok := x.Common().Value.(*ssa.Builtin); ok && b.Name() == "append" {
			a, ok1 := listOf(x.Common().Args[0], elem, d+1)
			z, ok2 := listOf(x.Common().Args[1], elem, d+1)
			return append(append([]string{}, a...), z...), ok1 && ok2
		}
		f := x.Common().StaticCallee()
		if f == nil || len(f.Blocks) == 0 {
			return nil, false
		}
		var out []string
		n := 0
		for _, b := range f.Blocks {
			if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) == 1 {
				o, ok := listOf(r.Results[0], elem, d+1)
				if !ok {
					return nil, false
				}
				out = o
				n++
			}
		}
		return out, n == 1
	case *ssa.UnOp:
		if g, ok := x.X.(*ssa.Global); ok && x.Op == token.MUL {
			initFn := g.Pkg.Func("init")
			for _, b := range initFn.Blocks {
				for _, ins := range b.Instrs {
					if st, ok := ins.(*ssa.Store); ok && st.Addr == g {
						return listOf(st.Val, elem, d+1)
					}
				}
			}
		}
		if a, ok := x.X.(*ssa.Alloc); ok {
			for _, r := range *a.Referrers() {
				if st, ok := r.(*ssa.Store); ok && st.Addr == a {
					return listOf(st.Val, elem, d+1)
				}
			}
		}
	case *ssa.ChangeType:
		return listOf(x.X, elem, d+1)
	case *ssa.Phi:
		// conditional additions: the longest of the alternatives
		var out []string
		for _, e := range x.Edges {
			o, ok := listOf(e, elem, d+1)
			if !ok {
				return nil, false
			}
			if len(o) > len(out) {
				out = o
			}
		}
		return out, true
	case *ssa.Slice:
		a, ok := x.X.(*ssa.Alloc)
		if !ok {
			return nil, false
		}
		arr, ok := derefType(a.Type()).Underlying().(*types.Array)
		if !ok {
			return nil, false
		}
		out := make([]string, arr.Len())
		for _, r := range *a.Referrers() {
			ia, ok := r.(*ssa.IndexAddr)
			if !ok {
				continue
			}
			k, ok := ia.Index.(*ssa.Const)
			if !ok {
				return nil, false
			}
			for _, rr := range *ia.Referrers() {
				if st, ok := rr.(*ssa.Store); ok {
					s, ok := elem(st.Val)
					if !ok {
						return nil, false
					}
					out[k.Int64()] = s
				}
			}
		}
		return out, true
	}
	return nil, false
}

// wired describes what a value given to a setter is: the concrete type of an
// interface, the function a closure or method value stands for.
func (e *Engine) wired(v ssa.Value, d int) (string, bool) {
	if d > 8 {
		return "", false
	}
	switch x := v.(type) {
	case *ssa.MakeInterface:
		return e.wired(x.X, d+1)
	case *ssa.ChangeInterface:
		return e.wired(x.X, d+1)
	case *ssa.ChangeType:
		return e.wired(x.X, d+1)
	case *ssa.MakeClosure:
		return e.wired(x.Fn, d+1)
	case *ssa.Function:
		if o, ok := x.Object().(*types.Func); ok && x.Synthetic != "" {
			if f := e.prog.FuncValue(o); f != nil {
				return e.fnName(f), true
			}
		}
		return e.fnName(x), true
	case *ssa.Phi:
		out := ""
		for _, ed := range x.Edges {
			o, ok := e.wired(ed, d+1)
			if !ok || out != "" && o != out {
				return "", false
			}
			out = o
		}
		return out, out != ""
	case *ssa.Const:
		if x.IsNil() {
			return "nil", true
		}
		return "", false
	case *ssa.Call:
		if _, ok := x.Type().Underlying().(*types.Interface); ok || isFuncType(x.Type()) {
			f := x.Common().StaticCallee()
			if f == nil {
				return "", false
			}
			out, n := "", 0
			for _, b := range f.Blocks {
				if r, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && len(r.Results) > 0 {
					o, ok := e.wired(r.Results[0], d+1)
					if !ok {
						return "", false
					}
					out = o
					n++
				}
			}
			if n == 1 && out != "" {
				return out, true
			}
			return c0name(e, f), true
		}
	case *ssa.UnOp:
		if a, ok := x.X.(*ssa.Alloc); ok && x.Op == token.MUL {
			if _, isI := derefType(a.Type()).Underlying().(*types.Interface); isI || isFuncType(derefType(a.Type())) {
				for _, r := range *a.Referrers() {
					if st, ok := r.(*ssa.Store); ok && st.Addr == a {
						return e.wired(st.Val, d+1)
					}
				}
			}
		}
	}
	if t, ok := derefType(v.Type()).(*types.Named); ok {
		return shortPkg(t.Obj().Pkg().Path()) + "." + t.Obj().Name(), true
	}
	return "", false
}

func c0name(e *Engine, f *ssa.Function) string { return e.fnName(f) + "()" }

func isFuncType(t types.Type) bool {
	_, ok := t.Underlying().(*types.Signature)
	return ok
}

// checkOrder: the list contains every name of the constraints, the ones
// related by < in that order.
func (c *Check) checkOrder(key, rule, what string, list, constraints []string, where string) {
	pos := map[string]int{}
	for k, s := range list {
		if _, dup := pos[s]; !dup {
			pos[s] = k + 1
		}
	}
	for _, cs := range constraints {
		parts := strings.Split(cs, "<")
		bad := ""
		for k, p := range parts {
			if pos[p] == 0 {
				bad = p + " is missing"
			} else if k > 0 && pos[parts[k-1]] > pos[p] {
				bad = parts[k-1] + " comes after " + p
			}
		}
		if bad == "" {
			c.pass(key+":"+cs, rule)
		} else {
			c.fail(key+":"+cs, rule, where, "in what %s is given %s", what, bad)
		}
	}
}

// ruleWire: "FN [n] a<b c": the application calls FN exactly once; its last
// argument is, or is a list built of, the given values.
func ruleWire(c *Check, arg string) {
	f := strings.Fields(arg)
	want := expandAbbrev(f[0])
	only := f[1] == "only"
	for k := range f {
		f[k] = expandAbbrev(f[k])
	}
	cs := f[1:]
	if only {
		cs = f[2:]
	}
	n := 0
	for _, fn := range c.e.repoFns {
		pos := strings.TrimPrefix(c.e.fset.Position(fn.Pos()).Filename, repoDir+"/")
		if strings.HasSuffix(pos, "_test.go") || excludedPath("/"+pos) || !(strings.HasPrefix(pos, "app/") || strings.HasPrefix(pos, "ante/")) || strings.HasPrefix(pos, "app/helpers/") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				sc := call.Common().StaticCallee()
				if sc == nil || c.e.fnName(sc) != want {
					continue
				}
				n++
				c.sites++
				args := call.Common().Args
				v := args[len(args)-1]
				// a combinator: what it combines is what counts
				if mi, ok := v.(*ssa.MakeInterface); ok {
					v = mi.X
				}
				for k := 0; k < 3; k++ {
					cl, ok := v.(*ssa.Call)
					if !ok || cl.Common().StaticCallee() == nil || len(cl.Common().Args) == 0 {
						break
					}
					la := cl.Common().Args[len(cl.Common().Args)-1]
					if _, isSlice := la.Type().Underlying().(*types.Slice); !isSlice {
						break
					}
					v = la
				}
				var list []string
				if _, isSlice := v.Type().Underlying().(*types.Slice); isSlice {
					list, ok = listOf(v, func(v ssa.Value) (string, bool) { return c.e.wired(v, 0) }, 0)
				} else {
					var s string
					s, ok = c.e.wired(v, 0)
					list = []string{s}
				}
				if !ok {
					c.fail("wire:"+want, "wiring", c.e.where(ins), "what %s is given cannot be determined", want)
					continue
				}
				c.checkOrder("wire:"+want, "wiring", want, list, cs, c.e.where(ins))
				if only && len(list) != len(cs) {
					c.fail("wire:"+want+":only", "wiring", c.e.where(ins), "%s is given [%s], expected only %s", want, strings.Join(list, " "), strings.Join(cs, " "))
				}
				c.noteS("%s: %s", want, strings.Join(list, " "))
			}
		}
	}
	if n != 1 {
		c.fail("wire:"+want, "wiring", "", "%s is called %d times by the application, expected once", want, n)
	}
}

// ruleOrder: "SETTER a<b c" : the application calls the setter once; the list
// it is given contains every name, the ones related by < in that order.
func ruleOrder(c *Check, arg string) {
	f := strings.Fields(arg)
	n := 0
	for _, fn := range c.e.repoFns {
		if fn.Pkg == nil || shortPkg(fn.Pkg.Pkg.Path()) != "app" || strings.HasSuffix(c.e.fset.Position(fn.Pos()).Filename, "_test.go") {
			continue
		}
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				call, ok := ins.(ssa.CallInstruction)
				if !ok {
					continue
				}
				if _, recv, name := calleeOf(call.Common()); recv != "Manager" || name != f[0] {
					continue
				}
				n++
				c.sites++
				args := call.Common().Args
				list, ok := stringsOf(args[len(args)-1], 0)
				if !ok {
					c.fail("order:"+f[0], "order-constant", c.e.where(ins), "the list given to %s is not constant", f[0])
					continue
				}
				c.checkOrder("order:"+f[0], "module-order", f[0], list, f[1:], c.e.where(ins))
			}
		}
	}
	if n != 1 {
		c.fail("order:"+f[0], "order-set", "", "the application calls %s %d times, expected once", f[0], n)
	}
}

// rulePerms: "GLOBAL account:perm,perm …": the permissions of these module
// accounts are exactly the given ones.
func rulePerms(c *Check, arg string) {
	f := strings.Fields(arg)
	var g *ssa.Global
	for _, p := range c.e.prog.AllPackages() {
		if shortPkg(p.Pkg.Path()) == "app" && inRepo(p.Pkg) {
			if x, ok := p.Members[f[0]].(*ssa.Global); ok {
				g = x
			}
		}
	}
	if g == nil {
		c.fail("perms", "module-permissions", "", "the table of module account permissions %s is missing", f[0])
		return
	}
	got := map[string][]string{}
	var m ssa.Value
	for _, b := range g.Pkg.Func("init").Blocks {
		for _, ins := range b.Instrs {
			if st, ok := ins.(*ssa.Store); ok && st.Addr == g {
				m = st.Val
			}
		}
	}
	if m != nil {
		for _, r := range *m.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok {
				k, ok := mu.Key.(*ssa.Const)
				if !ok {
					continue
				}
				v, _ := stringsOf(mu.Value, 0)
				got[constant.StringVal(k.Value)] = v
			}
		}
	}
	where := strings.TrimPrefix(c.e.fset.Position(g.Pos()).String(), repoDir+"/")
	for _, x := range f[1:] {
		name, want, _ := strings.Cut(x, ":")
		absent := want == "!"
		v, has := got[name]
		sort.Strings(v)
		key := "perms:" + name
		switch {
		case absent && has && len(v) > 0, !absent && !has, !absent && strings.Join(v, ",") != want:
			c.fail(key, "module-permissions", where, "module account %s has permissions [%s] (present: %v), expected [%s]", name, strings.Join(v, ","), has, want)
		default:
			c.pass(key, "module-permissions")
		}
	}
}

func (c *Check) noteS(f string, a ...interface{}) {
	c.samples = append(c.samples, fmt.Sprintf(f, a...))
}

// ruleImplements: "TYPE pkg.Iface|pkg.Iface …": the type has the methods of
// (one of) each interface, so that the module manager recognises it.
func ruleImplements(c *Check, arg string) {
	f := strings.Fields(arg)
	look := func(n string) types.Type {
		i := strings.LastIndex(n, ".")
		for _, p := range c.e.prog.AllPackages() {
			if shortPkg(p.Pkg.Path()) == n[:i] {
				if o, ok := p.Pkg.Scope().Lookup(n[i+1:]).(*types.TypeName); ok {
					return o.Type()
				}
			}
		}
		return nil
	}
	t := look(f[0])
	if t == nil {
		c.fail("implements:"+f[0], "module-interface", "", "type %s is missing", f[0])
		return
	}
	where := ""
	if n, ok := t.(*types.Named); ok {
		where = strings.TrimPrefix(c.e.fset.Position(n.Obj().Pos()).String(), repoDir+"/")
	}
	for _, alts := range f[1:] {
		ok := false
		for _, a := range strings.Split(alts, "|") {
			it := look(a)
			if it == nil {
				c.fail("implements:"+a, "module-interface", "", "interface %s is missing", a)
				continue
			}
			ok = ok || types.Implements(t, it.Underlying().(*types.Interface)) || types.Implements(types.NewPointer(t), it.Underlying().(*types.Interface))
		}
		key := "implements:" + f[0] + ":" + alts
		if ok {
			c.pass(key, "module-interface")
		} else {
			c.fail(key, "module-interface", where, "%s does not implement %s, the module manager will not call it", f[0], alts)
		}
	}
}

// ruleFlag: "ENTRY => fact && fact": a callback of the entry records success
// in a captured variable only where the facts hold.
func ruleFlag(c *Check, arg string) {
	p := strings.SplitN(arg, "=>", 2)
	name := expandAbbrev(strings.TrimSpace(p[0]))
	fn := c.Fn(name)
	if fn == nil {
		return
	}
	var fps []*FactPat
	for _, x := range strings.Split(p[1], "&&") {
		fps = append(fps, c.e.F(strings.TrimSpace(x)))
	}
	n := 0
	seen := map[*Inst]bool{}
	c.e.Root(fn).Visit(func(st *Site, base Set, stack []*Site) {
		for _, sub := range st.subs {
			if seen[sub] || sub.fn.Parent() == nil {
				continue
			}
			seen[sub] = true
			for _, b := range sub.fn.Blocks {
				for _, ins := range b.Instrs {
					s, ok := ins.(*ssa.Store)
					if !ok {
						continue
					}
					if _, isFV := s.Addr.(*ssa.FreeVar); !isFV {
						continue
					}
					if k, ok := s.Val.(*ssa.Const); ok && (k.Value == nil || k.Value.Kind() != constant.Bool || !constant.BoolVal(k.Value)) {
						continue
					} else if !ok {
						if bt, ok := s.Val.Type().Underlying().(*types.Basic); !ok || bt.Kind() != types.Bool {
							continue
						}
					}
					if sub.in[b.Index] == nil {
						continue // unreachable
					}
					n++
					c.sites++
					facts := union(base, sub.in[b.Index])
					if k, ok := s.Val.(*ssa.Const); !ok || k == nil {
						facts = sub.addFacts(facts, condFact(sub.T(s.Val), true))
					}
					for _, fp := range fps {
						key := "flag:" + name + ":" + fp.src
						if fp.holds(facts, Env{}) {
							c.pass(key, "flag-condition")
						} else {
							c.fail(key, "flag-condition", c.e.where(ins), "%s records success without %s", name, fp.src)
						}
					}
				}
			}
		}
	})
	if n == 0 {
		c.fail("flag:"+name, "flag-condition", c.e.whereFn(fn), "%s has no callback that records success", name)
	}
}

// ruleGlobal: "PKG.NAME VALUE": the package variable has the given initial
// value and nothing the application can run changes it.
func ruleGlobal(c *Check, arg string) {
	f := strings.SplitN(arg, " ", 2)
	i := strings.LastIndex(f[0], ".")
	var g *ssa.Global
	for _, p := range c.e.prog.AllPackages() {
		if inRepo(p.Pkg) && shortPkg(p.Pkg.Path()) == f[0][:i] {
			g, _ = p.Members[f[0][i+1:]].(*ssa.Global)
			if g != nil {
				break
			}
		}
	}
	key := "global:" + f[0]
	if g == nil {
		c.fail(key, "fixed-variable", "", "package variable %s is missing", f[0])
		return
	}
	got := ""
	prod := func(fn *ssa.Function) bool {
		pos := strings.TrimPrefix(c.e.fset.Position(fn.Pos()).Filename, repoDir+"/")
		return !strings.HasSuffix(pos, "_test.go") && !excludedPath("/"+pos)
	}
	called := func(t *ssa.Function) ssa.Instruction {
		for _, fn := range c.e.repoFns {
			if !prod(fn) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, ins := range b.Instrs {
					for _, op := range ins.Operands(nil) {
						if *op == t {
							return ins
						}
					}
				}
			}
		}
		return nil
	}
	touches := func(v ssa.Value) bool {
		for n := 0; n < 6; n++ {
			switch x := v.(type) {
			case *ssa.Global:
				return x == g
			case *ssa.UnOp:
				v = x.X
			case *ssa.FieldAddr:
				v = x.X
			case *ssa.IndexAddr:
				v = x.X
			default:
				return false
			}
		}
		return false
	}
	all := append([]*ssa.Function{}, c.e.repoFns...)
	all = append(all, g.Pkg.Func("init"))
	seen := map[*ssa.Function]bool{}
	for _, fn := range all {
		if seen[fn] || !prod(fn) {
			continue
		}
		seen[fn] = true
		for _, b := range fn.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok && fn == g.Pkg.Func("init") && st.Addr == g {
					got = initValue(st.Val)
					continue
				}
				w := false
				switch x := ins.(type) {
				case *ssa.Store:
					w = touches(x.Addr)
				case *ssa.MapUpdate:
					w = touches(x.Map)
				case *ssa.Call:
					if b, ok := x.Common().Value.(*ssa.Builtin); ok && (b.Name() == "delete" || b.Name() == "clear") {
						w = touches(x.Common().Args[0])
					}
				}
				if !w {
					continue
				}
				if at := called(fn); at != nil || fn.Name() == "init" || fn.Parent() != nil {
					where := ins
					if at != nil {
						where = at
					}
					c.fail(key+":write", "fixed-variable", c.e.where(where), "%s is changed by %s, which the application can run", f[0], c.e.fnName(fn))
				}
			}
		}
	}
	where := strings.TrimPrefix(c.e.fset.Position(g.Pos()).String(), repoDir+"/")
	if got == f[1] {
		c.pass(key, "fixed-variable")
	} else {
		c.fail(key, "fixed-variable", where, "%s starts as %s, expected %s", f[0], got, f[1])
	}
}

func initValue(v ssa.Value) string {
	switch x := v.(type) {
	case *ssa.Const:
		if x.Value == nil {
			return "zero"
		}
		return x.Value.ExactString()
	case *ssa.Convert:
		return initValue(x.X)
	case *ssa.ChangeType:
		return initValue(x.X)
	case *ssa.MakeInterface:
		return initValue(x.X)
	case *ssa.Call:
		if f := x.Common().StaticCallee(); f != nil {
			var as []string
			for _, a := range x.Common().Args {
				as = append(as, initValue(a))
			}
			return f.Name() + "(" + strings.Join(as, ",") + ")"
		}
	case *ssa.MakeMap:
		var ks []string
		for _, r := range *x.Referrers() {
			if mu, ok := r.(*ssa.MapUpdate); ok {
				ks = append(ks, initValue(mu.Key))
			}
		}
		sort.Strings(ks)
		return "{" + strings.Join(ks, ",") + "}"
	}
	return "?"
}

func init() { custom["verdict"] = ruleVerdict }

// ruleVerdict: "FN": the second result of the invariant FN can be both true and
// false, and it is true whenever the record of findings is not empty.
func ruleVerdict(c *Check, arg string) {
	for _, name := range strings.Split(arg, ";") {
		name = expandAbbrev(strings.TrimSpace(name))
		in := c.Root(name)
		if in == nil {
			continue
		}
		key := "verdict:" + name
		if len(in.results) < 2 || in.results[1] == nil {
			c.fail(key, "verdict", c.e.whereFn(in.fn), "%s never returns", name)
			continue
		}
		alts := []*Term{in.results[1]}
		if alts[0].Op == "union" {
			alts = alts[0].Args
		}
		verdict, no := false, ""
		for _, a := range alts {
			t, neg := a, false
			for t.Op == "not" {
				t, neg = t.Args[0], !neg
			}
			switch {
			case t == tTrue:
			case t == tFalse:
				verdict = len(alts) > 1 // a flag
			case neg && t.Op == "eq" && (t.Args[1].Op == "const") && (t.Args[1].S == "0" || t.Args[1].S == "nil"),
				!neg && t.Op == "lt" && t.Args[0].Op == "const" && t.Args[0].S == "0",
				neg && t.Op == "lt" && t.Args[1].Op == "const" && t.Args[1].S == "1":
				x := t.Args[0]
				if x.Op == "const" {
					x = t.Args[1]
				}
				if x.Op == "len" {
					x = x.Args[0]
				}
				if x.Op == "union" {
					verdict = true
				} else {
					no = a.str(6)
				}
			default:
				no = a.str(6)
			}
		}
		if verdict && no == "" {
			c.pass(key, "verdict")
		} else {
			c.fail(key, "verdict", c.e.whereFn(in.fn), "%s: the result does not say whether something was recorded: %s", name, in.results[1].str(6))
		}
	}
}

func init() { custom["notafter"] = ruleNotAfter }

// ruleNotAfter: "FN ; SITE ; FACT ; UNLESS": FN reaches no site that matches SITE
// once FACT holds, except where UNLESS holds.
func ruleNotAfter(c *Check, arg string) {
	p := strings.Split(arg, " ; ")
	in := c.Root(strings.TrimSpace(p[0]))
	if in == nil {
		return
	}
	key := "notafter:" + arg
	site := c.e.P(p[1])
	bad := false
	in.Visit(func(st *Site, s Set, stack []*Site) {
		if !site.match(st.call, Env{}) || !c.e.F(p[2]).holds(s, Env{}) || len(p) > 3 && c.e.F(p[3]).holds(s, Env{}) {
			return
		}
		bad = true
		c.fail(key, "effect-order", c.e.where(st.instr), "%s reaches %s after: %s", p[0], st.call.str(6), p[2])
	})
	if !bad {
		c.pass(key, "effect-order")
	}
}
