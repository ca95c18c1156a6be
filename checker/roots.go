package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// roots lists every entry point through which the outside world (transactions,
// blocks, genesis, IBC, other modules' hooks) reaches repository code.
func (e *Engine) roots() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for n, fn := range e.byName {
		if fn.Signature.Recv() == nil {
			if strings.HasSuffix(n, "Keeper.RegisterInvariants") {
				continue
			}
			continue
		}
		recv := namedOf(fn.Signature.Recv().Type())
		if recv == nil {
			continue
		}
		rn := recv.Obj().Name()
		obj, _ := fn.Object().(*types.Func)
		if obj == nil || !obj.Exported() {
			continue
		}
		pos := e.fset.Position(fn.Pos()).Filename
		if strings.HasSuffix(pos, ".pb.go") || strings.Contains(pos, "/testutils/") || strings.Contains(pos, "/simulation/") || strings.Contains(pos, "/client/") {
			continue
		}
		switch {
		case rn == "msgServer":
		case rn == "AppModule" && (fn.Name() == "BeginBlock" || fn.Name() == "EndBlock" || fn.Name() == "InitGenesis" || fn.Name() == "PreBlock"):
		case rn == "IBCMiddleware":
		case strings.HasSuffix(rn, "Hooks") && !strings.HasPrefix(rn, "Multi") && strings.HasSuffix(shortPkg(recv.Obj().Pkg().Path()), "/keeper"):
		case rn == "Migrator":
		default:
			continue
		}
		out[n] = fn
	}
	return out
}

// storeWriters: store -> root -> operations.
func (e *Engine) storeWriters() map[string]map[string]map[string]string {
	res := map[string]map[string]map[string]string{}
	for n, fn := range e.roots() {
		in := e.Root(fn)
		in.Visit(func(st *Site, s Set, stack []*Site) {
			if !isWrite(st.name) {
				return
			}
			store := ""
			op := st.name[strings.LastIndex(st.name, ".")+1:]
			switch {
			case strings.HasPrefix(st.name, "collections."):
				if len(st.args) > 0 {
					store = storeOf(st, e)
				}
			case strings.HasPrefix(st.name, "store.") || strings.HasPrefix(st.name, "prefix."):
				store = storeOf(st, e)
			default:
				store = "bank"
				op = st.name
			}
			if res[store] == nil {
				res[store] = map[string]map[string]string{}
			}
			if res[store][n] == nil {
				res[store][n] = map[string]string{}
			}
			res[store][n][op] = e.where(st.instr)
		})
	}
	return res
}

// storeOf names the store a write goes to.
func storeOf(st *Site, e *Engine) string {
	com := st.instr.Common()
	if strings.HasPrefix(st.name, "collections.") {
		t := st.inst.T(com.Args[0])
		if t.Op == "union" {
			return t.str(3)
		}
		if t.Op == "field" && t.Args[0].Op == "K" {
			return t.Args[0].S + "." + t.S
		}
		return t.str(3)
	}
	// raw stores: the key expression
	k := st.args[1]
	return "kv:" + keyShape(k)
}

// keyShape: the key-prefix function or global a raw key is built from.
func keyShape(k *Term) string {
	switch k.Op {
	case "call":
		return k.S
	case "append":
		return keyShape(k.Args[0])
	case "global":
		return k.S
	case "union":
		var ss []string
		for _, a := range k.Args {
			ss = append(ss, keyShape(a))
		}
		sort.Strings(ss)
		return strings.Join(ss, "|")
	case "res":
		return keyShape(k.Args[0])
	}
	return k.str(3)
}

func dumpWriters(e *Engine) {
	w := e.storeWriters()
	var ss []string
	for s := range w {
		ss = append(ss, s)
	}
	sort.Strings(ss)
	for _, s := range ss {
		fmt.Println(s)
		var rs []string
		for r, ops := range w[s] {
			var os []string
			for o := range ops {
				os = append(os, o)
			}
			sort.Strings(os)
			rs = append(rs, "    "+r+" "+strings.Join(os, ","))
		}
		sort.Strings(rs)
		fmt.Println(strings.Join(rs, "\n"))
	}
}
