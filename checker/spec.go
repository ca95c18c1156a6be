package main

import (
	"fmt"
	"sort"
	"strings"
)

var theEngine *Engine

var shorten = strings.NewReplacer(
	"services/keeper.Keeper.", "SK.", "operators/keeper.Keeper.", "OK.", "pools/keeper.Keeper.", "PK.",
	"restaking/keeper.Keeper.", "RK.", "rewards/keeper.Keeper.", "WK.", "liquidvesting/keeper.Keeper.", "LK.", "assets/keeper.Keeper.", "AK.",
	"services/keeper.msgServer.", "SM.", "operators/keeper.msgServer.", "OM.", "restaking/keeper.msgServer.", "RM.",
	"rewards/keeper.msgServer.", "WM.", "liquidvesting/keeper.msgServer.", "LM.", "assets/keeper.msgServer.", "AM.",
	"services/types.", "ST.", "operators/types.", "OT.", "pools/types.", "PT.", "restaking/types.", "RT.",
	"rewards/types.", "WT.", "liquidvesting/types.", "LT.", "assets/types.", "AT.",
	"collections.Map.", "MAP.", "collections.KeySet.", "SET.", "collections.Item.", "ITEM.", "collections.Sequence.", "SEQ.")

// pstr prints a term in pattern syntax.
func pstr(t *Term, d int) string {
	if d < 0 {
		return "_"
	}
	args := func(sep string) string {
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, pstr(a, d-1))
		}
		return strings.Join(ss, sep)
	}
	switch t.Op {
	case "const":
		if strings.HasPrefix(t.S, "\"") {
			return t.S
		}
		for k := 0; k < len(t.S); k++ {
			if !identByte(t.S[k]) {
				return "_"
			}
		}
		return t.S
	case "param":
		return "$" + t.S
	case "ctx", "zero":
		return t.Op
	case "K":
		return "K:" + t.S
	case "field":
		return pstr(t.Args[0], d) + "." + t.S
	case "res":
		return pstr(t.Args[0], d) + "#" + t.S
	case "call", "mut":
		for k := 0; k < len(t.S); k++ {
			if !identByte(t.S[k]) && t.S[k] != '.' {
				return "_"
			}
		}
		return t.S + "(" + args(", ") + ")"
	case "union":
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, pstr(a, d-1))
		}
		sort.Strings(ss)
		return "{" + strings.Join(ss, "|") + "}"
	case "upd":
		return pstr(t.Args[0], d) + "<" + t.S + "=" + pstr(t.Args[1], d-1) + ">"
	case "elem":
		return pstr(t.Args[0], d) + "[*]"
	case "idx":
		return pstr(t.Args[0], d) + "[" + t.S + "]"
	case "istype":
		return "is:" + t.S + "(" + args("") + ")"
	case "not":
		return "!" + args("")
	case "bin":
		return "bin" + t.S + "(" + args(", ") + ")"
	case "eq", "lt", "list", "key", "len", "append", "map", "kv", "lookup", "haskey", "setelem", "slice":
		return t.Op + "(" + args(", ") + ")"
	case "global":
		return "@" + t.S
	case "rec":
		return "rec"
	case "closure", "func":
		if theEngine != nil && t.fn != nil {
			if r := theEngine.apply(t); r != nil {
				return "fun(" + pstr(r, d-1) + ")"
			}
		}
	}
	return "_"
}

func factStr(f *Fact, d int) string {
	s := pstr(f.T, d)
	switch f.Kind {
	case 'F':
		s = "!" + s
	case 'O':
		s = "ok " + s
	case 'C':
		s = "called " + s
	}
	if f.Each {
		s = "each " + s
	}
	return shorten.Replace(s)
}

// spec prints what an entry point does, in rule syntax.
func spec(e *Engine, name string, mode string) {
	fn := e.byName[name]
	if strings.Contains(name, "@") {
		fn = (&Check{e: e, obl: map[string]bool{}, fns: map[string]bool{}, rules: map[string]int{}}).Fn(name)
	}
	if fn == nil {
		fmt.Println("no function", name)
		return
	}
	in := e.Root(fn)
	d := 12
	fmt.Println("==", shorten.Replace(name))
	for k, r := range in.results {
		if r != nil {
			fmt.Printf("  R%d  %s\n", k, shorten.Replace(pstr(r, d)))
		}
	}
	if strings.Contains(mode, "s") {
		for _, f := range in.succ.facts() {
			if f.Kind != 'C' {
				fmt.Println("  S  ", factStr(f, d))
			}
		}
	}
	if strings.Contains(mode, "r") {
		for _, r := range in.rets {
			if !r.ok {
				continue
			}
			for k := range r.instr.Results {
				if isErrorType(r.instr.Results[k].Type()) {
					continue
				}
				for _, rc := range in.cases(r.instr.Results[k], 0, r.facts, r.instr, 0) {
					fmt.Printf("  V %d %s   @%s\n", k, shorten.Replace(pstr(rc.t, d)), e.where(r.instr))
					for _, f := range minus(rc.facts, in.succ).facts() {
						if f.Kind == 'T' || f.Kind == 'F' || f.Kind == 'O' {
							fmt.Println("        |", factStr(f, d))
						}
					}
				}
			}
		}
	}
	var common Set
	first := true
	type wr struct {
		s     string
		facts Set
	}
	var ws []wr
	seen := map[string]int{}
	in.Visit(func(st *Site, s Set, stack []*Site) {
		if !isWrite(st.name) && !isHookCall(st.name) {
			return
		}
		x := shorten.Replace(pstr(st.call, d))
		if n, ok := seen[x]; ok {
			ws[n].facts = inter(ws[n].facts, s)
		} else {
			seen[x] = len(ws)
			ws = append(ws, wr{x, s})
		}
		if first {
			common, first = s, false
		} else {
			common = inter(common, s)
		}
	})
	for _, f := range common.facts() {
		if f.Kind == 'T' || f.Kind == 'F' || f.Kind == 'O' {
			fmt.Println("  G  ", factStr(f, d))
		}
	}
	for _, w := range ws {
		fmt.Println("  W  ", w.s)
		if strings.Contains(mode, "g") {
			for _, f := range minus(w.facts, common).facts() {
				if f.Kind == 'T' || f.Kind == 'F' {
					fmt.Println("        |", factStr(f, d))
				}
			}
		}
	}
}
