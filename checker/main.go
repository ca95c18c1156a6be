package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"strings"
	"time"
)

var repoDir = "/repo"

// Prop is one property with the rules that decide it.
type Prop struct {
	ID          string
	Explanation string
	Assumptions []string
	Run         func(c *Check)
	Thorough    func(c *Check)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func runProp(e *Engine, p *Prop, out, tier string, seed int, t0 time.Time) (code int) {
	c := &Check{e: e, id: p.ID, obl: map[string]bool{}, fns: map[string]bool{}, rules: map[string]int{}, assumptions: append(baseAssumptions, p.Assumptions...)}
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VERIF_PANIC") != "" {
					panic(r)
				}
				c.fail("internal:"+p.ID, "internal", "", "analysis could not be completed: %v", r)
			}
		}()
		p.Run(c)
		if tier == "thorough" && p.Thorough != nil {
			p.Thorough(c)
		}
	}()
	return c.finish(out, tier, seed, t0, p.Explanation)
}

var baseAssumptions = []string{
	"Cosmos SDK, collections, IBC and Go standard library calls behave as documented (only repository code is analysed)",
	"a message handler that returns an error has its writes discarded by the SDK's transaction machinery",
}

func main() {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		repoDir = d
	}
	out := os.Getenv("VERIF_OUT")
	if out == "" {
		out = "/verif"
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	t0 := time.Now()
	if len(os.Args) < 3 {
		fmt.Println("usage: chk check ID… | dump FN [facts] | vocab -")
		os.Exit(2)
	}
	e, err := Load(repoDir)
	if err != nil {
		if os.Args[1] == "check" {
			for _, id := range os.Args[2:] {
				fmt.Printf("  [load] the repository could not be analysed: %v\nVIOLATION property=%s replay=%s\n", err, id, repoDir)
			}
			os.Exit(1)
		}
		fmt.Println(err)
		os.Exit(2)
	}
	e.loadVocab()
	registerRules(e)
	switch os.Args[1] {
	case "check":
		ids := os.Args[2:]
		if ids[0] == "all" {
			ids = nil
			for id := range props {
				ids = append(ids, id)
			}
			sort.Strings(ids)
		}
		code := 0
		for _, id := range ids {
			p := props[id]
			if p == nil {
				fmt.Println("unknown property", id)
				os.Exit(2)
			}
			t1 := time.Now()
			if len(ids) == 1 {
				t1 = t0
			}
			if runProp(e, p, out, tier, seed, t1) != 0 {
				code = 1
			}
		}
		os.Exit(code)
	case "lint":
		var ids []string
		for id := range ruleProps {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		miss := map[string]bool{}
		for _, id := range ids {
			_, m := e.sectionsOf(ruleProps[id])
			for _, x := range m {
				f := strings.Fields(x)
				if !miss[f[0]] {
					miss[f[0]] = true
					fmt.Println(id, shorten.Replace(x))
				}
			}
		}
	case "vocab":
		var ns []string
		for n, fn := range e.byName {
			f := e.fset.Position(fn.Pos()).Filename
			if strings.HasSuffix(f, ".pb.go") || strings.HasSuffix(f, ".pb.gw.go") || strings.HasPrefix(n, "api/") {
				continue
			}
			ns = append(ns, n)
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
	case "names":
		var ns []string
		for n := range e.byName {
			if strings.Contains(n, os.Args[2]) {
				ns = append(ns, n)
			}
		}
		sort.Strings(ns)
		fmt.Println(strings.Join(ns, "\n"))
	case "spec":
		if u := os.Getenv("VERIF_UNDER"); u != "" {
			for _, f := range strings.Split(u, "&&") {
				if strings.TrimSpace(f) == "marks" {
					e.marks = true
					continue
				}
				e.assume = append(e.assume, e.F(f))
			}
		}
		for _, n := range os.Args[3:] {
			spec(e, expandAbbrev(n), os.Args[2])
		}
	case "writers":
		dumpWriters(e)
	case "dump":
		fn := e.byName[os.Args[2]]
		if fn == nil {
			for n := range e.byName {
				if strings.Contains(n, os.Args[2]) {
					fmt.Println(n)
				}
			}
			return
		}
		dump(e, fn.String(), e.Root(fn), len(os.Args) > 3, strings.Join(os.Args[3:], " "))
		fmt.Println(time.Since(t0), e.stats.insts, termCount)
	}
}

func dump(e *Engine, _ string, in *Inst, facts bool, mode string) {
	fmt.Println("SUCCESS", in.succOK)
	for _, f := range in.succ.facts() {
		if f.Kind == 'C' {
			continue
		}
		fmt.Println("   ", f)
	}
	for k, r := range in.results {
		fmt.Println("RESULT", k, r)
	}
	if !facts {
		return
	}
	in.Visit(func(st *Site, s Set, stack []*Site) {
		w := isWrite(st.name) || isHookCall(st.name)
		if strings.Contains(mode, "w") && !w {
			return
		}
		fmt.Printf("%s%s  @%s\n", strings.Repeat("  ", len(stack)), st.call.str(8), e.where(st.instr))
		if strings.Contains(mode, "f") {
			for _, f := range s.facts() {
				if f.Kind == 'T' || f.Kind == 'F' {
					fmt.Printf("%s      | %s\n", strings.Repeat("  ", len(stack)), f)
				}
			}
		}
	})
}
