package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

type propDef struct {
	id        string
	technique string
	explain   string
	run       func(c *Check)
	assume    []string
}

var props []*propDef

func prop(id, technique, explain string, run func(c *Check), assume ...string) {
	props = append(props, &propDef{id, technique, explain, run, assume})
}

func findProp(id string) *propDef {
	for _, p := range props {
		if p.id == id {
			return p
		}
	}
	return nil
}

// known findings: "known: property=<id> rule=<rule> construct=<construct> | text"
type known struct{ prop, rule, construct, text string }

func readKnown(path string) []known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var out []known
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "known: ") {
			continue
		}
		parts := strings.SplitN(strings.TrimPrefix(line, "known: "), " | ", 4)
		if len(parts) != 4 {
			continue
		}
		out = append(out, known{strings.TrimPrefix(parts[0], "property="), strings.TrimPrefix(parts[1], "rule="),
			strings.TrimPrefix(parts[2], "construct="), parts[3]})
	}
	return out
}

func main() {
	debug.SetGCPercent(500)
	debug.SetMemoryLimit(12 << 30)
	go watchMemory(14 << 30)
	repo := flag.String("repo", "/repo", "repository")
	verif := flag.String("verif", "/verif", "framework directory")
	id := flag.String("prop", "", "properties, comma separated, or all")
	tier := flag.String("tier", "", "quick or thorough")
	verbose := flag.Bool("v", false, "print every obligation")
	noev := flag.Bool("n", false, "write no evidence")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if f := os.Getenv("CPUPROF"); f != "" {
		w, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(w)
			defer pprof.StopCPUProfile()
		}
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *list {
		for _, p := range props {
			note := p.explain
			if len(p.assume) > 0 {
				note += " Assumes: " + strings.Join(p.assume, "; ") + "."
			}
			note += " Trusted: go/packages, go/ssa, the value domain and library models of the checker, the reference semantics in checker/spec."
			fmt.Printf("%s\t%s\t%s\n", p.id, p.technique, note)
		}
		return
	}
	if *id == "probe" {
		l, err := load(*repo, "")
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, a := range flag.Args() {
			probe(l, a)
		}
		return
	}
	var ids []string
	if *id == "all" {
		for _, p := range props {
			ids = append(ids, p.id)
		}
	} else {
		ids = strings.Split(*id, ",")
	}
	start := time.Now()
	l, lerr := load(*repo, filepath.Join(*verif, "checker", "spec"))
	bad := 0
	for _, id := range ids {
		p := findProp(id)
		if p == nil {
			fmt.Printf("unknown property %s\n", id)
			bad++
			continue
		}
		if len(ids) > 1 {
			start = time.Now()
		}
		c := newCheck(l, id, *tier)
		if lerr != nil {
			c.open("load", "repository", *repo, lerr.Error())
		} else {
			limit := 420 * time.Second
			if *tier == "thorough" {
				limit = 780 * time.Second
			}
			tickLimit0 := tickLimit
			deadline = start.Add(limit)
			c.try("check", id, func() { p.run(c) })
			c.refill(p.run)
			c.again(p.run)
			deadline, late, tickLimit = time.Time{}, false, tickLimit0
			if len(c.obs) == 0 {
				c.fail("check", id, "", "no obligation was generated")
			}
		}
		if covered != nil {
			writeCover(l, id)
		}
		bad += report(c, p, *verif, *verbose, *noev, time.Since(start))
	}
	if bad > 0 {
		os.Exit(1)
	}
}

func report(c *Check, p *propDef, verif string, verbose, noev bool, wall time.Duration) int {
	kn := readKnown(filepath.Join(verif, "KNOWN_FINDINGS.txt"))
	var viol, disch, open []*Ob
	seenKnown := map[string]bool{}
	for _, o := range c.obs {
		if o.OK {
			disch = append(disch, o)
			continue
		}
		if o.Open {
			open = append(open, o)
			continue
		}
		k := false
		for _, f := range kn {
			if f.prop == c.ID && f.rule == o.Rule && f.construct == o.Construct {
				k = true
				if !seenKnown[f.text] {
					seenKnown[f.text] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, f.text)
				}
			}
		}
		if !k {
			viol = append(viol, o)
		}
	}
	if verbose {
		for _, o := range c.obs {
			s := "ok  "
			if o.Open {
				s = "OPEN"
			} else if !o.OK {
				s = "FAIL"
			}
			fmt.Printf("%s %s | %s | %s\n", s, o.Rule, o.Construct, o.Where)
		}
	}
	var fns []string
	for f := range c.fns {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	byRule := map[string]int{}
	for _, o := range c.obs {
		byRule[o.Rule]++
	}
	var samples []*Ob
	seen := map[string]int{}
	for _, o := range disch {
		if seen[o.Rule] < 2 && len(samples) < 12 {
			seen[o.Rule]++
			samples = append(samples, o)
		}
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	nf, ni := 0, 0
	if c.L != nil {
		nf, ni = c.L.nFuncs, c.L.nInstr
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": seed, "level": "other",
		"wall_s": wall.Seconds(), "violations": len(viol),
		"assumptions": append(append([]string{}, p.assume...), c.assume...),
		"coverage": map[string]interface{}{
			"explanation":            p.explain,
			"technique":              p.technique,
			"obligations":            len(c.obs),
			"discharged":             len(disch),
			"obligations_by_rule":    byRule,
			"rules":                  c.rules,
			"functions_analysed":     fns,
			"program_functions":      nf,
			"program_instructions":   ni,
			"measured":               c.facts,
			"samples":                samples,
			"undischarged":           viol,
			"undecided":              open,
			"known_findings_matched": len(seenKnown),
		},
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	evPath := filepath.Join(verif, "evidence", c.ID+".json")
	if !noev {
		os.MkdirAll(filepath.Dir(evPath), 0o755)
		if err := os.WriteFile(evPath, append(b, '\n'), 0o644); err != nil {
			fmt.Println(err)
		}
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d violated, %d undecided, %.1f s\n", c.ID, len(c.obs), len(disch), len(viol), len(open), wall.Seconds())
	for i, o := range open {
		if i < 8 {
			fmt.Printf("UNDECIDED %s | %s | %s\n  %s\n", o.Rule, o.Construct, o.Where, clip(o.Detail))
		}
	}
	if len(viol) == 0 {
		return 0
	}
	replay := filepath.Join(verif, "evidence", c.ID+".violation.txt")
	var sb strings.Builder
	for _, o := range viol {
		fmt.Fprintf(&sb, "rule %s\n  construct: %s\n  where: %s\n  %s\n", o.Rule, o.Construct, o.Where, o.Detail)
	}
	if !noev {
		os.WriteFile(replay, []byte(sb.String()), 0o644)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, replay)
	s := sb.String()
	if len(s) > 6000 {
		s = s[:6000] + "…\n"
	}
	fmt.Print(s)
	return 1
}

func probe(l *Loaded, name string) {
	defer func() {
		if r := recover(); r != nil {
			fmt.Println(name, "PANIC", r)
			if os.Getenv("TRACE") != "" {
				panic(r)
			}
		}
	}()
	for f := range l.repoFuncs() {
		if f.Name() != name {
			continue
		}
		in := newInterp(l)
		st := &State{g: nTrue, mem: newMem()}
		var args []Value
		for _, p := range f.Params {
			args = append(args, atomVal(mkSym(p.Name(), 0), p.Type()))
		}
		t0 := tickCount
		rs := in.Call(f, args, nil, st, "", nil)
		fmt.Println("==", f, "ticks", tickCount-t0, "notes", in.notes)
		for i, r := range rs {
			fmt.Println("  result", i, ":", show(r))
		}
		for _, e := range in.events {
			fmt.Println("  event", e.Name, guardStr(e.G))
			if e.Name == "stdout" {
				fmt.Println("     ", show(e.Args[0]))
			}
		}
		for _, lp := range in.loops {
			fmt.Println("  loop", lp.path, "closed", lp.closed, lp.count)
			for _, c := range lp.carried {
				fmt.Println("     ", c.name, "linear", c.linear, "head", show(c.head), "next", show(c.next))
			}
		}
	}
}

func show(v Value) string {
	if n, ok := v.(*Node); ok {
		return n.String()
	}
	return fmt.Sprintf("%T", v)
}
