package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	dump := flag.String("dump", "", "debug: dump outcomes of a function")
	opq := flag.String("opaque", "", "debug: opaque functions (comma separated) or 'codec'")
	check := flag.String("check", "", "property to check (comma separated, or 'all')")
	out := flag.String("out", "", "directory for evidence files")
	known := flag.String("known", "", "known-findings file")
	man := flag.Bool("manifest", false, "print MANIFEST.json")
	canon := flag.Bool("canon", false, "print the tables of usual names")
	flag.Parse()
	if *canon {
		p, err := load(*repo, nil)
		if err != nil {
			fmt.Println("ERROR:", err)
			os.Exit(2)
		}
		fmt.Print(canonTable(p.pkg.Types))
		return
	}
	if *man {
		manifest()
		return
	}
	if *dump != "" {
		debugDump(*repo, *dump, *opq)
		return
	}
	os.Exit(runChecks(*repo, *check, *out, *known))
}

type checkDef struct {
	run       func(*Ctx)
	technique string
	rule      string         // the rule applied, for the evidence
	note      string         // what is not covered
	min       map[string]int // counts that must be reached (non-vacuity)
	assume    []string
}

// manifest prints the MANIFEST.json entries of all checks.
func manifest() {
	type entry struct {
		Property  string `json:"property"`
		Quick     string `json:"quick_cmd"`
		Technique string `json:"technique"`
		Level     string `json:"level"`
		Note      string `json:"level_note"`
	}
	var l []entry
	for _, id := range sortedKeys(checks) {
		d := checks[id]
		l = append(l, entry{id, "bash check.sh " + id, d.technique, "other",
			"Structural decision over all paths of the type-checked program, no execution. " + d.note})
	}
	m := map[string]any{
		"version":        1,
		"setup_cmd":      "bash setup.sh",
		"checks":         l,
		"not_applicable": []any{},
		"notes":          "One analyzer (analyzer/, Go, vendored) decides all properties; see DESIGN.md. Defects found and fixed are in known-findings.txt.",
	}
	raw, _ := json.MarshalIndent(m, "", " ")
	fmt.Println(string(raw))
}

var checks = map[string]checkDef{}

func runChecks(repo, which, out, known string) int {
	t0 := time.Now()
	var ids []string
	if which == "all" {
		ids = sortedKeys(checks)
	} else {
		ids = strings.Split(which, ",")
	}
	p, err := Load(repo, nil)
	if err != nil {
		// the tree does not type-check: no property can be shown
		fmt.Println("ERROR:", err)
		return 2
	}
	kf := readKnown(known)
	code := 0
	for _, id := range ids {
		d, ok := checks[id]
		if !ok {
			fmt.Println("ERROR: no check for", id)
			return 2
		}
		c := newCtx(p, id)
		c.thorough = os.Getenv("VERIF_TIER") == "thorough"
		stats.funcs, stats.blocks, stats.calls, stats.loops = 0, 0, 0, 0
		stats.inlined = map[string]bool{}
		c.guard("check "+id, func() { d.run(c) })
		c.count("obligations", c.total)
		c.count("functions", len(stats.inlined))
		c.count("call_sites", stats.calls)
		c.count("loops", stats.loops)
		for _, k := range sortedKeys(d.min) {
			if c.counts[k] < d.min[k] {
				c.violate("coverage", id+" "+k, "?", "only %d %s analysed, at least %d expected: the analysed constructs were not found", c.counts[k], k, d.min[k])
			}
		}
		if report(c, d, out, kf, time.Since(t0)) {
			code = 1
		}
		t0 = time.Now()
	}
	return code
}

// report prints violations and writes the evidence; true if there are any
// violations that are not known findings.
func report(c *Ctx, d checkDef, out string, known map[string]string, wall time.Duration) bool {
	sort.Slice(c.viol, func(i, j int) bool { return c.viol[i].Key+c.viol[i].Detail < c.viol[j].Key+c.viol[j].Detail })
	var fresh []Violation
	for _, v := range c.viol {
		if why, ok := known[c.id+" "+v.Key]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s (%s)\n", c.id, v.Key, why)
			continue
		}
		fresh = append(fresh, v)
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s, %d violation(s)\n", c.id, len(fresh))
	for _, v := range fresh {
		fmt.Fprintf(&sb, "%s: %s: %s\n", v.Pos, v.Key, v.Detail)
	}
	replay := "-"
	if out != "" {
		os.MkdirAll(out, 0o755)
		replay = filepath.Join(out, c.id+".violations.txt")
		if len(fresh) > 0 {
			os.WriteFile(replay, []byte(sb.String()), 0o644)
		} else {
			os.Remove(replay)
		}
		var viol []string
		for _, v := range fresh {
			viol = append(viol, v.Pos+": "+v.Key+": "+v.Detail)
		}
		cov := map[string]any{
			"explanation":        d.rule,
			"rule_instances":     c.rules,
			"functions_analysed": len(stats.inlined),
			"roots":              sortedKeys(c.funcs),
			"samples":            c.samples,
		}
		for k, n := range c.counts {
			if k != "functions" && n > 0 {
				cov[k] = n
			}
		}
		seed := 0
		fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		ev := map[string]any{
			"property": c.id, "tier": tier, "seed": seed, "level": "other",
			"coverage": cov, "wall_s": wall.Seconds(), "violations": len(viol),
		}
		if len(viol) > 0 {
			cov["violation_reports"] = viol
		}
		ev["assumptions"] = append([]string{
			"the Go compiler, type checker and golang.org/x/tools/go/ssa represent the source faithfully",
			"standard library, cryptobyte and circl functions behave as documented (models in models.go)",
			"distinct pointer terms do not alias",
		}, d.assume...)
		raw, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(out, c.id+".json"), append(raw, '\n'), 0o644)
	}
	if len(fresh) == 0 {
		fmt.Printf("%s: held, %d obligations, %d functions, %d paths, %d call sites, %.2fs\n", c.id, c.total, len(stats.inlined), c.counts["paths"], stats.calls, wall.Seconds())
		return false
	}
	fmt.Print(sb.String())
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.id, replay)
	return true
}

// readKnown reads the known findings: lines "known: property=ID <rule> | <construct> :: why".
func readKnown(file string) map[string]string {
	m := map[string]string{}
	raw, err := os.ReadFile(file)
	if err != nil {
		return m
	}
	for _, l := range strings.Split(string(raw), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property=")
		if !ok {
			continue
		}
		k, why, _ := strings.Cut(rest, " :: ")
		m[strings.TrimSpace(k)] = strings.TrimSpace(why)
	}
	return m
}

func debugDump(repo, name, opq string) {
	p, err := Load(repo, nil)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	fn := p.fn(name)
	if fn == nil {
		fmt.Println("no such function")
		for n := range p.fns {
			fmt.Println(n)
		}
		os.Exit(2)
	}
	e := newEngine(p)
	set := map[string]bool{}
	for _, n := range strings.Split(opq, ",") {
		set[n] = true
	}
	less := map[string]bool{}
	for n := range set {
		if strings.HasPrefix(n, "-") {
			less[n[1:]] = true
		}
	}
	grp := newCtx(p, "").groupOpaque(set, less)
	e.opaque = func(f *ssa.Function) bool {
		if set["group"] {
			return grp(f)
		}
		return set[fnName(f)] || set["codec"] && (isCodecMethod(f, "marshal") || isCodecMethod(f, "unmarshal"))
	}
	e.useVarintModels()
	t0 := time.Now()
	dagMode = os.Getenv("DAG") != ""
	args := SymArgs(fn)
	if v, err := strconv.Atoi(os.Getenv("ARG0")); err == nil {
		args[0] = mkInt(int64(v))
	}
	outs := e.Run(fn, newState(), args)
	for i, o := range outs {
		fmt.Printf("== outcome %d at %s\n", i, p.pos(o.pos))
		for _, r := range o.res {
			fmt.Println("   ret", r)
		}
		var l []string
		for k, v := range o.st.mem {
			l = append(l, fmt.Sprintf("   mem %v = %v", k, v))
		}
		for f, v := range o.st.facts {
			l = append(l, fmt.Sprintf("   fact %v %v", v, f))
		}
		sort.Strings(l)
		fmt.Println(strings.Join(l, "\n"))
	}
	fmt.Println(len(outs), "outcomes", time.Since(t0), "loops", len(e.loops), "calls", stats.calls)
	for _, l := range e.loops {
		fmt.Println("loop", l.id, p.pos(l.pos))
		for n, t := range l.lv {
			fmt.Println("    ", n, ":", t, "init", l.init[n], "next", l.next[n])
		}
		if os.Getenv("BACK") != "" {
			for k, b := range l.back {
				fmt.Println("     back", k, factList(b, 30))
			}
		}
	}
	for _, d := range dagDefs {
		fmt.Println(d)
	}
	for n, c := range notes {
		fmt.Println("note", n, c)
	}
}
