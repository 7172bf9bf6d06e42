package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

var verbose = os.Getenv("GOSYM_V") != ""

func usage() {
	fmt.Fprintln(os.Stderr, "usage: gosym check -prop C01 [-tier quick|thorough] [-only Harness] | gosym replay FILE | gosym list")
	os.Exit(2)
}

func main() {
	if len(os.Args) < 2 {
		usage()
	}
	switch os.Args[1] {
	case "check":
		os.Exit(cmdCheck(os.Args[2:]))
	case "replay":
		os.Exit(cmdReplay(os.Args[2:]))
	case "list":
		os.Exit(cmdList(os.Args[2:]))
	}
	usage()
}

// harnessPkgs finds the harness packages that declare a check for prop (all of them when prop is empty).
func harnessPkgs(hdir, prop string) []string {
	set := map[string]bool{}
	filepath.Walk(hdir, func(p string, fi os.FileInfo, err error) error {
		if err != nil || fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		b, _ := os.ReadFile(p)
		for _, l := range strings.Split(string(b), "\n") {
			f := strings.Fields(l)
			if len(f) >= 2 && f[0] == "//gosym:check" && (prop == "" || f[1] == prop) {
				rel, _ := filepath.Rel(hdir, filepath.Dir(p))
				set[rel] = true
			}
		}
		return nil
	})
	var out []string
	for k := range set {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

type known struct {
	prop, harness, msg, text string
}

// readKnown reads the lines `known: property=C01 harness=H message="..." what fails`.
func readKnown(file string) []known {
	var out []known
	b, err := os.ReadFile(file)
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(l, "known: ") {
			continue
		}
		var k known
		rest := strings.TrimPrefix(l, "known: ")
		for _, key := range []string{"property=", "harness=", "message="} {
			rest = strings.TrimSpace(rest)
			if !strings.HasPrefix(rest, key) {
				break
			}
			rest = rest[len(key):]
			var v string
			if strings.HasPrefix(rest, "\"") {
				q, err := strconv.QuotedPrefix(rest)
				if err != nil {
					break
				}
				v, _ = strconv.Unquote(q)
				rest = rest[len(q):]
			} else {
				v, rest, _ = strings.Cut(rest, " ")
			}
			switch key {
			case "property=":
				k.prop = v
			case "harness=":
				k.harness = v
			case "message=":
				k.msg = v
			}
		}
		k.text = strings.TrimSpace(rest)
		if k.prop != "" && k.harness != "" && k.msg != "" {
			out = append(out, k)
		}
	}
	return out
}

func cmdCheck(args []string) int {
	fs := flag.NewFlagSet("check", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	prop := fs.String("prop", "", "")
	tier := fs.String("tier", "quick", "")
	only := fs.String("only", "", "")
	workers := fs.Int("j", runtime.NumCPU(), "")
	budget := fs.Duration("budget", 0, "")
	caseF := fs.String("case", "", "run only the job with these case choices (comma separated)")
	noev := fs.Bool("noevidence", false, "")
	keep := fs.Bool("all", false, "report every violation instead of stopping at the first confirmed one")
	fs.Parse(args)
	t0 := time.Now()
	seed := 1
	if s, err := strconv.Atoi(os.Getenv("VERIF_SEED")); err == nil {
		seed = s
	}
	if *budget == 0 {
		*budget = 600 * time.Second
		if *tier == "thorough" {
			*budget = 45 * time.Minute
		}
	}
	hdir := filepath.Join(*verif, "harness")
	pkgs := harnessPkgs(hdir, *prop)
	if len(pkgs) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", *prop)
		return 2
	}
	P, err := loadProgram(*repo, hdir, pkgs)
	if err != nil {
		fmt.Fprintln(os.Stderr, "gosym:", err)
		return 2
	}
	P.loadSecs = time.Since(t0).Seconds()
	var hs []*Harness
	for _, h := range P.harness {
		if (h.Prop == *prop || *prop == "") && (*only == "" || h.Name == *only) {
			if h.Opts["tier"] != "" && h.Opts["tier"] != *tier {
				continue
			}
			hs = append(hs, h)
		}
	}
	knowns := readKnown(filepath.Join(*verif, "known-findings.txt"))
	for _, k := range knowns {
		if k.prop == *prop || *prop == "" {
			violGrace = 0
		}
	}
	if *keep {
		violGrace = 0
	}
	defer killSolvers()
	rep := NewReplayer(P, hdir)
	defer rep.Close()

	confirmed := 0
	knownHit := map[string]bool{}
	tried := map[string]int{}
	var unconfirmed []string
	var violLines []string
	onViol := func(r *JobResult) bool {
		stop := false
		for _, v := range r.viol {
			key := r.job.H.Name + "|" + v.Kind + "|" + v.Msg
			if tried[key] >= 6 {
				continue
			}
			tried[key]++
			kn := ""
			for _, k := range knowns {
				if k.prop == r.job.H.Prop && k.harness == r.job.H.Name && k.msg == v.Msg {
					kn = k.text
				}
			}
			if kn != "" {
				if !knownHit[key] {
					knownHit[key] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.job.H.Prop, kn)
				}
				continue
			}
			rf := r.m.violReplay(v)
			tries := 1
			if r.job.H.Opts["maporder"] != "" {
				tries = 200
			}
			outc, detail, err := rep.Run(rf, tries)
			if err != nil {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s (%s): replay failed: %v", r.job, v.Msg, v.Kind, err))
				continue
			}
			if !reproduced(outc) {
				unconfirmed = append(unconfirmed, fmt.Sprintf("%s: %s (%s): native replay gave %q %s inputs=%s", r.job, v.Msg, v.Kind, outc, firstLine(detail), inputsText(rf)))
				if os.Getenv("GOSYM_KEEP") != "" {
					b, _ := json.MarshalIndent(rf, "", " ")
					os.WriteFile(fmt.Sprintf("/tmp/unconf-%d.json", len(unconfirmed)), b, 0o644)
				}
				continue
			}
			tried[key] = 6
			confirmed++
			dir := filepath.Join(*verif, "evidence", "replay")
			os.MkdirAll(dir, 0o755)
			path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", r.job.H.Prop, r.job.H.Name, confirmed))
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(path, b, 0o644)
			l := fmt.Sprintf("VIOLATION property=%s replay=%s", r.job.H.Prop, path)
			violLines = append(violLines, fmt.Sprintf("%s harness=%s %s: %s; native: %s %s; inputs %s", l, r.job.H.Name, v.Kind, v.Msg, outc, firstLine(detail), inputsText(rf)))
			fmt.Println(l)
			fmt.Printf("  %s %s: %s\n  native replay: %s %s\n  inputs: %s\n", r.job.H.Name, v.Kind, v.Msg, outc, firstLine(detail), inputsText(rf))
			if !*keep {
				stop = true
				break
			}
		}
		return stop
	}
	if *caseF != "" {
		onlyCase = nil
		for _, x := range strings.Split(*caseF, ",") {
			n, _ := strconv.Atoi(x)
			onlyCase = append(onlyCase, n)
		}
	}
	cr := runJobs(P, hs, *tier, *workers, *budget, int64(seed), onViol)

	// native validation of path witnesses: the real code, run on solver-found inputs of explored paths, must agree
	rng := rand.New(rand.NewSource(int64(seed)))
	byH := map[string][]*ReplayFile{}
	for _, r := range cr.results {
		byH[r.job.H.Name] = append(byH[r.job.H.Name], r.witness...)
	}
	maxW := 10
	if *tier == "thorough" {
		maxW = 60
	}
	var pick []*ReplayFile
	for _, h := range hs {
		ws := byH[h.Name]
		rng.Shuffle(len(ws), func(i, j int) { ws[i], ws[j] = ws[j], ws[i] })
		if len(ws) > maxW {
			ws = ws[:maxW]
		}
		pick = append(pick, ws...)
	}
	validated, mismatched := 0, []string{}
	var samples []any
	if confirmed == 0 {
		type vr struct {
			o, d string
			err  error
		}
		out := make([]vr, len(pick))
		sem := make(chan struct{}, *workers)
		done := make(chan int)
		for i := range pick {
			go func(i int) {
				sem <- struct{}{}
				o, d, err := rep.Run(pick[i], 1)
				out[i] = vr{o, d, err}
				<-sem
				done <- i
			}(i)
		}
		for range pick {
			<-done
		}
		for i, v := range out {
			switch {
			case v.err != nil:
				mismatched = append(mismatched, fmt.Sprintf("%s: %v", pick[i].Harness, v.err))
			case v.o == "pass":
				validated++
			case reproduced(v.o) && v.o != "hang":
				// the real code violates the property on an input the symbolic run did not flag
				mismatched = append(mismatched, fmt.Sprintf("%s: native %s %s on a path the solver accepted; inputs %s", pick[i].Harness, v.o, firstLine(v.d), inputsText(pick[i])))
				if os.Getenv("GOSYM_KEEP") != "" {
					b, _ := json.MarshalIndent(pick[i], "", " ")
					os.WriteFile(fmt.Sprintf("/tmp/mism-%d.json", i), b, 0o644)
				}
			default:
				mismatched = append(mismatched, fmt.Sprintf("%s: native %s %s; inputs %s", pick[i].Harness, v.o, firstLine(v.d), inputsText(pick[i])))
				if os.Getenv("GOSYM_KEEP") != "" {
					b, _ := json.MarshalIndent(pick[i], "", " ")
					os.WriteFile(fmt.Sprintf("/tmp/mism-%d.json", i), b, 0o644)
				}
			}
			if len(samples) < 12 {
				samples = append(samples, fmt.Sprintf("%s %s -> native %s", pick[i].Harness, inputsText(pick[i]), v.o))
			}
		}
	}
	ev, ok := buildEvidence(P, *prop, *tier, seed, hs, cr, validated, mismatched, unconfirmed, samples, violLines, knownHit, time.Since(t0))
	if !*noev && *prop != "" {
		b, _ := json.MarshalIndent(ev, "", " ")
		os.MkdirAll(filepath.Join(*verif, "evidence"), 0o755)
		if err := os.WriteFile(filepath.Join(*verif, "evidence", *prop+".json"), append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}
	printSummary(ev)
	if confirmed > 0 {
		return 1
	}
	if !ok {
		fmt.Println("NO-ANSWER: some harness completed no path")
		return 2
	}
	return 0
}

var onlyCase []int

func firstLine(s string) string {
	s = strings.TrimSpace(s)
	l, _, _ := strings.Cut(s, "\n")
	return l
}

func inputsText(rf *ReplayFile) string {
	var sb strings.Builder
	for i, in := range rf.Inputs {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i > 60 {
			sb.WriteString("...")
			break
		}
		v := in.V
		if in.Kind == "int" {
			u, _ := strconv.ParseUint(v, 10, 64)
			v = strconv.FormatInt(int64(u), 10)
		}
		fmt.Fprintf(&sb, "%s=%s", in.Name, v)
	}
	if len(rf.Sched) > 0 {
		fmt.Fprintf(&sb, " sched=%v", rf.Sched)
	}
	return sb.String()
}

func (m *Machine) violReplay(v *Violation) *ReplayFile {
	rf := m.replayFile(v.Inputs, v.Model, v.Kind, v.Msg)
	for _, s := range v.Sched {
		rf.Sched = append(rf.Sched, [2]int{s.Tid, s.Count})
	}
	rf.Points = v.Points
	return rf
}

func buildEvidence(P *Program, prop, tier string, seed int, hs []*Harness, cr *CheckResult, validated int, mism, unconf []string, samples []any, viol []string, knownHit map[string]bool, wall time.Duration) (map[string]any, bool) {
	type _ struct {
		Name, Mode, Asserts            string
		Bounds                         map[string]int
		Jobs, Paths, Steps, Obl, Merge int
	}
	rows := map[string]map[string]any{}
	order := []string{}
	tot := Stats{Funcs: map[string]int{}, Cover: map[string]int{}}
	var queries, nsat, nunsat, nunk, obligs, proved, states int
	var solT, maxQ time.Duration
	var inc []string
	ok := true
	errJobs := map[string][]string{}
	done := map[string]bool{}
	for _, h := range hs {
		bounds := map[string]int{}
		for k, v := range h.Params["quick"] {
			bounds[k] = v
		}
		if tier == "thorough" {
			for k, v := range h.Params["thorough"] {
				bounds[k] = v
			}
		}
		mode := "path-forking symbolic execution, one solver query per branch and assertion"
		if h.Mode == "M" {
			mode = "state-merging bounded model checking, schedules symbolic (rounds of lazy sequentialization)"
		}
		rows[h.Name] = map[string]any{"harness": h.Name, "assertion": h.Doc, "mode": mode, "bounds": bounds, "jobs": 0, "paths": 0, "steps": 0, "assertions_checked": 0}
		order = append(order, h.Name)
	}
	add := func(r map[string]any, k string, n int) { r[k] = r[k].(int) + n }
	for _, r := range cr.results {
		queries += r.queries
		nsat += r.nsat
		nunsat += r.nunsat
		nunk += r.nunk
		solT += r.solTime
		maxQ = max(maxQ, r.maxQ)
		obligs += r.obligs
		proved += r.proved
		row := rows[r.job.H.Name]
		if r.err != "" {
			errJobs[r.err] = append(errJobs[r.err], r.job.String())
		}
		inc = append(inc, r.incompl...)
		if r.split != 0 {
			continue
		}
		if r.err == "" && r.stats.Paths > 0 {
			done[r.job.H.Name] = true
		}
		add(row, "jobs", 1)
		add(row, "paths", r.stats.Paths)
		add(row, "steps", r.stats.Steps)
		add(row, "assertions_checked", r.stats.Asserts)
		states += r.stats.Paths
		tot.Paths += r.stats.Paths
		tot.Steps += r.stats.Steps
		tot.Forks += r.stats.Forks
		tot.Asserts += r.stats.Asserts
		tot.Merges += r.stats.Merges
		tot.Configs += r.stats.Configs
		tot.VisOps += r.stats.VisOps
		for f, n := range r.stats.Funcs {
			tot.Funcs[f] += n
		}
		for f, n := range r.stats.Cover {
			tot.Cover[f] += n
		}
	}
	for e, js := range errJobs {
		sort.Strings(js)
		inc = append(inc, fmt.Sprintf("%s (and %d more jobs): %s", js[0], len(js)-1, e))
	}
	for _, h := range hs {
		if !done[h.Name] {
			ok = false
			inc = append(inc, h.Name+": no path completed")
		}
	}
	var vac []string
	for _, h := range hs {
		for _, c := range h.coverNames() {
			if tot.Cover[h.Name+":"+c] == 0 {
				vac = append(vac, h.Name+": cover point "+strconv.Quote(c)+" not reached")
			}
		}
	}
	if len(viol) == 0 {
		inc = append(inc, vac...)
	}
	var funcs, libs []string
	for f := range tot.Funcs {
		if strings.HasPrefix(f, "zzv:") {
			continue
		}
		if strings.Contains(f, modPath) && !strings.Contains(f, "/zzverif/") {
			funcs = append(funcs, strings.ReplaceAll(f, modPath+"/", ""))
		} else if !strings.Contains(f, "/zzverif/") {
			libs = append(libs, f)
		}
	}
	sort.Strings(funcs)
	sort.Strings(libs)
	var hrows []any
	for _, n := range order {
		hrows = append(hrows, rows[n])
	}
	sort.Strings(inc)
	inc = uniq(inc)
	if len(inc) > 40 {
		inc = append(inc[:40], "...")
	}
	cov := map[string]any{
		"states":                        tot.Paths + tot.Configs,
		"transitions":                   tot.Steps,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"explanation":                   "states = symbolic paths (fork mode) or merged control configurations (merge mode), each standing for every input/schedule satisfying its path condition; transitions = SSA instructions executed symbolically; every assertion is discharged by the SMT solver (verdict unsat for its negation) for all values within the bounds.",
		"harnesses":                     hrows,
		"functions_encoded":             funcs,
		"library_functions_encoded":     libs,
		"queries":                       queries,
		"queries_sat":                   nsat,
		"queries_unsat":                 nunsat,
		"queries_unknown":               nunk,
		"solver_time_s":                 round3(solT.Seconds()),
		"max_query_s":                   round3(maxQ.Seconds()),
		"solver":                        solverVersion(),
		"forks":                         tot.Forks,
		"merges":                        tot.Merges,
		"visible_ops_scheduled":         tot.VisOps,
		"assertion_instances":           tot.Asserts,
		"merged_obligations":            obligs,
		"merged_obligations_discharged": proved,
		"cover_points":                  tot.Cover,
		"exhaustive":                    len(inc) == 0 && len(unconf) == 0 && len(viol) == 0,
		"inconclusive":                  inc,
		"unconfirmed_counterexamples":   unconf,
		"native_mismatches":             mism,
		"load_s":                        round3(P.loadSecs),
		"cpu_load":                      fmt.Sprintf("%d jobs", cr.jobs),
	}
	if len(viol) > 0 {
		cov["violations"] = viol
	}
	if samples == nil {
		cov["samples"] = []any{"no native validation in this run (violation reported first)"}
	}
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": round3(wall.Seconds()), "violations": len(viol),
		"assumptions": []string{
			"bounds per harness as listed; values, schedules and sizes beyond them are outside the claim",
			"Go semantics as encoded by /verif/gosym from go/ssa; sampled solver models are replayed natively against the real code to validate the encoding",
			"concurrent harnesses: sequentially consistent interleavings of the visible operations and of every conflicting plain access found; that the code has no data races, so that nothing else can be observed, is C30",
		},
	}
	return ev, ok
}

func uniq(s []string) []string {
	var out []string
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			out = append(out, x)
		}
	}
	return out
}

func round3(f float64) float64 { return float64(int(f*1000+0.5)) / 1000 }

func printSummary(ev map[string]any) {
	c := ev["coverage"].(map[string]any)
	fmt.Printf("property %v tier %v: states=%v transitions=%v queries=%v (unknown %v) solver=%vs validated=%v wall=%vs\n", ev["property"], ev["tier"], c["states"], c["transitions"], c["queries"], c["queries_unknown"], c["solver_time_s"], c["traces_validated_against_impl"], ev["wall_s"])
	for _, h := range c["harnesses"].([]any) {
		r := h.(map[string]any)
		fmt.Printf("  %-28v jobs=%v paths=%v steps=%v asserts=%v bounds=%v\n", r["harness"], r["jobs"], r["paths"], r["steps"], r["assertions_checked"], r["bounds"])
	}
	for _, k := range []string{"inconclusive", "unconfirmed_counterexamples", "native_mismatches"} {
		if l, ok := c[k].([]string); ok {
			for i, s := range l {
				if i >= 5 && !verbose {
					fmt.Printf("  ... %d more %s\n", len(l)-i, k)
					break
				}
				if len(s) > 500 && !verbose {
					s = s[:500]
				}
				fmt.Printf("  %s: %s\n", strings.ToUpper(k), s)
			}
		}
	}
}

func cmdReplay(args []string) int {
	fs := flag.NewFlagSet("replay", flag.ExitOnError)
	repo := fs.String("repo", "/repo", "")
	verif := fs.String("verif", "/verif", "")
	tries := fs.Int("tries", 1, "")
	fs.Parse(args)
	b, err := os.ReadFile(fs.Arg(0))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rf := &ReplayFile{}
	if err := json.Unmarshal(b, rf); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	hdir := filepath.Join(*verif, "harness")
	P, err := loadProgram(*repo, hdir, []string{rf.Pkg})
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	rep := NewReplayer(P, hdir)
	defer rep.Close()
	o, d, err := rep.Run(rf, *tries)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Println(o)
	fmt.Println(d)
	if reproduced(o) {
		return 1
	}
	return 0
}

func cmdList(args []string) int {
	hdir := "/verif/harness"
	P, err := loadProgram("/repo", hdir, harnessPkgs(hdir, ""))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	sort.SliceStable(P.harness, func(i, j int) bool { return P.harness[i].Prop < P.harness[j].Prop })
	for _, h := range P.harness {
		fmt.Printf("%s %-26s %s %v %s\n", h.Prop, h.Name, h.Mode, h.Params, h.Doc)
	}
	return 0
}

func jobSeed(seed int64, j *Job) int64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d %s", seed, j)
	return int64(h.Sum64() >> 1)
}
