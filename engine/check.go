package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"time"
)

type known struct{ prop, key, text string }

// loadKnown reads known-findings.txt: lines "KNOWN property=<id> key=<key> <description>".
func loadKnown(root string) []known {
	b, _ := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	var out []known
	re := regexp.MustCompile(`^KNOWN property=(\S+) key=(\S+) (.*)$`)
	for _, l := range strings.Split(string(b), "\n") {
		if m := re.FindStringSubmatch(strings.TrimSpace(l)); m != nil {
			out = append(out, known{m[1], m[2], m[3]})
		}
	}
	return out
}

type replayFile struct {
	Harness string           `json:"harness"`
	Params  map[string]int64 `json:"params"`
	Vals    []ReplayVal      `json:"vals"`
	Prop    string           `json:"property"`
	Kind    string           `json:"kind"`
	Msg     string           `json:"message"`
	Where   []string         `json:"where"`
	Sched   []SchedEv        `json:"schedule,omitempty"`
	Native  string           `json:"native_replay"`
	How     string           `json:"how_to_replay"`
}

// buildReplay builds the native replay binary from the current tree plus the harness overlay.
func buildReplay(repo, root string, gen map[string][]byte, names []string) (string, func(), error) {
	dir, err := os.MkdirTemp("", "vrt-replay")
	if err != nil {
		return "", nil, err
	}
	clean := func() { os.RemoveAll(dir) }
	ov := overlayFor(repo, root, "native", gen)
	rep := map[string]string{}
	i := 0
	put := func(k string, b []byte) {
		i++
		f := filepath.Join(dir, fmt.Sprintf("f%d_%s", i, filepath.Base(k)))
		os.WriteFile(f, b, 0644)
		rep[k] = f
	}
	for k, b := range ov {
		put(k, b)
	}
	var sb strings.Builder
	pk := map[string]bool{}
	for _, n := range names {
		pk[strings.SplitN(n, ".", 2)[0]] = true
	}
	sb.WriteString("package main\n\nimport (\n\t\"os\"\n\n\tv \"" + vrtPath + "\"\n")
	var ps []string
	for p := range pk {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		sb.WriteString("\t\"" + modPath + "/" + p + "\"\n")
	}
	sb.WriteString(")\n\nfunc main() {\n\tv.Main(os.Args[1], func(n string) func() {\n\t\tswitch n {\n")
	for _, n := range names {
		sb.WriteString(fmt.Sprintf("\t\tcase %q:\n\t\t\treturn %s\n", n, n))
	}
	sb.WriteString("\t\t}\n\t\treturn nil\n\t})\n}\n")
	put(filepath.Join(repo, "zz_replay", "main.go"), []byte(sb.String()))
	oj := filepath.Join(dir, "overlay.json")
	b, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	os.WriteFile(oj, b, 0644)
	bin := filepath.Join(dir, "replay")
	cmd := exec.Command("go", "build", "-overlay", oj, "-o", bin, "./zz_replay")
	cmd.Dir = repo
	cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")
	out, err := cmd.CombinedOutput()
	if err != nil {
		clean()
		return "", nil, fmt.Errorf("replay build: %v\n%s", err, out)
	}
	return bin, clean, nil
}

// confirm replays natively; returns whether a violation showed and what was seen.
func confirm(bin, file string, kind, mode string) (bool, string) {
	tries := 4
	if mode == "try" {
		tries = 3
	}
	// what depends on the processor a goroutine runs on, as a sync.Pool does, shows with one of them
	one := func(i int) bool { return i%2 == 1 }
	if mode == "stress" {
		tries = 12
	}
	last := ""
	for i := 0; i < tries; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), 30*time.Second)
		cmd := exec.CommandContext(ctx, "bash", "-c", `ulimit -v 16000000; exec "$0" "$1"`, bin, file)
		if mode == "stress" {
			cmd.Env = append(os.Environ(), "VRT_TIMEOUT=3s")
		}
		if one(i) {
			if cmd.Env == nil {
				cmd.Env = os.Environ()
			}
			cmd.Env = append(cmd.Env, "GOMAXPROCS=1")
		}
		out, err := cmd.CombinedOutput()
		cancel()
		code := 0
		if err != nil {
			code = -1
			if ee, ok := err.(*exec.ExitError); ok {
				code = ee.ExitCode()
			}
		}
		o := string(out)
		if len(o) > 3000 {
			o = o[:1500] + "\n...\n" + o[len(o)-1500:]
		}
		last = fmt.Sprintf("exit %d: %s", code, strings.TrimSpace(o))
		switch {
		case code == 3 || code == 4:
			return true, last
		case code == 2 && (strings.Contains(o, "panic:") || strings.Contains(o, "fatal error:")):
			return true, last
		case code == 6:
			return false, last
		}
	}
	return false, last
}

func check(repo, root, prop, tier string, gen map[string][]byte, workers int) int {
	t0 := time.Now()
	budget := 780 * time.Second
	if tier == "thorough" {
		budget = 4 * time.Hour
	}
	deadline := t0.Add(budget)
	P, err := load(repo, overlayFor(repo, root, "sym", gen))
	if err != nil {
		fmt.Println(err)
		fmt.Println("the tree or the harness does not compile")
		return 2
	}
	tLoad := time.Since(t0)
	hs := P.harnesses(prop, tier)
	if len(hs) == 0 {
		fmt.Println("no harness for", prop)
		return 2
	}
	res := runAll(P, hs, tier, workers, deadline)
	kn := loadKnown(root)

	// findings: known or not
	knownHit := map[string]string{}
	type vio struct {
		r *HResult
		v *Violation
	}
	var cand []vio
	for _, r := range res {
		for _, v := range r.Finds {
			hit := false
			for _, k := range kn {
				if k.prop == prop && k.key == v.Key {
					knownHit[k.key] = k.text
					hit = true
				}
			}
			if !hit {
				cand = append(cand, vio{r, v})
			}
		}
		for _, v := range r.Viols {
			cand = append(cand, vio{r, v})
		}
	}
	sort.SliceStable(cand, func(i, j int) bool { return cand[i].v.Key == "" && cand[j].v.Key != "" })
	var notes []string
	var bin string
	if len(cand) > 0 {
		var names []string
		dup := map[string]bool{}
		for _, h := range hs {
			if n := baseName(h.Name); !dup[n] {
				dup[n] = true
				names = append(names, n)
			}
		}
		b, clean, err := buildReplay(repo, root, gen, names)
		if err != nil {
			notes = append(notes, err.Error())
			fmt.Println(err)
		} else {
			bin = b
			defer clean()
		}
	}
	rdir := filepath.Join(root, "build", "replay", prop)
	os.RemoveAll(rdir)
	os.MkdirAll(rdir, 0755)
	nviol := 0
	validated := 0
	inlined := 0
	for i, c := range cand {
		if i >= 12 {
			notes = append(notes, fmt.Sprintf("%d further counterexamples not replayed", len(cand)-i))
			break
		}
		f := filepath.Join(rdir, fmt.Sprintf("%s-%d.json", strings.Replace(baseName(c.r.H.Name), ".", "-", 1), i))
		rf := replayFile{Harness: baseName(c.r.H.Name), Params: c.r.H.Cfg, Vals: c.v.Vals, Prop: prop, Kind: c.v.Kind, Msg: c.v.Msg, Where: c.v.Where, Sched: c.v.Sched,
			How: "bash /verif/run.sh " + prop + " " + tier + " rebuilds the native replay binary from /repo and runs this file"}
		write := func() {
			b, _ := json.MarshalIndent(rf, "", " ")
			os.WriteFile(f, b, 0644)
		}
		write()
		ok := false
		if bin != "" && c.r.H.Replay != "none" {
			var what string
			ok, what = confirm(bin, f, c.v.Kind, c.r.H.Replay)
			rf.Native = what
			validated++
		} else {
			rf.Native = "not attempted"
		}
		write()
		if !ok && bin != "" && c.r.H.Cfg["contract"] == 1 && inlined < 3 {
			// found with nested structures abstracted: look for a concrete input with them in place
			inlined++
			h2 := *c.r.H
			h2.Cfg = map[string]int64{}
			for k, v := range c.r.H.Cfg {
				h2.Cfg[k] = v
			}
			h2.Cfg["inline"], h2.Cfg["time"] = 1, 60
			r2 := runHarness(P, &h2, tier, false, time.Now().Add(60*time.Second))
			for _, v2 := range r2.Viols {
				rf.Vals, rf.Kind, rf.Msg, rf.Where = v2.Vals, v2.Kind, v2.Msg, v2.Where
				write()
				var what string
				if ok, what = confirm(bin, f, v2.Kind, "strict"); ok {
					rf.Native = what
					write()
					break
				}
			}
		}
		if ok || c.r.H.Replay != "strict" && !c.v.Strict {
			nviol++
			how := "confirmed by native replay"
			if !ok {
				how = "found by the solver and scheduler; native replay is timing dependent and did not show it"
			}
			fmt.Printf("%s: %s at %s [%s] (%s)\n", c.v.Kind, c.v.Msg, c.v.Pos, c.r.H.Name, how)
			fmt.Printf("VIOLATION property=%s replay=%s\n", prop, f)
		} else {
			n := fmt.Sprintf("UNCONFIRMED %s %s in %s: native replay did not show it (%s)", c.v.Kind, c.v.Msg, c.r.H.Name, strings.SplitN(rf.Native, "\n", 2)[0])
			notes = append(notes, n)
			fmt.Println(n)
		}
	}
	var kk []string
	for k := range knownHit {
		kk = append(kk, k)
	}
	sort.Strings(kk)
	for _, k := range kk {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", prop, k, knownHit[k])
	}

	// summary and evidence
	var paths, completed, assumed, aborted, states, asserts, assertQ, q, sat, unsat, unk, xq, xd, pruned, cut int
	var steps int64
	var st time.Duration
	fns := map[string]int{}
	reasons := map[string]int{}
	var samples []interface{}
	var hn []interface{}
	var vacuous []string
	for _, r := range res {
		s := r.Stats
		paths += s.Paths
		completed += s.Completed
		assumed += s.Assumed
		aborted += s.Aborted
		states += s.States
		pruned += s.Pruned
		asserts += s.Asserts
		assertQ += s.AssertQ
		steps += s.Steps
		cut += s.PreemptCut
		q += r.Queries
		sat += r.Sat
		unsat += r.Unsat
		unk += r.Unk
		xq += r.XQ
		xd += r.XD
		st += r.Solver
		for k, v := range s.Fns {
			if !strings.Contains(k, "zz_") {
				fns[k] += v
			}
		}
		for k, v := range s.Reasons {
			if i := strings.Index(k, " at "); i > 0 && strings.HasPrefix(k, "bound: unwinding") {
				k = k[:i]
			}
			reasons[k] += v
		}
		if r.Err != "" {
			reasons["engine error: "+r.Err+" in "+r.H.Name]++
			aborted++
		}
		if s.Reached["end"] == 0 && len(r.Viols) == 0 && !strings.HasSuffix(r.H.Name, " (short)") {
			vacuous = append(vacuous, r.H.Name)
		}
		e := map[string]interface{}{"harness": r.H.Name, "what": strings.TrimSpace(r.H.Doc), "bounds": r.H.Cfg, "paths": s.Paths, "completed": s.Completed, "reached_end": s.Reached["end"],
			"asserts": s.Asserts, "queries": r.Queries, "solver_s": r.Solver.Seconds(), "wall_s": r.Wall.Seconds()}
		if s.States > 0 {
			e["states"] = s.States
			e["race_flagged"] = s.Flagged
		}
		if s.Aborted > 0 {
			e["cut"] = s.Aborted
		}
		hn = append(hn, e)
		if len(samples) < 3 && s.Sample != nil {
			samples = append(samples, map[string]interface{}{"harness": r.H.Name, "witness_of_a_completed_path": s.Sample})
		}
	}
	if len(vacuous) > 0 {
		notes = append(notes, "no completed path in: "+strings.Join(vacuous, ", "))
		fmt.Println("INCONCLUSIVE (no completed path):", strings.Join(vacuous, ", "))
	}
	var fl []string
	for k := range fns {
		fl = append(fl, k)
	}
	sort.Strings(fl)
	nst := states
	if nst == 0 {
		nst = paths
	}
	cov := map[string]interface{}{
		"states":                        nst,
		"transitions":                   steps,
		"traces_validated_against_impl": validated,
		"samples":                       samples,
		"explanation":                   "Symbolic execution of the SSA of /repo's current source; every branch and assertion is decided by z3 for all values within the bounds. states: interleaving states for concurrent harnesses, otherwise symbolic paths; transitions: SSA instructions executed symbolically.",
		"functions_encoded":             len(fl),
		"functions":                     fl,
		"harnesses":                     len(res),
		"paths":                         paths,
		"paths_completed":               completed,
		"paths_pruned_as_seen":          pruned,
		"paths_excluded_by_assumption":  assumed,
		"paths_cut_at_a_bound":          aborted,
		"cut_reasons":                   reasons,
		"schedules_cut_by_preemption":   cut,
		"assertions_checked":            asserts,
		"assertions_sent_to_solver":     assertQ,
		"queries":                       q,
		"queries_sat":                   sat,
		"queries_unsat":                 unsat,
		"queries_unknown":               unk,
		"solver_s":                      st.Seconds(),
		"solver":                        "z3 5.3.2 (z3-new)",
		"load_s":                        tLoad.Seconds(),
		"known_findings_hit":            kk,
		"notes":                         notes,
	}
	if xq > 0 {
		cov["cvc5_cross_checked"] = xq
		cov["cvc5_disagreements"] = xd
	}
	if hn != nil {
		if len(hn) > 80 { // the slowest
			sort.SliceStable(hn, func(i, j int) bool {
				return hn[i].(map[string]interface{})["wall_s"].(float64) > hn[j].(map[string]interface{})["wall_s"].(float64)
			})
			hn = hn[:80]
		}
		cov["per_harness"] = hn
	}
	seed := 1
	fmt.Sscan(os.Getenv("VERIF_SEED"), &seed)
	ev := map[string]interface{}{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "wall_s": time.Since(t0).Seconds(), "violations": nviol,
		"assumptions": assumptions(prop)}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(root, "evidence"), 0755)
	os.WriteFile(filepath.Join(root, "evidence", prop+".json"), append(b, '\n'), 0644)
	fmt.Printf("%s %s: %d harnesses, %d functions, %d paths (%d completed, %d cut), %d states, %d assertions, %d queries (%d unknown), solver %.1fs, wall %.1fs\n",
		prop, tier, len(res), len(fl), paths, completed, aborted, states, asserts, q, unk, st.Seconds(), time.Since(t0).Seconds())
	if len(reasons) > 0 {
		var rs []string
		for k, v := range reasons {
			rs = append(rs, fmt.Sprintf("%s x%d", k, v))
		}
		sort.Strings(rs)
		if len(rs) > 12 {
			rs = append(rs[:12], fmt.Sprintf("... %d more", len(rs)-12))
		}
		fmt.Println("cut:", strings.Join(rs, "\n     "))
	}
	if nviol > 0 {
		return 1
	}
	return 0
}

func assumptions(prop string) []string {
	a := []string{
		"the symbolic engine's semantics of Go SSA (integer, slice, map, channel and scheduling rules) match the compiler's; counterexamples are replayed natively",
		"standard library functions are executed from their own source except the modelled ones (fmt, log, strconv, errors.Is, sync, sync/atomic, net, crypto/tls)",
		"results hold within the stated bounds; paths beyond them are counted as cut",
	}
	return a
}
