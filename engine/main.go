package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"go/ast"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// overlayFor maps files that do not exist in repo to harness sources.
func overlayFor(repo, root, kind string, gen map[string][]byte) map[string][]byte {
	o := map[string][]byte{}
	add := func(src, dst string) {
		fs, _ := filepath.Glob(filepath.Join(src, "*.go"))
		for _, f := range fs {
			b, err := os.ReadFile(f)
			if err == nil {
				o[filepath.Join(dst, filepath.Base(f))] = b
			}
		}
	}
	add(filepath.Join(root, "harness", kind), filepath.Join(repo, "zz_vrt"))
	hs, _ := filepath.Glob(filepath.Join(root, "harness", "h", "*"))
	for _, h := range hs {
		add(h, filepath.Join(repo, filepath.Base(h)))
	}
	for k, b := range gen {
		o[filepath.Join(repo, k)] = b
	}
	return o
}

// Harness is one harness function and its configuration.
type Harness struct {
	Name   string // pkg.Func
	Fn     *ssa.Function
	Cfg    map[string]int64
	Replay string // strict: must be confirmed natively; try: attempted; none
	Doc    string
}

func (P *Prog) harnesses(prop, tier string) []*Harness {
	var out []*Harness
	for _, p := range P.initial {
		base := filepath.Base(p.PkgPath)
		if !strings.HasPrefix(base, "zz_h") {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Recv != nil {
					continue
				}
				n := fd.Name.Name
				if !(strings.HasPrefix(n, "H_"+prop+"_") || tier == "thorough" && strings.HasPrefix(n, "T_"+prop+"_")) {
					continue
				}
				h := &Harness{Name: base + "." + n, Fn: P.pkgs[p.PkgPath].Func(n), Cfg: map[string]int64{}, Replay: "strict"}
				var split []string
				if fd.Doc != nil {
					for _, cm := range fd.Doc.List {
						t := cm.Text
						if r := strings.TrimPrefix(t, "//vrt:split "); r != t {
							split = strings.Fields(r)
							continue
						}
						if r := strings.TrimPrefix(t, "//vrt:replay "); r != t {
							h.Replay = strings.TrimSpace(r)
							continue
						}
						for _, pre := range []string{"//vrt:all ", "//vrt:" + tier + " "} {
							if r := strings.TrimPrefix(t, pre); r != t {
								for _, kv := range strings.Fields(r) {
									if i := strings.IndexByte(kv, '='); i > 0 {
										v, _ := strconv.ParseInt(kv[i+1:], 10, 64)
										h.Cfg[kv[:i]] = v
									}
								}
							}
						}
						if !strings.HasPrefix(t, "//vrt:") {
							h.Doc += strings.TrimSpace(strings.TrimPrefix(t, "//")) + " "
						}
					}
				}
				out = append(out, splitBy(h, split)...)
			}
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// splitBy turns h, whose parameter k has n for value, into n harnesses with the values 0..n-1, for every k of ks.
func splitBy(h *Harness, ks []string) []*Harness {
	hs := []*Harness{h}
	for _, k := range ks {
		var out []*Harness
		for _, h := range hs {
			for i := int64(0); i < h.Cfg[k]; i++ {
				c := *h
				c.Cfg = map[string]int64{}
				for k, v := range h.Cfg {
					c.Cfg[k] = v
				}
				c.Cfg[k] = i
				c.Name = fmt.Sprintf("%s %s=%d", h.Name, k, i)
				out = append(out, &c)
			}
		}
		hs = out
	}
	return hs
}

func baseName(n string) string { return strings.SplitN(n, " ", 2)[0] }

type HResult struct {
	H       *Harness
	Stats   Stats
	Viols   []*Violation
	Finds   []*Violation
	Queries int
	Sat     int
	Unsat   int
	Unk     int
	Solver  time.Duration
	Wall    time.Duration
	XQ, XD  int
	Err     string
}

func (h *Harness) get(k string, def int64) int64 {
	if v, ok := h.Cfg[k]; ok {
		return v
	}
	return def
}

func runHarness(P *Prog, h *Harness, tier string, dbg bool, deadline time.Time) (r *HResult) {
	r = &HResult{H: h}
	t0 := time.Now()
	dl := t0.Add(time.Duration(h.get("time", 120)) * time.Second)
	if dl.After(deadline) {
		dl = deadline
	}
	ex := NewExec(P, Limits{MaxSteps: int(h.get("steps", 20000000)), MaxPaths: int(h.get("paths", 5000000)), Unwind: int(h.get("unwind", 40)),
		MaxConc: int(h.get("conc", 400)), MaxStates: int(h.get("states", 20000000)), Deadline: dl})
	for k, v := range h.Cfg {
		ex.cfg[k] = v
	}
	ex.debug = dbg
	if os.Getenv("VRT_QPROF") != "" {
		ex.qprof = map[string]int{}
		defer func() {
			var ks []string
			for k := range ex.qprof {
				ks = append(ks, k)
			}
			sort.Slice(ks, func(i, j int) bool { return ex.qprof[ks[i]] > ex.qprof[ks[j]] })
			for i := 0; i < len(ks) && i < 15; i++ {
				fmt.Println("QPROF", ex.qprof[ks[i]], ks[i])
			}
		}()
	}
	ex.scale = h.get("scale", 0)
	if tier == "thorough" && h.get("xcheck", 1) == 1 && !dbg {
		ex.xsol = NewSolver(ex.c, "cvc5", 10000)
	}
	defer func() {
		if e := recover(); e != nil {
			r.Err = fmt.Sprint(e)
			if dbg {
				panic(e)
			}
		}
		r.Stats, r.Viols, r.Finds = ex.stats, ex.viols, ex.finds
		r.Queries, r.Sat, r.Unsat, r.Unk, r.Solver = ex.sol.Queries, ex.sol.Sat, ex.sol.Unsat, ex.sol.Unk, ex.sol.Time
		r.XQ, r.XD = ex.xQueries, ex.xDisagree
		r.Wall = time.Since(t0)
		ex.Close()
	}()
	ex.Run(h.Fn)
	return
}

// runAll decides every harness. Message harnesses first run with short strings and byte arrays, so that code whose
// behaviour depends on their contents is decided before the full lengths are tried; a violation ends it there.
func runAll(P *Prog, hs []*Harness, tier string, workers int, deadline time.Time) []*HResult {
	var short []*Harness
	for _, h := range hs {
		if h.get("short", 0) == 1 || strings.HasPrefix(h.Name, "zz_hmsg.H_C0") && !strings.HasPrefix(h.Name, "zz_hmsg.H_C07") && !strings.HasPrefix(h.Name, "zz_hmsg.H_C09") && h.Cfg["long"] == 0 && h.Cfg["par"] == 0 {
			c := *h
			c.Cfg = map[string]int64{}
			for k, v := range h.Cfg {
				c.Cfg[k] = v
			}
			c.Cfg["strmax"] = 3
			c.Cfg["time"] = 60
			c.Name += " (short)"
			short = append(short, &c)
		}
	}
	if len(short) == 0 {
		return runSet(P, hs, tier, workers, deadline)
	}
	r1 := runSet(P, short, tier, workers, deadline)
	for _, r := range r1 {
		if len(r.Viols) > 0 {
			return r1
		}
	}
	return append(r1, runSet(P, hs, tier, workers, deadline)...)
}

func runSet(P *Prog, hs []*Harness, tier string, workers int, deadline time.Time) []*HResult {
	res := make([]*HResult, len(hs))
	ord := make([]int, len(hs))
	for i := range ord {
		ord[i] = i
	}
	// long ones first
	sort.SliceStable(ord, func(a, b int) bool { return hs[ord[a]].get("weight", 0) > hs[ord[b]].get("weight", 0) })
	ch := make(chan int)
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				res[i] = runHarness(P, hs[i], tier, false, deadline)
			}
		}()
	}
	for _, i := range ord {
		ch <- i
	}
	close(ch)
	wg.Wait()
	return res
}

func main() {
	hname := flag.String("h", "", "debug: harness pkg.Func")
	dbg := flag.Bool("debug", false, "")
	repo := flag.String("repo", "/repo", "")
	root := flag.String("root", "/verif", "")
	tmo := flag.Int("t", 0, "seconds")
	prop := flag.String("prop", "", "property")
	tier := flag.String("tier", "quick", "")
	genOut := flag.String("gen", "", "write generated harness code to this directory")
	workers := flag.Int("j", runtime.NumCPU(), "")
	flag.Parse()
	debug.SetGCPercent(200)
	gen, gerr := generate(*repo, *root)
	if gerr != nil {
		fmt.Println("generate:", gerr)
		os.Exit(2)
	}
	if *genOut != "" {
		for k, b := range gen {
			p := filepath.Join(*genOut, k)
			os.MkdirAll(filepath.Dir(p), 0755)
			os.WriteFile(p, b, 0644)
		}
		return
	}
	if *prop != "" {
		os.Exit(check(*repo, *root, *prop, *tier, gen, *workers))
	}
	t0 := time.Now()
	P, err := load(*repo, overlayFor(*repo, *root, "sym", gen))
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t0))
	parts := strings.SplitN(*hname, ".", 2)
	pre := strings.SplitN(parts[1], "_", 3)
	var h *Harness
	for _, x := range P.harnesses(pre[1], "thorough") {
		if x.Name == *hname {
			h = x
		}
	}
	if *tier == "quick" {
		for _, x := range P.harnesses(pre[1], "quick") {
			if x.Name == *hname {
				h = x
			}
		}
	}
	if h == nil {
		fmt.Println("no harness", *hname)
		os.Exit(2)
	}
	if *tmo > 0 {
		h.Cfg["time"] = int64(*tmo)
	}
	r := runHarness(P, h, *tier, *dbg, time.Now().Add(24*time.Hour))
	fmt.Printf("time %v  solver %v queries %d (sat %d unsat %d unk %d) err %q\n", r.Wall, r.Solver, r.Queries, r.Sat, r.Unsat, r.Unk, r.Err)
	b, _ := json.MarshalIndent(r.Stats, "", " ")
	fmt.Println(string(b))
	for _, v := range append(r.Viols, r.Finds...) {
		if len(v.Sched) > 60 {
			v.Sched = v.Sched[len(v.Sched)-60:]
		}
		b, _ := json.Marshal(v)
		fmt.Println("VIOLATION", string(b))
	}
}
