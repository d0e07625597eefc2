package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// Prog is the loaded program (shared by all workers).
type Prog struct {
	prog    *ssa.Program
	fset    *token.FileSet
	pkgs    map[string]*ssa.Package
	vrt     *ssa.Package
	replace map[string]*ssa.Function // function name -> model function
	mu      sync.Mutex
	infos   map[*ssa.Function]*FnInfo
	initial []*packages.Package
	pure    map[string]bool
	kmu     sync.Mutex
	keys    map[string]int
	knames  []string
	tids    typeutil.Map
	ntids   int
	stopAt  int64 // when to stop exploring, once a violation has been found
}

func (p *Prog) keyID(s string) int {
	p.kmu.Lock()
	defer p.kmu.Unlock()
	if i, ok := p.keys[s]; ok {
		return i
	}
	p.knames = append(p.knames, s)
	p.keys[s] = len(p.knames)
	return len(p.knames)
}

func (p *Prog) keyName(i int) string {
	p.kmu.Lock()
	defer p.kmu.Unlock()
	if i == 0 {
		return "?"
	}
	return p.knames[i-1]
}

func (p *Prog) typeID(t types.Type) int {
	p.kmu.Lock()
	defer p.kmu.Unlock()
	if i, ok := p.tids.At(t).(int); ok {
		return i
	}
	p.ntids++
	p.tids.Set(t, p.ntids)
	return p.ntids
}

// FnInfo is per-function static information.
type FnInfo struct {
	fn     *ssa.Function
	slots  map[ssa.Value]int
	n      int
	name   string
	intr   *intrinsic
	repl   *ssa.Function
	pkg    string
	id     int
	pure   bool
	isInit bool
	gpk    map[ssa.Instruction][]*ssa.Package
	rmu    sync.Mutex
	rch    map[int]map[int]bool
	// liveness
	lvOnce sync.Once
	liveIn [][]uint64 // per block
	lvMu   sync.Mutex
	lvAt   map[int][]int // block<<16|ip -> live slots
}

const modPath = "github.com/savaki/kafka"
const vrtPath = modPath + "/zz_vrt"

func load(repo string, overlay map[string][]byte) (*Prog, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Overlay: overlay,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOWORK=off", "GOTOOLCHAIN=local", "CGO_ENABLED=0")}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		if strings.HasPrefix(p.PkgPath, modPath) {
			for _, e := range p.Errors {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %s", strings.Join(errs, "\n"))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	P := &Prog{prog: prog, fset: prog.Fset, pkgs: map[string]*ssa.Package{}, replace: map[string]*ssa.Function{}, infos: map[*ssa.Function]*FnInfo{}, initial: pkgs, pure: map[string]bool{}, keys: map[string]int{}}
	for _, p := range prog.AllPackages() {
		P.pkgs[p.Pkg.Path()] = p
	}
	for path, p := range P.pkgs {
		if strings.HasPrefix(path, modPath) {
			p.Build()
		}
	}
	P.vrt = P.pkgs[vrtPath]
	if P.vrt == nil {
		return nil, fmt.Errorf("vrt package not loaded")
	}
	for _, p := range pkgs {
		if p.PkgPath != vrtPath {
			continue
		}
		for _, f := range p.Syntax {
			for _, d := range f.Decls {
				fd, ok := d.(*ast.FuncDecl)
				if !ok || fd.Doc == nil {
					continue
				}
				for _, cm := range fd.Doc.List {
					if r := strings.TrimPrefix(cm.Text, "//vrt:replace "); r != cm.Text {
						P.replace[strings.TrimSpace(r)] = P.vrt.Func(fd.Name.Name)
					}
					if cm.Text == "//vrt:pure" {
						if f := P.vrt.Func(fd.Name.Name); f != nil {
							P.pure[f.String()] = true
						}
					}
				}
			}
		}
	}
	return P, nil
}

func (p *Prog) info(fn *ssa.Function) *FnInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	if fi, ok := p.infos[fn]; ok {
		return fi
	}
	if fn.Blocks == nil && fn.Pkg != nil {
		fn.Pkg.Build()
	}
	if o := fn.Origin(); fn.Blocks == nil && o != nil && o.Pkg != nil {
		o.Pkg.Build()
	}
	fi := &FnInfo{fn: fn, slots: map[ssa.Value]int{}, name: fn.String(), lvAt: map[int][]int{}, isInit: fn.Synthetic == "package initializer"}
	if fn.Pkg != nil {
		fi.pkg = fn.Pkg.Pkg.Path()
	} else if o := fn.Origin(); o != nil && o.Pkg != nil {
		fi.pkg = o.Pkg.Pkg.Path()
	} else if fn.Object() != nil && fn.Object().Pkg() != nil {
		fi.pkg = fn.Object().Pkg().Path()
	}
	add := func(v ssa.Value) {
		fi.slots[v] = fi.n
		fi.n++
	}
	for _, x := range fn.Params {
		add(x)
	}
	for _, x := range fn.FreeVars {
		add(x)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v)
			}
		}
	}
	fi.intr = intrinsics[fi.name]
	if fi.intr == nil && fn.Origin() != nil {
		fi.intr = intrinsics[fn.Origin().String()]
	}
	if r := p.replace[fi.name]; r != nil && r != fn {
		fi.repl = r
	}
	fi.id = len(p.infos) + 1
	fi.pure = p.pure[fi.name]
	fi.gpk = map[ssa.Instruction][]*ssa.Package{}
	var ops []*ssa.Value
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			ops = in.Operands(ops[:0])
			for _, o := range ops {
				if gl, ok := (*o).(*ssa.Global); ok && gl.Pkg != nil && gl.Name() != "init$guard" {
					fi.gpk[in] = append(fi.gpk[in], gl.Pkg)
				}
			}
		}
	}
	fi.rch = map[int]map[int]bool{}
	p.infos[fn] = fi
	return fi
}

func (fi *FnInfo) liveness() {
	fi.lvOnce.Do(func() {
		nb := len(fi.fn.Blocks)
		words := (fi.n + 63) / 64
		live := make([][]uint64, nb)
		for i := range live {
			live[i] = make([]uint64, words)
		}
		changed := true
		for changed {
			changed = false
			for i := nb - 1; i >= 0; i-- {
				b := fi.fn.Blocks[i]
				out := fi.liveOut(b, live)
				in := fi.liveBack(b, 0, out)
				for w := range in {
					if in[w] != live[i][w] {
						live[i][w] = in[w]
						changed = true
					}
				}
			}
		}
		fi.liveIn = live
	})
}

func (fi *FnInfo) liveOut(b *ssa.BasicBlock, live [][]uint64) []uint64 {
	out := make([]uint64, (fi.n+63)/64)
	for _, s := range b.Succs {
		for w, x := range live[s.Index] {
			out[w] |= x
		}
		pi := 0
		for k, p := range s.Preds {
			if p == b {
				pi = k
			}
		}
		for _, in := range s.Instrs {
			ph, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			// all edges from b (duplicates possible)
			for k, p := range s.Preds {
				if p == b {
					if sl, ok := fi.slots[ph.Edges[k]]; ok {
						out[sl/64] |= 1 << uint(sl%64)
					}
				}
			}
			_ = pi
		}
	}
	if fi.fn.Recover != nil && fi.fn.Recover != b {
		for w, x := range live[fi.fn.Recover.Index] {
			out[w] |= x
		}
	}
	return out
}

// liveBack computes the live set before instruction ip given the set after the block.
func (fi *FnInfo) liveBack(b *ssa.BasicBlock, ip int, out []uint64) []uint64 {
	l := append([]uint64(nil), out...)
	var ops []*ssa.Value
	for i := len(b.Instrs) - 1; i >= ip; i-- {
		in := b.Instrs[i]
		if v, ok := in.(ssa.Value); ok {
			s := fi.slots[v]
			l[s/64] &^= 1 << uint(s%64)
		}
		if _, ok := in.(*ssa.Phi); ok {
			continue
		}
		ops = in.Operands(ops[:0])
		for _, o := range ops {
			if *o == nil {
				continue
			}
			if s, ok := fi.slots[*o]; ok {
				l[s/64] |= 1 << uint(s%64)
			}
		}
	}
	return l
}

// liveAt lists the slots live before instruction ip of block b.
func (fi *FnInfo) liveAt(b *ssa.BasicBlock, ip int) []int {
	fi.liveness()
	k := b.Index<<16 | ip
	fi.lvMu.Lock()
	defer fi.lvMu.Unlock()
	if r, ok := fi.lvAt[k]; ok {
		return r
	}
	set := fi.liveBack(b, ip, fi.liveOut(b, fi.liveIn))
	r := []int{}
	for s := 0; s < fi.n; s++ {
		if set[s/64]>>uint(s%64)&1 == 1 {
			r = append(r, s)
		}
	}
	fi.lvAt[k] = r
	return r
}

func (fi *FnInfo) hasGlobals(in ssa.Instruction) bool           { return len(fi.gpk[in]) > 0 }
func (fi *FnInfo) globalPkgs(in ssa.Instruction) []*ssa.Package { return fi.gpk[in] }

// reaches reports whether control can get from block a to block b.
func (fi *FnInfo) reaches(a, b *ssa.BasicBlock) bool {
	fi.rmu.Lock()
	defer fi.rmu.Unlock()
	m, ok := fi.rch[a.Index]
	if !ok {
		m = map[int]bool{a.Index: true}
		q := []*ssa.BasicBlock{a}
		for len(q) > 0 {
			x := q[0]
			q = q[1:]
			for _, s := range x.Succs {
				if !m[s.Index] {
					m[s.Index] = true
					q = append(q, s)
				}
			}
		}
		fi.rch[a.Index] = m
	}
	return m[b.Index]
}

func isErrorType(t types.Type) bool { return t.String() == "error" }
