package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type Res int

const (
	Unsat Res = iota
	Sat
	Unknown
)

// Solver drives one SMT solver process over a pipe.
type Solver struct {
	c        *TCtx
	bin      string
	args     []string
	cmd      *exec.Cmd
	in       *bufio.Writer
	inc      io.WriteCloser
	out      *bufio.Reader
	epoch    int
	ndef     int
	decl     map[string]bool
	Queries  int
	Sat      int
	Unsat    int
	Unk      int
	Errs     int
	Time     time.Duration
	tmo      int
	isCvc    bool
	dump     io.Writer
	defs     map[*Term]string
	learnt   [][2]*Term // congruences that were needed
	Refine   int
	oneshot  bool // no push and pop, so that z3 runs its full preprocessing
	quick    int  // timeout of the incremental solver in ms; harder queries go to fb
	fb       *Solver
	Fallback int
}

func NewSolver(c *TCtx, kind string, tmoMs int) *Solver {
	s := &Solver{c: c, tmo: tmoMs}
	switch kind {
	case "cvc5":
		s.isCvc = true
		s.bin, s.args = "cvc5", []string{"--incremental", "--produce-models", "--lang=smt2", fmt.Sprintf("--tlimit-per=%d", tmoMs)}
	case "z3-old":
		s.bin, s.args = "/usr/bin/z3", []string{"-in", "-smt2"}
	default:
		s.bin, s.args = "z3-new", []string{"-in", "-smt2"}
		if _, err := exec.LookPath("z3-new"); err != nil {
			s.bin = "z3"
		}
	}
	if kind == "main" {
		s.quick = 200
	}
	if f := os.Getenv("VRT_DUMP"); f != "" && s.quick > 0 {
		s.dump, _ = os.Create(f)
	}
	s.start()
	return s
}

func (s *Solver) start() {
	tmo := s.tmo
	if s.quick > 0 {
		tmo = s.quick
	}
	s.cmd = exec.Command(s.bin, s.args...)
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		panic("cannot start solver " + s.bin + ": " + err.Error())
	}
	s.inc = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.epoch++
	s.ndef = 0
	s.decl = map[string]bool{}
	if s.isCvc {
		s.send("(set-logic QF_UFBV)\n")
	} else {
		s.send("(set-option :print-success false)\n(set-option :timeout " + strconv.Itoa(tmo) + ")\n")
	}
}

func (s *Solver) Close() {
	if s.fb != nil {
		s.fb.Close()
		s.fb = nil
	}
	if s.cmd != nil {
		s.inc.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(x string) {
	if s.dump != nil {
		io.WriteString(s.dump, x)
	}
	s.in.WriteString(x)
}

func q(name string) string { return "|" + name + "|" }

// ref makes sure t is defined in the solver and returns its textual reference.
func (s *Solver) ref(t *Term, defs map[*Term]string) string {
	if t.op == OConst {
		if t.w == 0 {
			if t.val == 1 {
				return "true"
			}
			return "false"
		}
		return "(_ bv" + strconv.FormatUint(t.val, 10) + " " + strconv.Itoa(t.w) + ")"
	}
	if n, ok := defs[t]; ok {
		return n
	}
	var e string
	switch t.op {
	case OVar:
		n := q(t.name)
		if !s.decl[t.name] {
			s.decl[t.name] = true
			if t.w == 0 {
				s.send("(declare-const " + n + " Bool)\n")
			} else {
				s.send("(declare-const " + n + " (_ BitVec " + strconv.Itoa(t.w) + "))\n")
			}
		}
		defs[t] = n
		return n
	case OSel:
		// a byte of an input blob: its own variable; equal indices are enforced on demand (see Check)
		s.ref(t.args[0], defs)
		n := "s" + strconv.Itoa(t.id)
		s.send("(declare-const " + n + " (_ BitVec 8))\n")
		defs[t] = n
		return n
	case OExtract:
		e = "((_ extract " + strconv.Itoa(t.hi) + " " + strconv.Itoa(t.lo) + ") " + s.ref(t.args[0], defs) + ")"
	case OSext:
		e = "((_ sign_extend " + strconv.Itoa(t.w-t.args[0].w) + ") " + s.ref(t.args[0], defs) + ")"
	default:
		var sb strings.Builder
		sb.WriteString("(" + opNames[t.op])
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(s.ref(a, defs))
		}
		sb.WriteByte(')')
		e = sb.String()
	}
	n := "t" + strconv.Itoa(t.id)
	sort := "Bool"
	if t.w > 0 {
		sort = "(_ BitVec " + strconv.Itoa(t.w) + ")"
	}
	s.send("(define-fun " + n + " () " + sort + " " + e + ")\n")
	s.ndef++
	defs[t] = n
	return n
}

// Check decides the conjunction. With wantModel a model is returned for Sat.
func (s *Solver) Check(conj []*Term, wantModel bool) (Res, *Model) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	if s.ndef > 200000 {
		s.Close()
		s.start()
		s.defs = nil
	}
	if s.defs == nil {
		s.defs = map[*Term]string{}
	}
	refs := make([]string, len(conj))
	for i, t := range conj {
		refs[i] = s.ref(t, s.defs)
	}
	// terms whose values make up the model
	var vt []*Term
	nsel := 0
	{
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			for _, a := range t.args {
				walk(a)
			}
			if t.op == OSel {
				nsel++
			}
			if t.op == OVar || t.op == OSel {
				vt = append(vt, t)
			}
		}
		for _, t := range conj {
			walk(t)
		}
	}
	s.push()
	for _, r := range refs {
		s.send("(assert " + r + ")\n")
	}
	if nsel > 1 && len(s.learnt) > 0 {
		in := map[*Term]bool{}
		for _, t := range vt {
			in[t] = true
		}
		for _, p := range s.learnt {
			if in[p[0]] && in[p[1]] {
				s.congruent(p[0], p[1])
			}
		}
	}
again:
	s.send("(check-sat)\n")
	s.in.Flush()
	ans := s.readLine()
	for strings.HasPrefix(ans, "(error") {
		s.Errs++
		fmt.Fprintln(os.Stderr, "solver error:", ans)
		ans = "unknown"
		s.Close()
		s.start()
		s.defs = nil
		s.Unk++
		return Unknown, nil
	}
	var m *Model
	res := Unknown
	switch ans {
	case "sat":
		if wantModel || nsel > 1 {
			m = NewModel()
			if len(vt) > 0 {
				var sb strings.Builder
				sb.WriteString("(get-value (")
				for _, t := range vt {
					sb.WriteString(s.ref(t, s.defs))
					sb.WriteByte(' ')
					if t.op == OSel {
						sb.WriteString(s.ref(t.args[0], s.defs))
						sb.WriteByte(' ')
					}
				}
				sb.WriteString("))\n")
				s.send(sb.String())
				s.in.Flush()
				vals := parseValues(s.readSexp())
				i := 0
				type bi struct {
					n string
					i uint64
				}
				first := map[bi]*Term{}
				bad := false
				for _, t := range vt {
					if i >= len(vals) {
						s.pop()
						s.Unk++
						return Unknown, nil
					}
					v := vals[i]
					i++
					if t.op == OVar {
						m.v[t.name] = v
						continue
					}
					idx := vals[i]
					i++
					if m.b[t.name] == nil {
						m.b[t.name] = map[uint64]byte{}
					}
					if o, ok := first[bi{t.name, idx}]; ok {
						if m.b[t.name][idx] != byte(v) {
							// two reads of the same byte differ: add the missing congruence and solve again
							s.congruent(o, t)
							s.learnt = append(s.learnt, [2]*Term{o, t})
							bad = true
						}
						continue
					}
					first[bi{t.name, idx}] = t
					m.b[t.name][idx] = byte(v)
				}
				if bad {
					s.Refine++
					goto again
				}
			}
		}
		res = Sat
		s.Sat++
	case "unsat":
		res = Unsat
		s.Unsat++
	default:
		if s.quick > 0 {
			// hard for the incremental solver: ask a fresh one
			s.pop()
			if s.fb == nil {
				s.fb = NewSolver(s.c, "z3", s.tmo)
				s.fb.oneshot = true
			} else {
				s.fb.send("(reset)\n(set-option :print-success false)\n(set-option :timeout " + strconv.Itoa(s.tmo) + ")\n")
				s.fb.defs, s.fb.decl, s.fb.ndef = nil, map[string]bool{}, 0
			}
			s.fb.learnt = s.learnt
			res, m = s.fb.Check(conj, wantModel)
			s.learnt = s.fb.learnt
			s.Fallback++
			switch res {
			case Sat:
				s.Sat++
			case Unsat:
				s.Unsat++
			default:
				s.Unk++
			}
			return res, m
		}
		s.Unk++
	}
	s.pop()
	return res, m
}

func (s *Solver) push() {
	if !s.oneshot {
		s.send("(push 1)\n")
	}
}
func (s *Solver) pop() {
	if !s.oneshot {
		s.send("(pop 1)\n")
	}
}

// congruent asserts that reads a and b of one blob agree when their indices do.
func (s *Solver) congruent(a, b *Term) {
	s.send("(assert (=> (= " + s.ref(a.args[0], s.defs) + " " + s.ref(b.args[0], s.defs) + ") (= " + s.ref(a, s.defs) + " " + s.ref(b, s.defs) + ")))\n")
}

func (s *Solver) readLine() string {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "(error eof)"
	}
	l = strings.TrimSpace(l)
	if l == "" {
		return s.readLine()
	}
	return l
}

func (s *Solver) readSexp() string {
	var sb strings.Builder
	depth := 0
	inq := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return sb.String()
		}
		sb.WriteByte(b)
		if b == '|' {
			inq = !inq
		}
		if inq {
			continue
		}
		if b == '(' {
			depth++
		}
		if b == ')' {
			depth--
			if depth == 0 {
				return sb.String()
			}
		}
	}
}

// parseValues extracts the value of each (term value) pair, in order.
func parseValues(x string) []uint64 {
	type node struct {
		atom string
		kids []*node
	}
	pos := 0
	var parse func() *node
	parse = func() *node {
		for pos < len(x) && (x[pos] == ' ' || x[pos] == '\n' || x[pos] == '\r' || x[pos] == '\t') {
			pos++
		}
		if pos >= len(x) {
			return nil
		}
		if x[pos] == '(' {
			pos++
			n := &node{}
			for {
				for pos < len(x) && (x[pos] == ' ' || x[pos] == '\n' || x[pos] == '\r' || x[pos] == '\t') {
					pos++
				}
				if pos >= len(x) {
					return n
				}
				if x[pos] == ')' {
					pos++
					return n
				}
				k := parse()
				if k == nil {
					return n
				}
				n.kids = append(n.kids, k)
			}
		}
		st := pos
		if x[pos] == '|' {
			pos++
			for x[pos] != '|' {
				pos++
			}
			pos++
		} else {
			for pos < len(x) && !strings.ContainsRune(" \n\t\r()", rune(x[pos])) {
				pos++
			}
		}
		return &node{atom: x[st:pos]}
	}
	root := parse()
	var out []uint64
	if root == nil {
		return nil
	}
	for _, k := range root.kids {
		if len(k.kids) < 2 {
			continue
		}
		v := k.kids[len(k.kids)-1]
		switch {
		case v.atom == "true":
			out = append(out, 1)
		case v.atom == "false":
			out = append(out, 0)
		case strings.HasPrefix(v.atom, "#x"):
			u, _ := strconv.ParseUint(v.atom[2:], 16, 64)
			out = append(out, u)
		case strings.HasPrefix(v.atom, "#b"):
			u, _ := strconv.ParseUint(v.atom[2:], 2, 64)
			out = append(out, u)
		case len(v.kids) == 3 && strings.HasPrefix(v.kids[1].atom, "bv"):
			u, _ := strconv.ParseUint(v.kids[1].atom[2:], 10, 64)
			out = append(out, u)
		default:
			out = append(out, 0)
		}
	}
	return out
}
