package main

import (
	"bufio"
	"bytes"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver drives one z3 process over a pipe.
type Solver struct {
	cmd       *exec.Cmd
	in        io.WriteCloser
	w         *bufio.Writer
	r         *bufio.Reader
	p         *TermPool
	gen       uint32 // bumped per path; terms with emitted==gen are defined
	nvars     int
	inPath    bool
	Queries   int
	Unknowns  int
	Errors    int
	Time      time.Duration
	timeoutMS int
	log       *bytes.Buffer // everything sent on this path (debugging)
}

// dumpDir receives the queries the solver gave up on (debugging).
var dumpDir = os.Getenv("SYMGO_DUMP")


func NewSolver(p *TermPool, timeoutMS int) (*Solver, error) {
	s := &Solver{p: p, gen: 1, timeoutMS: timeoutMS}
	return s, s.start()
}

var z3Path = "z3-new"

func (s *Solver) start() error {
	path, err := exec.LookPath(z3Path)
	if err != nil {
		if path, err = exec.LookPath("z3"); err != nil {
			return err
		}
	}
	s.cmd = exec.Command(path, "-in", "-smt2", "-memory:3000")
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	var w io.Writer = s.in
	if dumpDir != "" {
		s.log = &bytes.Buffer{}
		w = io.MultiWriter(s.in, s.log)
	}
	s.w = bufio.NewWriterSize(w, 1<<16)
	s.r = bufio.NewReaderSize(out, 1<<16)
	fmt.Fprintf(s.w, "(set-option :produce-models true)\n(set-option :timeout %d)\n", s.timeoutMS)
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
	}
}

func (s *Solver) restart() {
	s.Close()
	s.start()
}

// BeginPath drops everything and starts a fresh scope.
func (s *Solver) BeginPath() {
	if s.inPath {
		s.w.WriteString("(pop 1)\n")
	}
	s.w.WriteString("(push 1)\n")
	if s.log != nil {
		s.w.Flush()
		s.log.Reset()
	}
	s.inPath = true
	s.gen++
	s.nvars = 0
}

func sortOf(t *Term) string {
	if t.w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(t.w)) + ")"
}

func (s *Solver) declVars() {
	for ; s.nvars < len(s.p.vars); s.nvars++ {
		v := s.p.vars[s.nvars]
		fmt.Fprintf(s.w, "(declare-const v%d %s)\n", s.nvars, sortOf(v.t))
	}
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.n != 0 {
				return "true"
			}
			return "false"
		}
		return fmt.Sprintf("(_ bv%d %d)", t.n, t.w)
	case OVar:
		return "v" + strconv.Itoa(int(t.n))
	}
	return "t" + strconv.Itoa(int(t.id))
}

func tofp(w uint8, x string) string {
	if w == 32 {
		return "((_ to_fp 8 24) " + x + ")"
	}
	return "((_ to_fp 11 53) " + x + ")"
}

func fpsort(w uint8) string {
	if w == 32 {
		return "8 24"
	}
	return "11 53"
}

func (s *Solver) emit(t *Term) {
	if t == nil || t.op == OConst || t.op == OVar || t.emitted == s.gen {
		return
	}
	t.emitted = s.gen
	s.emit(t.a)
	s.emit(t.b)
	s.emit(t.c)
	var e string
	switch t.op {
	case OZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OExtract:
		e = fmt.Sprintf("((_ extract %d %d) %s)", t.n+uint64(t.w)-1, t.n, ref(t.a))
	case OFAdd, OFSub, OFMul, OFDiv:
		nm := map[Op]string{OFAdd: "fp.add", OFSub: "fp.sub", OFMul: "fp.mul", OFDiv: "fp.div"}[t.op]
		e = fmt.Sprintf("(fp.to_ieee_bv (%s RNE %s %s))", nm, tofp(t.w, ref(t.a)), tofp(t.w, ref(t.b)))
	case OFNeg:
		e = fmt.Sprintf("(bvxor %s (_ bv%d %d))", ref(t.a), uint64(1)<<(t.w-1), t.w)
	case OFEq, OFLt, OFLe:
		nm := map[Op]string{OFEq: "fp.eq", OFLt: "fp.lt", OFLe: "fp.leq"}[t.op]
		e = fmt.Sprintf("(%s %s %s)", nm, tofp(t.a.w, ref(t.a)), tofp(t.a.w, ref(t.b)))
	case OFFromS:
		e = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpsort(t.w), ref(t.a))
	case OFFromU:
		e = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp_unsigned %s) RNE %s))", fpsort(t.w), ref(t.a))
	case OFToS:
		e = fmt.Sprintf("((_ fp.to_sbv %d) RTZ %s)", t.w, tofp(t.a.w, ref(t.a)))
	case OFToU:
		e = fmt.Sprintf("((_ fp.to_ubv %d) RTZ %s)", t.w, tofp(t.a.w, ref(t.a)))
	case OFCvt:
		e = fmt.Sprintf("(fp.to_ieee_bv ((_ to_fp %s) RNE %s))", fpsort(t.w), tofp(t.a.w, ref(t.a)))
	default:
		e = "(" + smtName[t.op] + " " + ref(t.a)
		if t.b != nil {
			e += " " + ref(t.b)
		}
		if t.c != nil {
			e += " " + ref(t.c)
		}
		e += ")"
	}
	fmt.Fprintf(s.w, "(define-fun t%d () %s %s)\n", t.id, sortOf(t), e)
}

func (s *Solver) Assert(t *Term) {
	s.declVars()
	s.emit(t)
	s.w.WriteString("(assert " + ref(t) + ")\n")
}

// Check decides PC && cond; on Sat it returns a model for all variables.
func (s *Solver) Check(cond *Term) (SatResult, []uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	s.declVars()
	if cond != nil {
		s.emit(cond)
		s.w.WriteString("(push 1)\n(assert " + ref(cond) + ")\n")
	}
	s.w.WriteString("(check-sat)\n")
	s.w.Flush()
	res := Unknown
	line, err := s.readLine()
	if err != nil {
		s.Errors++
		s.Unknowns++
		s.restart()
		s.inPath = false
		panic(pathAbort{"solver died"})
	}
	switch line {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	}
	var model []uint64
	if res == Sat && len(s.p.vars) > 0 {
		s.w.WriteString("(get-value (")
		for i := range s.p.vars {
			fmt.Fprintf(s.w, "v%d ", i)
		}
		s.w.WriteString("))\n")
		s.w.Flush()
		model, err = s.readModel(len(s.p.vars))
		if err != nil {
			s.Errors++
			res = Unknown
			model = nil
		}
	}
	if cond != nil {
		s.w.WriteString("(pop 1)\n")
	}
	if res == Unknown {
		s.Unknowns++
		if s.log != nil {
			os.WriteFile(fmt.Sprintf("%s/%p-%d.smt2", dumpDir, s, s.Queries), s.log.Bytes(), 0o644)
		}
	}
	return res, model
}

func (s *Solver) readLine() (string, error) {
	for {
		l, err := s.r.ReadString('\n')
		if err != nil {
			return "", err
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			s.Errors++
			if debugSolver {
				fmt.Println("SOLVER", l)
			}
			continue
		}
		return l, nil
	}
}

var debugSolver = false

func (s *Solver) readModel(n int) ([]uint64, error) {
	depth := 0
	var sb strings.Builder
	for {
		l, err := s.r.ReadString('\n')
		if err != nil {
			return nil, err
		}
		for _, c := range l {
			if c == '(' {
				depth++
			} else if c == ')' {
				depth--
			}
		}
		sb.WriteString(l)
		if depth == 0 {
			break
		}
	}
	f := strings.FieldsFunc(sb.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' || r == '\n' })
	m := make([]uint64, n)
	for i := 0; i+1 < len(f); i += 2 {
		if f[i][0] != 'v' {
			return nil, fmt.Errorf("bad model %q", sb.String())
		}
		id, err := strconv.Atoi(f[i][1:])
		if err != nil || id >= n {
			return nil, fmt.Errorf("bad model var %q", f[i])
		}
		v := f[i+1]
		switch {
		case v == "true":
			m[id] = 1
		case v == "false":
			m[id] = 0
		case strings.HasPrefix(v, "#x"):
			m[id], err = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			m[id], err = strconv.ParseUint(v[2:], 2, 64)
		default:
			err = fmt.Errorf("bad value %q", v)
		}
		if err != nil {
			return nil, err
		}
	}
	return m, nil
}
