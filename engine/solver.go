package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver drives one SMT-LIB2 process over a pipe.
type Solver struct {
	kind    string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inPipe  io.WriteCloser
	out     *bufio.Reader
	defined map[int32]bool
	ufdecl  map[string]bool
	queries int
	cached  int // verdicts reused for the same conjuncts
	tabled  int // branches decided by truth tables over one byte
	dur     time.Duration
	errs    []string
	defs    int
}

func newSolver(kind string) *Solver {
	s := &Solver{kind: kind}
	s.start()
	return s
}

func (s *Solver) start() {
	var args []string
	bin := s.kind
	switch s.kind {
	case "z3", "z3-new":
		args = []string{"-in"}
	case "cvc5":
		args = []string{"--incremental", "--produce-models", "--lang", "smt2", "--tlimit-per=30000"}
	}
	s.cmd = exec.Command(bin, args...)
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(err)
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(err)
	}
	s.inPipe = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver %s: %v", bin, err))
	}
	s.defined = map[int32]bool{}
	s.ufdecl = map[string]bool{}
	s.defs = 0
	s.send("(set-option :global-declarations true)")
	if s.kind != "cvc5" {
		s.send("(set-option :timeout 30000)")
	}
	s.send("(set-logic QF_UFBV)")
}

func (s *Solver) close() {
	if s.cmd != nil {
		s.send("(exit)")
		s.in.Flush()
		s.inPipe.Close()
		_ = s.cmd.Process.Kill()
		_ = s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) send(l string) {
	s.in.WriteString(l)
	s.in.WriteByte('\n')
}

func sortStr(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func constStr(t *Term) string {
	if t.w == 0 {
		if t.k == 1 {
			return "true"
		}
		return "false"
	}
	if t.w%4 == 0 {
		return fmt.Sprintf("#x%0*x", int(t.w/4), t.k)
	}
	return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
}

// ref makes sure t is declared and returns its SMT name.
func (s *Solver) ref(t *Term) string {
	if t.isConst() {
		return constStr(t)
	}
	name := "t" + strconv.Itoa(int(t.id))
	if s.defined[t.id] {
		return name
	}
	var sb strings.Builder
	switch t.op {
	case OpVar:
		fmt.Fprintf(&sb, "(declare-fun %s () %s)", name, sortStr(t.w))
	case OpUF:
		if !s.ufdecl[t.name] {
			s.ufdecl[t.name] = true
			d := "(declare-fun |" + t.name + "| ("
			for _, a := range t.args {
				d += sortStr(a.w) + " "
			}
			s.send(d + ") " + sortStr(t.w) + ")")
		}
		fmt.Fprintf(&sb, "(define-fun %s () %s (|%s|", name, sortStr(t.w), t.name)
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(s.ref(a))
		}
		sb.WriteString("))")
	default:
		op := opNames[t.op]
		switch t.op {
		case OpZext:
			op = fmt.Sprintf("(_ zero_extend %d)", t.w-t.args[0].w)
		case OpSext:
			op = fmt.Sprintf("(_ sign_extend %d)", t.w-t.args[0].w)
		case OpExtract:
			op = fmt.Sprintf("(_ extract %d 0)", t.w-1)
		}
		fmt.Fprintf(&sb, "(define-fun %s () %s (%s", name, sortStr(t.w), op)
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(s.ref(a))
		}
		sb.WriteString("))")
	}
	s.send(sb.String())
	s.defined[t.id] = true
	s.defs++
	return name
}

// recycle restarts the solver when it holds many definitions.
func (s *Solver) recycle() {
	if s.defs > 60000 {
		s.close()
		s.start()
	}
}

func (s *Solver) readLine() string {
	for {
		l, err := s.out.ReadString('\n')
		if err != nil {
			s.errs = append(s.errs, "solver died: "+err.Error())
			return "unknown"
		}
		l = strings.TrimSpace(l)
		if l == "" {
			continue
		}
		if strings.HasPrefix(l, "(error") {
			s.errs = append(s.errs, l)
			if os.Getenv("GOSYM_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "solver:", l)
			}
			continue
		}
		return l
	}
}

// check decides pc ∧ extra. When sat, the values of atoms are returned.
func (s *Solver) check(pc []*Term, extra *Term, atoms []*Term) (SatResult, *Model) {
	st := time.Now()
	defer func() { s.dur += time.Since(st) }()
	s.queries++
	nerr := len(s.errs)
	s.send("(push 1)")
	for _, c := range pc {
		s.send("(assert " + s.ref(c) + ")")
	}
	if extra != nil {
		s.send("(assert " + s.ref(extra) + ")")
	}
	for _, a := range atoms {
		s.ref(a)
	}
	s.send("(check-sat)")
	s.send("(echo \"@@\")")
	s.in.Flush()
	res := Unknown
	for {
		l := s.readLine()
		if l == "@@" || l == "\"@@\"" {
			break
		}
		switch l {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		}
		if s.cmd == nil || strings.HasPrefix(l, "unknown") && len(s.errs) > nerr && strings.HasPrefix(s.errs[len(s.errs)-1], "solver died") {
			return Unknown, nil
		}
	}
	if len(s.errs) > nerr {
		res = Unknown
	}
	var m *Model
	if res == Sat {
		m = &Model{vals: map[int32]uint64{}, memo: map[int32]uint64{}}
		if len(atoms) > 0 {
			var sb strings.Builder
			sb.WriteString("(get-value (")
			for _, a := range atoms {
				sb.WriteString(s.ref(a))
				sb.WriteByte(' ')
			}
			sb.WriteString("))")
			s.send(sb.String())
			s.send("(echo \"@@\")")
			s.in.Flush()
			var txt strings.Builder
			for {
				l := s.readLine()
				if l == "@@" || l == "\"@@\"" {
					break
				}
				if strings.HasPrefix(l, "unknown") {
					break
				}
				txt.WriteString(l)
				txt.WriteByte(' ')
			}
			parseValues(txt.String(), m)
		}
	}
	s.send("(pop 1)")
	return res, m
}

func parseValues(txt string, m *Model) {
	toks := strings.FieldsFunc(txt, func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
	for i := 0; i+1 < len(toks); {
		id, err := strconv.Atoi(strings.TrimPrefix(toks[i], "t"))
		if err != nil {
			i++
			continue
		}
		v := toks[i+1]
		i += 2
		switch {
		case v == "true":
			m.vals[int32(id)] = 1
		case v == "false":
			m.vals[int32(id)] = 0
		case strings.HasPrefix(v, "#x"):
			k, _ := strconv.ParseUint(v[2:], 16, 64)
			m.vals[int32(id)] = k
		case strings.HasPrefix(v, "#b"):
			k, _ := strconv.ParseUint(v[2:], 2, 64)
			m.vals[int32(id)] = k
		}
	}
}
