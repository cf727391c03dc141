package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"time"
)

// Solver talks SMT-LIB2 to a z3 process over a pipe. Declarations and definitions are global; assertions are
// kept on a push/pop stack that is synchronised with the current path condition.
type Solver struct {
	ctx     *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	stdin   io.WriteCloser
	out     *bufio.Reader
	stack   []*Term
	gen     uint32
	defs    int
	Queries int
	Sat     int
	Unsat   int
	Unknown int
	Time    time.Duration
	bin     string
	timeout int
	alive   bool
}

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

var solverGen uint32

func NewSolver(ctx *Ctx, bin string, timeoutMs int) *Solver {
	s := &Solver{ctx: ctx, bin: bin, timeout: timeoutMs}
	return s
}

func (s *Solver) start() {
	s.stop()
	s.cmd = exec.Command(s.bin, "-in")
	in, err := s.cmd.StdinPipe()
	if err != nil {
		panic(engineErr(err.Error()))
	}
	out, err := s.cmd.StdoutPipe()
	if err != nil {
		panic(engineErr(err.Error()))
	}
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(engineErr("cannot start solver: " + err.Error()))
	}
	s.stdin = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.gen++
	s.stack = s.stack[:0]
	s.defs = 0
	s.alive = true
	fmt.Fprintf(s.in, "(set-option :global-declarations true)\n(set-option :timeout %d)\n", s.timeout)
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.stdin.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
	s.alive = false
}

func termName(t *Term) string { return fmt.Sprintf("t%d", t.id) }

// ref returns the SMT text naming t, emitting declarations and definitions as needed.
func (s *Solver) ref(t *Term) string {
	if t.op == OConst {
		return constStr(t)
	}
	if t.op == OVar {
		if t.defGen != s.gen {
			t.defGen = s.gen
			fmt.Fprintf(s.in, "(declare-const %s %s)\n", quoteSym(t.name), t.sort)
		}
		return quoteSym(t.name)
	}
	if t.defGen == s.gen {
		return termName(t)
	}
	var sb strings.Builder
	if t.op == OFToF || t.op == OBitsToF || len(t.args) > 0 {
		sb.WriteByte('(')
		sb.WriteString(opHead(t))
		for _, a := range t.args {
			sb.WriteByte(' ')
			sb.WriteString(s.ref(a))
		}
		sb.WriteByte(')')
	}
	t.defGen = s.gen
	s.defs++
	fmt.Fprintf(s.in, "(define-fun %s () %s %s)\n", termName(t), t.sort, sb.String())
	return termName(t)
}

func (s *Solver) sync(pc []*Term) {
	if !s.alive || s.defs > 400000 {
		s.start()
	}
	n := 0
	for n < len(pc) && n < len(s.stack) && pc[n] == s.stack[n] {
		n++
	}
	if n < len(s.stack) {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack)-n)
		s.stack = s.stack[:n]
	}
	for _, t := range pc[n:] {
		r := s.ref(t)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", r)
		s.stack = append(s.stack, t)
	}
}

// Check decides pc /\ extra. On Sat the model assigns all variables of the context.
func (s *Solver) Check(pc []*Term, extra *Term) (SatResult, map[string]uint64) {
	if extra != nil && extra == s.ctx.False {
		return Unsat, nil
	}
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	for attempt := 0; ; attempt++ {
		r, m, err := s.check1(pc, extra)
		if err == nil {
			switch r {
			case Sat:
				s.Sat++
			case Unsat:
				s.Unsat++
			default:
				s.Unknown++
			}
			return r, m
		}
		s.stop()
		if attempt >= 1 {
			s.Unknown++
			return Unknown, nil
		}
	}
}

func (s *Solver) check1(pc []*Term, extra *Term) (SatResult, map[string]uint64, error) {
	s.sync(pc)
	if extra != nil && extra != s.ctx.True {
		r := s.ref(extra)
		fmt.Fprintf(s.in, "(push 1)\n(assert %s)\n", r)
	} else {
		fmt.Fprintf(s.in, "(push 1)\n")
	}
	fmt.Fprintf(s.in, "(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return Unknown, nil, err
	}
	line, err := s.readLine()
	if err != nil {
		return Unknown, nil, err
	}
	switch line {
	case "unsat":
		fmt.Fprintf(s.in, "(pop 1)\n")
		return Unsat, nil, nil
	case "unknown", "timeout":
		fmt.Fprintf(s.in, "(pop 1)\n")
		return Unknown, nil, nil
	case "sat":
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	m := map[string]uint64{}
	var vs []*Term
	for _, v := range s.ctx.varLst {
		if v.defGen == s.gen {
			vs = append(vs, v)
		}
	}
	if len(vs) > 0 {
		fmt.Fprintf(s.in, "(get-value (")
		for _, v := range vs {
			fmt.Fprintf(s.in, "%s ", quoteSym(v.name))
		}
		fmt.Fprintf(s.in, "))\n(echo \"done\")\n")
		fmt.Fprintf(s.in, "(pop 1)\n")
		if err := s.in.Flush(); err != nil {
			return Unknown, nil, err
		}
		var sb strings.Builder
		for {
			l, err := s.readLine()
			if err != nil {
				return Unknown, nil, err
			}
			if l == "done" || l == "\"done\"" {
				break
			}
			sb.WriteString(l)
			sb.WriteByte(' ')
		}
		if err := parseModel(sb.String(), m); err != nil {
			return Unknown, nil, err
		}
	} else {
		fmt.Fprintf(s.in, "(pop 1)\n")
	}
	return Sat, m, nil
}

// CheckSlice decides the conjunction of a slice of the path condition and extra, in a scope of its own; the model covers only vars.
func (s *Solver) CheckSlice(slice []*Term, extra *Term, vars map[*Term]bool) (SatResult, map[string]uint64) {
	t0 := time.Now()
	defer func() { s.Time += time.Since(t0) }()
	s.Queries++
	for attempt := 0; ; attempt++ {
		r, m, err := s.slice1(slice, extra, vars)
		if err == nil {
			switch r {
			case Sat:
				s.Sat++
			case Unsat:
				s.Unsat++
			default:
				s.Unknown++
			}
			return r, m
		}
		s.stop()
		if attempt >= 1 {
			s.Unknown++
			return Unknown, nil
		}
	}
}

func (s *Solver) slice1(slice []*Term, extra *Term, vars map[*Term]bool) (SatResult, map[string]uint64, error) {
	if !s.alive || s.defs > 400000 {
		s.start()
	}
	if len(s.stack) > 0 {
		fmt.Fprintf(s.in, "(pop %d)\n", len(s.stack))
		s.stack = s.stack[:0]
	}
	// definitions are made outside the scope
	refs := make([]string, 0, len(slice)+1)
	for _, t := range slice {
		refs = append(refs, s.ref(t))
	}
	refs = append(refs, s.ref(extra))
	s.in.WriteString("(push 1)\n")
	for _, r := range refs {
		s.in.WriteString("(assert ")
		s.in.WriteString(r)
		s.in.WriteString(")\n")
	}
	s.in.WriteString("(check-sat)\n")
	if err := s.in.Flush(); err != nil {
		return Unknown, nil, err
	}
	line, err := s.readLine()
	if err != nil {
		return Unknown, nil, err
	}
	switch line {
	case "unsat":
		s.in.WriteString("(pop 1)\n")
		return Unsat, nil, nil
	case "unknown", "timeout":
		s.in.WriteString("(pop 1)\n")
		return Unknown, nil, nil
	case "sat":
	default:
		return Unknown, nil, fmt.Errorf("solver said %q", line)
	}
	m := map[string]uint64{}
	s.in.WriteString("(get-value (")
	for v := range vars {
		s.in.WriteString(quoteSym(v.name))
		s.in.WriteByte(' ')
	}
	s.in.WriteString("))\n(echo \"done\")\n(pop 1)\n")
	if err := s.in.Flush(); err != nil {
		return Unknown, nil, err
	}
	var sb strings.Builder
	for {
		l, err := s.readLine()
		if err != nil {
			return Unknown, nil, err
		}
		if l == "done" || l == "\"done\"" {
			break
		}
		sb.WriteString(l)
		sb.WriteByte(' ')
	}
	if err := parseModel(sb.String(), m); err != nil {
		return Unknown, nil, err
	}
	return Sat, m, nil
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	if err != nil {
		return "", err
	}
	l = strings.TrimSpace(l)
	if strings.HasPrefix(l, "(error") {
		return "", fmt.Errorf("solver error: %s", l)
	}
	return l, nil
}

// parseModel reads ((|x| #x..) (|y| true) ...)
func parseModel(txt string, m map[string]uint64) error {
	i := 0
	n := len(txt)
	for i < n {
		if txt[i] == '(' || txt[i] == ')' || txt[i] == ' ' {
			i++
			continue
		}
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			if j < 0 {
				return fmt.Errorf("bad model")
			}
			name = txt[i+1 : i+1+j]
			i += j + 2
		} else {
			j := i
			for j < n && txt[j] != ' ' && txt[j] != ')' {
				j++
			}
			name = txt[i:j]
			i = j
		}
		for i < n && txt[i] == ' ' {
			i++
		}
		j := i
		for j < n && txt[j] != ' ' && txt[j] != ')' {
			j++
		}
		v := txt[i:j]
		i = j
		var u uint64
		switch {
		case v == "true":
			u = 1
		case v == "false":
			u = 0
		case strings.HasPrefix(v, "#x"):
			if _, err := fmt.Sscanf(v[2:], "%x", &u); err != nil {
				return err
			}
		case strings.HasPrefix(v, "#b"):
			for _, ch := range v[2:] {
				u = u<<1 | uint64(ch-'0')
			}
		default:
			return fmt.Errorf("bad model value %q", v)
		}
		m[name] = u
	}
	return nil
}
