package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatResult int

const (
	Unsat SatResult = iota
	Sat
	Unknown
)

// Solver drives one incremental SMT solver process.
type Solver struct {
	T       *Terms
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	wr      *bufio.Writer
	stack   []*Term
	emitted map[*Term]bool
	vars    []*Term // declared
	ndefs   int

	Timeout  int // ms per query
	Queries  int64
	NSat     int64
	NUnsat   int64
	NUnknown int64
	Time     time.Duration
	MaxQuery time.Duration
	Errors   []string
	NSecond  int
	dead     bool
}

func NewSolver(T *Terms, bin string, timeoutMS int) *Solver {
	s := &Solver{T: T, bin: bin, Timeout: timeoutMS}
	return s
}

func (s *Solver) start() error {
	s.emitted = map[*Term]bool{}
	s.vars = nil
	s.stack = nil
	s.ndefs = 0
	args := []string{"-in", "-smt2"}
	s.cmd = exec.Command(s.bin, args...)
	var err error
	if s.in, err = s.cmd.StdinPipe(); err != nil {
		return err
	}
	o, err := s.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := s.cmd.Start(); err != nil {
		return err
	}
	s.out = bufio.NewReaderSize(o, 1<<16)
	s.wr = bufio.NewWriterSize(s.in, 1<<16)
	fmt.Fprintf(s.wr, "(set-option :print-success false)\n(set-option :global-declarations true)\n(set-option :produce-models true)\n(set-option :timeout %d)\n", min(s.Timeout, 500))
	return nil
}

func (s *Solver) Close() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func (s *Solver) emit(t *Term) {
	if t.op == OConst || s.emitted[t] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.t.op == OConst || s.emitted[f.t] {
			st = st[:len(st)-1]
			continue
		}
		if f.i < int(f.t.n) {
			f.i++
			st = append(st, fr{f.t.a[f.i-1], 0})
			continue
		}
		if f.t.op == OVar {
			fmt.Fprintf(s.wr, "(declare-const |%s| %s)\n", f.t.name, f.t.sort.smt())
			s.vars = append(s.vars, f.t)
		} else {
			fmt.Fprintf(s.wr, "(define-fun $t%d () %s %s)\n", f.t.id, f.t.sort.smt(), f.t.body())
			s.ndefs++
		}
		s.emitted[f.t] = true
		st = st[:len(st)-1]
	}
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// Check decides pc ∧ extra.  On Sat it returns a model over all variables.
func (s *Solver) Check(pc []*Term, extra *Term) (SatResult, Model) {
	t0 := time.Now()
	defer func() {
		d := time.Since(t0)
		s.Time += d
		if d > s.MaxQuery {
			s.MaxQuery = d
		}
	}()
	s.Queries++
	if s.cmd == nil || s.ndefs > 60000 {
		s.Close()
		if err := s.start(); err != nil {
			s.Errors = append(s.Errors, err.Error())
			s.NUnknown++
			return Unknown, nil
		}
	}
	// synchronise the assertion stack
	k := 0
	for k < len(s.stack) && k < len(pc) && s.stack[k] == pc[k] {
		k++
	}
	if n := len(s.stack) - k; n > 0 {
		fmt.Fprintf(s.wr, "(pop %d)\n", n)
		s.stack = s.stack[:k]
	}
	for ; k < len(pc); k++ {
		s.emit(pc[k])
		fmt.Fprintf(s.wr, "(push 1)\n(assert %s)\n", pc[k].ref())
		s.stack = append(s.stack, pc[k])
	}
	if extra != nil {
		s.emit(extra)
		fmt.Fprintf(s.wr, "(push 1)\n(assert %s)\n", extra.ref())
	}
	s.wr.WriteString("(check-sat)\n")
	if err := s.wr.Flush(); err != nil {
		return s.fail(err)
	}
	var res SatResult
	for {
		l, err := s.readLine()
		if err != nil {
			return s.fail(err)
		}
		if strings.HasPrefix(l, "(error") {
			s.drainRestart()
			if r, om := s.oneShot(pc, extra); r != Unknown {
				s.NSecond++
				if r == Sat {
					s.NSat++
				} else {
					s.NUnsat++
				}
				return r, om
			}
			s.Errors = append(s.Errors, l)
			s.NUnknown++
			return Unknown, nil
		}
		if l == "" {
			continue
		}
		switch l {
		case "sat":
			res = Sat
		case "unsat":
			res = Unsat
		default:
			res = Unknown
		}
		break
	}
	var m Model
	if res == Unknown {
		// The incremental core gave up: ask again without the assertion stack, where the solvers preprocess.
		if r, om := s.oneShot(pc, extra); r != Unknown {
			s.NSecond++
			if r == Sat {
				s.NSat++
			} else {
				s.NUnsat++
			}
			if extra != nil {
				s.wr.WriteString("(pop 1)\n")
			}
			return r, om
		}
	}
	if res == Sat {
		s.NSat++
		m = Model{}
		if len(s.vars) > 0 {
			s.wr.WriteString("(get-value (")
			for _, v := range s.vars {
				s.wr.WriteString(v.ref())
				s.wr.WriteByte(' ')
			}
			s.wr.WriteString("))\n")
			s.wr.Flush()
			if err := s.parseModel(m); err != nil {
				s.Errors = append(s.Errors, err.Error())
				s.drainRestart()
				s.NUnknown++
				s.NSat--
				return Unknown, nil
			}
		}
	} else if res == Unsat {
		s.NUnsat++
	} else {
		s.NUnknown++
	}
	if extra != nil {
		s.wr.WriteString("(pop 1)\n")
	}
	return res, m
}

// oneShot decides pc ∧ extra with fresh solver processes, the first definite answer counts.
func (s *Solver) oneShot(pc []*Term, extra *Term) (SatResult, Model) {
	var b strings.Builder
	b.WriteString("(set-option :produce-models true)\n(set-logic ALL)\n")
	f := &Solver{T: s.T, emitted: map[*Term]bool{}, wr: bufio.NewWriter(&b)}
	for _, c := range pc {
		f.emit(c)
		fmt.Fprintf(f.wr, "(assert %s)\n", c.ref())
	}
	if extra != nil {
		f.emit(extra)
		fmt.Fprintf(f.wr, "(assert %s)\n", extra.ref())
	}
	f.wr.WriteString("(check-sat)\n")
	if len(f.vars) > 0 {
		f.wr.WriteString("(get-value (")
		for _, v := range f.vars {
			f.wr.WriteString(v.ref())
			f.wr.WriteByte(' ')
		}
		f.wr.WriteString("))\n")
	}
	f.wr.Flush()
	q := b.String()
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%p-%d.smt2", d, s, s.Queries), []byte(q), 0o644)
	}
	type ans struct {
		r SatResult
		m Model
	}
	cmds := [][]string{
		{s.bin, "-in", "-smt2", fmt.Sprintf("-T:%d", 1+s.Timeout/1000)},
		{"cvc5", "--lang", "smt2", "--solve-bv-as-int=sum", fmt.Sprintf("--tlimit=%d", 1000+s.Timeout)},
		{"cvc5", "--lang", "smt2", fmt.Sprintf("--tlimit=%d", 1000+s.Timeout)},
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	ch := make(chan ans, len(cmds))
	for _, c := range cmds {
		go func(c []string) {
			cmd := exec.CommandContext(ctx, c[0], c[1:]...)
			cmd.Stdin = strings.NewReader(q)
			out, _ := cmd.Output()
			l, rest, _ := strings.Cut(strings.TrimSpace(string(out)), "\n")
			switch strings.TrimSpace(l) {
			case "unsat":
				ch <- ans{Unsat, nil}
			case "sat":
				m := Model{}
				if len(f.vars) > 0 {
					ps := &Solver{out: bufio.NewReader(strings.NewReader(rest + "\n"))}
					if err := ps.parseModel(m); err != nil {
						ch <- ans{Unknown, nil}
						return
					}
				}
				ch <- ans{Sat, m}
			default:
				ch <- ans{Unknown, nil}
			}
		}(c)
	}
	for range cmds {
		if a := <-ch; a.r != Unknown {
			return a.r, a.m
		}
	}
	return Unknown, nil
}

func (s *Solver) drainRestart() { s.Close() }

func (s *Solver) fail(err error) (SatResult, Model) {
	s.Errors = append(s.Errors, "solver died: "+err.Error())
	s.Close()
	s.NUnknown++
	return Unknown, nil
}

// parseModel reads ((|x| #x..) (|y| true) ...).
func (s *Solver) parseModel(m Model) error {
	depth := 0
	var sb strings.Builder
	inBar := false
	for {
		b, err := s.out.ReadByte()
		if err != nil {
			return err
		}
		sb.WriteByte(b)
		if b == '|' {
			inBar = !inBar
		}
		if inBar {
			continue
		}
		if b == '(' {
			depth++
		} else if b == ')' {
			depth--
			if depth == 0 {
				break
			}
		}
	}
	txt := strings.TrimSpace(sb.String())
	if strings.HasPrefix(txt, "(error") {
		return fmt.Errorf("%s", txt)
	}
	i := 1
	for i < len(txt) {
		for i < len(txt) && (txt[i] == ' ' || txt[i] == '\n' || txt[i] == '\r') {
			i++
		}
		if txt[i] == ')' {
			break
		}
		if txt[i] != '(' {
			return fmt.Errorf("model parse at %q", txt[i:])
		}
		i++
		var name string
		if txt[i] == '|' {
			j := strings.IndexByte(txt[i+1:], '|')
			name = txt[i+1 : i+1+j]
			i = i + j + 2
		} else {
			j := strings.IndexAny(txt[i:], " \n")
			name = txt[i : i+j]
			i += j
		}
		for txt[i] == ' ' || txt[i] == '\n' {
			i++
		}
		// value up to matching ')'
		d := 0
		j := i
		for ; ; j++ {
			if txt[j] == '(' {
				d++
			} else if txt[j] == ')' {
				if d == 0 {
					break
				}
				d--
			}
		}
		v, err := parseVal(strings.TrimSpace(txt[i:j]))
		if err != nil {
			return err
		}
		m[name] = v
		i = j + 1
	}
	return nil
}

func parseVal(s string) (uint64, error) {
	switch {
	case s == "true":
		return 1, nil
	case s == "false":
		return 0, nil
	case strings.HasPrefix(s, "#x"):
		return strconv.ParseUint(s[2:], 16, 64)
	case strings.HasPrefix(s, "#b"):
		return strconv.ParseUint(s[2:], 2, 64)
	case strings.HasPrefix(s, "(_ bv"):
		f := strings.Fields(s[5:])
		return strconv.ParseUint(f[0], 10, 64)
	}
	return 0, fmt.Errorf("bad value %q", s)
}
