package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
)

type Res int

const (
	Unknown Res = iota
	Sat
	Unsat
)

func (r Res) String() string { return [...]string{"unknown", "sat", "unsat"}[r] }

type SolverStats struct {
	Queries   int
	SatN      int
	UnsatN    int
	UnknownN  int
	HardN     int
	Time      time.Duration
	MaxQuery  time.Duration
	BySolver  map[string]int
}

type Solver struct {
	c       *Ctx
	cmd     *exec.Cmd
	in      *bufio.Writer
	inRaw   io.WriteCloser
	out     *bufio.Reader
	defined map[int]bool
	Stats   SolverStats
	softMs  int
	hardMs  int
	log     io.Writer
	dead    bool
	deadline time.Time
}

func NewSolver(c *Ctx) *Solver {
	s := &Solver{c: c, softMs: 3000, hardMs: 60000}
	s.Stats.BySolver = map[string]int{}
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	in, _ := s.cmd.StdinPipe()
	out, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = io.Discard
	if err := s.cmd.Start(); err != nil {
		panic("cannot start z3-new: " + err.Error())
	}
	s.inRaw = in
	s.in = bufio.NewWriterSize(in, 1<<16)
	s.out = bufio.NewReaderSize(out, 1<<16)
	s.defined = map[int]bool{}
	fmt.Fprintf(s.in, "(set-option :print-success false)\n(set-option :produce-models true)\n(set-logic QF_BV)\n")
}

func (s *Solver) Close() {
	if s.cmd != nil {
		s.inRaw.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

func sortStr(w int) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func smtName(t *Term) string {
	if t.op == OVar {
		return fmt.Sprintf("v%d", t.id)
	}
	return fmt.Sprintf("t%d", t.id)
}

func ref(t *Term) string {
	if t.op == OConst {
		if t.w == 0 {
			if t.u == 1 {
				return "true"
			}
			return "false"
		}
		if t.b != nil {
			return fmt.Sprintf("(_ bv%s %d)", t.b.String(), t.w)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.u, t.w)
	}
	return smtName(t)
}

// emit writes definitions of t's cone that are not yet in defined.
func emit(w io.Writer, t *Term, defined map[int]bool) {
	if t.op == OConst || defined[t.id] {
		return
	}
	// iterative post-order
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.args) {
			a := f.t.args[f.i]
			f.i++
			if a.op != OConst && !defined[a.id] {
				st = append(st, fr{a, 0})
			}
			continue
		}
		x := f.t
		st = st[:len(st)-1]
		if defined[x.id] {
			continue
		}
		defined[x.id] = true
		if x.op == OVar {
			fmt.Fprintf(w, "(declare-const %s %s)\n", smtName(x), sortStr(x.w))
			if x.ranged {
				fmt.Fprintf(w, "(assert (and (bvule (_ bv%d %d) %s) (bvule %s (_ bv%d %d))))\n", x.ulo, x.w, smtName(x), smtName(x), x.uhi, x.w)
			}
			continue
		}
		var b strings.Builder
		switch x.op {
		case OExtract:
			fmt.Fprintf(&b, "((_ extract %d %d) %s)", x.hi, x.u, ref(x.args[0]))
		case OZext:
			fmt.Fprintf(&b, "((_ zero_extend %d) %s)", x.w-x.args[0].w, ref(x.args[0]))
		case OSext:
			fmt.Fprintf(&b, "((_ sign_extend %d) %s)", x.w-x.args[0].w, ref(x.args[0]))
		default:
			b.WriteString("(" + opNames[x.op])
			for _, a := range x.args {
				b.WriteByte(' ')
				b.WriteString(ref(a))
			}
			b.WriteByte(')')
		}
		fmt.Fprintf(w, "(define-fun %s () %s %s)\n", smtName(x), sortStr(x.w), b.String())
	}
}

func coneVars(ts []*Term) []*Term {
	seen := map[int]bool{}
	var vs []*Term
	st := append([]*Term{}, ts...)
	for len(st) > 0 {
		t := st[len(st)-1]
		st = st[:len(st)-1]
		if seen[t.id] || t.op == OConst {
			continue
		}
		seen[t.id] = true
		if t.op == OVar {
			vs = append(vs, t)
		}
		st = append(st, t.args...)
	}
	return vs
}

// slice keeps only the assertions transitively sharing variables with goal.
func (s *Solver) sliceFor(pc []*Term, goal *Term, cv map[int][]int) []*Term {
	return pc
}

// Check decides satisfiability of the conjunction.
func (s *Solver) Check(as []*Term, hard bool) (Res, *Model) {
	var live []*Term
	for _, a := range as {
		if a == s.c.True {
			continue
		}
		if a == s.c.False {
			return Unsat, nil
		}
		live = append(live, a)
	}
	if len(live) == 0 {
		return Sat, NewModel()
	}
	t0 := time.Now()
	s.Stats.Queries++
	r, m := s.soft(live)
	if r == Unknown {
		s.Stats.HardN++
		r, m = s.hardCheck(live)
	}
	d := time.Since(t0)
	s.Stats.Time += d
	if d > s.Stats.MaxQuery {
		s.Stats.MaxQuery = d
	}
	switch r {
	case Sat:
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	default:
		s.Stats.UnknownN++
	}
	if r == Sat {
		// validate the model against our own evaluator
		for _, a := range live {
			if !m.EvalBool(a) {
				fmt.Fprintf(os.Stderr, "engine: solver model does not satisfy assertion %s\n", a)
				s.Stats.UnknownN++
				return Unknown, nil
			}
		}
	}
	return r, m
}

// quick asks the incremental solver only, with a short limit.
func (s *Solver) quick(as []*Term, ms int) (Res, *Model) {
	var live []*Term
	for _, a := range as {
		if a == s.c.False {
			return Unsat, nil
		}
		if a != s.c.True {
			live = append(live, a)
		}
	}
	if len(live) == 0 {
		return Sat, NewModel()
	}
	t0 := time.Now()
	s.Stats.Queries++
	old := s.softMs
	s.softMs = ms
	r, m := s.soft(live)
	s.softMs = old
	s.Stats.Time += time.Since(t0)
	switch r {
	case Sat:
		for _, a := range live {
			if !m.EvalBool(a) {
				return Unknown, nil
			}
		}
		s.Stats.SatN++
	case Unsat:
		s.Stats.UnsatN++
	}
	return r, m
}

func (s *Solver) soft(as []*Term) (Res, *Model) {
	if s.cmd == nil {
		s.start()
	}
	for _, a := range as {
		emit(s.in, a, s.defined)
	}
	vs := coneVars(as)
	fmt.Fprintf(s.in, "(push 1)\n")
	for _, a := range as {
		fmt.Fprintf(s.in, "(assert %s)\n", ref(a))
	}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n(check-sat)\n(echo \"=done=\")\n", s.softMs)
	if err := s.in.Flush(); err != nil {
		s.Close()
		return Unknown, nil
	}
	// watchdog
	proc := s.cmd.Process
	wd := time.AfterFunc(time.Duration(s.softMs)*time.Millisecond*3/2+2*time.Second, func() { proc.Kill() })
	res := Unknown
	bad := false
	for {
		line, err := s.out.ReadString('\n')
		if err != nil {
			wd.Stop()
			s.Close()
			return Unknown, nil
		}
		line = strings.TrimSpace(line)
		if line == "=done=" {
			break
		}
		switch {
		case line == "sat":
			res = Sat
		case line == "unsat":
			res = Unsat
		case line == "unknown", line == "timeout":
			res = Unknown
		case strings.HasPrefix(line, "(error"):
			bad = true
			fmt.Fprintln(os.Stderr, "engine: solver:", line)
		}
	}
	var m *Model
	if res == Sat && !bad {
		m = NewModel()
		if len(vs) > 0 {
			var names []string
			for _, v := range vs {
				names = append(names, smtName(v))
			}
			fmt.Fprintf(s.in, "(get-value (%s))\n(echo \"=done=\")\n", strings.Join(names, " "))
			s.in.Flush()
			var buf bytes.Buffer
			for {
				line, err := s.out.ReadString('\n')
				if err != nil {
					wd.Stop()
					s.Close()
					return Unknown, nil
				}
				if strings.TrimSpace(line) == "=done=" {
					break
				}
				buf.WriteString(line)
			}
			parseValues(buf.String(), vs, m)
		}
	}
	wd.Stop()
	fmt.Fprintf(s.in, "(pop 1)\n")
	if bad {
		return Unknown, nil
	}
	if res != Unknown {
		s.Stats.BySolver["z3-new/incremental"]++
	}
	return res, m
}

func parseValues(txt string, vs []*Term, m *Model) {
	byName := map[string]*Term{}
	for _, v := range vs {
		byName[smtName(v)] = v
	}
	toks := tokenize(txt)
	for i := 0; i < len(toks); i++ {
		v, ok := byName[toks[i]]
		if !ok || i+1 >= len(toks) {
			continue
		}
		x := toks[i+1]
		var b *big.Int
		switch {
		case x == "true":
			b = big.NewInt(1)
		case x == "false":
			b = big.NewInt(0)
		case strings.HasPrefix(x, "#x"):
			b, _ = new(big.Int).SetString(x[2:], 16)
		case strings.HasPrefix(x, "#b"):
			b, _ = new(big.Int).SetString(x[2:], 2)
		case x == "(" && i+3 < len(toks) && toks[i+2] == "_":
			b, _ = new(big.Int).SetString(strings.TrimPrefix(toks[i+3], "bv"), 10)
		}
		if b != nil {
			m.vals[v.id] = b
		}
	}
}

func tokenize(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		ch := s[i]
		switch {
		case ch == '(' || ch == ')':
			out = append(out, string(ch))
			i++
		case ch == ' ' || ch == '\n' || ch == '\t' || ch == '\r':
			i++
		default:
			j := i
			for j < len(s) && !strings.ContainsRune("() \n\t\r", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

var hardSem = make(chan struct{}, 4)

// hardCheck runs a portfolio of one-shot solvers.
func (s *Solver) hardCheck(as []*Term) (Res, *Model) {
	budget := time.Duration(s.hardMs) * time.Millisecond
	if !s.deadline.IsZero() {
		if rem := time.Until(s.deadline); rem < budget {
			budget = rem
		}
	}
	if budget < 500*time.Millisecond {
		return Unknown, nil
	}
	hardSem <- struct{}{}
	defer func() { <-hardSem }()
	var buf bytes.Buffer
	fmt.Fprintf(&buf, "(set-option :produce-models true)\n(set-logic QF_BV)\n")
	def := map[int]bool{}
	for _, a := range as {
		emit(&buf, a, def)
	}
	for _, a := range as {
		fmt.Fprintf(&buf, "(assert %s)\n", ref(a))
	}
	vs := coneVars(as)
	fmt.Fprintf(&buf, "(check-sat)\n")
	var names []string
	for _, v := range vs {
		names = append(names, smtName(v))
	}
	getv := fmt.Sprintf("(get-value (%s))\n", strings.Join(names, " "))
	script := buf.String() + getv
	if d := os.Getenv("GOSYM_DUMP"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/hard-%d.smt2", d, time.Now().UnixNano()), []byte(script), 0644)
	}
	ctx, cancel := context.WithTimeout(context.Background(), budget)
	defer cancel()
	type ans struct {
		r   Res
		m   *Model
		who string
	}
	cmds := [][]string{
		{"z3-new", "-memory:4000", "-in", "-smt2"},
		{"sh", "-c", "ulimit -v 5000000; exec cvc5 --lang=smt2 -"},
		{"sh", "-c", "ulimit -v 5000000; exec cvc5 --lang=smt2 --solve-bv-as-int=sum -"},
	}
	ch := make(chan ans, len(cmds))
	var wg sync.WaitGroup
	for _, cm := range cmds {
		wg.Add(1)
		go func(cm []string) {
			defer wg.Done()
			cmd := exec.CommandContext(ctx, cm[0], cm[1:]...)
			cmd.Stdin = strings.NewReader(script)
			out, _ := cmd.Output()
			txt := string(out)
			first, rest, _ := strings.Cut(txt, "\n")
			first = strings.TrimSpace(first)
			a := ans{who: strings.Join(cm, " ")}
			switch first {
			case "sat":
				if !strings.Contains(rest, "(error") {
					a.r = Sat
					a.m = NewModel()
					parseValues(rest, vs, a.m)
				}
			case "unsat":
				a.r = Unsat
			}
			ch <- a
		}(cm)
	}
	res := Unknown
	var m *Model
	for range cmds {
		a := <-ch
		if a.r != Unknown {
			res, m = a.r, a.m
			s.Stats.BySolver[a.who]++
			break
		}
	}
	cancel()
	wg.Wait()
	return res, m
}
