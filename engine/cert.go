package main

import (
	"bytes"
	"context"
	"fmt"
	"os/exec"
	"strings"
	"time"
)

// The exhaustiveness certificate: the exploration is recorded as a graph of states. For each fork the
// record says that an execution in the state continues in one of the alternatives (for a schedule
// choice any of them, for a condition on inputs the one whose condition holds), for each merge that it
// continues in the merged state, and for each path that ended with every assertion satisfied that no
// execution remains. The solver is then asked for an execution (inputs, faults, schedule) that leaves
// the harness in any other way: UNSAT says that within the bound every one of them was followed to its
// end and satisfied all assertions there.

type certClause struct {
	from int32
	to   []int32 // any of these (schedule), or
	cond *Term   // cond and from imply to[0]; with no to: from implies cond (domain of an input)
}

type Cert struct {
	n       int32
	clauses []certClause
	off     bool
}

const certMax = 3000000

func (c *Cert) node() int32 { c.n++; return c.n }

func (c *Cert) add(x certClause) {
	if c.off {
		return
	}
	if len(c.clauses) >= certMax {
		c.off, c.clauses = true, nil
		return
	}
	c.clauses = append(c.clauses, x)
}

func (e *Eng) certEnd(st *State) {
	if !e.inInit {
		e.cert.add(certClause{from: st.cov})
	}
}

func (e *Eng) certDomain(st *State, t *Term) {
	if !e.inInit && t != e.c.True {
		e.cert.add(certClause{from: st.cov, cond: t})
	}
}

// certify asks the solver; "" when the record is not available.
func (e *Eng) certify(budget time.Duration) (verdict string, d time.Duration) {
	if e.cert.off || e.cert.n == 0 {
		return "", 0
	}
	var b bytes.Buffer
	b.WriteString("(set-logic QF_BV)\n")
	for i := int32(1); i <= e.cert.n; i++ {
		fmt.Fprintf(&b, "(declare-const s%d Bool)\n", i)
	}
	def := map[int]bool{}
	b.WriteString("(assert s1)\n")
	for _, c := range e.cert.clauses {
		switch {
		case c.cond != nil && len(c.to) == 0:
			emit(&b, c.cond, def)
			fmt.Fprintf(&b, "(assert (or (not s%d) %s))\n", c.from, ref(c.cond))
		case c.cond != nil:
			emit(&b, c.cond, def)
			fmt.Fprintf(&b, "(assert (or (not s%d) (not %s) s%d))\n", c.from, ref(c.cond), c.to[0])
		default:
			fmt.Fprintf(&b, "(assert (or (not s%d)", c.from)
			for _, x := range c.to {
				fmt.Fprintf(&b, " s%d", x)
			}
			b.WriteString("))\n")
		}
	}
	b.WriteString("(check-sat)\n")
	ctx, cancel := context.WithTimeout(context.Background(), budget)
	defer cancel()
	t0 := time.Now()
	cmd := exec.CommandContext(ctx, "z3-new", "-in", "-smt2")
	cmd.Stdin = &b
	out, _ := cmd.Output()
	d = time.Since(t0)
	verdict, _, _ = strings.Cut(string(out), "\n")
	verdict = strings.TrimSpace(verdict)
	if verdict != "sat" && verdict != "unsat" {
		verdict = "unknown"
	}
	return
}
