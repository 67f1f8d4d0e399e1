package main

import (
	"fmt"
	"os"
	"math/big"
	"math/rand"
	"sort"
	"time"
)

// Sweeping: before a hard goal goes to the solver portfolio, subterms of the goal that agree on
// many random models are proved equal one by one (by the solver, under the same constraints) and
// replaced by one representative, smallest first. Every replacement is an equality the solver has
// shown for all values, so the rewritten goal is equivalent.

func cone(t *Term) []*Term {
	seen := map[int]bool{}
	var out []*Term
	var walk func(*Term)
	walk = func(t *Term) {
		if seen[t.id] {
			return
		}
		seen[t.id] = true
		for _, a := range t.args {
			walk(a)
		}
		out = append(out, t)
	}
	walk(t)
	return out
}

// rebuild applies f bottom-up through the simplifying constructors.
func (c *Ctx) remake(t *Term, a []*Term) *Term {
	switch t.op {
	case OConst, OVar:
		return t
	case ONot:
		return c.Not(a[0])
	case OAnd:
		return c.And(a...)
	case OOr:
		return c.Or(a...)
	case OIte:
		return c.Ite(a[0], a[1], a[2])
	case OEq:
		return c.Eq(a[0], a[1])
	case OUlt:
		return c.Ult(a[0], a[1])
	case OUle:
		return c.Ule(a[0], a[1])
	case OSlt:
		return c.Slt(a[0], a[1])
	case OSle:
		return c.Sle(a[0], a[1])
	case OAdd:
		r := a[0]
		for _, x := range a[1:] {
			r = c.Add(r, x)
		}
		return r
	case OSub:
		return c.Sub(a[0], a[1])
	case OMul:
		r := a[0]
		for _, x := range a[1:] {
			r = c.Mul(r, x)
		}
		return r
	case OUdiv:
		return c.Udiv(a[0], a[1])
	case OUrem:
		return c.Urem(a[0], a[1])
	case OSdiv:
		return c.Sdiv(a[0], a[1])
	case OSrem:
		return c.Srem(a[0], a[1])
	case OBAnd:
		return c.BAnd(a[0], a[1])
	case OBOr:
		return c.BOr(a[0], a[1])
	case OBXor:
		return c.xorN(a)
	case OBNot:
		return c.BNot(a[0])
	case OShl:
		return c.Shl(a[0], a[1])
	case OLshr:
		return c.Lshr(a[0], a[1])
	case OAshr:
		return c.Ashr(a[0], a[1])
	case OConcat:
		return c.Concat(a[0], a[1])
	case OExtract:
		return c.Extract(t.hi, int(t.u), a[0])
	case OZext:
		return c.Zext(t.w, a[0])
	case OSext:
		return c.Sext(t.w, a[0])
	}
	return nil
}

func hardArith(ts []*Term) bool {
	for _, t := range ts {
		switch t.op {
		case OMul, OUdiv, OUrem, OSdiv, OSrem:
			return true
		}
	}
	return false
}

// models returns the models among a few small, random and structured ones that satisfy as.
func (e *Eng) models(vars []*Term, as []*Term, n int) []*Model {
	rng := rand.New(rand.NewSource(1))
	var out []*Model
	for i := 0; i < n; i++ {
		m := NewModel()
		for _, v := range vars {
			b := new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(max(v.w, 1))))
			switch i % 4 {
			case 1:
				b.Rsh(b, uint(rng.Intn(v.w+1)))
			case 2:
				b.SetUint64(uint64(i / 4))
				if v.w < 64 {
					b.SetUint64(b.Uint64() & (1<<uint(v.w) - 1))
				}
			}
			if v.ranged {
				b.SetUint64(v.ulo + b.Uint64()%(v.uhi-v.ulo+1))
			}
			m.vals[v.id] = b
		}
		ok := true
		for _, a := range as {
			if !m.EvalBool(a) {
				ok = false
				break
			}
		}
		if ok {
			out = append(out, m)
		}
	}
	return out
}

// guess looks for a model of as before a hard query goes to the portfolio: a satisfiable one is
// answered by evaluation, an unsatisfiable one never is.
func (e *Eng) guess(as []*Term) *Model {
	if len(cone(as[0])) > 60000 {
		return nil
	}
	if ms := e.models(coneVars(as), as, 40); len(ms) > 0 {
		return ms[0]
	}
	return nil
}

// sweep returns a goal equivalent to t under the assumptions as.
func (e *Eng) sweep(as []*Term, goal *Term, seedModel *Model) *Term {
	ts := cone(goal)
	if len(ts) > 60000 {
		return goal
	}
	rng := rand.New(rand.NewSource(1))
	vars := coneVars([]*Term{goal})
	var models []*Model
	if seedModel != nil {
		models = append(models, seedModel)
	}
	for i := 0; i < 24; i++ {
		m := NewModel()
		for _, v := range vars {
			b := new(big.Int).Rand(rng, new(big.Int).Lsh(big.NewInt(1), uint(max(v.w, 1))))
			if i%3 == 1 {
				b.Rsh(b, uint(rng.Intn(v.w+1)))
			}
			if v.ranged {
				b.SetUint64(v.ulo + b.Uint64()%(v.uhi-v.ulo+1))
			}
			m.vals[v.id] = b
		}
		ok := true
		for _, a := range as {
			if !m.EvalBool(a) {
				ok = false
				break
			}
		}
		if ok {
			models = append(models, m)
		}
	}
	if len(models) < 4 {
		return goal
	}
	sig := func(t *Term) string {
		var b []byte
		for _, m := range models {
			b = append(b, m.EvalBig(t).Bytes()...)
			b = append(b, '/')
		}
		return string(b)
	}
	sort.SliceStable(ts, func(i, j int) bool { return ts[i].depth < ts[j].depth })
	repl := map[int]*Term{}
	reps := map[string][]*Term{}
	tries, fails, t0 := 0, 0, time.Now()
	for _, t := range ts {
		if t.op == OConst {
			continue
		}
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = repl[a.id]
			if args[i] == nil {
				args[i] = a
			}
			ch = ch || args[i] != a
		}
		n := t
		if ch {
			n = e.c.remake(t, args)
		}
		repl[t.id] = n
		if n.w < 2 || n.op == OConst {
			continue
		}
		s := sig(n)
		for k, r := range reps[s] {
			a, b := n, r
			if a.w > b.w {
				b = e.c.Zext(a.w, b)
			} else if b.w > a.w {
				a = e.c.Zext(b.w, a)
			}
			if a == b {
				repl[t.id] = r
				if r.w != n.w {
					repl[t.id] = resizeTo(e.c, r, n.w)
				}
				break
			}
			if tries > 5000 || fails > 12 || k > 3 || time.Since(t0) > 40*time.Second {
				break
			}
			key := eqKey{a.id, b.id}
			if x, ok := e.eqCache[key]; ok && subset(x, as) {
				repl[t.id] = resizeTo(e.c, r, n.w)
				break
			}
			tries++
			// first with everything the two terms share left open, then in full
			var used []*Term
			r2, full := Unknown, false
			for _, d := range []int{5, 10, 16} {
				ca, cb := e.cancel(a, b)
				ca, cb = e.cut(ca, cb, d)
				full = ca == a && cb == b && len(as) == 0
				r2, _ = e.sol.quick([]*Term{e.c.Not(e.c.Eq(ca, cb))}, 1000)
				if r2 == Unsat || full || len(cone(ca)) > 2000 {
					break
				}
			}
			if r2 != Unsat && !full && len(cone(a)) < 400 {
				used = append([]*Term{}, as...)
				r2, _ = e.sol.quick(append(append([]*Term{}, as...), e.c.Not(e.c.Eq(a, b))), 4000)
			}
			if e.trace {
				fmt.Fprintf(os.Stderr, "SWEEP %v t=%.1f w=%d,%d\n   %s\n   %s\n", r2, time.Since(t0).Seconds(), n.w, r.w, n.str(4), r.str(4))
			}
			if r2 == Unsat {
				if e.eqCache == nil {
					e.eqCache = map[eqKey][]*Term{}
				}
				e.eqCache[key] = used
				repl[t.id] = resizeTo(e.c, r, n.w)
				break
			}
			fails++
		}
		if repl[t.id] == n {
			reps[s] = append(reps[s], n)
		}
	}
	return repl[goal.id]
}

func resizeTo(c *Ctx, r *Term, w int) *Term {
	if r.w == w {
		return r
	}
	if r.w < w {
		return c.Zext(w, r)
	}
	return c.Extract(w-1, 0, r)
}

type eqKey struct{ a, b int }

func subset(x, y []*Term) bool {
	for _, t := range x {
		ok := false
		for _, u := range y {
			if t == u {
				ok = true
				break
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// cut replaces the largest subterms shared by a and b with fresh variables.
func (e *Eng) cut(a, b *Term, depth int) (*Term, *Term) {
	in := func(t *Term) map[int]bool {
		m := map[int]bool{}
		for _, x := range cone(t) {
			m[x.id] = true
		}
		return m
	}
	sa, sb := in(a), in(b)
	memo := map[int]*Term{}
	var walk func(t *Term) *Term
	walk = func(t *Term) *Term {
		if t.op == OConst || t.op == OVar {
			return t
		}
		if r, ok := memo[t.id]; ok {
			return r
		}
		var r *Term
		if sa[t.id] && sb[t.id] && t.depth > depth {
			r = e.c.Var(fmt.Sprintf("cut!%d", t.id), t.w)
		} else {
			args := make([]*Term, len(t.args))
			for i, x := range t.args {
				args[i] = walk(x)
			}
			r = e.c.remake(t, args)
		}
		memo[t.id] = r
		return r
	}
	return walk(a), walk(b)
}

// cancel drops the operands two exclusive ors have in common.
func (e *Eng) cancel(a, b *Term) (*Term, *Term) {
	if a.op != OBXor || b.op != OBXor {
		return a, b
	}
	in := func(ts []*Term, t *Term) bool {
		for _, x := range ts {
			if x == t {
				return true
			}
		}
		return false
	}
	rest := func(x, y *Term) *Term {
		r := []*Term{e.c.BV(x.w, 0)}
		for _, t := range x.args {
			if !in(y.args, t) {
				r = append(r, t)
			}
		}
		return e.c.xorN(r)
	}
	return rest(a, b), rest(b, a)
}
