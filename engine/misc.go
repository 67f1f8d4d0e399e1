package main

import (
	"regexp"
	"regexp/syntax"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// NativeV wraps an engine-side object (compiled regular expressions).
type NativeV struct{ re *Rx }

type Rx struct {
	pat  string
	re   *regexp.Regexp
	prog *syntax.Prog
	lits map[string]bool
}

// initSkip abandons the failing call of a package initialiser: its result is opaque.
func (e *Eng) initSkip(st *State, msg string) bool {
	g := st.g()
	k := -1
	for i := len(g.frames) - 1; i >= 0; i-- {
		if fn := g.frames[i].fi.fn; fn.Synthetic == "package initializer" {
			k = i
			break
		}
	}
	if k < 0 {
		return false
	}
	g.frames = g.frames[:k+1]
	f := st.top()
	in := f.blk.Instrs[f.idx]
	switch in.(type) {
	case *ssa.If, *ssa.Jump, *ssa.Return:
		return false
	}
	if v, ok := in.(ssa.Value); ok {
		f.regs[f.fi.reg[v]] = Opaque{"initialiser: " + msg}
	}
	f.idx++
	e.initNotes = append(e.initNotes, msg)
	return true
}

func (e *Eng) rxOf(ic *ICall) *Rx {
	p, ok := ic.args[0].(PtrV)
	if !ok {
		unsupported("regexp value %T", ic.args[0])
	}
	v, _ := ic.st.get(p.obj)
	n, ok := v.(NativeV)
	if !ok {
		unsupported("regexp object %T", v)
	}
	return n.re
}

// matchesWide reports whether the instruction can match a rune beyond ASCII;
// one that cannot fails on each byte of such a rune.
func matchesWide(in *syntax.Inst) bool {
	switch in.Op {
	case syntax.InstRune1, syntax.InstRune:
		if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
			return true
		}
		for _, r := range in.Rune {
			if r >= 0x80 {
				return true
			}
		}
		return false
	}
	return true
}

// rxFind runs the leftmost-first matcher, deciding character tests symbolically.
func (e *Eng) rxFind(st *State, rx *Rx, s StrV) (lo, hi int) {
	if rx.prog == nil {
		unsupported("matching a symbolic regexp")
	}
	if s.sym == nil {
		loc := rx.re.FindStringIndex(s.s)
		if loc == nil {
			return -1, -1
		}
		return loc[0], loc[1]
	}
	n := s.Len()
	c := e.c
	isRune := func(in *syntax.Inst, pos int) bool {
		b := e.strAt(s, pos)
		if b.op == OConst && b.u >= 0x80 && !matchesWide(in) {
			return false
		}
		if !e.decide(st, c.Ult(b, c.BV(8, 0x80))) {
			unsupported("regexp on non-ASCII text")
		}
		if b.op == OConst {
			return in.MatchRune(rune(b.u))
		}
		var ts []*Term
		for r := 0; r < 0x80; r++ {
			if !in.MatchRune(rune(r)) {
				continue
			}
			q := r
			for q+1 < 0x80 && in.MatchRune(rune(q+1)) {
				q++
			}
			ts = append(ts, c.And(c.Ule(c.BV(8, uint64(r)), b), c.Ule(b, c.BV(8, uint64(q)))))
			r = q
		}
		return e.decide(st, c.Or(ts...))
	}
	for start := 0; start <= n; start++ {
		seen := map[[2]int]bool{}
		var run func(pc, pos int) int
		run = func(pc, pos int) int {
			if seen[[2]int{pc, pos}] {
				return -1
			}
			seen[[2]int{pc, pos}] = true
			in := &rx.prog.Inst[pc]
			switch in.Op {
			case syntax.InstMatch:
				return pos
			case syntax.InstFail:
				return -1
			case syntax.InstAlt, syntax.InstAltMatch:
				if r := run(int(in.Out), pos); r >= 0 {
					return r
				}
				return run(int(in.Arg), pos)
			case syntax.InstCapture, syntax.InstNop:
				return run(int(in.Out), pos)
			case syntax.InstEmptyWidth:
				f := syntax.EmptyOp(in.Arg)
				if f&^(syntax.EmptyBeginText|syntax.EmptyEndText) != 0 {
					unsupported("regexp assertion")
				}
				if f&syntax.EmptyBeginText != 0 && pos != 0 || f&syntax.EmptyEndText != 0 && pos != n {
					return -1
				}
				return run(int(in.Out), pos)
			}
			if pos < n && isRune(in, pos) {
				return run(int(in.Out), pos+1)
			}
			return -1
		}
		if r := run(rx.prog.Start, start); r >= 0 {
			return start, r
		}
	}
	return -1, -1
}

func initMisc() {
	m := intrinsics
	{
		compile := func(ic *ICall) Value {
			p := ic.str(0)
			if p.sym != nil { // cannot be matched against, only kept
				return PtrV{obj: ic.st.newObj(NativeV{&Rx{}})}
			}
			re, err := regexp.Compile(p.s)
			if err != nil {
				unsupported("bad regexp")
			}
			x, _ := syntax.Parse(p.s, syntax.Perl)
			prog, _ := syntax.Compile(x.Simplify())
			return PtrV{obj: ic.st.newObj(NativeV{&Rx{pat: p.s, re: re, prog: prog}})}
		}
		m["regexp.MustCompile"] = compile
		m["regexp.Compile"] = func(ic *ICall) Value { return TupleV{compile(ic), IfaceV{}} }
		m["regexp.QuoteMeta"] = func(ic *ICall) Value {
			p := ic.str(0)
			if p.sym == nil {
				return StrV{s: regexp.QuoteMeta(p.s)}
			}
			c := ic.e.c
			var out []*Term
			for _, b := range p.sym {
				var special []*Term
				for _, x := range []byte("\\.+*?()|[]{}^$") {
					special = append(special, c.Eq(b, c.BV(8, uint64(x))))
				}
				if ic.e.decide(ic.st, c.Or(special...)) {
					out = append(out, c.BV(8, '\\'))
				}
				out = append(out, b)
			}
			return mkStr(out)
		}
		m["runtime.Stack"] = func(ic *ICall) Value { return ic.e.c.BV(64, 0) }
		m["(*regexp.Regexp).MatchString"] = func(ic *ICall) Value {
			lo, _ := ic.e.rxFind(ic.st, ic.e.rxOf(ic), ic.str(1))
			return ic.e.c.Bool(lo >= 0)
		}
		m["(*regexp.Regexp).FindString"] = func(ic *ICall) Value {
			s := ic.str(1)
			lo, hi := ic.e.rxFind(ic.st, ic.e.rxOf(ic), s)
			if lo < 0 {
				return StrV{}
			}
			if s.sym == nil {
				return StrV{s: s.s[lo:hi]}
			}
			return mkStr(append([]*Term{}, s.sym[lo:hi]...))
		}
		m["(*regexp.Regexp).String"] = func(ic *ICall) Value { return StrV{s: ic.e.rxOf(ic).pat} }
	}
}

var _ = strings.Contains
