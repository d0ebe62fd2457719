package main

import (
	"fmt"
	"go/types"
	"regexp"
	"regexp/syntax"
	"strings"
	"sync"
	"unicode"

	"golang.org/x/tools/go/ssa"
)

// ---- symbolic regular expression matching (leftmost-first, as package regexp) ----

type rrange struct{ lo, hi rune }

type symRegexp struct {
	src   string
	prog  *syntax.Prog
	re    *regexp.Regexp
	rs    [][]rrange // per instruction
	first []fset
	ncap  int
}

type fset struct {
	rs       []rrange
	nullable bool
}

var reCache sync.Map

func compileRe(src string) (*symRegexp, error) {
	if x, ok := reCache.Load(src); ok {
		return x.(*symRegexp), nil
	}
	re, err := regexp.Compile(src)
	if err != nil {
		return nil, err
	}
	p, _ := syntax.Parse(src, syntax.Perl)
	prog, err := syntax.Compile(p.Simplify())
	if err != nil {
		return nil, err
	}
	s := &symRegexp{src: src, prog: prog, re: re, ncap: prog.NumCap / 2}
	s.rs = make([][]rrange, len(prog.Inst))
	for i := range prog.Inst {
		s.rs[i] = instRanges(&prog.Inst[i])
	}
	s.first = make([]fset, len(prog.Inst))
	for i := range prog.Inst {
		s.first[i] = s.firstOf(uint32(i), map[uint32]bool{})
	}
	reCache.Store(src, s)
	return s, nil
}

func instRanges(in *syntax.Inst) []rrange {
	switch in.Op {
	case syntax.InstRuneAny:
		return []rrange{{0, unicode.MaxRune}}
	case syntax.InstRuneAnyNotNL:
		return []rrange{{0, '\n' - 1}, {'\n' + 1, unicode.MaxRune}}
	case syntax.InstRune1:
		return []rrange{{in.Rune[0], in.Rune[0]}}
	case syntax.InstRune:
		if len(in.Rune) == 1 {
			r0 := in.Rune[0]
			out := []rrange{{r0, r0}}
			if syntax.Flags(in.Arg)&syntax.FoldCase != 0 {
				for r := unicode.SimpleFold(r0); r != r0; r = unicode.SimpleFold(r) {
					out = append(out, rrange{r, r})
				}
			}
			return out
		}
		var out []rrange
		for i := 0; i+1 < len(in.Rune); i += 2 {
			out = append(out, rrange{in.Rune[i], in.Rune[i+1]})
		}
		return out
	}
	return nil
}

func (s *symRegexp) firstOf(pc uint32, seen map[uint32]bool) fset {
	if seen[pc] {
		return fset{}
	}
	seen[pc] = true
	in := &s.prog.Inst[pc]
	switch in.Op {
	case syntax.InstAlt, syntax.InstAltMatch:
		a, b := s.firstOf(in.Out, seen), s.firstOf(in.Arg, seen)
		return fset{append(append([]rrange{}, a.rs...), b.rs...), a.nullable || b.nullable}
	case syntax.InstCapture, syntax.InstNop, syntax.InstEmptyWidth:
		return s.firstOf(in.Out, seen)
	case syntax.InstMatch:
		return fset{nullable: true}
	case syntax.InstFail:
		return fset{}
	}
	return fset{rs: s.rs[pc]}
}

func (f fset) meets(lo, hi rune) bool {
	if f.nullable {
		return true
	}
	for _, r := range f.rs {
		if r.lo <= hi && lo <= r.hi {
			return true
		}
	}
	return false
}

// loopExit: instruction pc is the body of a self loop; returns the exit pc and whether the loop is greedy.
func (s *symRegexp) loopExit(pc uint32) (exit uint32, greedy, ok bool) {
	out := s.prog.Inst[pc].Out
	for s.prog.Inst[out].Op == syntax.InstNop {
		out = s.prog.Inst[out].Out
	}
	alt := &s.prog.Inst[out]
	if alt.Op != syntax.InstAlt {
		return 0, false, false
	}
	if alt.Out == pc {
		return alt.Arg, true, true
	}
	if alt.Arg == pc {
		return alt.Out, false, true
	}
	return 0, false, false
}

type tok struct {
	b *Term  // a single byte
	p *piece // or a whole piece
}

type reRestart struct{ pos int }

type matcher struct {
	m     *Machine
	re    *symRegexp
	toks  []tok
	visit map[[2]int]bool
	caps  []int
	steps int
}

func (m *Machine) toToks(s *Seq) []tok {
	var out []tok
	for i := range s.p {
		x := &s.p[i]
		switch x.k {
		case pLit:
			for j := 0; j < len(x.lit); j++ {
				out = append(out, tok{b: m.tc.BV(8, uint64(x.lit[j]))})
			}
		case pByte:
			out = append(out, tok{b: x.t})
		default:
			out = append(out, tok{p: x})
		}
	}
	return out
}

func (m *Machine) fromToks(ts []tok) *Seq {
	b := seqB{}
	for _, t := range ts {
		if t.p != nil {
			b.add(*t.p)
		} else {
			b.add(piece{k: pByte, t: t.b})
		}
	}
	return b.seq()
}

// pieceRange: bytes a piece can hold (when non-empty) – valid after sign handling.
func pieceRange(p *piece) (rune, rune) {
	switch p.k {
	case pDec:
		return '0', '9'
	case pRep:
		return rune(p.t.umin), rune(p.t.umax)
	case pView:
		return rune(p.t.lo8()), rune(p.t.hi8())
	}
	return 0, 255
}

func inRanges(rs []rrange, lo, hi rune) int { // 1 all, 0 none, -1 mixed
	any := false
	for _, r := range rs {
		if r.lo <= lo && hi <= r.hi {
			return 1
		}
		if r.lo <= hi && lo <= r.hi {
			any = true
		}
	}
	if !any {
		return 0
	}
	// contiguous coverage by several ranges
	for x := lo; x <= hi; x++ {
		ok := false
		for _, r := range rs {
			if r.lo <= x && x <= r.hi {
				ok = true
				break
			}
		}
		if !ok {
			return -1
		}
		if hi-lo > 300 {
			return -1
		}
	}
	return 1
}

// member decides whether the rune term (any width) lies in the ranges.
func (m *Machine) member(t *Term, rs []rrange) bool {
	if v := memberStatic(t, rs, 4); v >= 0 {
		return v == 1
	}
	c := m.tc
	r := c.ff
	for _, x := range rs {
		if uint64(x.lo) > mask(t.w) {
			continue
		}
		hi := min(uint64(x.hi), mask(t.w))
		if uint64(x.lo) == hi {
			r = c.Or(r, c.Eq(t, c.BV(t.w, hi)))
		} else {
			r = c.Or(r, c.And(c.Ule(c.BV(t.w, uint64(x.lo)), t), c.Ule(t, c.BV(t.w, hi))))
		}
	}
	return m.branch(r)
}

func memberStatic(t *Term, rs []rrange, d int) int {
	if t.umax > unicode.MaxRune {
		return -1
	}
	v := inRanges(rs, rune(t.umin), rune(t.umax))
	if v >= 0 {
		return v
	}
	if t.op == OIte && d > 0 {
		a, b := memberStatic(t.b, rs, d-1), memberStatic(t.c, rs, d-1)
		if a == b {
			return a
		}
	}
	return -1
}

// runeAt decodes the rune at a byte token.
func (x *matcher) runeAt(pos int) (*Term, int) {
	b := x.toks[pos].b
	if b.umax < 0x80 {
		return b, 1
	}
	var bs []*Term
	for i := pos; i < len(x.toks) && i < pos+4; i++ {
		if x.toks[i].p != nil {
			lo, hi := pieceRange(x.toks[i].p)
			if hi >= 0x80 && lo <= 0xbf {
				panic(reRestart{i})
			}
			if x.toks[i].p.k == pRep || x.toks[i].p.k == pView {
				if x.m.branch(x.m.tc.Eq(x.toks[i].p.n, x.m.tc.BV(64, 0))) {
					continue
				}
			}
			break
		}
		bs = append(bs, x.toks[i].b)
	}
	return x.m.decodeRune(bs)
}

func (x *matcher) run(pc uint32, pos int) bool {
	for {
		x.steps++
		if x.steps > 200000 {
			panic(pathEnd{kind: "limit", msg: "regexp steps"})
		}
		k := [2]int{int(pc), pos}
		if x.visit[k] {
			return false
		}
		x.visit[k] = true
		in := &x.re.prog.Inst[pc]
		switch in.Op {
		case syntax.InstAlt, syntax.InstAltMatch:
			if x.run(in.Out, pos) {
				return true
			}
			pc = in.Arg
			continue
		case syntax.InstCapture:
			if int(in.Arg) < len(x.caps) {
				old := x.caps[in.Arg]
				x.caps[in.Arg] = pos
				if x.run(in.Out, pos) {
					return true
				}
				x.caps[in.Arg] = old
				return false
			}
			pc = in.Out
			continue
		case syntax.InstNop:
			pc = in.Out
			continue
		case syntax.InstEmptyWidth:
			ok := false
			switch syntax.EmptyOp(in.Arg) {
			case syntax.EmptyBeginText:
				ok = pos == 0
			case syntax.EmptyEndText:
				ok = x.atEnd(pos)
			default:
				unsupported("regexp empty-width op %v", in.Arg)
			}
			if !ok {
				return false
			}
			pc = in.Out
			continue
		case syntax.InstMatch:
			x.caps[1] = pos
			return true
		case syntax.InstFail:
			return false
		}
		// rune instruction
		if pos >= len(x.toks) {
			return false
		}
		if p := x.toks[pos].p; p != nil {
			if p.k == pRep || p.k == pView {
				if x.m.branch(x.m.tc.Eq(p.n, x.m.tc.BV(64, 0))) {
					pos++
					continue
				}
			}
			if p.k == pDec && p.signed && !p.t.nonneg() {
				if x.m.branch(x.m.tc.Slt(p.t, x.m.tc.BV(p.t.w, 0))) {
					panic(reRestart{pos})
				}
			}
			lo, hi := pieceRange(p)
			if hi >= 0x80 && p.k == pView && !x.anyClass(pc) {
				panic(reRestart{pos})
			}
			switch inRanges(x.re.rs[pc], lo, hi) {
			case 0:
				return false
			case -1:
				panic(reRestart{pos})
			}
			exit, greedy, ok := x.re.loopExit(pc)
			if !ok {
				panic(reRestart{pos})
			}
			ef := x.re.first[exit]
			if greedy {
				if x.run(in.Out, pos+1) {
					return true
				}
				if ef.meets(lo, hi) {
					panic(reRestart{pos})
				}
				return false
			}
			if ef.meets(lo, hi) {
				panic(reRestart{pos})
			}
			pc = in.Out
			pos++
			continue
		}
		if b := x.toks[pos].b; b.op != OConst && !x.feasible(pc, pos, 12) {
			return false
		}
		r, n := x.runeAt(pos)
		if !x.m.member(r, x.re.rs[pc]) {
			return false
		}
		// n byte tokens (skipping empty pieces)
		for n > 0 {
			if x.toks[pos].p == nil {
				n--
			}
			pos++
		}
		pc = in.Out
	}
}

// feasible: false if no match can continue at pc, pos, whatever the values of the next bytes are
// (decided from their ranges alone, so that no path is split for it).
func (x *matcher) feasible(pc uint32, pos, depth int) bool {
	if depth == 0 {
		return true
	}
	in := &x.re.prog.Inst[pc]
	switch in.Op {
	case syntax.InstAlt, syntax.InstAltMatch:
		return x.feasible(in.Out, pos, depth-1) || x.feasible(in.Arg, pos, depth-1)
	case syntax.InstCapture, syntax.InstNop:
		return x.feasible(in.Out, pos, depth)
	case syntax.InstFail:
		return false
	case syntax.InstMatch, syntax.InstEmptyWidth:
		return true
	}
	if pos >= len(x.toks) {
		return false
	}
	b := x.toks[pos].b
	if b == nil || b.umax >= 0x80 {
		return true
	}
	if memberStatic(b, x.re.rs[pc], 4) == 0 {
		return false
	}
	return x.feasible(in.Out, pos+1, depth-1)
}

// anyClass: the class accepts every rune (so UTF-8 validity does not matter).
func (x *matcher) anyClass(pc uint32) bool {
	rs := x.re.rs[pc]
	return len(rs) == 1 && rs[0].lo == 0 && rs[0].hi == unicode.MaxRune
}

func (x *matcher) atEnd(pos int) bool {
	for ; pos < len(x.toks); pos++ {
		p := x.toks[pos].p
		if p == nil || p.k == pDec {
			return false
		}
		if !x.m.branch(x.m.tc.Eq(p.n, x.m.tc.BV(64, 0))) {
			return false
		}
	}
	return true
}

// find: leftmost-first match starting at or after token position from; returns capture positions or nil.
func (m *Machine) reFind(re *symRegexp, toks *[]tok, from int) []int {
	for tries := 0; tries < 200; tries++ {
		x := &matcher{m: m, re: re, toks: *toks}
		caps, again := x.try(from)
		if again < 0 {
			return caps
		}
		// expand the token and retry
		p := (*toks)[again].p
		e := m.expand(&Seq{p: []piece{*p}})
		nt := append([]tok{}, (*toks)[:again]...)
		nt = append(nt, m.toToks(e)...)
		nt = append(nt, (*toks)[again+1:]...)
		*toks = nt
	}
	panic(pathEnd{kind: "limit", msg: "regexp restarts"})
}

func (x *matcher) try(from int) (caps []int, again int) {
	again = -1
	defer func() {
		if r := recover(); r != nil {
			if rr, ok := r.(reRestart); ok {
				again = rr.pos
				return
			}
			panic(r)
		}
	}()
	x.visit = map[[2]int]bool{}
	start := uint32(x.re.prog.Start)
	anchored := x.re.prog.StartCond()&syntax.EmptyBeginText != 0
	for pos := from; pos <= len(x.toks); pos++ {
		if anchored && pos > 0 {
			return nil, -1
		}
		x.caps = make([]int, 2*x.re.ncap)
		for i := range x.caps {
			x.caps[i] = -1
		}
		x.caps[0] = pos
		if pos < len(x.toks) && x.toks[pos].p == nil && pos > 0 && x.toks[pos].b.umin >= 0x80 && x.toks[pos].b.umax <= 0xbf && x.toks[pos].b.op == OConst {
			continue // continuation byte of a literal rune
		}
		if x.run(start, pos) {
			return x.caps, -1
		}
		if pos < len(x.toks) && x.toks[pos].p != nil {
			p := x.toks[pos].p
			lo, hi := pieceRange(p)
			if p.k == pDec && p.signed && !p.t.nonneg() && x.m.branch(x.m.tc.Slt(p.t, x.m.tc.BV(p.t.w, 0))) {
				panic(reRestart{pos})
			}
			if x.re.first[start].meets(lo, hi) {
				panic(reRestart{pos})
			}
		}
	}
	return nil, -1
}

type reModel struct{ re *symRegexp }

func (m *Machine) reOf(v value) *symRegexp {
	r := slot[*reModel](m, v)
	return r.re
}

func (m *Machine) strSlice(ss []*Seq) *Slice {
	e := make([]value, len(ss))
	for i := range ss {
		e[i] = ss[i]
	}
	return &Slice{e: e}
}

func (m *Machine) reSubmatch(re *symRegexp, s *Seq) []*Seq {
	if x, ok := s.concrete(); ok {
		mm := re.re.FindStringSubmatch(x)
		if mm == nil {
			return nil
		}
		out := make([]*Seq, len(mm))
		for i := range mm {
			out[i] = litSeq(mm[i])
		}
		return out
	}
	toks := m.toToks(s)
	caps := m.reFind(re, &toks, 0)
	if caps == nil {
		return nil
	}
	out := make([]*Seq, len(caps)/2)
	for i := range out {
		out[i] = emptySeq
		if caps[2*i] >= 0 && caps[2*i+1] >= 0 {
			out[i] = m.fromToks(toks[caps[2*i]:caps[2*i+1]])
		}
	}
	return out
}

func (m *Machine) contains(s *Seq, lit string) bool {
	if x, ok := s.concrete(); ok {
		return strings.Contains(x, lit)
	}
	re, err := compileRe(regexp.QuoteMeta(lit))
	if err != nil {
		unsupported("contains %q", lit)
	}
	toks := m.toToks(s)
	return m.reFind(re, &toks, 0) != nil
}

func (m *Machine) concreteStr(v value, what string) string {
	s, ok := v.(*Seq).concrete()
	if !ok {
		unsupported("symbolic %s", what)
	}
	return s
}

func (m *Machine) hasPrefix(s, p *Seq) bool {
	pl := m.seqLen(p)
	if !m.branch(m.tc.Ule(pl, m.seqLen(s))) {
		return false
	}
	h, _ := m.splitAt(s, pl)
	return m.branch(m.seqEq(h, p))
}

func (m *Machine) hasSuffix(s, p *Seq) bool {
	pl := m.seqLen(p)
	sl := m.seqLen(s)
	if !m.branch(m.tc.Ule(pl, sl)) {
		return false
	}
	_, t := m.splitAt(s, m.tc.Bin(OSub, sl, pl))
	return m.branch(m.seqEq(t, p))
}

var spaceRanges = []rrange{{'\t', '\r'}, {' ', ' '}, {0x85, 0x85}, {0xa0, 0xa0}, {0x1680, 0x1680}, {0x2000, 0x200a}, {0x2028, 0x2029}, {0x202f, 0x202f}, {0x205f, 0x205f}, {0x3000, 0x3000}}

// trimBy removes leading/trailing runes lying in the ranges.
func (m *Machine) trimBy(s *Seq, rs []rrange, left, right bool) *Seq {
	toks := m.toToks(s)
	c := m.tc
	nonASCIIin := false
	for _, r := range rs {
		if r.hi >= 0x80 {
			nonASCIIin = true
		}
	}
	// status of a token: 1 trimmed, 0 stays, expands otherwise
	expandAt := func(i int) {
		e := m.expand(&Seq{p: []piece{*toks[i].p}})
		nt := append([]tok{}, toks[:i]...)
		nt = append(nt, m.toToks(e)...)
		nt = append(nt, toks[i+1:]...)
		toks = nt
	}
	lo, hi := 0, len(toks)
	if left {
		for lo < hi {
			p := toks[lo].p
			if p != nil {
				if p.k == pDec {
					if inRanges(rs, '0', '9') == 0 && inRanges(rs, '-', '-') == 0 {
						break
					}
				} else {
					if m.branch(c.Eq(p.n, c.BV(64, 0))) {
						lo++
						continue
					}
					a, b := pieceRange(p)
					if b < 0x80 {
						v := inRanges(rs, a, b)
						if v == 1 {
							lo++
							continue
						}
						if v == 0 {
							break
						}
					}
				}
				expandAt(lo)
				hi = len(toks)
				continue
			}
			t := toks[lo].b
			if t.umax < 0x80 || !nonASCIIin {
				if !m.member(t, rs) {
					break
				}
				lo++
				continue
			}
			x := &matcher{m: m, toks: toks}
			r, n := x.runeAtSafe(lo)
			if !m.member(r, rs) {
				break
			}
			for n > 0 {
				if toks[lo].p == nil {
					n--
				}
				lo++
			}
		}
	}
	if right {
		for lo < hi {
			p := toks[hi-1].p
			if p != nil {
				if p.k == pDec {
					if inRanges(rs, '0', '9') == 0 {
						break
					}
				} else {
					if m.branch(c.Eq(p.n, c.BV(64, 0))) {
						hi--
						continue
					}
					a, b := pieceRange(p)
					if b < 0x80 {
						v := inRanges(rs, a, b)
						if v == 1 {
							hi--
							continue
						}
						if v == 0 {
							break
						}
					}
				}
				n := len(toks)
				expandAt(hi - 1)
				hi += len(toks) - n
				continue
			}
			t := toks[hi-1].b
			if t.umax < 0x80 || !nonASCIIin {
				if !m.member(t, rs) {
					break
				}
				hi--
				continue
			}
			// possibly non-ASCII last rune: decode backwards
			if m.branch(c.Ult(t, c.BV(8, 0x80))) {
				if !m.member(t, rs) {
					break
				}
				hi--
				continue
			}
			// non-ASCII: decode the tail from up to 3 bytes back
			done := false
			for back := 2; back <= 4 && hi-back >= lo; back++ {
				var bs []*Term
				okb := true
				for i := hi - back; i < hi; i++ {
					if toks[i].p != nil {
						okb = false
						break
					}
					bs = append(bs, toks[i].b)
				}
				if !okb {
					unsupported("trim of non-ASCII tail after symbolic piece")
				}
				if m.branch(c.And(c.Ule(c.BV(8, 0x80), bs[0]), c.Ule(bs[0], c.BV(8, 0xbf)))) {
					continue
				}
				r, n := m.decodeRune(bs)
				if n == back && m.member(r, rs) {
					hi -= back
				} else {
					done = true
				}
				goto next
			}
			done = true
		next:
			if done {
				break
			}
		}
	}
	return m.fromToks(toks[lo:hi])
}

func (x *matcher) runeAtSafe(pos int) (r *Term, n int) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(reRestart); ok {
				unsupported("rune decoding across symbolic piece")
			}
			panic(e)
		}
	}()
	return x.runeAt(pos)
}

func cutRanges(cut string) []rrange {
	var rs []rrange
	for _, r := range cut {
		rs = append(rs, rrange{r, r})
	}
	return rs
}

func (m *Machine) mapBytes(s *Seq, f func(*Term) *Term, nonASCII bool) *Seq {
	s = m.expand2(s, func(p *piece) bool {
		return p.k == pDec || (p.k == pRep && p.t.op == OConst)
	})
	b := seqB{}
	for i := range s.p {
		x := s.p[i]
		switch x.k {
		case pLit:
			for j := 0; j < len(x.lit); j++ {
				b.add(piece{k: pByte, t: f(m.tc.BV(8, uint64(x.lit[j])))})
			}
		case pByte:
			b.add(piece{k: pByte, t: f(x.t)})
		case pRep:
			x.t = f(x.t)
			b.add(x)
		default:
			b.add(x)
		}
	}
	return b.seq()
}

// expand2 expands pieces except those kept.
func (m *Machine) expand2(s *Seq, keep func(*piece) bool) *Seq {
	b := seqB{}
	for i := range s.p {
		x := &s.p[i]
		if x.k == pLit || x.k == pByte || keep(x) {
			b.add(*x)
			continue
		}
		b.addSeq(m.expand(&Seq{p: []piece{*x}}))
	}
	return b.seq()
}

func init() {
	mustCompile := func(m *Machine, fn *ssa.Function, a []value) value {
		src := m.concreteStr(a[0], "regular expression")
		re, err := compileRe(src)
		if err != nil {
			panic(targetPanic{iface{t: types.Typ[types.String], v: litSeq("regexp: Compile: " + err.Error())}})
		}
		return m.newPtr(&reModel{re})
	}
	reg("regexp.MustCompile", mustCompile)
	reg("regexp.Compile", func(m *Machine, fn *ssa.Function, a []value) value {
		src := m.concreteStr(a[0], "regular expression")
		re, err := compileRe(src)
		if err != nil {
			return tuple{(*value)(nil), m.errNew(litSeq(err.Error()))}
		}
		return tuple{m.newPtr(&reModel{re}), m.nilErr()}
	})
	reg("regexp.QuoteMeta", func(m *Machine, fn *ssa.Function, a []value) value {
		return litSeq(regexp.QuoteMeta(m.concreteStr(a[0], "QuoteMeta")))
	})
	reg("regexp.MatchString", func(m *Machine, fn *ssa.Function, a []value) value {
		src := m.concreteStr(a[0], "regular expression")
		re, err := compileRe(src)
		if err != nil {
			return tuple{m.tc.ff, m.errNew(litSeq(err.Error()))}
		}
		return tuple{m.tc.Bool(m.reSubmatch(re, a[1].(*Seq)) != nil), m.nilErr()}
	})
	reg("(*regexp.Regexp).String", func(m *Machine, fn *ssa.Function, a []value) value { return litSeq(m.reOf(a[0]).src) })
	reg("(*regexp.Regexp).FindStringSubmatch", func(m *Machine, fn *ssa.Function, a []value) value {
		ss := m.reSubmatch(m.reOf(a[0]), a[1].(*Seq))
		if ss == nil {
			return &Slice{nilp: true}
		}
		return m.strSlice(ss)
	})
	reg("(*regexp.Regexp).FindString", func(m *Machine, fn *ssa.Function, a []value) value {
		ss := m.reSubmatch(m.reOf(a[0]), a[1].(*Seq))
		if ss == nil {
			return emptySeq
		}
		return ss[0]
	})
	reg("(*regexp.Regexp).FindSubmatch", func(m *Machine, fn *ssa.Function, a []value) value {
		ss := m.reSubmatch(m.reOf(a[0]), m.sliceSeq(a[1].(*Slice)))
		if ss == nil {
			return &Slice{nilp: true}
		}
		e := make([]value, len(ss))
		for i := range ss {
			e[i] = m.seqToSlice(ss[i])
		}
		return &Slice{e: e}
	})
	idx := func(m *Machine, re *symRegexp, s *Seq) []int {
		if x, ok := s.concrete(); ok {
			return re.re.FindStringSubmatchIndex(x)
		}
		return nil
	}
	symIdx := func(n int) nativeModel {
		return func(m *Machine, fn *ssa.Function, a []value) value {
			re, s := m.reOf(a[0]), a[1].(*Seq)
			if _, ok := s.concrete(); ok {
				ix := idx(m, re, s)
				if ix == nil {
					return &Slice{nilp: true}
				}
				if n > 0 {
					ix = ix[:n]
				}
				var e []value
				for _, k := range ix {
					e = append(e, m.tc.BV(64, uint64(int64(k))))
				}
				return &Slice{e: e}
			}
			toks := m.toToks(s)
			caps := m.reFind(re, &toks, 0)
			if caps == nil {
				return &Slice{nilp: true}
			}
			if n > 0 {
				caps = caps[:n]
			}
			var e []value
			for _, k := range caps {
				if k < 0 {
					e = append(e, m.tc.BV(64, ^uint64(0)))
				} else {
					e = append(e, m.seqLen(m.fromToks(toks[:k])))
				}
			}
			return &Slice{e: e}
		}
	}
	reg("(*regexp.Regexp).FindStringIndex", symIdx(2))
	reg("(*regexp.Regexp).FindStringSubmatchIndex", symIdx(0))
	reg("(*regexp.Regexp).MatchString", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.tc.Bool(m.reSubmatch(m.reOf(a[0]), a[1].(*Seq)) != nil)
	})
	reg("(*regexp.Regexp).Match", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.tc.Bool(m.reSubmatch(m.reOf(a[0]), m.sliceSeq(a[1].(*Slice))) != nil)
	})
	replaceAll := func(literal bool) nativeModel {
		return func(m *Machine, fn *ssa.Function, a []value) value {
			re, s, rep := m.reOf(a[0]), a[1].(*Seq), a[2].(*Seq)
			if x, ok := s.concrete(); ok {
				if y, ok := rep.concrete(); ok {
					if literal {
						return litSeq(re.re.ReplaceAllLiteralString(x, y))
					}
					return litSeq(re.re.ReplaceAllString(x, y))
				}
			}
			if y, ok := rep.concrete(); !literal && (!ok || strings.Contains(y, "$")) {
				unsupported("ReplaceAllString template")
			}
			if re.first[re.prog.Start].nullable {
				unsupported("ReplaceAllString with empty matches")
			}
			toks := m.toToks(s)
			out := emptySeq
			from := 0
			for {
				caps := m.reFind(re, &toks, from)
				if caps == nil {
					break
				}
				out = concat(out, m.fromToks(toks[from:caps[0]]), rep)
				from = caps[1]
			}
			return concat(out, m.fromToks(toks[from:]))
		}
	}
	reg("(*regexp.Regexp).ReplaceAllString", replaceAll(false))
	reg("(*regexp.Regexp).ReplaceAllLiteralString", replaceAll(true))

	// ---- strings ----
	reg("strings.Contains", func(m *Machine, fn *ssa.Function, a []value) value {
		if x, ok := a[1].(*Seq).concrete(); ok {
			return m.tc.Bool(m.contains(a[0].(*Seq), x))
		}
		unsupported("strings.Contains with symbolic needle")
		return nil
	})
	reg("strings.HasPrefix", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.tc.Bool(m.hasPrefix(a[0].(*Seq), a[1].(*Seq)))
	})
	reg("strings.HasSuffix", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.tc.Bool(m.hasSuffix(a[0].(*Seq), a[1].(*Seq)))
	})
	reg("bytes.HasPrefix", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.tc.Bool(m.hasPrefix(m.sliceSeq(a[0].(*Slice)), m.sliceSeq(a[1].(*Slice))))
	})
	reg("strings.TrimPrefix", func(m *Machine, fn *ssa.Function, a []value) value {
		s, p := a[0].(*Seq), a[1].(*Seq)
		if m.hasPrefix(s, p) {
			_, t := m.splitAt(s, m.seqLen(p))
			return t
		}
		return s
	})
	reg("strings.CutPrefix", func(m *Machine, fn *ssa.Function, a []value) value {
		s, p := a[0].(*Seq), a[1].(*Seq)
		if m.hasPrefix(s, p) {
			_, t := m.splitAt(s, m.seqLen(p))
			return tuple{t, m.tc.tt}
		}
		return tuple{s, m.tc.ff}
	})
	reg("strings.TrimSuffix", func(m *Machine, fn *ssa.Function, a []value) value {
		s, p := a[0].(*Seq), a[1].(*Seq)
		if m.hasSuffix(s, p) {
			t, _ := m.splitAt(s, m.tc.Bin(OSub, m.seqLen(s), m.seqLen(p)))
			return t
		}
		return s
	})
	reg("strings.TrimSpace", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.trimBy(a[0].(*Seq), spaceRanges, true, true)
	})
	reg("bytes.TrimSpace", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.seqToSlice(m.trimBy(m.sliceSeq(a[0].(*Slice)), spaceRanges, true, true))
	})
	reg("strings.Trim", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.trimBy(a[0].(*Seq), cutRanges(m.concreteStr(a[1], "cutset")), true, true)
	})
	reg("strings.TrimLeft", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.trimBy(a[0].(*Seq), cutRanges(m.concreteStr(a[1], "cutset")), true, false)
	})
	reg("strings.TrimRight", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.trimBy(a[0].(*Seq), cutRanges(m.concreteStr(a[1], "cutset")), false, true)
	})
	reg("strings.Repeat", func(m *Machine, fn *ssa.Function, a []value) value {
		s, n := a[0].(*Seq), a[1].(*Term)
		if m.branch(m.tc.Slt(n, m.tc.BV(64, 0))) {
			panic(targetPanic{iface{t: types.Typ[types.String], v: litSeq("strings: negative Repeat count")}})
		}
		if s.fixed() && s.fixedLen() == 1 {
			b := seqB{}
			b.add(piece{k: pRep, t: m.seqBytes(s)[0], n: n})
			return b.seq()
		}
		k := m.concretize(n, 300)
		var ss []*Seq
		for i := uint64(0); i < k; i++ {
			ss = append(ss, s)
		}
		return concat(ss...)
	})
	reg("strings.Join", func(m *Machine, fn *ssa.Function, a []value) value {
		var ss []*Seq
		for i, e := range a[0].(*Slice).e {
			if i > 0 {
				ss = append(ss, a[1].(*Seq))
			}
			ss = append(ss, e.(*Seq))
		}
		return concat(ss...)
	})
	cases := func(lo, hi byte, delta int) nativeModel {
		return func(m *Machine, fn *ssa.Function, a []value) value {
			s := a[0].(*Seq)
			if x, ok := s.concrete(); ok {
				if delta > 0 {
					return litSeq(strings.ToLower(x))
				}
				return litSeq(strings.ToUpper(x))
			}
			return m.mapBytes(s, func(t *Term) *Term {
				c := m.tc
				if t.umax >= 0x80 && t.op != OConst {
					if !m.branch(c.Ult(t, c.BV(8, 0x80))) {
						unsupported("case mapping of non-ASCII symbolic byte")
					}
				}
				in := c.And(c.Ule(c.BV(8, uint64(lo)), t), c.Ule(t, c.BV(8, uint64(hi))))
				return c.Ite(in, c.Bin(OAdd, t, c.BV(8, uint64(byte(delta)))), t)
			}, false)
		}
	}
	reg("strings.ToLower", cases('A', 'Z', 32))
	reg("strings.ToUpper", cases('a', 'z', -32))
	reg("strings.EqualFold", func(m *Machine, fn *ssa.Function, a []value) value {
		x, ok1 := a[0].(*Seq).concrete()
		y, ok2 := a[1].(*Seq).concrete()
		if ok1 && ok2 {
			return m.tc.Bool(strings.EqualFold(x, y))
		}
		if !ok2 && ok1 {
			x, y = y, x
			a[0], a[1] = a[1], a[0]
		}
		pat := x
		if ok1 {
			return m.tc.Bool(m.fullMatch(a[1].(*Seq), "(?i)"+regexp.QuoteMeta(pat)))
		}
		if ok2 {
			return m.tc.Bool(m.fullMatch(a[0].(*Seq), "(?i)"+regexp.QuoteMeta(y)))
		}
		unsupported("EqualFold of symbolic strings")
		return nil
	})
	reg("strings.Index", func(m *Machine, fn *ssa.Function, a []value) value {
		s := a[0].(*Seq)
		lit := m.concreteStr(a[1], "needle")
		return m.indexOf(s, lit)
	})
	reg("strings.IndexByte", func(m *Machine, fn *ssa.Function, a []value) value {
		b := a[1].(*Term)
		if b.op != OConst {
			unsupported("symbolic IndexByte")
		}
		return m.indexOf(a[0].(*Seq), string([]byte{byte(b.k)}))
	})
	reg("internal/bytealg.IndexByteString", func(m *Machine, fn *ssa.Function, a []value) value {
		b := a[1].(*Term)
		if b.op != OConst {
			unsupported("symbolic IndexByte")
		}
		return m.indexOf(a[0].(*Seq), string([]byte{byte(b.k)}))
	})
	reg("strings.IndexAny", func(m *Machine, fn *ssa.Function, a []value) value {
		set := m.concreteStr(a[1], "set")
		if set == "" {
			return m.tc.BV(64, ^uint64(0))
		}
		for i := 0; i < len(set); i++ {
			if set[i] >= 0x80 {
				return notHandled
			}
		}
		re, err := compileRe("[" + regexp.QuoteMeta(set) + "]")
		if err != nil {
			unsupported("IndexAny %q", set)
		}
		toks := m.toToks(a[0].(*Seq))
		caps := m.reFind(re, &toks, 0)
		if caps == nil {
			return m.tc.BV(64, ^uint64(0))
		}
		return m.seqLen(m.fromToks(toks[:caps[0]]))
	})
	reg("strings.Split", func(m *Machine, fn *ssa.Function, a []value) value {
		s := a[0].(*Seq)
		sep := m.concreteStr(a[1], "separator")
		if x, ok := s.concrete(); ok {
			var ss []*Seq
			for _, p := range strings.Split(x, sep) {
				ss = append(ss, litSeq(p))
			}
			return m.strSlice(ss)
		}
		if sep == "" {
			unsupported("Split with empty separator")
		}
		re, _ := compileRe(regexp.QuoteMeta(sep))
		toks := m.toToks(s)
		from := 0
		var ss []*Seq
		for {
			caps := m.reFind(re, &toks, from)
			if caps == nil {
				break
			}
			ss = append(ss, m.fromToks(toks[from:caps[0]]))
			from = caps[1]
		}
		ss = append(ss, m.fromToks(toks[from:]))
		return m.strSlice(ss)
	})
	reg("strings.Fields", func(m *Machine, fn *ssa.Function, a []value) value {
		s := a[0].(*Seq)
		if x, ok := s.concrete(); ok {
			var ss []*Seq
			for _, p := range strings.Fields(x) {
				ss = append(ss, litSeq(p))
			}
			return m.strSlice(ss)
		}
		re, _ := compileRe(`[^\s]+`)
		toks := m.toToks(s)
		from := 0
		var ss []*Seq
		for {
			caps := m.reFind(re, &toks, from)
			if caps == nil {
				break
			}
			ss = append(ss, m.fromToks(toks[caps[0]:caps[1]]))
			from = caps[1]
		}
		return m.strSlice(ss)
	})
	reg("strings.ReplaceAll", func(m *Machine, fn *ssa.Function, a []value) value {
		s := a[0].(*Seq)
		old := m.concreteStr(a[1], "ReplaceAll old")
		if x, ok := s.concrete(); ok {
			if y, ok := a[2].(*Seq).concrete(); ok {
				return litSeq(strings.ReplaceAll(x, old, y))
			}
		}
		if old == "" {
			unsupported("ReplaceAll of empty")
		}
		re, _ := compileRe(regexp.QuoteMeta(old))
		toks := m.toToks(s)
		from := 0
		out := emptySeq
		for {
			caps := m.reFind(re, &toks, from)
			if caps == nil {
				break
			}
			out = concat(out, m.fromToks(toks[from:caps[0]]), a[2].(*Seq))
			from = caps[1]
		}
		return concat(out, m.fromToks(toks[from:]))
	})
	// ---- hex ----
	reg("encoding/hex.DecodeString", func(m *Machine, fn *ssa.Function, a []value) value {
		s := m.expand(a[0].(*Seq))
		bs := m.seqBytes(s)
		var out []value
		bad := func(i int) value {
			t := m.w.typ("encoding/hex", "InvalidByteError")
			return tuple{&Slice{e: out}, iface{t: t, v: bs[i]}}
		}
		for i := 0; i+1 < len(bs); i += 2 {
			h, ok := m.hexNibble(bs[i])
			if !ok {
				return bad(i)
			}
			l, ok := m.hexNibble(bs[i+1])
			if !ok {
				return bad(i + 1)
			}
			out = append(out, m.tc.Concat(h, l))
		}
		if len(bs)%2 == 1 {
			if _, ok := m.hexNibble(bs[len(bs)-1]); !ok {
				return bad(len(bs) - 1)
			}
			return tuple{&Slice{e: out}, m.globalVal("encoding/hex", "ErrLength")}
		}
		return tuple{&Slice{e: out}, m.nilErr()}
	})
	reg("encoding/hex.EncodeToString", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.hexSeq(m.sliceSeq(a[0].(*Slice)), fmtSpec{verb: 'x'})
	})
}

func (m *Machine) fullMatch(s *Seq, pat string) bool {
	re, err := compileRe(`^(?:` + pat + `)$`)
	if err != nil {
		unsupported("pattern")
	}
	return m.reSubmatch(re, s) != nil
}

func (m *Machine) indexOf(s *Seq, lit string) value {
	if x, ok := s.concrete(); ok {
		return m.tc.BV(64, uint64(int64(strings.Index(x, lit))))
	}
	pat := regexp.QuoteMeta(lit)
	if len(lit) == 1 && lit[0] >= 0x80 {
		unsupported("IndexByte of non-ASCII byte")
	}
	re, err := compileRe(pat)
	if err != nil {
		unsupported("index %q", lit)
	}
	toks := m.toToks(s)
	caps := m.reFind(re, &toks, 0)
	if caps == nil {
		return m.tc.BV(64, ^uint64(0))
	}
	return m.seqLen(m.fromToks(toks[:caps[0]]))
}

var _ = fmt.Sprint
