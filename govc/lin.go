package main

import (
	"os"
	"sort"
	"strconv"
)

// A small decision procedure for the linear part of a path condition, tried before the solvers.
// It only ever answers "inconsistent"; everything else goes to the solvers.  Forms are exact
// integers (a 64-bit term stands for its signed value, a narrower one for its unsigned value) and a
// sum is only formed where its interval shows that it cannot wrap.

type linT struct {
	x *Term
	c int64
}

type linForm struct {
	ts []linT // sorted by term id
	k  int64
}

const linBig = int64(1) << 58

var linCheck = os.Getenv("GOVC_LINCHECK") != ""

func (f *linForm) key() string {
	b := make([]byte, 0, 16*len(f.ts))
	for _, t := range f.ts {
		b = strconv.AppendInt(b, int64(t.x.id), 36)
		b = append(b, ':')
		b = strconv.AppendInt(b, t.c, 36)
		b = append(b, ' ')
	}
	return string(b)
}

func satAdd(a, b int64) (int64, bool) {
	s := a + b
	return s, s < linBig && s > -linBig
}

func satMul(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, true
	}
	p := a * b
	if p/b != a || p >= linBig || p <= -linBig {
		return 0, false
	}
	return p, true
}

// addScaled returns f + s*g.
func addScaled(f, g *linForm, s int64) (*linForm, bool) {
	r := &linForm{ts: make([]linT, 0, len(f.ts)+len(g.ts))}
	i, j := 0, 0
	for i < len(f.ts) || j < len(g.ts) {
		switch {
		case j >= len(g.ts) || (i < len(f.ts) && f.ts[i].x.id < g.ts[j].x.id):
			r.ts = append(r.ts, f.ts[i])
			i++
		default:
			c, ok := satMul(g.ts[j].c, s)
			if !ok {
				return nil, false
			}
			if i < len(f.ts) && f.ts[i].x == g.ts[j].x {
				if c, ok = satAdd(c, f.ts[i].c); !ok {
					return nil, false
				}
				i++
			}
			if c != 0 {
				r.ts = append(r.ts, linT{g.ts[j].x, c})
			}
			j++
		}
	}
	k, ok := satMul(g.k, s)
	if !ok {
		return nil, false
	}
	if r.k, ok = satAdd(f.k, k); !ok {
		return nil, false
	}
	return r, true
}

// bounds gives the interval of a form.
func (f *linForm) bounds() (int64, int64, bool) {
	lo, hi := f.k, f.k
	for _, t := range f.ts {
		a, ok1 := satMul(t.c, int64(t.x.umin))
		b, ok2 := satMul(t.c, int64(t.x.umax))
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		if t.c < 0 {
			a, b = b, a
		}
		if lo, ok1 = satAdd(lo, a); !ok1 {
			return 0, 0, false
		}
		if hi, ok1 = satAdd(hi, b); !ok1 {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

func linAtom(t *Term) *linForm {
	if t.umax >= 1<<56 {
		return nil
	}
	return &linForm{ts: []linT{{t, 1}}}
}

func linConst(k int64) *linForm { return &linForm{k: k} }

// lin gives the linear form of a term, or nil.
func (l *linStore) lin(t *Term) *linForm {
	if f, ok := l.cache[t]; ok {
		return f
	}
	f := l.lin1(t)
	l.cache[t] = f
	return f
}

func (l *linStore) lin1(t *Term) *linForm {
	if t.w <= 0 {
		return nil
	}
	full := t.w == 64
	fits := func(f *linForm, ok bool) *linForm {
		if !ok {
			return linAtom(t)
		}
		lo, hi, ok := f.bounds()
		if !ok {
			return linAtom(t)
		}
		if !full && (lo < 0 || uint64(hi) > mask(t.w)) {
			return linAtom(t)
		}
		return f
	}
	switch t.op {
	case OConst:
		k := int64(t.k)
		if k > 1<<56 || k < -(1<<56) {
			return nil
		}
		return linConst(k)
	case OAdd, OSub:
		a, b := l.lin(t.a), l.lin(t.b)
		if !full && t.op == OAdd && t.b.op == OConst && t.b.k > mask(t.w)>>1 { // a - small constant
			b = linConst(-int64(mask(t.w) - t.b.k + 1))
		} else if !full && t.op == OAdd && t.a.op == OConst && t.a.k > mask(t.w)>>1 {
			a = linConst(-int64(mask(t.w) - t.a.k + 1))
		}
		if a == nil || b == nil {
			return linAtom(t)
		}
		s := int64(1)
		if t.op == OSub {
			s = -1
		}
		return fits(addScaled(a, b, s))
	case OMul, OShl:
		a, b := t.a, t.b
		if t.op == OMul && a.op == OConst {
			a, b = b, a
		}
		if b.op != OConst {
			return linAtom(t)
		}
		s := b.k
		if t.op == OShl {
			if b.k > 30 {
				return linAtom(t)
			}
			s = 1 << b.k
		}
		fa := l.lin(a)
		if fa == nil || s > 1<<30 {
			return linAtom(t)
		}
		return fits(addScaled(linConst(0), fa, int64(s)))
	case OZext:
		if f := l.lin(t.a); f != nil {
			return f
		}
		return linAtom(t)
	case OSext:
		if t.a.umax <= mask(t.a.w)>>1 {
			if f := l.lin(t.a); f != nil {
				return f
			}
		}
		return linAtom(t)
	case OExtract:
		if t.lo == 0 && t.a.umax <= mask(t.w) {
			if f := l.lin(t.a); f != nil {
				if lo, _, ok := f.bounds(); ok && lo >= 0 {
					return f
				}
			}
		}
		return linAtom(t)
	}
	return linAtom(t)
}

// linStore holds facts "form >= 0".
type linStore struct {
	cache map[*Term]*linForm
	facts []*linForm
	index map[string]int
	hits  int
	depth int
}

func newLinStore(cache map[*Term]*linForm) *linStore {
	return &linStore{cache: cache, index: map[string]int{}}
}

// norm divides by the gcd of the coefficients, rounding the constant down.
func (f *linForm) norm() *linForm {
	var g int64
	for _, t := range f.ts {
		a := t.c
		if a < 0 {
			a = -a
		}
		for a != 0 {
			g, a = a, g%a
		}
	}
	if g <= 1 {
		return f
	}
	r := &linForm{ts: make([]linT, len(f.ts))}
	for i, t := range f.ts {
		r.ts[i] = linT{t.x, t.c / g}
	}
	r.k = f.k / g
	if f.k%g != 0 && f.k < 0 {
		r.k--
	}
	return r
}

func (l *linStore) add(f *linForm) {
	if f == nil {
		return
	}
	f = f.norm()
	k := f.key()
	if i, ok := l.index[k]; ok {
		if f.k < l.facts[i].k {
			l.facts[i] = f
		}
		return
	}
	l.index[k] = len(l.facts)
	l.facts = append(l.facts, f)
}

func diff(a, b *linForm, k int64) *linForm { // a - b + k
	f, ok := addScaled(a, b, -1)
	if !ok {
		return nil
	}
	f.k += k
	return f
}

// nonneg reports whether f >= 0 follows.
func (l *linStore) nonneg(f *linForm) bool {
	if lo, _, ok := f.bounds(); ok && lo >= 0 {
		return true
	}
	g, ok := addScaled(linConst(-1), f, -1) // -f-1 >= 0
	return ok && l.infeasible(g)
}

// learn adds what a literal says.
func (l *linStore) learn(t *Term, v bool) {
	for _, f := range l.literal(t, v) {
		l.add(f)
	}
}

// literal gives linear consequences of a literal (in the context of the facts).
func (l *linStore) literal(t *Term, v bool) []*linForm {
	switch t.op {
	case ONot:
		return l.literal(t.a, !v)
	case OAnd:
		if v {
			return append(l.literal(t.a, true), l.literal(t.b, true)...)
		}
	case OOr:
		if !v {
			return append(l.literal(t.a, false), l.literal(t.b, false)...)
		}
	case OUlt, OSlt:
		a, b := l.lin(t.a), l.lin(t.b)
		if a == nil || b == nil {
			return nil
		}
		full := t.a.w == 64
		if t.op == OSlt && !full {
			if h := mask(t.a.w) >> 1; t.a.umax > h || t.b.umax > h {
				return nil
			}
		}
		if v {
			if t.op == OUlt && full {
				if !l.nonneg(b) {
					return nil
				}
				return []*linForm{a, diff(b, a, -1)}
			}
			return []*linForm{diff(b, a, -1)}
		}
		if t.op == OUlt && full {
			if !l.nonneg(a) {
				return nil
			}
			return []*linForm{b, diff(a, b, 0)}
		}
		return []*linForm{diff(a, b, 0)}
	case OEq:
		if t.a.w <= 0 {
			return nil
		}
		a, b := l.lin(t.a), l.lin(t.b)
		if a == nil || b == nil {
			return nil
		}
		d, e := diff(a, b, 0), diff(b, a, 0)
		if d == nil || e == nil {
			return nil
		}
		if v {
			return []*linForm{d, e}
		}
		if l.nonneg(d) {
			d.k--
			return []*linForm{d}
		}
		if l.nonneg(e) {
			e.k--
			return []*linForm{e}
		}
	}
	return nil
}

// refutes reports whether the literal contradicts the facts.
func (l *linStore) refutes(t *Term, v bool) bool {
	switch t.op {
	case OConst:
		return (t.k == 1) != v
	case ONot:
		return l.refutes(t.a, !v)
	case OAnd:
		if !v {
			return l.refutes(t.a, false) && l.refutes(t.b, false)
		}
		if l.refutes(t.a, true) || l.refutes(t.b, true) {
			return true
		}
	case OOr:
		if v {
			return l.refutes(t.a, true) && l.refutes(t.b, true)
		}
		if l.refutes(t.a, false) || l.refutes(t.b, false) {
			return true
		}
	}
	fs := l.literal(t, v)
	n := 0
	for _, f := range fs {
		if f != nil {
			fs[n] = f
			n++
		}
	}
	if n == 0 {
		return false
	}
	return l.infeasible(fs[:n]...)
}

// infeasible runs Fourier-Motzkin elimination on the facts connected with the given ones.
func (l *linStore) infeasible(goal ...*linForm) bool {
	const limit = 250
	var cs []*linForm
	idx := map[string]int{}
	bad := false
	put := func(f *linForm) {
		f = f.norm()
		if len(f.ts) == 0 {
			if f.k < 0 {
				bad = true
			}
			return
		}
		k := f.key()
		if i, ok := idx[k]; ok {
			if f.k < cs[i].k {
				cs[i] = f
			}
			return
		}
		idx[k] = len(cs)
		cs = append(cs, f)
	}
	atoms := map[*Term]bool{}
	var order []*Term
	note := func(f *linForm) {
		for _, t := range f.ts {
			if !atoms[t.x] {
				atoms[t.x] = true
				order = append(order, t.x)
			}
		}
	}
	for _, f := range goal {
		put(f)
		note(f)
	}
	used := make([]bool, len(l.facts))
	divs := 0
	for changed := true; changed && !bad; {
		changed = false
		// division by a constant: c*q <= a <= c*q + c-1
		for ; divs < len(order); divs++ {
			x := order[divs]
			if x.op != OUdiv || x.b.op != OConst || x.b.k == 0 || x.b.k > 1<<40 || l.depth > 2 {
				continue
			}
			fa := l.lin(x.a)
			if fa == nil {
				continue
			}
			if x.a.w == 64 {
				l.depth++
				ok := l.nonneg(fa)
				l.depth--
				if !ok {
					continue
				}
			}
			q := &linForm{ts: []linT{{x, 1}}}
			if f, ok := addScaled(fa, q, -int64(x.b.k)); ok {
				put(f)
				note(f)
				if g, ok := addScaled(linConst(int64(x.b.k)-1), f, -1); ok {
					put(g)
				}
				changed = true
			}
		}
		for i, f := range l.facts {
			if used[i] {
				continue
			}
			for _, t := range f.ts {
				if atoms[t.x] {
					used[i] = true
					changed = true
					put(f)
					note(f)
					break
				}
			}
		}
		if len(order) > 24 {
			break
		}
	}
	for _, x := range order {
		put(&linForm{ts: []linT{{x, 1}}, k: -int64(x.umin)})
		put(&linForm{ts: []linT{{x, -1}}, k: int64(x.umax)})
	}
	if bad {
		return true
	}
	sort.Slice(order, func(i, j int) bool { return order[i].id < order[j].id })
	for len(order) > 0 {
		best, bi := int(1<<30), -1
		for i, x := range order {
			p, n := 0, 0
			for _, f := range cs {
				for _, t := range f.ts {
					if t.x == x {
						if t.c > 0 {
							p++
						} else {
							n++
						}
					}
				}
			}
			if p*n-p-n < best {
				best, bi = p*n-p-n, i
			}
		}
		x := order[bi]
		order = append(order[:bi], order[bi+1:]...)
		var pos, neg []*linForm
		var pc, nc []int64
		old := cs
		cs = nil
		idx = map[string]int{}
		for _, f := range old {
			c := int64(0)
			for _, t := range f.ts {
				if t.x == x {
					c = t.c
				}
			}
			switch {
			case c > 0:
				pos, pc = append(pos, f), append(pc, c)
			case c < 0:
				neg, nc = append(neg, f), append(nc, -c)
			default:
				put(f)
			}
		}
		for i, p := range pos {
			for j, n := range neg {
				q, ok := addScaled(linConst(0), p, nc[j])
				if !ok {
					continue
				}
				q, ok = addScaled(q, n, pc[i])
				if !ok {
					continue
				}
				put(q)
				if bad {
					return true
				}
			}
		}
		if bad {
			return true
		}
		if len(cs) > limit {
			return false
		}
	}
	return bad
}
