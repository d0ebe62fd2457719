package main

import (
	"fmt"
	"math/bits"
	"strings"
)

// Terms are hash-consed SMT terms over Bool (w==0), bit-vectors (w in 1..64)
// and arrays BV64->BV8 (w==-1).  Machine integers are exact bit-vectors.

type Op uint8

const (
	OConst Op = iota
	OVar
	ONot
	OAnd
	OOr
	OEq
	OIte
	OUlt
	OUle
	OSlt
	OSle
	OAdd
	OSub
	OMul
	OUdiv
	OUrem
	OSdiv
	OSrem
	OBand
	OBor
	OBxor
	OShl
	OLshr
	OAshr
	OConcat
	OExtract
	OZext
	OSext
	OSelect
)

var opName = map[Op]string{ONot: "not", OAnd: "and", OOr: "or", OEq: "=", OIte: "ite", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle",
	OAdd: "bvadd", OSub: "bvsub", OMul: "bvmul", OUdiv: "bvudiv", OUrem: "bvurem", OSdiv: "bvsdiv", OSrem: "bvsrem",
	OBand: "bvand", OBor: "bvor", OBxor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OSelect: "select"}

type Term struct {
	id      int
	op      Op
	w       int
	k       uint64
	name    string
	a, b, c *Term
	hi, lo  int
	umin    uint64
	umax    uint64
	ranged  bool // array variable whose elements lie in umin..umax
}

type termKey struct {
	op         Op
	w          int
	k          uint64
	name       string
	a, b, c    int
	hi, lo     int
}

type TermCtx struct {
	tab  map[termKey]*Term
	next int
	tt   *Term
	ff   *Term
	hexOf map[*Term]*Term // hex digit term -> nibble
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{tab: map[termKey]*Term{}, next: 1}
	c.tt = c.mk(termKey{op: OConst, w: 0, k: 1}, nil, nil, nil)
	c.ff = c.mk(termKey{op: OConst, w: 0, k: 0}, nil, nil, nil)
	return c
}

func mask(w int) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func tid(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}

func (c *TermCtx) mk(k termKey, a, b, d *Term) *Term {
	k.a, k.b, k.c = tid(a), tid(b), tid(d)
	if t, ok := c.tab[k]; ok {
		return t
	}
	t := &Term{id: c.next, op: k.op, w: k.w, k: k.k, name: k.name, a: a, b: b, c: d, hi: k.hi, lo: k.lo}
	c.next++
	c.rng(t)
	c.tab[k] = t
	return t
}

// rng computes a sound unsigned interval for a bit-vector term.
func (c *TermCtx) rng(t *Term) {
	if t.w <= 0 {
		t.umin, t.umax = 0, 1
		return
	}
	m := mask(t.w)
	t.umin, t.umax = 0, m
	switch t.op {
	case OConst:
		t.umin, t.umax = t.k, t.k
	case OSelect:
		t.umin, t.umax = t.a.lo8(), t.a.hi8()
	case OZext:
		t.umin, t.umax = t.a.umin, t.a.umax
	case OSext:
		if t.a.umax <= mask(t.a.w)>>1 {
			t.umin, t.umax = t.a.umin, t.a.umax
		}
	case OIte:
		t.umin, t.umax = min(t.b.umin, t.c.umin), max(t.b.umax, t.c.umax)
	case OBand:
		t.umax = min(t.a.umax, t.b.umax)
	case OBor, OBxor:
		h := max(t.a.umax, t.b.umax)
		t.umax = mask(bits.Len64(h))
		if t.op == OBor {
			t.umin = max(t.a.umin, t.b.umin)
		}
	case OAdd:
		s, carry := bits.Add64(t.a.umax, t.b.umax, 0)
		if carry == 0 && s <= m {
			t.umin, t.umax = t.a.umin+t.b.umin, s
		} else if t.w < 64 && t.a.umin+t.b.umin > m {
			// both ends wrap
			t.umin, t.umax = (t.a.umin+t.b.umin)&m, s&m
			if t.umin > t.umax {
				t.umin, t.umax = 0, m
			}
		} else if t.b.op == OConst && t.w == 64 {
			lo, c0 := bits.Add64(t.a.umin, t.b.k, 0)
			hi, c1 := bits.Add64(t.a.umax, t.b.k, 0)
			if c0 == c1 {
				t.umin, t.umax = lo, hi
			}
		}
	case OSub:
		if t.a.umin >= t.b.umax {
			t.umin, t.umax = t.a.umin-t.b.umax, t.a.umax-t.b.umin
		}
	case OMul:
		h, l := bits.Mul64(t.a.umax, t.b.umax)
		if h == 0 && l <= m {
			t.umin, t.umax = t.a.umin*t.b.umin, l
		}
	case OUdiv:
		if t.b.umin > 0 {
			t.umin, t.umax = t.a.umin/t.b.umax, t.a.umax/t.b.umin
		}
	case OUrem:
		if t.b.umin > 0 {
			t.umax = min(t.a.umax, t.b.umax-1)
		}
	case OLshr:
		if t.b.op == OConst && t.b.k < 64 {
			t.umin, t.umax = t.a.umin>>t.b.k, t.a.umax>>t.b.k
		} else {
			t.umax = t.a.umax
		}
	case OShl:
		if t.b.op == OConst && t.b.k < 64 && bits.Len64(t.a.umax)+int(t.b.k) <= t.w {
			t.umin, t.umax = t.a.umin<<t.b.k, t.a.umax<<t.b.k
		}
	case OExtract:
		if t.lo == 0 {
			if t.a.umax <= m {
				t.umin, t.umax = t.a.umin, t.a.umax
			}
		} else if t.hi == t.a.w-1 {
			t.umin, t.umax = t.a.umin>>uint(t.lo), t.a.umax>>uint(t.lo)
		}
	case OConcat:
		t.umin = t.a.umin<<uint(t.b.w) + t.b.umin
		t.umax = t.a.umax<<uint(t.b.w) + t.b.umax
	}
}

func (c *TermCtx) BV(w int, k uint64) *Term {
	return c.mk(termKey{op: OConst, w: w, k: k & mask(w)}, nil, nil, nil)
}
func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tt
	}
	return c.ff
}
func (c *TermCtx) Var(name string, w int) *Term {
	return c.mk(termKey{op: OVar, w: w, name: name}, nil, nil, nil)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) isTrue() bool  { return t.op == OConst && t.w == 0 && t.k == 1 }
func (t *Term) isFalse() bool { return t.op == OConst && t.w == 0 && t.k == 0 }
func (t *Term) sval() int64 {
	if t.w == 64 {
		return int64(t.k)
	}
	if t.k>>(uint(t.w)-1)&1 == 1 {
		return int64(t.k | ^mask(t.w))
	}
	return int64(t.k)
}
func sx(k uint64, w int) int64 {
	if w == 64 {
		return int64(k)
	}
	if k>>(uint(w)-1)&1 == 1 {
		return int64(k | ^mask(w))
	}
	return int64(k)
}

func (c *TermCtx) Not(a *Term) *Term {
	if a.op == OConst {
		return c.Bool(a.k == 0)
	}
	if a.op == ONot {
		return a.a
	}
	return c.mk(termKey{op: ONot}, a, nil, nil)
}
func (c *TermCtx) And(a, b *Term) *Term {
	if a.isFalse() || b.isFalse() {
		return c.ff
	}
	if a.isTrue() {
		return b
	}
	if b.isTrue() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.ff
	}
	return c.mk(termKey{op: OAnd}, a, b, nil)
}
func (c *TermCtx) Or(a, b *Term) *Term {
	if a.isTrue() || b.isTrue() {
		return c.tt
	}
	if a.isFalse() {
		return b
	}
	if b.isFalse() || a == b {
		return a
	}
	if (a.op == ONot && a.a == b) || (b.op == ONot && b.a == a) {
		return c.tt
	}
	return c.mk(termKey{op: OOr}, a, b, nil)
}
func (c *TermCtx) Ite(p, a, b *Term) *Term {
	if p.isTrue() || a == b {
		return a
	}
	if p.isFalse() {
		return b
	}
	if a.w == 0 {
		return c.Or(c.And(p, a), c.And(c.Not(p), b))
	}
	return c.mk(termKey{op: OIte, w: a.w}, p, a, b)
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tt
	}
	if a.w != b.w {
		panic(fmt.Sprintf("Eq width mismatch %d %d", a.w, b.w))
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.k == b.k)
	}
	if a.w == 0 {
		if a.op == OConst {
			a, b = b, a
		}
		if b.isTrue() {
			return a
		}
		if b.isFalse() {
			return c.Not(a)
		}
	} else if a.w > 0 {
		if a.umax < b.umin || b.umax < a.umin {
			return c.ff
		}
		if a.op == OConst {
			a, b = b, a
		}
		if b.op == OConst {
			switch a.op {
			case OZext:
				if b.k > mask(a.a.w) {
					return c.ff
				}
				return c.Eq(a.a, c.BV(a.a.w, b.k))
			case OSext:
				if sx(b.k&mask(a.a.w), a.a.w) != sx(b.k, b.w) {
					return c.ff
				}
				return c.Eq(a.a, c.BV(a.a.w, b.k))
			case OConcat:
				return c.And(c.Eq(a.a, c.BV(a.a.w, b.k>>uint(a.b.w))), c.Eq(a.b, c.BV(a.b.w, b.k)))
			case OAdd:
				if a.b.op == OConst {
					return c.Eq(a.a, c.BV(a.w, b.k-a.b.k))
				}
			case OIte:
				if a.b.op == OConst || a.c.op == OConst {
					return c.Ite(a.a, c.Eq(a.b, b), c.Eq(a.c, b))
				}
			}
		} else if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		} else if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(termKey{op: OEq}, a, b, nil)
}

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.ff
	}
	if a.umax < b.umin {
		return c.tt
	}
	if a.umin >= b.umax {
		return c.ff
	}
	if a.op == OZext && b.op == OZext && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	if a.op == OZext && b.op == OConst && b.k <= mask(a.a.w) {
		return c.Ult(a.a, c.BV(a.a.w, b.k))
	}
	if b.op == OZext && a.op == OConst && a.k <= mask(b.a.w) {
		return c.Ult(c.BV(b.a.w, a.k), b.a)
	}
	if b.op == OConst && b.k == 1 {
		return c.Eq(a, c.BV(a.w, 0))
	}
	return c.mk(termKey{op: OUlt}, a, b, nil)
}
func (c *TermCtx) Ule(a, b *Term) *Term { return c.Not(c.Ult(b, a)) }

func (t *Term) nonneg() bool { return t.umax <= mask(t.w)>>1 }
func (t *Term) negAll() bool { return t.umin > mask(t.w)>>1 }

// signed range, if it does not wrap
func (t *Term) srange() (int64, int64) {
	if t.nonneg() {
		return int64(t.umin), int64(t.umax)
	}
	if t.negAll() {
		return sx(t.umin, t.w), sx(t.umax, t.w)
	}
	if t.op == OSext {
		return t.a.srange()
	}
	if t.op == OIte {
		a, b := t.b.srange()
		x, y := t.c.srange()
		return min(a, x), max(b, y)
	}
	if t.w == 64 {
		return -1 << 63, 1<<63 - 1
	}
	if t.op == OAdd || t.op == OSub {
		al, ah := t.a.srange()
		bl, bh := t.b.srange()
		if t.op == OSub {
			bl, bh = -bh, -bl
		}
		lo, hi := al+bl, ah+bh
		lim := int64(mask(t.w) >> 1)
		if lo >= -lim-1 && hi <= lim {
			return lo, hi
		}
	}
	lim := int64(mask(t.w) >> 1)
	return -lim - 1, lim
}

// small signed range for 64 bit terms too (bounded recursion)
func (t *Term) srangeD(d int) (int64, int64, bool) {
	if t.w <= 62 {
		a, b := t.srange()
		return a, b, true
	}
	if t.nonneg() && t.umax < 1<<61 {
		return int64(t.umin), int64(t.umax), true
	}
	if t.op == OConst {
		k := int64(t.k)
		return k, k, k > -(1<<61) && k < 1<<61
	}
	if d == 0 {
		return 0, 0, false
	}
	switch t.op {
	case OSext:
		return t.a.srangeD(d - 1)
	case OAdd, OSub:
		al, ah, ok1 := t.a.srangeD(d - 1)
		bl, bh, ok2 := t.b.srangeD(d - 1)
		if ok1 && ok2 {
			if t.op == OSub {
				bl, bh = -bh, -bl
			}
			lo, hi := al+bl, ah+bh
			return lo, hi, lo > -(1<<61) && hi < 1<<61
		}
	case OIte:
		al, ah, ok1 := t.b.srangeD(d - 1)
		bl, bh, ok2 := t.c.srangeD(d - 1)
		if ok1 && ok2 {
			return min(al, bl), max(ah, bh), true
		}
	case OSrem:
		if t.b.op == OConst && int64(t.b.k) > 0 {
			m := int64(t.b.k) - 1
			return -m, m, true
		}
	}
	return 0, 0, false
}

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.ff
	}
	if a.nonneg() && b.nonneg() {
		return c.Ult(a, b)
	}
	if al, ah, ok := a.srangeD(6); ok {
		if bl, bh, ok := b.srangeD(6); ok {
			if ah < bl {
				return c.tt
			}
			if al >= bh {
				return c.ff
			}
		}
	}
	if a.op == OConst && b.op == OConst {
		return c.Bool(a.sval() < b.sval())
	}
	if a.op == OSext && b.op == OSext && a.a.w == b.a.w {
		return c.Slt(a.a, b.a)
	}
	return c.mk(termKey{op: OSlt}, a, b, nil)
}
func (c *TermCtx) Sle(a, b *Term) *Term { return c.Not(c.Slt(b, a)) }

func foldBin(op Op, w int, x, y uint64) (uint64, bool) {
	m := mask(w)
	switch op {
	case OAdd:
		return (x + y) & m, true
	case OSub:
		return (x - y) & m, true
	case OMul:
		return (x * y) & m, true
	case OUdiv:
		if y == 0 {
			return m, true
		}
		return x / y, true
	case OUrem:
		if y == 0 {
			return x, true
		}
		return x % y, true
	case OSdiv:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			if a < 0 {
				return 1, true
			}
			return m, true
		}
		if b == -1 {
			return uint64(-a) & m, true
		}
		return uint64(a/b) & m, true
	case OSrem:
		a, b := sx(x, w), sx(y, w)
		if b == 0 {
			return x, true
		}
		if b == -1 {
			return 0, true
		}
		return uint64(a%b) & m, true
	case OBand:
		return x & y, true
	case OBor:
		return x | y, true
	case OBxor:
		return x ^ y, true
	case OShl:
		if y >= uint64(w) {
			return 0, true
		}
		return (x << y) & m, true
	case OLshr:
		if y >= uint64(w) {
			return 0, true
		}
		return x >> y, true
	case OAshr:
		if y >= uint64(w) {
			y = uint64(w - 1)
		}
		return uint64(sx(x, w)>>y) & m, true
	}
	return 0, false
}

func isLowMask(k uint64) (int, bool) { // k == 2^n-1
	if k != 0 && k&(k+1) == 0 {
		return bits.Len64(k), true
	}
	return 0, false
}

func (c *TermCtx) Bin(op Op, a, b *Term) *Term {
	if a.w != b.w {
		panic(fmt.Sprintf("Bin %v width mismatch %d %d", opName[op], a.w, b.w))
	}
	w := a.w
	if a.op == OConst && b.op == OConst {
		r, _ := foldBin(op, w, a.k, b.k)
		return c.BV(w, r)
	}
	comm := op == OAdd || op == OMul || op == OBand || op == OBor || op == OBxor
	if comm && a.op == OConst {
		a, b = b, a
	}
	if b.op == OConst {
		k := b.k
		switch op {
		case OAdd, OSub, OBor, OBxor, OShl, OLshr, OAshr:
			if k == 0 {
				return a
			}
		}
		switch op {
		case OSub:
			return c.Bin(OAdd, a, c.BV(w, -k))
		case OAdd:
			if a.op == OAdd && a.b.op == OConst {
				return c.Bin(OAdd, a.a, c.BV(w, a.b.k+k))
			}
		case OMul:
			if k == 0 {
				return b
			}
			if k == 1 {
				return a
			}
		case OUdiv, OSdiv:
			if k == 1 {
				return a
			}
			if op == OSdiv && a.nonneg() && b.nonneg() {
				return c.Bin(OUdiv, a, b)
			}
			if op == OUdiv && k > a.umax {
				return c.BV(w, 0)
			}
		case OUrem, OSrem:
			if op == OSrem && a.nonneg() && b.nonneg() {
				return c.Bin(OUrem, a, b)
			}
			if op == OUrem && k > a.umax {
				return a
			}
		case OBand:
			if k == 0 {
				return b
			}
			if k == mask(w) {
				return a
			}
			if n, ok := isLowMask(k); ok {
				if a.umax <= k {
					return a
				}
				return c.Zext(c.Extract(a, n-1, 0), w)
			}
			// mask of form ones<<s : concat
			s := bits.TrailingZeros64(k)
			if n, ok := isLowMask(k >> uint(s)); ok {
				hi := c.Extract(a, s+n-1, s)
				return c.Zext(c.Concat(hi, c.BV(s, 0)), w)
			}
		case OBor:
			if k == mask(w) {
				return b
			}
		case OShl:
			if k >= uint64(w) {
				return c.BV(w, 0)
			}
			return c.Concat(c.Extract(a, w-1-int(k), 0), c.BV(int(k), 0))
		case OLshr:
			if k >= uint64(w) {
				return c.BV(w, 0)
			}
			return c.Zext(c.Extract(a, w-1, int(k)), w)
		case OAshr:
			if k >= uint64(w) {
				k = uint64(w - 1)
			}
			return c.Sext(c.Extract(a, w-1, int(k)), w)
		}
	}
	if a.op == OConst && a.k == 0 {
		switch op {
		case OShl, OLshr, OAshr, OUrem, OSrem:
			if op != OUrem && op != OSrem || b.umin > 0 {
				return a
			}
		case OUdiv:
			if b.umin > 0 {
				return a
			}
		}
	}
	if a == b {
		switch op {
		case OSub, OBxor:
			return c.BV(w, 0)
		case OBand, OBor:
			return a
		}
	}
	if op == OBor || op == OAdd || op == OBxor {
		// disjoint bits -> concat-like merge
		if t := c.mergeDisjoint(a, b); t != nil {
			return t
		}
	}
	if op == OSub && a.op == OAdd {
		if a.a == b {
			return a.b
		}
		if a.b == b {
			return a.a
		}
	}
	if op == OAdd && a.op == OSub && a.b == b {
		return a.a
	}
	if op == OAdd && b.op == OSub && b.b == a {
		return b.a
	}
	if op == OSub && b.op == OAdd {
		// a - (x+y) where a == x
		if b.a == a {
			return c.Bin(OSub, c.BV(w, 0), b.b)
		}
	}
	if comm && a.id > b.id && b.op != OConst {
		a, b = b, a
	}
	return c.mk(termKey{op: op, w: w}, a, b, nil)
}

// possible-ones mask (sound over-approximation of bits that may be 1)
func (t *Term) ones(d int) uint64 {
	switch t.op {
	case OConst:
		return t.k
	case OZext:
		return t.a.ones(d)
	case OConcat:
		if d > 0 {
			return t.a.ones(d-1)<<uint(t.b.w) | t.b.ones(d-1)
		}
	case OBor, OBxor:
		if d > 0 {
			return t.a.ones(d-1) | t.b.ones(d-1)
		}
	case OBand:
		if d > 0 {
			return t.a.ones(d-1) & t.b.ones(d-1)
		}
	case OIte:
		if d > 0 {
			return t.b.ones(d-1) | t.c.ones(d-1)
		}
	}
	return mask(bits.Len64(t.umax))
}

// mergeDisjoint: if a and b have disjoint possible bits with b's bits all below a's, build a concat.
func (c *TermCtx) mergeDisjoint(a, b *Term) *Term {
	oa, ob := a.ones(6), b.ones(6)
	if oa&ob != 0 || oa == 0 || ob == 0 {
		return nil
	}
	if bits.Len64(oa) < bits.Len64(ob) {
		a, b, oa, ob = b, a, ob, oa
	}
	s := bits.TrailingZeros64(oa)
	if bits.Len64(ob) > s || s == 0 || s >= a.w {
		return nil
	}
	return c.Concat(c.Extract(a, a.w-1, s), c.Extract(b, s-1, 0))
}

func (c *TermCtx) Extract(a *Term, hi, lo int) *Term {
	if hi < lo || hi >= a.w {
		panic(fmt.Sprintf("bad extract %d:%d of %d", hi, lo, a.w))
	}
	w := hi - lo + 1
	if w == a.w {
		return a
	}
	switch a.op {
	case OConst:
		return c.BV(w, a.k>>uint(lo))
	case OExtract:
		return c.Extract(a.a, a.lo+hi, a.lo+lo)
	case OZext:
		iw := a.a.w
		if lo >= iw {
			return c.BV(w, 0)
		}
		if hi < iw {
			return c.Extract(a.a, hi, lo)
		}
		return c.Zext(c.Extract(a.a, iw-1, lo), w)
	case OSext:
		iw := a.a.w
		if hi < iw {
			return c.Extract(a.a, hi, lo)
		}
		if lo < iw {
			return c.Sext(c.Extract(a.a, iw-1, lo), w)
		}
	case OConcat:
		lw := a.b.w
		if hi < lw {
			return c.Extract(a.b, hi, lo)
		}
		if lo >= lw {
			return c.Extract(a.a, hi-lw, lo-lw)
		}
		return c.Concat(c.Extract(a.a, hi-lw, 0), c.Extract(a.b, lw-1, lo))
	case OIte:
		if a.b.op == OConst || a.c.op == OConst {
			return c.Ite(a.a, c.Extract(a.b, hi, lo), c.Extract(a.c, hi, lo))
		}
	case OBand, OBor, OBxor:
		return c.Bin(a.op, c.Extract(a.a, hi, lo), c.Extract(a.b, hi, lo))
	case OAdd, OSub, OMul:
		if lo == 0 {
			return c.Bin(a.op, c.Extract(a.a, hi, 0), c.Extract(a.b, hi, 0))
		}
	}
	if lo > 0 && a.umax>>uint(lo) == 0 {
		return c.BV(w, 0)
	}
	if lo == 0 && false {
		return nil
	}
	return c.mk(termKey{op: OExtract, w: w, hi: hi, lo: lo}, a, nil, nil)
}

func (c *TermCtx) Concat(a, b *Term) *Term {
	w := a.w + b.w
	if w > 64 {
		panic("concat too wide")
	}
	if a.op == OConst && b.op == OConst {
		return c.BV(w, a.k<<uint(b.w)|b.k)
	}
	if a.op == OConst && a.k == 0 {
		return c.Zext(b, w)
	}
	if a.op == OExtract && b.op == OExtract && a.a == b.a && a.lo == b.hi+1 {
		return c.Extract(a.a, a.hi, b.lo)
	}
	if b.op == OExtract && b.lo == 0 && a.op == OExtract && a.a == b.a {
		_ = b
	}
	// concat(x, concat(y,z)) -> concat(concat(x,y), z)
	if b.op == OConcat {
		return c.Concat(c.Concat(a, b.a), b.b)
	}
	if a.op == OZext {
		return c.Zext(c.Concat(a.a, b), w)
	}
	// concat(extract hi, x) where x covers all of lower part of same narrow var
	if a.op == OExtract && a.lo == b.w && b == a.a {
		_ = a
	}
	if a.op == OConcat && b.op == OExtract && a.b.op == OExtract && a.b.a == b.a && a.b.lo == b.hi+1 {
		return c.Concat(a.a, c.Extract(b.a, a.b.hi, b.lo))
	}
	if a.op == OConcat && b.op == OConst && a.b.op == OConst {
		return c.Concat(a.a, c.BV(a.b.w+b.w, a.b.k<<uint(b.w)|b.k))
	}
	return c.mk(termKey{op: OConcat, w: w}, a, b, nil)
}

func (c *TermCtx) Zext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, w-1, 0)
	}
	switch a.op {
	case OConst:
		return c.BV(w, a.k)
	case OZext:
		return c.Zext(a.a, w)
	case OExtract:
		// extract(x, n-1, 0) where x fits and width matches
		if a.lo == 0 && a.a.w == w && a.a.umax <= mask(a.w) {
			return a.a
		}
	}
	return c.mk(termKey{op: OZext, w: w}, a, nil, nil)
}
func (c *TermCtx) Sext(a *Term, w int) *Term {
	if w == a.w {
		return a
	}
	if w < a.w {
		return c.Extract(a, w-1, 0)
	}
	if a.op == OConst {
		return c.BV(w, uint64(sx(a.k, a.w)))
	}
	if a.nonneg() {
		return c.Zext(a, w)
	}
	if a.op == OSext {
		return c.Sext(a.a, w)
	}
	return c.mk(termKey{op: OSext, w: w}, a, nil, nil)
}
// ArrR is an array variable with elements in lo..hi.
func (c *TermCtx) ArrR(name string, lo, hi uint64) *Term {
	if lo == 0 && hi == 255 {
		return c.Var(name, -1)
	}
	t := c.Var(fmt.Sprintf("%s.%d-%d", name, lo, hi), -1)
	t.umin, t.umax, t.ranged = lo, hi, true
	return t
}

func (c *TermCtx) Select(arr, idx *Term) *Term {
	return c.mk(termKey{op: OSelect, w: 8}, arr, idx, nil)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 6)
	return sb.String()
}
func (t *Term) str(sb *strings.Builder, d int) {
	switch t.op {
	case OConst:
		if t.w == 0 {
			fmt.Fprintf(sb, "%v", t.k == 1)
		} else {
			fmt.Fprintf(sb, "%d:%d", t.k, t.w)
		}
		return
	case OVar:
		sb.WriteString(t.name)
		return
	}
	if d == 0 {
		fmt.Fprintf(sb, "t%d", t.id)
		return
	}
	switch t.op {
	case OExtract:
		fmt.Fprintf(sb, "[%d:%d]", t.hi, t.lo)
		t.a.str(sb, d-1)
		return
	case OZext:
		fmt.Fprintf(sb, "(z%d ", t.w)
		t.a.str(sb, d-1)
		sb.WriteString(")")
		return
	case OSext:
		fmt.Fprintf(sb, "(s%d ", t.w)
		t.a.str(sb, d-1)
		sb.WriteString(")")
		return
	}
	sb.WriteString("(" + opName[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" ")
			x.str(sb, d-1)
		}
	}
	sb.WriteString(")")
}

// ---- evaluation under a model ----

type Model struct {
	vars   map[string]uint64
	arrs   map[string]map[uint64]byte
	arrDef map[string]byte
}

func (m *Model) eval(t *Term, memo map[*Term]uint64) uint64 {
	if t.op == OConst {
		return t.k
	}
	if v, ok := memo[t]; ok {
		return v
	}
	var r uint64
	b2u := func(b bool) uint64 {
		if b {
			return 1
		}
		return 0
	}
	e := func(x *Term) uint64 { return m.eval(x, memo) }
	switch t.op {
	case OVar:
		r = m.vars[t.name] & func() uint64 {
			if t.w == 0 {
				return 1
			}
			return mask(t.w)
		}()
	case ONot:
		r = 1 - e(t.a)
	case OAnd:
		r = e(t.a) & e(t.b)
	case OOr:
		r = e(t.a) | e(t.b)
	case OEq:
		r = b2u(e(t.a) == e(t.b))
	case OIte:
		if e(t.a) == 1 {
			r = e(t.b)
		} else {
			r = e(t.c)
		}
	case OUlt:
		r = b2u(e(t.a) < e(t.b))
	case OUle:
		r = b2u(e(t.a) <= e(t.b))
	case OSlt:
		r = b2u(sx(e(t.a), t.a.w) < sx(e(t.b), t.b.w))
	case OSle:
		r = b2u(sx(e(t.a), t.a.w) <= sx(e(t.b), t.b.w))
	case OConcat:
		r = e(t.a)<<uint(t.b.w) | e(t.b)
	case OExtract:
		r = e(t.a) >> uint(t.lo) & mask(t.w)
	case OZext:
		r = e(t.a)
	case OSext:
		r = uint64(sx(e(t.a), t.a.w)) & mask(t.w)
	case OSelect:
		idx := e(t.b)
		if mm := m.arrs[t.a.name]; mm != nil {
			if v, ok := mm[idx]; ok {
				r = uint64(v)
				break
			}
		}
		r = t.a.lo8()
	default:
		r, _ = foldBin(t.op, t.w, e(t.a), e(t.b))
	}
	memo[t] = r
	return r
}
