package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Seq is an immutable byte sequence (string or byte-buffer content) made of pieces.
type pkind uint8

const (
	pLit pkind = iota
	pByte
	pView
	pDec
	pRep
)

type piece struct {
	k      pkind
	lit    string
	t      *Term // pByte: the byte; pView: array var; pDec: the number; pRep: the byte
	off, n *Term // pView: offset,length; pRep: n
	signed bool  // pDec
}

type Seq struct {
	p []piece
}

var emptySeq = &Seq{}

func litSeq(s string) *Seq {
	if s == "" {
		return emptySeq
	}
	return &Seq{p: []piece{{k: pLit, lit: s}}}
}

func (s *Seq) concrete() (string, bool) {
	switch len(s.p) {
	case 0:
		return "", true
	case 1:
		if s.p[0].k == pLit {
			return s.p[0].lit, true
		}
	}
	return "", false
}

// fixed reports whether the sequence has a concrete length (only literals and bytes).
func (s *Seq) fixed() bool {
	for i := range s.p {
		if s.p[i].k != pLit && s.p[i].k != pByte {
			return false
		}
	}
	return true
}

func (s *Seq) fixedLen() int {
	n := 0
	for i := range s.p {
		if s.p[i].k == pLit {
			n += len(s.p[i].lit)
		} else {
			n++
		}
	}
	return n
}

type seqB struct{ p []piece }

func (b *seqB) add(x piece) {
	if x.k == pLit && x.lit == "" {
		return
	}
	if x.k == pByte && x.t.op == OConst {
		x = piece{k: pLit, lit: string([]byte{byte(x.t.k)})}
	}
	if x.k == pDec && x.t.op == OConst {
		if x.signed {
			x = piece{k: pLit, lit: strconv.FormatInt(x.t.sval(), 10)}
		} else {
			x = piece{k: pLit, lit: strconv.FormatUint(x.t.k, 10)}
		}
	}
	if (x.k == pRep || x.k == pView) && x.n.op == OConst {
		if x.n.k == 0 {
			return
		}
		if x.k == pRep && x.t.op == OConst && x.n.k < 1<<16 {
			x = piece{k: pLit, lit: strings.Repeat(string([]byte{byte(x.t.k)}), int(x.n.k))}
		}
	}
	if n := len(b.p); n > 0 && x.k == pLit && b.p[n-1].k == pLit {
		b.p[n-1].lit += x.lit
		return
	}
	b.p = append(b.p, x)
}
func (b *seqB) addSeq(s *Seq) {
	for _, x := range s.p {
		b.add(x)
	}
}
func (b *seqB) seq() *Seq {
	if len(b.p) == 0 {
		return emptySeq
	}
	return &Seq{p: b.p}
}

func concat(ss ...*Seq) *Seq {
	n := 0
	var last *Seq
	for _, s := range ss {
		if len(s.p) > 0 {
			n++
			last = s
		}
	}
	if n == 0 {
		return emptySeq
	}
	if n == 1 {
		return last
	}
	var lits = true
	for _, s := range ss {
		if _, ok := s.concrete(); !ok {
			lits = false
			break
		}
	}
	if lits {
		var sb strings.Builder
		for _, s := range ss {
			x, _ := s.concrete()
			sb.WriteString(x)
		}
		return litSeq(sb.String())
	}
	b := seqB{}
	for _, s := range ss {
		b.addSeq(s)
	}
	return b.seq()
}

func (s *Seq) String() string {
	var sb strings.Builder
	for _, x := range s.p {
		switch x.k {
		case pLit:
			fmt.Fprintf(&sb, "%q", x.lit)
		case pByte:
			fmt.Fprintf(&sb, "<%v>", x.t)
		case pView:
			fmt.Fprintf(&sb, "<%s[%v +%v]>", x.t.name, x.off, x.n)
		case pDec:
			fmt.Fprintf(&sb, "<dec %v>", x.t)
		case pRep:
			fmt.Fprintf(&sb, "<rep %v*%v>", x.t, x.n)
		}
	}
	return sb.String()
}

// bytes returns byte terms of a fixed-length sequence.
func (m *Machine) seqBytes(s *Seq) []*Term {
	out := make([]*Term, 0, s.fixedLen())
	for i := range s.p {
		x := &s.p[i]
		switch x.k {
		case pLit:
			for j := 0; j < len(x.lit); j++ {
				out = append(out, m.tc.BV(8, uint64(x.lit[j])))
			}
		case pByte:
			out = append(out, x.t)
		default:
			panic("seqBytes on non-fixed seq")
		}
	}
	return out
}

func (m *Machine) seqOfBytes(bs []*Term) *Seq {
	b := seqB{}
	i := 0
	for i < len(bs) {
		if bs[i].op == OConst {
			j := i
			for j < len(bs) && bs[j].op == OConst {
				j++
			}
			buf := make([]byte, j-i)
			for k := i; k < j; k++ {
				buf[k-i] = byte(bs[k].k)
			}
			b.add(piece{k: pLit, lit: string(buf)})
			i = j
		} else {
			b.p = append(b.p, piece{k: pByte, t: bs[i]})
			i++
		}
	}
	return b.seq()
}

// length of one piece as BV64
func (m *Machine) pieceLen(x *piece) *Term {
	switch x.k {
	case pLit:
		return m.tc.BV(64, uint64(len(x.lit)))
	case pByte:
		return m.tc.BV(64, 1)
	case pView, pRep:
		return x.n
	case pDec:
		return m.decLen(x)
	}
	return nil
}

var pow10 = func() [20]uint64 {
	var p [20]uint64
	p[0] = 1
	for i := 1; i < 20; i++ {
		p[i] = p[i-1] * 10
	}
	return p
}()

func (m *Machine) decLen(x *piece) *Term {
	t := x.t
	c := m.tc
	if x.signed && !t.nonneg() {
		// |t| and sign
		neg := c.Slt(t, c.BV(t.w, 0))
		abs := c.Ite(neg, c.Bin(OSub, c.BV(t.w, 0), t), t)
		y := piece{k: pDec, t: abs}
		return c.Bin(OAdd, m.decLen(&y), c.Zext(c.Ite(neg, c.BV(1, 1), c.BV(1, 0)), 64))
	}
	r := c.BV(64, 1)
	for i := 1; i < 20; i++ {
		if t.w < 64 && pow10[i] > mask(t.w) {
			break
		}
		r = c.Ite(c.Ult(t, c.BV(t.w, pow10[i])), r, c.BV(64, uint64(i+1)))
	}
	return r
}

func (m *Machine) seqLen(s *Seq) *Term {
	n := m.tc.BV(64, 0)
	k := uint64(0)
	for i := range s.p {
		l := m.pieceLen(&s.p[i])
		if l.op == OConst {
			k += l.k
		} else {
			n = m.tc.Bin(OAdd, n, l)
		}
	}
	return m.tc.Bin(OAdd, n, m.tc.BV(64, k))
}

// expandDec forks over the number of digits and returns digit bytes.
func (m *Machine) expandDec(x *piece) []*Term {
	c := m.tc
	t := x.t
	var out []*Term
	if x.signed && !t.nonneg() {
		if m.branch(c.Slt(t, c.BV(t.w, 0))) {
			out = append(out, c.BV(8, '-'))
			t = c.Bin(OSub, c.BV(t.w, 0), t)
		}
	}
	// number of digits
	nd := 1
	for {
		if nd >= 20 || (t.w < 64 && pow10[nd] > mask(t.w)) {
			break
		}
		if m.branch(c.Ult(t, c.BV(t.w, pow10[nd]))) {
			break
		}
		nd++
	}
	if t.op == OConst {
		s := strconv.FormatUint(t.k, 10)
		for i := range s {
			out = append(out, c.BV(8, uint64(s[i])))
		}
		return out
	}
	// fresh digits d_i in 0..9 with t == horner(d); unique by construction
	key := fmt.Sprintf("dec:%d:%d", t.id, nd)
	if ds, ok := m.memoDec[key]; ok {
		return append(out, ds...)
	}
	var ds []*Term
	w := t.w
	// Horner in a width that cannot overflow
	hw := w
	if hw < 64 {
		hw = 64
	}
	var h *Term
	for i := 0; i < nd; i++ {
		lo := uint64(0)
		if i == 0 && nd > 1 {
			lo = 1
		}
		d := m.freshR("dig", 4, lo, 9)
		ds = append(ds, c.Bin(OAdd, c.Zext(d, 8), c.BV(8, '0')))
		if h == nil {
			h = c.Zext(d, hw)
		} else {
			h = c.Bin(OAdd, c.Bin(OMul, h, c.BV(hw, 10)), c.Zext(d, hw))
		}
	}
	if nd == 20 {
		// no overflow guard beyond 64 bits is needed only if leading digit is 1 and rest <= max; keep it simple
		unsupported("20 digit symbolic decimal")
	}
	m.assumeQuiet(c.Eq(h, c.Zext(t, hw)))
	m.memoDec[key] = ds
	return append(out, ds...)
}

// expand turns the sequence into one of concrete length (forking where needed).
func (m *Machine) expand(s *Seq) *Seq {
	if s.fixed() {
		return s
	}
	b := seqB{}
	for i := range s.p {
		x := &s.p[i]
		switch x.k {
		case pLit, pByte:
			b.add(*x)
		case pDec:
			for _, t := range m.expandDec(x) {
				b.add(piece{k: pByte, t: t})
			}
		case pRep:
			n := m.concretize(x.n, 300)
			for j := uint64(0); j < n; j++ {
				b.add(piece{k: pByte, t: x.t})
			}
		case pView:
			n := m.viewLen(x.n)
			for j := uint64(0); j < n; j++ {
				b.add(piece{k: pByte, t: m.tc.Select(x.t, m.tc.Bin(OAdd, x.off, m.tc.BV(64, j)))})
			}
		}
	}
	return b.seq()
}

// viewLen forks over the length of a view, up to the expansion bound.
func (m *Machine) viewLen(n *Term) uint64 {
	if n.op == OConst {
		return n.k
	}
	for j := 0; j <= m.maxViewExpand; j++ {
		if m.branch(m.tc.Eq(n, m.tc.BV(64, uint64(j)))) {
			return uint64(j)
		}
	}
	m.noteBound(fmt.Sprintf("symbolic length expanded up to %d", m.maxViewExpand), n)
	panic(pathEnd{kind: "bound", msg: "view length"})
}

func (m *Machine) expandBytes(s *Seq) []*Term { return m.seqBytes(m.expand(s)) }

// splitAt splits the sequence at offset r (BV64), which must be known to be within 0..len.
func (m *Machine) splitAt(s *Seq, r *Term) (*Seq, *Seq) {
	c := m.tc
	a, b := seqB{}, seqB{}
	i := 0
	for i < len(s.p) {
		if r.op == OConst && r.k == 0 {
			break
		}
		x := s.p[i]
		l := m.pieceLen(&x)
		if l == r {
			a.add(x)
			i++
			r = c.BV(64, 0)
			break
		}
		if r.op == OConst && l.op == OConst {
			if r.k >= l.k {
				a.add(x)
				r = c.BV(64, r.k-l.k)
				i++
				continue
			}
		} else if m.branch(c.Ule(l, r)) {
			a.add(x)
			r = c.Bin(OSub, r, l)
			i++
			continue
		}
		// split inside x, r < len(x)
		switch x.k {
		case pLit:
			k := int(m.concretize(r, len(x.lit)+1))
			a.add(piece{k: pLit, lit: x.lit[:k]})
			b.add(piece{k: pLit, lit: x.lit[k:]})
		case pByte:
			b.add(x) // r < 1
		case pView:
			a.add(piece{k: pView, t: x.t, off: x.off, n: r})
			b.add(piece{k: pView, t: x.t, off: c.Bin(OAdd, x.off, r), n: c.Bin(OSub, x.n, r)})
		case pRep:
			a.add(piece{k: pRep, t: x.t, n: r})
			b.add(piece{k: pRep, t: x.t, n: c.Bin(OSub, x.n, r)})
		case pDec:
			ds := m.expandDec(&x)
			k := int(m.concretize(r, len(ds)+1))
			for j, t := range ds {
				if j < k {
					a.add(piece{k: pByte, t: t})
				} else {
					b.add(piece{k: pByte, t: t})
				}
			}
		}
		i++
		for ; i < len(s.p); i++ {
			b.add(s.p[i])
		}
		return a.seq(), b.seq()
	}
	for ; i < len(s.p); i++ {
		b.add(s.p[i])
	}
	return a.seq(), b.seq()
}

func (m *Machine) seqSlice(s *Seq, lo, hi *Term) *Seq {
	// bounds already checked
	if hi != nil {
		if hi != m.seqLen(s) {
			s, _ = m.splitAt(s, hi)
		}
	}
	if lo != nil && !(lo.op == OConst && lo.k == 0) {
		_, s = m.splitAt(s, lo)
	}
	return s
}

// seqIndex returns byte i (known in range).
func (m *Machine) seqIndex(s *Seq, i *Term) *Term {
	c := m.tc
	if s.fixed() {
		bs := m.seqBytes(s)
		if i.op == OConst {
			return bs[i.k]
		}
		return m.iteIndex(bs, i)
	}
	r := i
	for k := range s.p {
		x := s.p[k]
		l := m.pieceLen(&x)
		if m.branch(c.Ult(r, l)) {
			switch x.k {
			case pLit:
				bs := make([]*Term, len(x.lit))
				for j := range bs {
					bs[j] = c.BV(8, uint64(x.lit[j]))
				}
				if r.op == OConst {
					return bs[r.k]
				}
				return m.iteIndex(bs, r)
			case pByte, pRep:
				return x.t
			case pView:
				return c.Select(x.t, c.Bin(OAdd, x.off, r))
			case pDec:
				ds := m.expandDec(&x)
				if r.op == OConst {
					return ds[r.k]
				}
				return m.iteIndex(ds, r)
			}
		}
		r = c.Bin(OSub, r, l)
	}
	panic(pathEnd{kind: "assume", msg: "index out of sequence"})
}

func (m *Machine) iteIndex(bs []*Term, i *Term) *Term {
	c := m.tc
	if len(bs) == 0 {
		panic(pathEnd{kind: "assume", msg: "empty index"})
	}
	// balanced ite tree
	var build func(lo, hi int) *Term
	build = func(lo, hi int) *Term {
		if hi-lo == 1 {
			return bs[lo]
		}
		mid := (lo + hi) / 2
		return c.Ite(c.Ult(i, c.BV(i.w, uint64(mid))), build(lo, mid), build(mid, hi))
	}
	lo, hi := 0, len(bs)
	if i.umin > uint64(lo) && i.umin < uint64(hi) {
		lo = int(i.umin)
	}
	if i.umax+1 < uint64(hi) && i.umax+1 > uint64(lo) {
		hi = int(i.umax + 1)
	}
	return build(lo, hi)
}

func samePiece(x, y *piece) bool {
	if x.k != y.k {
		return false
	}
	switch x.k {
	case pLit:
		return x.lit == y.lit
	case pByte:
		return x.t == y.t
	case pView:
		return x.t == y.t && x.off == y.off && x.n == y.n
	case pDec:
		return x.t == y.t && x.signed == y.signed
	case pRep:
		return x.t == y.t && x.n == y.n
	}
	return false
}

func isDigitByte(b byte) bool { return b >= '0' && b <= '9' }

// notDigitStart: the sequence starts with something certainly not a digit (or is empty)
func notDigitStart(p []piece) bool {
	for _, x := range p {
		switch x.k {
		case pLit:
			return !isDigitByte(x.lit[0])
		case pByte:
			return x.t.umax < '0' || x.t.umin > '9'
		case pRep:
			if x.t.op == OConst && !isDigitByte(byte(x.t.k)) {
				continue
			}
			return false
		default:
			return false
		}
	}
	return true
}

func dropByte(p []piece) []piece { // first piece is a literal: drop its first byte
	if len(p[0].lit) == 1 {
		return p[1:]
	}
	q := append([]piece{}, p...)
	q[0].lit = q[0].lit[1:]
	return q
}

// seqEq: equality of two sequences as a term (may fork).
func (m *Machine) seqEq(x, y *Seq) *Term {
	c := m.tc
	if a, ok := x.concrete(); ok {
		if b, ok := y.concrete(); ok {
			return c.Bool(a == b)
		}
	}
	r := c.tt
	p, q := x.p, y.p
	for len(p) > 0 && len(q) > 0 {
		if r.isFalse() {
			return r
		}
		a, b := &p[0], &q[0]
		if samePiece(a, b) {
			if a.k != pDec || true {
				p, q = p[1:], q[1:]
				continue
			}
		}
		one := func(z *piece) (*Term, bool) {
			if z.k == pLit {
				return c.BV(8, uint64(z.lit[0])), true
			}
			if z.k == pByte {
				return z.t, true
			}
			return nil, false
		}
		ta, oka := one(a)
		tb, okb := one(b)
		if oka && okb {
			if a.k == pLit && b.k == pLit {
				n := min(len(a.lit), len(b.lit))
				if a.lit[:n] != b.lit[:n] {
					return c.ff
				}
				cut := func(p []piece) []piece {
					if len(p[0].lit) == n {
						return p[1:]
					}
					z := append([]piece{}, p...)
					z[0].lit = z[0].lit[n:]
					return z
				}
				p, q = cut(p), cut(q)
				continue
			}
			r = c.And(r, c.Eq(ta, tb))
			adv := func(p []piece) []piece {
				if p[0].k == pLit {
					return dropByte(p)
				}
				return p[1:]
			}
			p, q = adv(p), adv(q)
			continue
		}
		if a.k == pDec && b.k == pDec && notDigitStart(p[1:]) && notDigitStart(q[1:]) {
			wa, wb := a.t, b.t
			w := max(wa.w, wb.w)
			ext := func(z *piece) *Term {
				if z.signed {
					return c.Sext(z.t, w)
				}
				return c.Zext(z.t, w)
			}
			if a.signed == b.signed || (wa.nonneg() && wb.nonneg()) {
				r = c.And(r, c.Eq(ext(a), ext(b)))
				p, q = p[1:], q[1:]
				continue
			}
		}
		if a.k == pRep && b.k == pRep && a.t == b.t && len(p) == 1 && len(q) == 1 {
			return c.And(r, c.Eq(a.n, b.n))
		}
		// length-aligned symbolic pieces
		if (a.k == pView || a.k == pRep) && (b.k == pView || b.k == pRep) {
			// same base?
			if a.k == pView && b.k == pView && a.t == b.t && m.branch(c.Eq(a.off, b.off)) {
				if m.branch(c.Eq(a.n, b.n)) {
					p, q = p[1:], q[1:]
					continue
				}
				if len(p) == 1 && len(q) == 1 {
					return c.ff
				}
				// split the longer one
				if m.branch(c.Ult(a.n, b.n)) {
					_, rest := m.splitAt(&Seq{p: q}, a.n)
					p, q = p[1:], rest.p
				} else {
					_, rest := m.splitAt(&Seq{p: p}, b.n)
					p, q = rest.p, q[1:]
				}
				continue
			}
			if len(p) == 1 && len(q) == 1 {
				if !m.branch(c.Eq(m.pieceLen(a), m.pieceLen(b))) {
					return c.ff
				}
			}
			if !m.branch(c.Eq(a.n, c.BV(64, 0))) && !m.branch(c.Eq(b.n, c.BV(64, 0))) {
				unsupported("equality of distinct symbolic-length views")
			}
			if m.branch(c.Eq(a.n, c.BV(64, 0))) {
				p = p[1:]
			} else {
				q = q[1:]
			}
			continue
		}
		// mixed: expand the symbolic one against concrete structure
		if a.k == pDec || b.k == pDec {
			ex := func(p []piece) []piece {
				if p[0].k != pDec {
					return p
				}
				ds := m.expandDec(&p[0])
				z := m.seqOfBytes(ds)
				return concat(z, &Seq{p: p[1:]}).p
			}
			p, q = ex(p), ex(q)
			continue
		}
		// view/rep against bytes: peel one element of the view
		if a.k == pView || a.k == pRep {
			if m.branch(c.Eq(a.n, c.BV(64, 0))) {
				p = p[1:]
				continue
			}
			h, t := m.splitAt(&Seq{p: p}, c.BV(64, 1))
			hb := m.headByte(h)
			r = c.And(r, c.Eq(hb, tb))
			p = t.p
			if q[0].k == pLit {
				q = dropByte(q)
			} else {
				q = q[1:]
			}
			continue
		}
		if m.branch(c.Eq(b.n, c.BV(64, 0))) {
			q = q[1:]
			continue
		}
		h, t := m.splitAt(&Seq{p: q}, c.BV(64, 1))
		hb := m.headByte(h)
		r = c.And(r, c.Eq(hb, ta))
		q = t.p
		if p[0].k == pLit {
			p = dropByte(p)
		} else {
			p = p[1:]
		}
	}
	rest := p
	if len(q) > 0 {
		rest = q
	}
	if len(rest) > 0 {
		r = c.And(r, c.Eq(m.seqLen(&Seq{p: rest}), c.BV(64, 0)))
	}
	return r
}

func (m *Machine) headByte(h *Seq) *Term {
	if len(h.p) != 1 {
		panic("headByte")
	}
	x := h.p[0]
	switch x.k {
	case pLit:
		return m.tc.BV(8, uint64(x.lit[0]))
	case pByte, pRep:
		return x.t
	case pView:
		return m.tc.Select(x.t, x.off)
	}
	panic("headByte dec")
}
