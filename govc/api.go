package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Models of the harness API (package verif): symbolic inputs, assumptions, obligations.

func (tc *TermCtx) VarR(name string, w int, lo, hi uint64) *Term {
	t := tc.Var(fmt.Sprintf("%s.%d-%d", name, lo, hi), w)
	if t.umin == 0 && t.umax == mask(w) {
		t.umin, t.umax = lo, hi
	}
	return t
}

// freshR makes a fresh variable with a static range.
func (m *Machine) freshR(name string, w int, lo, hi uint64) *Term {
	m.fresher++
	t := m.tc.VarR(fmt.Sprintf("%s!%d.%d", name, m.fresher, w), w, lo, hi)
	m.rangePC(t, lo, hi)
	return t
}

func (m *Machine) rangePC(t *Term, lo, hi uint64) {
	// assert the range with raw terms (the simplifier would fold them away)
	c := m.tc
	if lo > 0 {
		m.pc = append(m.pc, c.Not(c.mk(termKey{op: OUlt}, t, c.BV(t.w, lo), nil)))
	}
	if hi < mask(t.w) {
		m.pc = append(m.pc, c.Not(c.mk(termKey{op: OUlt}, c.BV(t.w, hi), t, nil)))
	}
	m.model = nil
}

func cname(v value) string {
	s, ok := v.(*Seq).concrete()
	if !ok {
		unsupported("symbolic name")
	}
	return s
}

func (m *Machine) input(name, kind string, w int) *Term {
	name = m.inputName(name)
	t := m.tc.Var("in."+name, w)
	m.inputs = append(m.inputs, &Input{Name: name, Kind: kind, t: t})
	m.model = nil
	return t
}

func (m *Machine) inputName(name string) string {
	n := name
	for i := 2; ; i++ {
		dup := false
		for _, in := range m.inputs {
			if in.Name == n {
				dup = true
			}
		}
		if !dup {
			return n
		}
		n = fmt.Sprintf("%s#%d", name, i)
	}
}

func init() {
	sc := func(kind string, w int) nativeModel {
		return func(m *Machine, fn *ssa.Function, a []value) value {
			return m.input(cname(a[0]), kind, w)
		}
	}
	reg("verif.Bool", sc("bool", 0))
	reg("verif.U8", sc("u8", 8))
	reg("verif.U16", sc("u16", 16))
	reg("verif.U32", sc("u32", 32))
	reg("verif.U64", sc("u64", 64))
	reg("verif.I64", sc("i64", 64))
	ranged := func(kind string, w int) nativeModel {
		return func(m *Machine, fn *ssa.Function, a []value) value {
			lo, hi := a[1].(*Term), a[2].(*Term)
			if lo.op != OConst || hi.op != OConst {
				unsupported("symbolic input range")
			}
			if lo.k == hi.k {
				return lo
			}
			name := m.inputName(cname(a[0]))
			if kind == "int" && int64(lo.k) < 0 {
				t := m.tc.Var("in."+name, w)
				m.inputs = append(m.inputs, &Input{Name: name, Kind: kind, t: t})
				m.addPC(m.tc.Sle(lo, t))
				m.addPC(m.tc.Sle(t, hi))
				m.model = nil
				return t
			}
			t := m.tc.VarR("in."+name, w, lo.k, hi.k)
			m.inputs = append(m.inputs, &Input{Name: name, Kind: kind, t: t})
			m.rangePC(t, lo.k, hi.k)
			return t
		}
	}
	reg("verif.IntR", ranged("int", 64))
	reg("verif.U8R", ranged("u8", 8))
	reg("verif.U16R", ranged("u16", 16))
	reg("verif.U32R", ranged("u32", 32))
	reg("verif.Choose", func(m *Machine, fn *ssa.Function, a []value) value {
		n := a[1].(*Term)
		name := m.inputName(cname(a[0]))
		in := &Input{Name: name, Kind: "choice"}
		m.inputs = append(m.inputs, in)
		k := m.choose(int(n.k))
		in.k = uint64(k)
		return m.tc.BV(64, uint64(k))
	})
	// Bytes: a byte string of unbounded symbolic length.
	mkBytes := func(m *Machine, name string, maxLen uint64, rng ...uint64) *Seq {
		n := m.tc.VarR("in."+name+".len", 64, 0, maxLen)
		m.rangePC(n, 0, maxLen)
		arr := m.tc.Var("in."+name+".data", -1)
		if len(rng) == 2 {
			arr = m.tc.ArrR("in."+name+".data", rng[0], rng[1])
		}
		s := &Seq{p: []piece{{k: pView, t: arr, off: m.tc.BV(64, 0), n: n}}}
		return s
	}
	reg("verif.Bytes", func(m *Machine, fn *ssa.Function, a []value) value {
		name := m.inputName(cname(a[0]))
		s := mkBytes(m, name, 1<<40)
		m.inputs = append(m.inputs, &Input{Name: name, Kind: "bytes", seq: s})
		return m.seqToSlice(s)
	})
	reg("verif.String", func(m *Machine, fn *ssa.Function, a []value) value {
		name := m.inputName(cname(a[0]))
		s := mkBytes(m, name, 1<<40)
		m.inputs = append(m.inputs, &Input{Name: name, Kind: "string", seq: s})
		return s
	})
	// BytesR, StringR: unbounded symbolic length, every byte in lo..hi
	reg("verif.BytesR", func(m *Machine, fn *ssa.Function, a []value) value {
		name := m.inputName(cname(a[0]))
		s := mkBytes(m, name, 1<<40, a[1].(*Term).k, a[2].(*Term).k)
		m.inputs = append(m.inputs, &Input{Name: name, Kind: "bytes", seq: s})
		return m.seqToSlice(s)
	})
	reg("verif.StringR", func(m *Machine, fn *ssa.Function, a []value) value {
		name := m.inputName(cname(a[0]))
		s := mkBytes(m, name, 1<<40, a[1].(*Term).k, a[2].(*Term).k)
		m.inputs = append(m.inputs, &Input{Name: name, Kind: "string", seq: s})
		return s
	})
	fixed := func(m *Machine, a []value, kind string, lo, hi uint64) *Seq {
		name := m.inputName(cname(a[0]))
		n := a[1].(*Term)
		bs := make([]*Term, n.k)
		for i := range bs {
			bs[i] = m.tc.VarR(fmt.Sprintf("in.%s.%d", name, i), 8, lo, hi)
			m.rangePC(bs[i], lo, hi)
		}
		s := m.seqOfBytes(bs)
		m.inputs = append(m.inputs, &Input{Name: name, Kind: kind, seq: s})
		return s
	}
	reg("verif.BytesN", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.seqToSlice(fixed(m, a, "bytes", 0, 255))
	})
	reg("verif.BytesNR", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.seqToSlice(fixed(m, a, "bytes", a[2].(*Term).k, a[3].(*Term).k))
	})
	reg("verif.StringNR", func(m *Machine, fn *ssa.Function, a []value) value {
		return fixed(m, a, "string", a[2].(*Term).k, a[3].(*Term).k)
	})
	reg("verif.Assume", func(m *Machine, fn *ssa.Function, a []value) value {
		m.assume(a[0].(*Term))
		return nil
	})
	reg("verif.Assert", func(m *Machine, fn *ssa.Function, a []value) value {
		m.assertT(cname(a[0]), a[1].(*Term), nil)
		return nil
	})
	reg("verif.Cover", func(m *Machine, fn *ssa.Function, a []value) value {
		n := m.h.Name + "/" + cname(a[0])
		m.results.mu.Lock()
		m.results.covers[n]++
		m.results.mu.Unlock()
		return nil
	})
	reg("verif.EqBytes", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.seqEq(m.sliceSeq(a[0].(*Slice)), m.sliceSeq(a[1].(*Slice)))
	})
	reg("verif.Same", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.deepEq(a[0].(iface), a[1].(iface))
	})
	// Use: calls of a function are replaced by its contract (a specification proved by another harness).
	reg("verif.Use", func(m *Machine, fn *ssa.Function, a []value) value {
		t, ok1 := a[0].(iface).v.(*ssa.Function)
		s, ok2 := a[1].(iface).v.(*ssa.Function)
		if !ok1 || !ok2 {
			unsupported("Use of %T, %T", a[0].(iface).v, a[1].(iface).v)
		}
		if t.Synthetic != "" { // method expression
			if o, ok := t.Object().(*types.Func); ok {
				if r := m.w.prog.FuncValue(o); r != nil {
					t = r
				}
			}
		}
		m.subst[t] = s
		return nil
	})
	reg("verif.Unroll", func(m *Machine, fn *ssa.Function, a []value) value {
		m.unroll = int(a[0].(*Term).k)
		return nil
	})
	reg("verif.UnrollIn", func(m *Machine, fn *ssa.Function, a []value) value {
		m.unrollIn[cname(a[0])] = int(a[1].(*Term).k)
		return nil
	})
	reg("verif.Sample", func(m *Machine, fn *ssa.Function, a []value) value {
		panic(pathEnd{kind: "sample"})
	})
	reg("verif.HavocAfter", func(m *Machine, fn *ssa.Function, a []value) value {
		m.havocAfter = int(a[0].(*Term).k)
		return nil
	})
	hv := func(w int) nativeModel {
		return func(m *Machine, fn *ssa.Function, a []value) value {
			m.tainted = true
			m.fresher++
			m.model = nil
			return m.tc.Var(fmt.Sprintf("any!%d.%d", m.fresher, w), w)
		}
	}
	reg("verif.AnyBool", hv(0))
	reg("verif.AnyU8", hv(8))
	reg("verif.AnyU16", hv(16))
	reg("verif.AnyU32", hv(32))
	reg("verif.AnyU64", hv(64))
	anySeq := func(m *Machine) *Seq {
		m.tainted = true
		m.fresher++
		return mkBytes(m, fmt.Sprintf("any!%d", m.fresher), 1<<40)
	}
	reg("verif.AnyString", func(m *Machine, fn *ssa.Function, a []value) value { return anySeq(m) })
	reg("verif.AnyBytes", func(m *Machine, fn *ssa.Function, a []value) value { return m.seqToSlice(anySeq(m)) })
	reg("verif.Symbolic", func(m *Machine, fn *ssa.Function, a []value) value { return m.tc.tt })
	reg("verif.IsNative", func(m *Machine, fn *ssa.Function, a []value) value { return m.tc.ff })
	reg("verif.Concrete", func(m *Machine, fn *ssa.Function, a []value) value {
		t := a[0].(*Term)
		return m.tc.BV(t.w, m.concretize(t, 4096))
	})
}

// deepEq: structural equality of two interface values (nil and empty slices are the same).
func (m *Machine) deepEq(x, y iface) *Term {
	if x.t == nil || y.t == nil {
		return m.tc.Bool(x.t == nil && y.t == nil)
	}
	if !types.Identical(x.t, y.t) {
		return m.tc.ff
	}
	return m.deepEqT(x.t, x.v, y.v, 0)
}

func (m *Machine) deepEqT(t types.Type, x, y value, d int) *Term {
	c := m.tc
	if d > 30 {
		unsupported("deepEq depth")
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		xs, ok := x.(structure)
		ys, ok2 := y.(structure)
		if !ok || !ok2 {
			unsupported("deepEq of modelled %v", t)
		}
		r := c.tt
		for i := range xs {
			r = c.And(r, m.deepEqT(u.Field(i).Type(), xs[i], ys[i], d+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Array:
		xs, ys := x.(array), y.(array)
		r := c.tt
		for i := range xs {
			r = c.And(r, m.deepEqT(u.Elem(), xs[i], ys[i], d+1))
		}
		return r
	case *types.Slice:
		xs, ys := x.(*Slice), y.(*Slice)
		if isByteSlice(t) {
			return m.seqEq(m.sliceSeq(xs), m.sliceSeq(ys))
		}
		if len(xs.e) != len(ys.e) {
			return c.ff
		}
		r := c.tt
		for i := range xs.e {
			r = c.And(r, m.deepEqT(u.Elem(), xs.e[i], ys.e[i], d+1))
			if r.isFalse() {
				return r
			}
		}
		return r
	case *types.Pointer:
		a, ok := x.(*value)
		b, ok2 := y.(*value)
		if !ok || !ok2 {
			unsupported("deepEq pointer %T", x)
		}
		if a == b {
			return c.tt
		}
		if a == nil || b == nil {
			return c.ff
		}
		return m.deepEqT(u.Elem(), *a, *b, d+1)
	case *types.Interface:
		a, b := x.(iface), y.(iface)
		return m.deepEq(a, b)
	case *types.Map:
		a, b := x.(*Map), y.(*Map)
		if a == b {
			return c.tt
		}
		la, lb := 0, 0
		if a != nil {
			la = len(a.ents)
		}
		if b != nil {
			lb = len(b.ents)
		}
		if la != lb {
			return c.ff
		}
		r := c.tt
		for i := 0; i < la; i++ {
			j := b.find(m, a.ents[i].k)
			if j < 0 {
				return c.ff
			}
			r = c.And(r, m.deepEqT(u.Elem(), a.ents[i].v, b.ents[j].v, d+1))
		}
		return r
	case *types.Signature:
		return c.Bool(isNilFunc(x) && isNilFunc(y))
	}
	return m.equals(t, x, y)
}
