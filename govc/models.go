package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- registry of trusted models of standard-library functions ----

type notHandledT struct{}

var notHandled = notHandledT{}

var nativeTable = map[string]nativeModel{}

func reg(name string, f nativeModel) { nativeTable[name] = f }

// nativeFor returns the model for a function, or nil.
func (m *Machine) nativeFor(fn *ssa.Function) nativeModel {
	if nm, ok := m.natives[fn]; ok {
		return nm
	}
	if m.noNative[fn] {
		return nil
	}
	name := fn.String()
	if o := fn.Origin(); o != nil {
		name = o.String()
	}
	if strings.HasPrefix(name, "verif/verif.") {
		name = "verif." + strings.TrimPrefix(name, "verif/verif.")
	}
	f, ok := nativeTable[name]
	if !ok {
		m.noNative[fn] = true
		return nil
	}
	std := !strings.HasPrefix(name, "verif.")
	nm := func(m *Machine, fn *ssa.Function, args []value) value {
		r := f(m, fn, args)
		if _, no := r.(notHandledT); no {
			return m.callBody(fn, args)
		}
		if std {
			m.trusted[name] = true
		}
		return r
	}
	m.natives[fn] = nm
	return nm
}

// callBody interprets the real body of a modelled function.
func (m *Machine) callBody(fn *ssa.Function, args []value) value {
	old := m.natives[fn]
	delete(m.natives, fn)
	m.noNative[fn] = true
	defer func() {
		delete(m.noNative, fn)
		m.natives[fn] = old
	}()
	return m.callF(nil, fn, args, nil)
}

func skipInit(path string) bool {
	if strings.HasPrefix(path, repoMod) || strings.HasPrefix(path, "verif/") {
		return false
	}
	switch path {
	case "io", "strconv", "encoding/hex", "strings", "bytes", "unicode/utf8", "sort", "slices", "bufio", "math/bits", "cmp", "encoding/csv", "flag", "path", "path/filepath":
		return false
	}
	return true
}

func modelGlobal(m *Machine, g *ssa.Global) value {
	switch g.String() {
	case "os.Stdout", "os.Stderr", "os.Stdin":
		return m.newPtr(&fileModel{name: g.Name()})
	case "os.Args":
		return &Slice{e: []value{litSeq("midiasm")}}
	}
	return m.embedded(g)
}

// modelled struct types
func modelZero(n *types.Named) func() value {
	o := n.Obj()
	if o.Pkg() == nil {
		return nil
	}
	switch o.Pkg().Path() + "." + o.Name() {
	case "bytes.Buffer":
		return func() value { return &bufModel{} }
	case "strings.Builder":
		return func() value { return &bufModel{} }
	case "bytes.Reader", "strings.Reader":
		return func() value { return &rdrModel{seq: emptySeq} }
	case "sync.Mutex", "sync.RWMutex", "sync.Once", "sync.WaitGroup":
		return func() value { return &syncModel{} }
	}
	return nil
}

type syncModel struct{ done bool }
type fileModel struct {
	name       string
	rd         *Seq
	wr, closed bool
}

// bytes.Buffer / strings.Builder
// In the concrete-length mode (seq == nil) the backing store is shared with the slices handed out by
// Bytes, with the library's growth policy, so aliasing is as in the real buffer.  A symbolic-length
// write or any read switches to a snapshot (seq mode).
type bufModel struct {
	seq *Seq
	e   []value
}

func (b *bufModel) clone() value { return &bufModel{seq: b.seq, e: b.e} }

func (b *bufModel) get(m *Machine) *Seq {
	if b.seq != nil {
		return b.seq
	}
	return m.sliceSeq(&Slice{e: b.e})
}

func (b *bufModel) toSeq(m *Machine) {
	if b.seq == nil {
		b.seq = b.get(m)
		b.e = nil
	}
}

func (b *bufModel) write(m *Machine, s *Seq) {
	if b.seq == nil && !s.fixed() {
		b.toSeq(m)
	}
	if b.seq != nil {
		b.seq = concat(b.seq, s)
		return
	}
	bs := m.seqBytes(s)
	n, l, c := len(bs), len(b.e), cap(b.e)
	if l+n > c {
		var nc int
		switch {
		case b.e == nil && n <= 64:
			nc = 64
		default:
			nc = growCap(0, 0, 2*c+n, 1)
		}
		ne := make([]value, l, nc)
		copy(ne, b.e)
		b.e = ne
	}
	b.e = b.e[:l+n]
	for i := range bs {
		b.e[l+i] = bs[i]
	}
}

// bytes.Reader / strings.Reader
type rdrModel struct {
	seq *Seq // remaining
	all *Seq
}

func (b *rdrModel) clone() value { return &rdrModel{seq: b.seq, all: b.all} }

func slot[T any](m *Machine, p value) T {
	q, ok := p.(*value)
	var z T
	if !ok {
		unsupported("model receiver %T", p)
	}
	if q == nil {
		m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	x, ok := (*q).(T)
	if !ok {
		unsupported("model receiver holds %T, not %T", *q, z)
	}
	m.logModel(x)
	return x
}

func (m *Machine) nilErr() iface { return iface{} }

func (m *Machine) errNew(msg *Seq) iface {
	t := m.w.typ("errors", "errorString")
	return iface{t: types.NewPointer(t), v: m.newPtr(structure{msg})}
}

func (m *Machine) globalVal(pkg, name string) value {
	p := m.w.pkgs[pkg]
	if p == nil {
		unsupported("package %s not loaded", pkg)
	}
	g := p.Members[name].(*ssa.Global)
	return *m.global(g)
}

func (m *Machine) eof() value { return m.globalVal("io", "EOF") }
func (m *Machine) ueof() value { return m.globalVal("io", "ErrUnexpectedEOF") }

func (m *Machine) errString(x iface) *Seq {
	fn := m.w.findMethod(x.t, "Error")
	if fn == nil {
		return litSeq("?")
	}
	return m.callValue(nil, fn, []value{x.v}).(*Seq)
}

// isEmpty decides whether a sequence is empty (forking).
func (m *Machine) isEmpty(s *Seq) bool {
	if len(s.p) == 0 {
		return true
	}
	return m.branch(m.tc.Eq(m.seqLen(s), m.tc.BV(64, 0)))
}

// popByte removes the first byte of a non-empty sequence.
func (m *Machine) popByte(s *Seq) (*Term, *Seq) {
	h, t := m.splitAt(s, m.tc.BV(64, 1))
	h2 := normSeq(h)
	// a zero-length leading view may remain in h: find the byte
	for i := range h2.p {
		x := &h2.p[i]
		switch x.k {
		case pLit:
			return m.tc.BV(8, uint64(x.lit[0])), t
		case pByte:
			return x.t, t
		case pView:
			if m.branch(m.tc.Eq(x.n, m.tc.BV(64, 0))) {
				continue
			}
			return m.tc.Select(x.t, x.off), t
		case pRep:
			if m.branch(m.tc.Eq(x.n, m.tc.BV(64, 0))) {
				continue
			}
			return x.t, t
		case pDec:
			ds := m.expandDec(x)
			return ds[0], t
		}
	}
	panic(pathEnd{kind: "assume", msg: "popByte on empty"})
}

// readInto copies up to len(dst) bytes from *src; returns n.
func (m *Machine) readInto(dst *Slice, src **Seq) *Term {
	c := m.tc
	dl := m.lenOf(dst)
	sl := m.seqLen(*src)
	var head *Seq
	var n *Term
	if m.branch(c.Ule(sl, dl)) {
		head, *src = *src, emptySeq
		n = sl
	} else {
		head, *src = m.splitAt(*src, dl)
		n = dl
	}
	m.copySeq(dst, head)
	return n
}

func init() {
	i64 := func(m *Machine, n int) *Term { return m.tc.BV(64, uint64(n)) }
	_ = i64
	// --- bytes.Buffer ---
	for _, T := range []string{"(*bytes.Buffer)", "(*strings.Builder)"} {
		reg(T+".Write", func(m *Machine, fn *ssa.Function, a []value) value {
			b := slot[*bufModel](m, a[0])
			s := a[1].(*Slice)
			b.write(m, m.sliceSeq(s))
			return tuple{m.lenOf(s), m.nilErr()}
		})
		reg(T+".WriteString", func(m *Machine, fn *ssa.Function, a []value) value {
			b := slot[*bufModel](m, a[0])
			s := a[1].(*Seq)
			b.write(m, s)
			return tuple{m.seqLen(s), m.nilErr()}
		})
		reg(T+".WriteByte", func(m *Machine, fn *ssa.Function, a []value) value {
			b := slot[*bufModel](m, a[0])
			b.write(m, m.seqOfBytes([]*Term{a[1].(*Term)}))
			return m.nilErr()
		})
		reg(T+".WriteRune", func(m *Machine, fn *ssa.Function, a []value) value {
			b := slot[*bufModel](m, a[0])
			bs := m.encodeRune(a[1].(*Term))
			b.write(m, m.seqOfBytes(bs))
			return tuple{m.tc.BV(64, uint64(len(bs))), m.nilErr()}
		})
		reg(T+".String", func(m *Machine, fn *ssa.Function, a []value) value {
			if q, ok := a[0].(*value); ok && q == nil {
				return litSeq("<nil>")
			}
			return slot[*bufModel](m, a[0]).get(m)
		})
		reg(T+".Len", func(m *Machine, fn *ssa.Function, a []value) value {
			return m.seqLen(slot[*bufModel](m, a[0]).get(m))
		})
		reg(T+".Reset", func(m *Machine, fn *ssa.Function, a []value) value {
			b := slot[*bufModel](m, a[0])
			if b.seq != nil {
				b.seq = emptySeq
			} else {
				b.e = b.e[:0]
			}
			return nil
		})
		reg(T+".Grow", func(m *Machine, fn *ssa.Function, a []value) value { return nil })
	}
	reg("(*bytes.Buffer).Bytes", func(m *Machine, fn *ssa.Function, a []value) value {
		b := slot[*bufModel](m, a[0])
		if b.seq == nil {
			return &Slice{e: b.e, nilp: b.e == nil}
		}
		return m.seqToSlice(b.seq)
	})
	reg("(*bytes.Buffer).Truncate", func(m *Machine, fn *ssa.Function, a []value) value {
		b := slot[*bufModel](m, a[0])
		if n := a[1].(*Term); b.seq == nil && n.op == OConst && int(n.k) <= len(b.e) {
			b.e = b.e[:n.k]
			return nil
		}
		b.toSeq(m)
		b.seq = m.seqSlice(b.seq, nil, a[1].(*Term))
		return nil
	})
	reg("bytes.NewBuffer", func(m *Machine, fn *ssa.Function, a []value) value {
		if s := a[0].(*Slice); s.r == nil {
			return m.newPtr(&bufModel{e: s.e})
		}
		return m.newPtr(&bufModel{seq: m.sliceSeq(a[0].(*Slice))})
	})
	reg("bytes.NewBufferString", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.newPtr(&bufModel{seq: a[0].(*Seq)})
	})
	reg("(*bytes.Buffer).ReadByte", func(m *Machine, fn *ssa.Function, a []value) value {
		b := slot[*bufModel](m, a[0])
		b.toSeq(m)
		if m.isEmpty(b.seq) {
			return tuple{m.tc.BV(8, 0), m.eof()}
		}
		var t *Term
		t, b.seq = m.popByte(b.seq)
		return tuple{t, m.nilErr()}
	})
	reg("(*bytes.Buffer).Read", func(m *Machine, fn *ssa.Function, a []value) value {
		b := slot[*bufModel](m, a[0])
		b.toSeq(m)
		dst := a[1].(*Slice)
		if m.isEmpty(b.seq) {
			if m.branch(m.tc.Eq(m.lenOf(dst), m.tc.BV(64, 0))) {
				return tuple{m.tc.BV(64, 0), m.nilErr()}
			}
			return tuple{m.tc.BV(64, 0), m.eof()}
		}
		return tuple{m.readInto(dst, &b.seq), m.nilErr()}
	})
	reg("(*bytes.Buffer).Next", func(m *Machine, fn *ssa.Function, a []value) value {
		b := slot[*bufModel](m, a[0])
		b.toSeq(m)
		n := a[1].(*Term)
		l := m.seqLen(b.seq)
		if m.branch(m.tc.Slt(l, n)) {
			n = l
		}
		var h *Seq
		h, b.seq = m.splitAt(b.seq, n)
		return m.seqToSlice(h)
	})
	reg("(*bytes.Buffer).WriteTo", func(m *Machine, fn *ssa.Function, a []value) value {
		b := slot[*bufModel](m, a[0])
		b.toSeq(m)
		n := m.seqLen(b.seq)
		m.writeTo(a[1].(iface), b.seq)
		b.seq = emptySeq
		return tuple{n, m.nilErr()}
	})
	// --- bytes.Reader / strings.Reader ---
	reg("bytes.NewReader", func(m *Machine, fn *ssa.Function, a []value) value {
		q := m.sliceSeq(a[0].(*Slice))
		return m.newPtr(&rdrModel{seq: q, all: q})
	})
	reg("strings.NewReader", func(m *Machine, fn *ssa.Function, a []value) value {
		q := a[0].(*Seq)
		return m.newPtr(&rdrModel{seq: q, all: q})
	})
	for _, T := range []string{"(*bytes.Reader)", "(*strings.Reader)"} {
		reg(T+".ReadByte", func(m *Machine, fn *ssa.Function, a []value) value {
			b := slot[*rdrModel](m, a[0])
			if m.isEmpty(b.seq) {
				return tuple{m.tc.BV(8, 0), m.eof()}
			}
			var t *Term
			t, b.seq = m.popByte(b.seq)
			return tuple{t, m.nilErr()}
		})
		reg(T+".Read", func(m *Machine, fn *ssa.Function, a []value) value {
			b := slot[*rdrModel](m, a[0])
			dst := a[1].(*Slice)
			if m.isEmpty(b.seq) {
				return tuple{m.tc.BV(64, 0), m.eof()}
			}
			return tuple{m.readInto(dst, &b.seq), m.nilErr()}
		})
		reg(T+".Len", func(m *Machine, fn *ssa.Function, a []value) value {
			return m.seqLen(slot[*rdrModel](m, a[0]).seq)
		})
		reg(T+".Size", func(m *Machine, fn *ssa.Function, a []value) value {
			return m.seqLen(slot[*rdrModel](m, a[0]).all)
		})
	}
	// --- bufio.Reader over a modelled or interpreted source ---
	reg("bufio.NewReader", func(m *Machine, fn *ssa.Function, a []value) value {
		src := a[0].(iface)
		return m.newPtr(&bufioModel{src: src})
	})
	reg("bufio.NewReaderSize", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.newPtr(&bufioModel{src: a[0].(iface)})
	})
	reg("(*bufio.Reader).ReadByte", func(m *Machine, fn *ssa.Function, a []value) value {
		b := slot[*bufioModel](m, a[0])
		p := b.source(m)
		if m.isEmpty(*p) {
			return tuple{m.tc.BV(8, 0), b.atEnd(m)}
		}
		var t *Term
		t, *p = m.popByte(*p)
		b.prev = t
		return tuple{t, m.nilErr()}
	})
	reg("(*bufio.Reader).UnreadByte", func(m *Machine, fn *ssa.Function, a []value) value {
		b := slot[*bufioModel](m, a[0])
		p := b.source(m)
		if b.prev == nil {
			unsupported("UnreadByte without byte")
		}
		*p = concat(m.seqOfBytes([]*Term{b.prev}), *p)
		b.prev = nil
		return m.nilErr()
	})
	reg("(*bufio.Reader).Peek", func(m *Machine, fn *ssa.Function, a []value) value {
		b := slot[*bufioModel](m, a[0])
		p := b.source(m)
		n := a[1].(*Term)
		b.prev = nil
		if m.branch(m.tc.Slt(m.seqLen(*p), n)) {
			return tuple{m.seqToSlice(*p), b.atEnd(m)}
		}
		h, _ := m.splitAt(*p, n)
		return tuple{m.seqToSlice(h), m.nilErr()}
	})
	reg("(*bufio.Reader).Read", func(m *Machine, fn *ssa.Function, a []value) value {
		b := slot[*bufioModel](m, a[0])
		p := b.source(m)
		dst := a[1].(*Slice)
		b.prev = nil
		if m.branch(m.tc.Eq(m.lenOf(dst), m.tc.BV(64, 0))) {
			return tuple{m.tc.BV(64, 0), m.nilErr()}
		}
		if m.isEmpty(*p) {
			return tuple{m.tc.BV(64, 0), b.atEnd(m)}
		}
		return tuple{m.readInto(dst, p), m.nilErr()}
	})
	reg("(*bufio.Reader).Discard", func(m *Machine, fn *ssa.Function, a []value) value {
		b := slot[*bufioModel](m, a[0])
		p := b.source(m)
		n := a[1].(*Term)
		l := m.seqLen(*p)
		if m.branch(m.tc.Slt(l, n)) {
			*p = emptySeq
			return tuple{l, b.atEnd(m)}
		}
		_, *p = m.splitAt(*p, n)
		return tuple{n, m.nilErr()}
	})
	reg("(*bufio.Reader).Buffered", func(m *Machine, fn *ssa.Function, a []value) value {
		unsupported("bufio.Reader.Buffered")
		return nil
	})
	// --- io ---
	reg("io.ReadFull", func(m *Machine, fn *ssa.Function, a []value) value {
		src := a[0].(iface)
		dst := a[1].(*Slice)
		p := m.modelSource(src)
		if p == nil {
			return notHandled
		}
		c := m.tc
		dl := m.lenOf(dst)
		if m.branch(c.Eq(dl, c.BV(64, 0))) {
			return tuple{c.BV(64, 0), m.nilErr()}
		}
		sl := m.seqLen(*p)
		if m.branch(c.Ule(dl, sl)) {
			var h *Seq
			h, *p = m.splitAt(*p, dl)
			m.copySeq(dst, h)
			return tuple{dl, m.nilErr()}
		}
		if m.branch(c.Eq(sl, c.BV(64, 0))) {
			*p = emptySeq
			return tuple{c.BV(64, 0), m.eof()}
		}
		h := *p
		*p = emptySeq
		m.copySeq(dst, h)
		return tuple{sl, m.ueof()}
	})
	readAll := func(m *Machine, fn *ssa.Function, a []value) value {
		src := a[0].(iface)
		if q, ok := m.limited(src); ok {
			return tuple{m.seqToSlice(q), m.nilErr()}
		}
		p := m.modelSource(src)
		if p == nil {
			q, err := m.drain(src)
			if err.t != nil {
				return tuple{m.seqToSlice(q), err}
			}
			return tuple{m.seqToSlice(q), m.nilErr()}
		}
		h := *p
		*p = emptySeq
		return tuple{m.seqToSlice(h), m.nilErr()}
	}
	reg("io.ReadAll", readAll)
	reg("(*bytes.Buffer).ReadFrom", func(m *Machine, fn *ssa.Function, a []value) value {
		b := slot[*bufModel](m, a[0])
		r := readAll(m, fn, a[1:]).(tuple)
		s := r[0].(*Slice)
		n := m.lenOf(s)
		b.write(m, m.sliceSeq(s))
		return tuple{n, r[1]}
	})
	reg("io/ioutil.ReadAll", readAll)
	reg("io.WriteString", func(m *Machine, fn *ssa.Function, a []value) value {
		s := a[1].(*Seq)
		m.writeTo(a[0].(iface), s)
		return tuple{m.seqLen(s), m.nilErr()}
	})
	// --- encoding/binary ---
	reg("encoding/binary.Write", func(m *Machine, fn *ssa.Function, a []value) value {
		w, order, data := a[0].(iface), a[1].(iface), a[2].(iface)
		if data.t == nil || order.t == nil {
			unsupported("binary.Write of nil")
		}
		big := strings.HasSuffix(order.t.String(), "bigEndian")
		put := func(t *Term, width int) *Seq {
			var bs []*Term
			for i := 0; i < width/8; i++ {
				k := i
				if big {
					k = width/8 - 1 - i
				}
				bs = append(bs, m.tc.Extract(t, 8*k+7, 8*k))
			}
			return m.seqOfBytes(bs)
		}
		var out *Seq
		if sl, ok := data.v.(*Slice); ok {
			if isByteSlice(data.t) {
				out = m.sliceSeq(sl)
			} else {
				et := data.t.Underlying().(*types.Slice).Elem()
				width, _, ok := basicInfo(et)
				if !ok || width == 0 {
					unsupported("binary.Write of %v", data.t)
				}
				out = emptySeq
				for _, e := range sl.e {
					out = concat(out, put(e.(*Term), width))
				}
			}
		} else {
			if p, ok := data.v.(*value); ok && p != nil {
				data = iface{t: data.t.Underlying().(*types.Pointer).Elem(), v: *p}
			}
			b, isb := data.t.Underlying().(*types.Basic)
			width, _, ok := basicInfo(data.t)
			if !isb || !ok || width == 0 || b.Kind() == types.Int || b.Kind() == types.Uint || b.Kind() == types.Uintptr {
				unsupported("binary.Write of %v", data.t)
			}
			out = put(data.v.(*Term), width)
		}
		return m.writeTo(w, out)
	})
	// --- sync ---
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock"} {
		reg(n, func(m *Machine, fn *ssa.Function, a []value) value { return nil })
	}
	reg("(*sync.Once).Do", func(m *Machine, fn *ssa.Function, a []value) value {
		s := slot[*syncModel](m, a[0])
		if !s.done {
			s.done = true
			m.callValue(nil, a[1], nil)
		}
		return nil
	})
	// --- os (virtual) ---
	reg("(*os.File).Write", func(m *Machine, fn *ssa.Function, a []value) value {
		return tuple{m.lenOf(a[1]), m.nilErr()}
	})
	reg("(*os.File).WriteString", func(m *Machine, fn *ssa.Function, a []value) value {
		return tuple{m.lenOf(a[1]), m.nilErr()}
	})
	// --- errors ---
	reg("errors.Is", func(m *Machine, fn *ssa.Function, a []value) value {
		e, t := a[0].(iface), a[1].(iface)
		return m.tc.Bool(m.errorsIs(e, t))
	})
	// --- slices ---
	reg("slices.Clone", func(m *Machine, fn *ssa.Function, a []value) value {
		s := a[0].(*Slice)
		if s.nilp {
			return s
		}
		if s.r != nil {
			return m.seqToSlice(m.sliceSeq(s))
		}
		e := make([]value, len(s.e))
		for i := range e {
			e[i] = copyVal(s.e[i])
		}
		return &Slice{e: e}
	})
	reg("slices.Equal", func(m *Machine, fn *ssa.Function, a []value) value {
		return notHandled
	})
	reg("bytes.Equal", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.seqEq(m.sliceSeq(a[0].(*Slice)), m.sliceSeq(a[1].(*Slice)))
	})
	reg("internal/stringslite.Clone", func(m *Machine, fn *ssa.Function, a []value) value { return a[0] })
	reg("strings.Clone", func(m *Machine, fn *ssa.Function, a []value) value { return a[0] })
	// --- sort ---
	reg("sort.SliceStable", sortStable)
	reg("sort.Slice", sortStable)
	reg("math.Round", func(m *Machine, fn *ssa.Function, a []value) value {
		return mathRound(a[0].(float64))
	})
	reg("(time.Duration).Round", func(m *Machine, fn *ssa.Function, a []value) value {
		d, u := a[0].(*Term), a[1].(*Term)
		if d.op == OConst || u.op != OConst || u.k == 0 || u.k%2 == 1 || u.k > 1<<40 {
			return notHandled
		}
		// trusted contract: within half a unit of the argument (the multiple itself is not specified)
		k := roundKey{d, u}
		if r, ok := m.rounds[k]; ok {
			return r
		}
		if m.rounds == nil {
			m.rounds = map[roundKey]*Term{}
		}
		e := m.freshR("round", 64, 0, u.k)
		r := m.tc.Bin(OAdd, d, m.tc.Bin(OSub, e, m.tc.BV(64, u.k/2)))
		m.rounds[k] = r
		m.tainted = true
		return r
	})
	// --- logging: no effect on results ---
	nop := func(m *Machine, fn *ssa.Function, a []value) value { return nil }
	for _, n := range []string{"Debugf", "Infof", "Warnf", "Errorf"} {
		reg(repoMod+"/log."+n, nop)
	}
	for _, n := range []string{"Printf", "Println", "Print", "SetFlags"} {
		reg("log."+n, nop)
	}
	reg("reflect.TypeOf", func(m *Machine, fn *ssa.Function, a []value) value {
		x := a[0].(iface)
		if x.t == nil {
			return iface{}
		}
		return iface{t: types.Typ[types.UnsafePointer], v: &rtypeModel{x.t}}
	})
}

type roundKey struct{ d, u *Term }

type rtypeModel struct{ t types.Type }

func mathRound(f float64) float64 {
	s, _ := strconv.ParseFloat(strconv.FormatFloat(f, 'f', 0, 64), 64)
	t := float64(int64(f))
	if d := f - t; d >= 0.5 {
		return t + 1
	} else if d <= -0.5 {
		return t - 1
	}
	_ = s
	return t
}

func (m *Machine) errorsIs(e, t iface) bool {
	for d := 0; d < 20; d++ {
		if e.t == nil || t.t == nil {
			return e.t == nil && t.t == nil
		}
		if types.Comparable(t.t) && m.branch(m.ifaceEq(e, t)) {
			return true
		}
		fn := m.w.findMethod(e.t, "Unwrap")
		if fn == nil {
			return false
		}
		r := m.callValue(nil, fn, []value{e.v})
		ne, ok := r.(iface)
		if !ok || ne.t == nil {
			return false
		}
		e = ne
	}
	return false
}

func sortStable(m *Machine, fn *ssa.Function, a []value) value {
	s := a[0].(iface).v.(*Slice)
	if s.r != nil {
		unsupported("sort of symbolic slice")
	}
	// insertion sort calling less(i,j) on the live slice, as the library does for short inputs
	for i := 1; i < len(s.e); i++ {
		for j := i; j > 0; j-- {
			lt := m.callValue(nil, a[1], []value{m.tc.BV(64, uint64(j)), m.tc.BV(64, uint64(j-1))}).(*Term)
			if !m.branch(lt) {
				break
			}
			x, y := copyVal(s.e[j]), copyVal(s.e[j-1])
			m.logCell(&s.e[j])
			m.logCell(&s.e[j-1])
			assign(&s.e[j], y)
			assign(&s.e[j-1], x)
		}
	}
	return nil
}

type bufioModel struct {
	src  iface
	own  *Seq // for interpreted sources: drained content
	got  bool
	err  iface
	prev *Term
}

// source returns the pending bytes of the underlying reader.
func (b *bufioModel) source(m *Machine) **Seq {
	if p := m.modelSource(b.src); p != nil {
		return p
	}
	if !b.got {
		b.own, b.err = m.drain(b.src)
		b.got = true
	}
	return &b.own
}
func (b *bufioModel) atEnd(m *Machine) value {
	if b.err.t != nil {
		return b.err
	}
	return m.eof()
}

// modelSource returns the pending content of a modelled reader.
func (m *Machine) modelSource(src iface) **Seq {
	p, ok := src.v.(*value)
	if !ok || p == nil {
		return nil
	}
	m.logModel(*p)
	switch x := (*p).(type) {
	case *bufModel:
		x.toSeq(m)
		return &x.seq
	case *rdrModel:
		return &x.seq
	case *bufioModel:
		return x.source(m)
	case *fileModel:
		if x.rd == nil {
			x.rd = emptySeq
		}
		return &x.rd
	}
	return nil
}

// limited reads an io.LimitedReader over a modelled source to its end.
func (m *Machine) limited(src iface) (*Seq, bool) {
	if src.t == nil || src.t.String() != "*io.LimitedReader" {
		return nil, false
	}
	lr, ok := src.v.(*value)
	if !ok || lr == nil {
		return nil, false
	}
	st, ok := (*lr).(structure)
	if !ok {
		return nil, false
	}
	p := m.modelSource(st[0].(iface))
	if p == nil {
		return nil, false
	}
	n := st[1].(*Term)
	c := m.tc
	if m.branch(c.Sle(n, c.BV(64, 0))) {
		return emptySeq, true
	}
	l := m.seqLen(*p)
	var h *Seq
	if m.branch(c.Ule(l, n)) {
		h, *p = *p, emptySeq
		st[1] = c.Bin(OSub, n, l)
	} else {
		h, *p = m.splitAt(*p, n)
		st[1] = c.BV(64, 0)
	}
	return h, true
}

// drain reads an interpreted reader to its end.
func (m *Machine) drain(src iface) (*Seq, iface) {
	out := emptySeq
	if src.t == nil {
		m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	fn := m.w.findMethod(src.t, "Read")
	if fn == nil {
		unsupported("drain: no Read on %v", src.t)
	}
	for i := 0; i < 10000; i++ {
		e := make([]value, 512)
		for j := range e {
			e[j] = m.tc.BV(8, 0)
		}
		dst := &Slice{e: e}
		r := m.callValue(nil, fn, []value{src.v, dst}).(tuple)
		n := int(m.concretize(r[0].(*Term), 600))
		out = concat(out, m.sliceSeq(&Slice{e: dst.e[:n]}))
		err := r[1].(iface)
		if err.t != nil {
			if m.branch(m.ifaceEq(err, m.eof().(iface))) {
				return out, iface{}
			}
			return out, err
		}
	}
	panic(pathEnd{kind: "limit", msg: "drain"})
}

// writeTo writes a sequence to an io.Writer.
func (m *Machine) writeTo(w iface, s *Seq) iface {
	if w.t == nil {
		m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	if p, ok := w.v.(*value); ok && p != nil {
		m.logModel(*p)
		switch x := (*p).(type) {
		case *bufModel:
			x.write(m, s)
			return iface{}
		case *fileModel:
			return x.write(m, s)
		case *wrBuf:
			m.logBad(x)
			x.buf = concat(x.buf, s)
			return iface{}
		}
	}
	fn := m.w.findMethod(w.t, "Write")
	if fn == nil {
		unsupported("no Write on %v", w.t)
	}
	r := m.callValue(nil, fn, []value{w.v, m.seqToSlice(s)}).(tuple)
	return r[1].(iface)
}

var _ = fmt.Sprint
