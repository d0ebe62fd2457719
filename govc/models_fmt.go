package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- fmt ----

type fmtSpec struct {
	minus, plus, sharp, space, zero bool
	wid, prec                       int
	hasWid, hasPrec                 bool
	verb                            byte
}

// lazyErr is the value behind errors made by fmt.Errorf: the message is formatted on demand.
type lazyErr struct {
	format *Seq
	args   []value
	wrap   iface
	msg    *Seq
}

func (e *lazyErr) text(m *Machine) *Seq {
	if e.msg == nil {
		e.msg = m.sprintf(e.format, e.args)
	}
	return e.msg
}

func (m *Machine) variadic(v value) []value {
	s := v.(*Slice)
	return s.e
}

// opaque makes a byte sequence about which nothing is known.
func (m *Machine) opaque(name string) *Seq {
	n := m.freshR(name+".len", 64, 0, 1<<20)
	m.fresher++
	arr := m.tc.Var(fmt.Sprintf("%s!%d.data", name, m.fresher), -1)
	return &Seq{p: []piece{{k: pView, t: arr, off: m.tc.BV(64, 0), n: n}}}
}

func (m *Machine) sprintf(format *Seq, args []value) *Seq {
	f, ok := format.concrete()
	if !ok {
		// formats built by concatenation of data: '%' in the data would be interpreted; only allow literal formats
		unsupported("symbolic format string")
	}
	var out seqB
	argn := 0
	i := 0
	for i < len(f) {
		j := strings.IndexByte(f[i:], '%')
		if j < 0 {
			out.add(piece{k: pLit, lit: f[i:]})
			break
		}
		out.add(piece{k: pLit, lit: f[i : i+j]})
		i += j + 1
		var sp fmtSpec
	flags:
		for i < len(f) {
			switch f[i] {
			case '-':
				sp.minus = true
			case '+':
				sp.plus = true
			case '#':
				sp.sharp = true
			case ' ':
				sp.space = true
			case '0':
				sp.zero = true
			default:
				break flags
			}
			i++
		}
		if i < len(f) && f[i] == '*' {
			if argn < len(args) {
				sp.wid = int(int64(m.concretize(args[argn].(iface).v.(*Term), 500)))
				sp.hasWid = true
				if sp.wid < 0 {
					sp.wid, sp.minus = -sp.wid, true
				}
				argn++
			}
			i++
		}
		for i < len(f) && isDigitByte(f[i]) {
			sp.wid = sp.wid*10 + int(f[i]-'0')
			sp.hasWid = true
			i++
		}
		if i < len(f) && f[i] == '.' {
			i++
			sp.hasPrec = true
			for i < len(f) && isDigitByte(f[i]) {
				sp.prec = sp.prec*10 + int(f[i]-'0')
				i++
			}
		}
		if i >= len(f) {
			out.add(piece{k: pLit, lit: "%!(NOVERB)"})
			break
		}
		sp.verb = f[i]
		i++
		if sp.minus {
			sp.zero = false
		}
		if sp.verb == '%' {
			out.add(piece{k: pLit, lit: "%"})
			continue
		}
		if sp.verb >= 0x80 {
			unsupported("non-ascii verb")
		}
		if argn >= len(args) {
			out.add(piece{k: pLit, lit: "%!" + string(sp.verb) + "(MISSING)"})
			continue
		}
		a := args[argn].(iface)
		argn++
		out.addSeq(m.fmtArg(a, sp))
	}
	if argn < len(args) {
		out.add(piece{k: pLit, lit: "%!(EXTRA "})
		for k := argn; k < len(args); k++ {
			if k > argn {
				out.add(piece{k: pLit, lit: ", "})
			}
			a := args[k].(iface)
			if a.t == nil {
				out.add(piece{k: pLit, lit: "<nil>"})
			} else {
				out.add(piece{k: pLit, lit: typeName(a.t) + "="})
				out.addSeq(m.fmtArg(a, fmtSpec{verb: 'v'}))
			}
		}
		out.add(piece{k: pLit, lit: ")"})
	}
	return out.seq()
}

func (m *Machine) pad(s *Seq, sp fmtSpec) *Seq {
	if !sp.hasWid || sp.wid == 0 {
		return s
	}
	c := m.tc
	// width counts runes
	for i := range s.p {
		x := &s.p[i]
		if x.k == pByte && x.t.umax >= 0x80 || x.k == pView && x.t.hi8() >= 0x80 {
			n := m.runeCount(m.expand(s))
			if n < sp.wid {
				p := litSeq(strings.Repeat(string(sp.padByte()), sp.wid-n))
				if sp.minus {
					return concat(s, p)
				}
				return concat(p, s)
			}
			return s
		}
	}
	extra := 0 // continuation bytes in literals
	for i := range s.p {
		if s.p[i].k == pLit {
			extra += len(s.p[i].lit) - len([]rune(s.p[i].lit))
		}
	}
	n := c.Bin(OSub, m.seqLen(s), c.BV(64, uint64(extra)))
	w := c.BV(64, uint64(sp.wid))
	pn := c.Ite(c.Ult(n, w), c.Bin(OSub, w, n), c.BV(64, 0))
	if pn.op != OConst && pn.umax > uint64(sp.wid) {
		// give the padding length a sound static range
		v := m.memoTerm(fmt.Sprintf("pad:%d", pn.id), func() *Term {
			t := m.freshR("padn", 64, 0, uint64(sp.wid))
			m.assumeQuiet(c.Eq(t, pn))
			return t
		})
		pn = v
	}
	b := seqB{}
	b.add(piece{k: pRep, t: c.BV(8, uint64(sp.padByte())), n: pn})
	if sp.minus {
		return concat(s, b.seq())
	}
	return concat(b.seq(), s)
}

func (m *Machine) memoTerm(key string, f func() *Term) *Term {
	if t, ok := m.memo[key]; ok {
		return t.(*Term)
	}
	t := f()
	m.memo[key] = t
	return t
}

func (sp fmtSpec) padByte() byte {
	if sp.zero && !sp.minus {
		return '0'
	}
	return ' '
}

func (m *Machine) runeCount(s *Seq) int {
	bs := m.seqBytes(s)
	n := 0
	for i := 0; i < len(bs); {
		_, k := m.decodeRune(bs[i:])
		i += k
		n++
	}
	return n
}

func (m *Machine) fmtArg(a iface, sp fmtSpec) *Seq {
	if a.t == nil {
		switch sp.verb {
		case 'T', 'v':
			return m.pad(litSeq("<nil>"), sp)
		}
		return litSeq("%!" + string(sp.verb) + "(<nil>)")
	}
	if sp.verb == 'T' {
		return m.pad(litSeq(typeName(a.t)), sp)
	}
	if sp.verb == 'p' {
		return m.opaque("ptr")
	}
	if sp.verb == 'w' {
		sp.verb = 'v'
	}
	return m.fmtVal(a.t, a.v, sp, 0, true)
}

func isErrorType(m *Machine, t types.Type) *ssa.Function { return m.w.findMethod(t, "Error") }

func (m *Machine) tryMethods(t types.Type, v value, sp fmtSpec) (res *Seq, ok bool) {
	switch sp.verb {
	case 'v', 's', 'x', 'X', 'q':
	default:
		return nil, false
	}
	if sp.verb == 'v' && sp.sharp {
		if m.w.findMethod(t, "GoString") != nil {
			unsupported("GoString")
		}
		return nil, false
	}
	if m.w.findMethod(t, "Format") != nil {
		if types.Implements(t, fmtFormatter(m)) {
			unsupported("fmt.Formatter")
		}
	}
	name := ""
	for _, n := range []string{"Error", "String"} {
		if fn := m.w.findMethod(t, n); fn != nil {
			sg := fn.Signature
			if sg.Params().Len() == 0 && sg.Results().Len() == 1 && types.Identical(sg.Results().At(0).Type(), types.Typ[types.String]) {
				name = n
				break
			}
		}
	}
	if name == "" {
		return nil, false
	}
	fn := m.w.findMethod(t, name)
	defer func() {
		if r := recover(); r != nil {
			if tp, is := r.(targetPanic); is {
				if p, isp := v.(*value); isp && p == nil {
					res, ok = m.pad(litSeq("<nil>"), sp), true
					return
				}
				res, ok = litSeq("%!"+string(sp.verb)+"(PANIC="+name+" method: "+m.panicString(tp.v)+")"), true
				return
			}
			panic(r)
		}
	}()
	s := m.callValue(nil, fn, []value{v}).(*Seq)
	return m.fmtString(s, sp), true
}

func fmtFormatter(m *Machine) *types.Interface {
	t := m.w.typ("fmt", "Formatter")
	if t == nil {
		return types.NewInterfaceType(nil, nil)
	}
	return t.Underlying().(*types.Interface)
}

func (m *Machine) fmtString(s *Seq, sp fmtSpec) *Seq {
	switch sp.verb {
	case 'v', 's':
		if sp.sharp && sp.verb == 'v' {
			return m.pad(m.quote(s), sp)
		}
		if sp.hasPrec {
			x, ok := s.concrete()
			if !ok {
				unsupported("precision on symbolic string")
			}
			r := []rune(x)
			if len(r) > sp.prec {
				s = litSeq(string(r[:sp.prec]))
			}
		}
		return m.pad(s, sp)
	case 'q':
		return m.pad(m.quote(s), sp)
	case 'x', 'X':
		return m.pad(m.hexSeq(s, sp), sp)
	}
	return m.badVerb(sp, litSeq("string="), s)
}

func (m *Machine) quote(s *Seq) *Seq {
	if x, ok := s.concrete(); ok {
		return litSeq(strconv.Quote(x))
	}
	return m.opaque("quoted")
}

func (m *Machine) badVerb(sp fmtSpec, pre, s *Seq) *Seq {
	return concat(litSeq("%!"+string(sp.verb)+"("), pre, s, litSeq(")"))
}

func (m *Machine) hexDigit(n *Term, upper bool) *Term {
	c := m.tc
	z := c.Zext(n, 8)
	d := c.Ite(c.Ult(z, c.BV(8, 10)), c.Bin(OAdd, z, c.BV(8, '0')), c.Bin(OAdd, z, c.BV(8, map[bool]uint64{true: 'A' - 10, false: 'a' - 10}[upper])))
	if d.op != OConst {
		if c.hexOf == nil {
			c.hexOf = map[*Term]*Term{}
		}
		c.hexOf[d] = n
	}
	return d
}

func (m *Machine) hexSeq(s *Seq, sp fmtSpec) *Seq {
	bs := m.expandBytes(s)
	var out []*Term
	for i, b := range bs {
		if sp.space && i > 0 {
			out = append(out, m.tc.BV(8, ' '))
		}
		out = append(out, m.hexDigit(m.tc.Extract(b, 7, 4), sp.verb == 'X'), m.hexDigit(m.tc.Extract(b, 3, 0), sp.verb == 'X'))
	}
	return m.seqOfBytes(out)
}

func (m *Machine) fmtInt(t *Term, signed bool, sp fmtSpec) *Seq {
	c := m.tc
	if sp.hasPrec {
		unsupported("integer precision")
	}
	switch sp.verb {
	case 'v', 'd':
		if sp.sharp && sp.verb == 'v' && !signed {
			sp2 := sp
			sp2.verb = 'x'
			return concat(litSeq("0x"), m.fmtInt(t, signed, fmtSpec{verb: 'x'}))
		}
		b := seqB{}
		if sp.plus {
			neg := signed && m.branch(c.Slt(t, c.BV(t.w, 0)))
			if !neg {
				if sp.zero && sp.hasWid {
					unsupported("+0 width")
				}
				b.add(piece{k: pLit, lit: "+"})
			}
		}
		if sp.zero && sp.hasWid && signed && !t.nonneg() {
			if m.branch(c.Slt(t, c.BV(t.w, 0))) {
				unsupported("zero padded negative")
			}
		}
		b.add(piece{k: pDec, t: t, signed: signed})
		return m.pad(b.seq(), sp)
	case 'x', 'X':
		neg := false
		if signed && !t.nonneg() {
			neg = m.branch(c.Slt(t, c.BV(t.w, 0)))
			if neg {
				t = c.Bin(OSub, c.BV(t.w, 0), t)
			}
		}
		// number of hex digits
		nd := 1
		minw := 1
		if sp.zero && sp.hasWid {
			minw = sp.wid
			if neg {
				minw--
			}
		}
		nd = max(minw, 1)
		for nd*4 < t.w {
			if m.branch(c.Ult(t, c.BV(t.w, 1<<uint(4*nd)))) {
				break
			}
			nd++
		}
		var out []*Term
		if neg {
			out = append(out, c.BV(8, '-'))
		}
		if sp.sharp {
			out = append(out, c.BV(8, '0'), c.BV(8, uint64(sp.verb)))
		}
		for i := nd - 1; i >= 0; i-- {
			if 4*i >= t.w {
				out = append(out, c.BV(8, '0'))
				continue
			}
			hi := min(4*i+3, t.w-1)
			n := c.Extract(t, hi, 4*i)
			if n.w < 4 {
				n = c.Zext(n, 4)
			}
			out = append(out, m.hexDigit(n, sp.verb == 'X'))
		}
		return m.pad(m.seqOfBytes(out), sp)
	case 'c':
		return m.pad(m.seqOfBytes(m.encodeRune(c.Zext(c.Extract2(t, min(t.w, 32)), 32))), sp)
	case 'q', 'U', 'b', 'o':
		if t.op == OConst {
			if signed {
				return litSeq(fmt.Sprintf("%"+string(sp.verb), t.sval()))
			}
			return litSeq(fmt.Sprintf("%"+string(sp.verb), t.k))
		}
		return m.opaque("int")
	}
	return m.badVerb(sp, litSeq("int="), concatDec(t, signed))
}

func concatDec(t *Term, signed bool) *Seq {
	b := seqB{}
	b.add(piece{k: pDec, t: t, signed: signed})
	return b.seq()
}

func (m *Machine) fmtVal(t types.Type, v value, sp fmtSpec, depth int, canIface bool) *Seq {
	c := m.tc
	if canIface {
		if r, ok := m.tryMethods(t, v, sp); ok {
			return r
		}
	}
	if depth > 8 {
		return m.opaque("deep")
	}
	inner := sp
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			if x.w == 0 {
				if sp.verb != 'v' && sp.verb != 't' {
					return m.badVerb(sp, litSeq("bool="), litSeq("?"))
				}
				if m.branch(x) {
					return m.pad(litSeq("true"), sp)
				}
				return m.pad(litSeq("false"), sp)
			}
			_, signed, _ := basicInfo(u)
			if sp.verb == 's' {
				return m.badVerb(sp, litSeq(typeName(t)+"="), concatDec(x, signed))
			}
			return m.fmtInt(x, signed, sp)
		case *Seq:
			return m.fmtString(x, sp)
		case float64:
			f := "%"
			if sp.plus {
				f += "+"
			}
			if sp.minus {
				f += "-"
			}
			if sp.zero {
				f += "0"
			}
			if sp.hasWid {
				f += strconv.Itoa(sp.wid)
			}
			if sp.hasPrec {
				f += "." + strconv.Itoa(sp.prec)
			}
			if b := u.Kind(); b == types.Float32 {
				return litSeq(fmt.Sprintf(f+string(sp.verb), float32(x)))
			}
			return litSeq(fmt.Sprintf(f+string(sp.verb), x))
		}
		return m.opaque("basic")
	case *types.Slice, *types.Array:
		var et types.Type
		var e []value
		if s, ok := u.(*types.Slice); ok {
			et = s.Elem()
			sl := v.(*Slice)
			if isByteElem(et) && (sp.verb == 's' || sp.verb == 'x' || sp.verb == 'X' || sp.verb == 'q') {
				return m.fmtString(m.sliceSeq(sl), sp)
			}
			if sl.r != nil {
				for _, b := range m.expandBytes(m.sliceSeq(sl)) {
					e = append(e, b)
				}
			} else {
				e = sl.e
			}
		} else {
			et = u.(*types.Array).Elem()
			e = v.(array)
			if isByteElem(et) && (sp.verb == 's' || sp.verb == 'x' || sp.verb == 'X' || sp.verb == 'q') {
				return m.fmtString(m.sliceSeq(&Slice{e: e}), sp)
			}
		}
		b := seqB{}
		open, cl, sep := "[", "]", " "
		if sp.sharp && sp.verb == 'v' {
			open, cl, sep = typeName(t)+"{", "}", ", "
		}
		b.add(piece{k: pLit, lit: open})
		for i := range e {
			if i > 0 {
				b.add(piece{k: pLit, lit: sep})
			}
			b.addSeq(m.fmtVal(et, e[i], inner, depth+1, canIface))
		}
		b.add(piece{k: pLit, lit: cl})
		return b.seq()
	case *types.Struct:
		st, ok := v.(structure)
		if !ok {
			return m.opaque("struct")
		}
		b := seqB{}
		open, sep := "{", " "
		if sp.sharp && sp.verb == 'v' {
			open, sep = typeName(t)+"{", ", "
		}
		b.add(piece{k: pLit, lit: open})
		for i := 0; i < u.NumFields(); i++ {
			if i > 0 {
				b.add(piece{k: pLit, lit: sep})
			}
			if sp.plus || sp.sharp {
				b.add(piece{k: pLit, lit: u.Field(i).Name() + ":"})
			}
			b.addSeq(m.fmtVal(u.Field(i).Type(), st[i], inner, depth+1, canIface && u.Field(i).Exported()))
		}
		b.add(piece{k: pLit, lit: "}"})
		return b.seq()
	case *types.Pointer:
		p, ok := v.(*value)
		if ok && p == nil {
			return m.pad(litSeq("<nil>"), sp)
		}
		if ok && depth == 0 {
			switch u.Elem().Underlying().(type) {
			case *types.Struct, *types.Slice, *types.Array, *types.Map:
				return concat(litSeq("&"), m.fmtVal(u.Elem(), *p, sp, depth+1, canIface))
			}
		}
		return m.opaque("ptr")
	case *types.Interface:
		x := v.(iface)
		if x.t == nil {
			return m.pad(litSeq("<nil>"), sp)
		}
		return m.fmtVal(x.t, x.v, sp, depth+1, canIface)
	case *types.Map:
		mp := v.(*Map)
		if mp == nil || len(mp.ents) == 0 {
			return litSeq("map[]")
		}
		return m.opaque("map")
	case *types.Signature, *types.Chan:
		if isNilFunc(v) {
			return litSeq("<nil>")
		}
		return m.opaque("ptr")
	}
	_ = c
	return m.opaque("value")
}

func isByteElem(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}

func (m *Machine) sprint(args []value, ln bool) *Seq {
	b := seqB{}
	prevString := false
	for i, a := range args {
		x := a.(iface)
		isStr := false
		if x.t != nil {
			if bt, ok := x.t.Underlying().(*types.Basic); ok && bt.Kind() == types.String {
				isStr = true
			}
		}
		if i > 0 && (ln || (!isStr && !prevString)) {
			b.add(piece{k: pLit, lit: " "})
		}
		b.addSeq(m.fmtArg(x, fmtSpec{verb: 'v'}))
		prevString = isStr
	}
	if ln {
		b.add(piece{k: pLit, lit: "\n"})
	}
	return b.seq()
}

func isStdFile(w iface) bool {
	if p, ok := w.v.(*value); ok && p != nil {
		if f, ok := (*p).(*fileModel); ok {
			return f.name == "Stdout" || f.name == "Stderr"
		}
	}
	return false
}

func init() {
	reg("fmt.Sprintf", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.sprintf(a[0].(*Seq), m.variadic(a[1]))
	})
	reg("fmt.Sprint", func(m *Machine, fn *ssa.Function, a []value) value { return m.sprint(m.variadic(a[0]), false) })
	reg("fmt.Sprintln", func(m *Machine, fn *ssa.Function, a []value) value { return m.sprint(m.variadic(a[0]), true) })
	reg("fmt.Errorf", func(m *Machine, fn *ssa.Function, a []value) value {
		args := append([]value{}, m.variadic(a[1])...)
		for i := range args {
			x := args[i].(iface)
			args[i] = iface{x.t, copyVal(x.v)}
		}
		e := &lazyErr{format: a[0].(*Seq), args: args}
		if f, ok := e.format.concrete(); ok {
			// operand of the first %w
			n := 0
			for i := 0; i+1 < len(f); i++ {
				if f[i] != '%' {
					continue
				}
				i++
				for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
					i++
				}
				if i >= len(f) || f[i] == '%' {
					continue
				}
				if f[i] == 'w' && n < len(args) {
					e.wrap = args[n].(iface)
					return iface{t: types.NewPointer(m.w.typ("fmt", "wrapError")), v: m.newPtr(e)}
				}
				n++
			}
		}
		return iface{t: types.NewPointer(m.w.typ("errors", "errorString")), v: m.newPtr(e)}
	})
	errText := func(m *Machine, fn *ssa.Function, a []value) value {
		p, ok := a[0].(*value)
		if !ok || p == nil {
			return notHandled
		}
		if e, ok := (*p).(*lazyErr); ok {
			return e.text(m)
		}
		return notHandled
	}
	reg("(*errors.errorString).Error", errText)
	reg("(*fmt.wrapError).Error", errText)
	reg("(*fmt.wrapError).Unwrap", func(m *Machine, fn *ssa.Function, a []value) value {
		p := a[0].(*value)
		if e, ok := (*p).(*lazyErr); ok {
			return e.wrap
		}
		return notHandled
	})
	fpr := func(get func(m *Machine, a []value) *Seq) nativeModel {
		return func(m *Machine, fn *ssa.Function, a []value) value {
			w := a[0].(iface)
			if isStdFile(w) {
				return tuple{m.tc.BV(64, 0), m.nilErr()}
			}
			s := get(m, a)
			err := m.writeTo(w, s)
			return tuple{m.seqLen(s), err}
		}
	}
	reg("fmt.Fprintf", fpr(func(m *Machine, a []value) *Seq { return m.sprintf(a[1].(*Seq), m.variadic(a[2])) }))
	reg("fmt.Fprint", fpr(func(m *Machine, a []value) *Seq { return m.sprint(m.variadic(a[1]), false) }))
	reg("fmt.Fprintln", fpr(func(m *Machine, a []value) *Seq { return m.sprint(m.variadic(a[1]), true) }))
	noOut := func(m *Machine, fn *ssa.Function, a []value) value { return tuple{m.tc.BV(64, 0), m.nilErr()} }
	for _, n := range []string{"fmt.Printf", "fmt.Println", "fmt.Print"} {
		reg(n, noOut)
	}

	// ---- strconv ----
	reg("strconv.Itoa", func(m *Machine, fn *ssa.Function, a []value) value { return concatDec(a[0].(*Term), true) })
	reg("strconv.FormatInt", func(m *Machine, fn *ssa.Function, a []value) value {
		if b := a[1].(*Term); b.op == OConst && b.k == 10 {
			return concatDec(a[0].(*Term), true)
		}
		return notHandled
	})
	reg("strconv.FormatUint", func(m *Machine, fn *ssa.Function, a []value) value {
		if b := a[1].(*Term); b.op == OConst && b.k == 10 {
			return concatDec(a[0].(*Term), false)
		}
		return notHandled
	})
	reg("strconv.Quote", func(m *Machine, fn *ssa.Function, a []value) value { return m.quote(a[0].(*Seq)) })
	reg("strconv.ParseUint", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.parseNum(a[0].(*Seq), a[1].(*Term), a[2].(*Term), false, fn)
	})
	reg("strconv.ParseInt", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.parseNum(a[0].(*Seq), a[1].(*Term), a[2].(*Term), true, fn)
	})
	reg("strconv.Atoi", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.parseNum(a[0].(*Seq), m.tc.BV(64, 10), m.tc.BV(64, 0), true, fn)
	})
}

// decimalValue reads an unsigned decimal digit string: status 0 ok, 1 syntax error, 2 too long to represent.
func (m *Machine) decimalValue(s *Seq) (*Term, int) {
	c := m.tc
	// drop leading symbolic zero padding
	p := s.p
	for len(p) > 1 && p[0].k == pRep && p[0].t.op == OConst && p[0].t.k == '0' {
		p = p[1:]
	}
	if len(p) == 1 && p[0].k == pDec {
		x := p[0]
		if !x.signed || x.t.nonneg() {
			return c.Zext(x.t, 64), 0
		}
		if m.branch(c.Slt(x.t, c.BV(x.t.w, 0))) {
			return nil, 1
		}
		return c.Zext(x.t, 64), 0
	}
	s = m.expand(&Seq{p: p})
	bs := m.seqBytes(s)
	if len(bs) == 0 {
		return nil, 1
	}
	ok := c.tt
	for _, b := range bs {
		ok = c.And(ok, c.And(c.Ule(c.BV(8, '0'), b), c.Ule(b, c.BV(8, '9'))))
	}
	if !m.branch(ok) {
		return nil, 1
	}
	// leading literal zeros do not count
	for len(bs) > 1 && bs[0].op == OConst && bs[0].k == '0' {
		bs = bs[1:]
	}
	for len(bs) > 19 && m.branch(c.Eq(bs[0], c.BV(8, '0'))) {
		bs = bs[1:]
	}
	if len(bs) > 20 {
		return nil, 2
	}
	var last *Term
	if len(bs) == 20 {
		last = bs[19]
		bs = bs[:19]
	}
	v := c.BV(64, 0)
	for _, b := range bs {
		d := c.Zext(c.Bin(OSub, b, c.BV(8, '0')), 64)
		v = c.Bin(OAdd, c.Bin(OMul, v, c.BV(64, 10)), d)
	}
	if last != nil {
		q := c.BV(64, ^uint64(0)/10)
		if m.branch(c.Or(c.Ult(q, v), c.And(c.Eq(q, v), c.Ult(c.BV(8, '5'), last)))) {
			return nil, 2
		}
		v = c.Bin(OAdd, c.Bin(OMul, v, c.BV(64, 10)), c.Zext(c.Bin(OSub, last, c.BV(8, '0')), 64))
	}
	return v, 0
}

func (m *Machine) parseNum(s *Seq, base, bits *Term, signed bool, fn *ssa.Function) value {
	c := m.tc
	if base.op != OConst || base.k != 10 || bits.op != OConst {
		if base.op == OConst && base.k == 16 && bits.op == OConst && !signed {
			return m.parseHex(s, bits)
		}
		return notHandled
	}
	numErr := func(kind string, val *Term) value {
		pk := "strconv"
		t := m.w.typ(pk, "NumError")
		e := m.newPtr(structure{litSeq(fn.Name()), s, m.globalVal(pk, kind)})
		return tuple{val, iface{t: types.NewPointer(t), v: e}}
	}
	bs := int(bits.k)
	if bs == 0 {
		bs = 64
	}
	neg := false
	if signed {
		// optional sign
		if m.isEmpty(s) {
			return numErr("ErrSyntax", c.BV(64, 0))
		}
		if len(s.p) == 1 && s.p[0].k == pDec {
			x := s.p[0]
			if x.signed && !x.t.nonneg() {
				if m.branch(c.Slt(x.t, c.BV(x.t.w, 0))) {
					v := c.Sext(x.t, 64)
					if bs < 64 && !m.branch(c.Sle(c.BV(64, ^uint64(0)<<uint(bs-1)), v)) {
						return numErr("ErrRange", c.BV(64, ^uint64(0)<<uint(bs-1)))
					}
					return tuple{v, m.nilErr()}
				}
			}
		} else {
			h, rest := m.popByte(s)
			if m.branch(c.Eq(h, c.BV(8, '-'))) {
				neg = true
				s = rest
			} else if m.branch(c.Eq(h, c.BV(8, '+'))) {
				s = rest
			}
		}
	}
	v, st := m.decimalValue(s)
	maxv := mask(bs)
	if signed {
		maxv = mask(bs) >> 1
		if neg {
			maxv++
		}
	}
	switch st {
	case 1:
		return numErr("ErrSyntax", c.BV(64, 0))
	case 2:
		// above 64 bits
		r := c.BV(64, maxv)
		if neg {
			r = c.Bin(OSub, c.BV(64, 0), r)
		}
		return numErr("ErrRange", r)
	}
	if !m.branch(c.Ule(v, c.BV(64, maxv))) {
		r := c.BV(64, maxv)
		if neg {
			r = c.Bin(OSub, c.BV(64, 0), r)
		}
		return numErr("ErrRange", r)
	}
	if neg {
		v = c.Bin(OSub, c.BV(64, 0), v)
	}
	return tuple{v, m.nilErr()}
}

// hexNibble returns the value of a hex digit byte; forks on validity when unknown.
func (m *Machine) hexNibble(b *Term) (*Term, bool) {
	c := m.tc
	if n, ok := c.hexOf[b]; ok {
		return n, true
	}
	in := func(lo, hi uint64) *Term { return c.And(c.Ule(c.BV(8, lo), b), c.Ule(b, c.BV(8, hi))) }
	d, u, l := in('0', '9'), in('A', 'F'), in('a', 'f')
	if !m.branch(c.Or(d, c.Or(u, l))) {
		return nil, false
	}
	v := c.Ite(d, c.Bin(OSub, b, c.BV(8, '0')), c.Ite(u, c.Bin(OSub, b, c.BV(8, 'A'-10)), c.Bin(OSub, b, c.BV(8, 'a'-10))))
	return c.Extract(v, 3, 0), true
}

func (m *Machine) parseHex(s *Seq, bits *Term) value {
	c := m.tc
	bs := m.expandBytes(s)
	mk := func(kind string, v *Term) value {
		t := m.w.typ("strconv", "NumError")
		return tuple{v, iface{t: types.NewPointer(t), v: m.newPtr(structure{litSeq("ParseUint"), s, m.globalVal("strconv", kind)})}}
	}
	if len(bs) == 0 {
		return mk("ErrSyntax", c.BV(64, 0))
	}
	if len(bs) > 16 {
		return notHandled
	}
	w := int(bits.k)
	if w == 0 {
		w = 64
	}
	v := c.BV(64, 0)
	for _, b := range bs {
		n, ok := m.hexNibble(b)
		if !ok {
			return mk("ErrSyntax", c.BV(64, 0))
		}
		v = c.Bin(OBor, c.Bin(OShl, v, c.BV(64, 4)), c.Zext(n, 64))
	}
	if w < 64 && !m.branch(c.Ule(v, c.BV(64, mask(w)))) {
		return mk("ErrRange", c.BV(64, mask(w)))
	}
	return tuple{v, m.nilErr()}
}

// hi8 is the upper bound on the elements of an array variable.
func (t *Term) hi8() uint64 {
	if t.w == -1 && t.ranged {
		return t.umax
	}
	return 255
}
func (t *Term) lo8() uint64 {
	if t.w == -1 && t.ranged {
		return t.umin
	}
	return 0
}
