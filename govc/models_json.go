package main

import (
	"encoding/json"
	"fmt"
	"go/types"
	"reflect"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- encoding/json over symbolic text ----

type jkind int

const (
	jNull jkind = iota
	jBool
	jNum
	jStr
	jArr
	jObj
)

type jnode struct {
	k     jkind
	b     bool
	raw   *Seq // numbers and strings: source text (with quotes)
	str   *Seq // decoded string
	arr   []*jnode
	keys  []*Seq // unquoted
	qkeys []*Seq // as written
	text  *Seq   // source text of the whole value when parsed
}

func (m *Machine) jprint(n *jnode, indent bool, prefix, ind string, depth int) *Seq {
	nl := func(d int) *Seq { return litSeq("\n" + prefix + strings.Repeat(ind, d)) }
	switch n.k {
	case jNull:
		return litSeq("null")
	case jBool:
		return litSeq(strconv.FormatBool(n.b))
	case jNum, jStr:
		return n.raw
	case jArr, jObj:
		open, cl := "[", "]"
		if n.k == jObj {
			open, cl = "{", "}"
		}
		if len(n.arr) == 0 {
			return litSeq(open + cl)
		}
		out := []*Seq{litSeq(open)}
		for i, x := range n.arr {
			if i > 0 {
				out = append(out, litSeq(","))
			}
			if indent {
				out = append(out, nl(depth+1))
			}
			if n.k == jObj {
				out = append(out, n.qkeys[i], litSeq(":"))
				if indent {
					out = append(out, litSeq(" "))
				}
			}
			out = append(out, m.jprint(x, indent, prefix, ind, depth+1))
		}
		if indent {
			out = append(out, nl(depth))
		}
		out = append(out, litSeq(cl))
		return concat(out...)
	}
	panic("jprint")
}

type jsonErr struct{ err iface }

func (m *Machine) jfail(format string, args ...any) {
	panic(jsonErr{m.errNew(litSeq(fmt.Sprintf(format, args...)))})
}

var jsonSafe = []rrange{{0x20, 0x21}, {0x23, 0x25}, {0x27, 0x3b}, {0x3d, 0x3d}, {0x3f, 0x5b}, {0x5d, 0x7f}}
var jsonPlain = []rrange{{0x20, 0x21}, {0x23, 0x5b}, {0x5d, 0x7f}} // inside a string, not quote/backslash/control

func (m *Machine) jquote(s *Seq) *Seq {
	if x, ok := s.concrete(); ok {
		b, _ := json.Marshal(x)
		return litSeq(string(b))
	}
	c := m.tc
	toks := m.toToks(s)
	out := seqB{}
	out.add(piece{k: pLit, lit: `"`})
	for i := 0; i < len(toks); {
		t := toks[i]
		if t.p != nil {
			if t.p.k == pDec {
				out.add(*t.p)
				i++
				continue
			}
			lo, hi := pieceRange(t.p)
			if inRanges(jsonSafe, lo, hi) == 1 {
				out.add(*t.p)
				i++
				continue
			}
			e := m.expand(&Seq{p: []piece{*t.p}})
			toks = append(append(append([]tok{}, toks[:i]...), m.toToks(e)...), toks[i+1:]...)
			continue
		}
		b := t.b
		if m.member(b, jsonSafe) {
			out.add(piece{k: pByte, t: b})
			i++
			continue
		}
		if m.branch(c.Ult(b, c.BV(8, 0x80))) {
			i++
			eq := func(k byte) bool { return m.branch(c.Eq(b, c.BV(8, uint64(k)))) }
			switch {
			case eq('"'):
				out.add(piece{k: pLit, lit: `\"`})
			case eq('\\'):
				out.add(piece{k: pLit, lit: `\\`})
			case eq('\n'):
				out.add(piece{k: pLit, lit: `\n`})
			case eq('\r'):
				out.add(piece{k: pLit, lit: `\r`})
			case eq('\t'):
				out.add(piece{k: pLit, lit: `\t`})
			case eq('\b'):
				out.add(piece{k: pLit, lit: `\b`})
			case eq('\f'):
				out.add(piece{k: pLit, lit: `\f`})
			default:
				out.add(piece{k: pLit, lit: `\u00`})
				out.add(piece{k: pByte, t: m.hexDigit(c.Extract(b, 7, 4), false)})
				out.add(piece{k: pByte, t: m.hexDigit(c.Extract(b, 3, 0), false)})
			}
			continue
		}
		x := &matcher{m: m, toks: toks}
		r, n := x.runeAtSafe(i)
		if n == 1 {
			out.add(piece{k: pLit, lit: `\ufffd`})
			i++
			continue
		}
		if m.branch(c.Eq(r, c.BV(32, 0x2028))) {
			out.add(piece{k: pLit, lit: `\u2028`})
		} else if m.branch(c.Eq(r, c.BV(32, 0x2029))) {
			out.add(piece{k: pLit, lit: `\u2029`})
		} else {
			k := n
			for j := i; k > 0; j++ {
				if toks[j].p == nil {
					out.add(piece{k: pByte, t: toks[j].b})
					k--
				}
			}
		}
		for n > 0 {
			if toks[i].p == nil {
				n--
			}
			i++
		}
	}
	out.add(piece{k: pLit, lit: `"`})
	return out.seq()
}

func jstr(m *Machine, s *Seq) *jnode { return &jnode{k: jStr, raw: m.jquote(s), str: s} }

type jfield struct {
	name      string
	omitempty bool
	asString  bool
	idx       []int
	t         types.Type
	exported  bool
}

func jsonFields(t *types.Struct) []jfield {
	var out []jfield
	seen := map[string]int{}
	var walk func(t *types.Struct, idx []int, depth int)
	walk = func(t *types.Struct, idx []int, depth int) {
		for i := 0; i < t.NumFields(); i++ {
			f := t.Field(i)
			tag := reflect.StructTag(t.Tag(i)).Get("json")
			if tag == "-" {
				continue
			}
			ix := append(append([]int{}, idx...), i)
			name, opts, _ := strings.Cut(tag, ",")
			if f.Anonymous() && name == "" {
				ft := f.Type()
				if p, ok := ft.Underlying().(*types.Pointer); ok {
					_ = p
					unsupported("json: embedded pointer")
				}
				if st, ok := ft.Underlying().(*types.Struct); ok {
					walk(st, ix, depth+1)
					continue
				}
			}
			if !f.Exported() {
				continue
			}
			if name == "" {
				name = f.Name()
			}
			if k, ok := seen[name]; ok {
				if len(out[k].idx) <= len(ix) {
					continue
				}
				out[k] = jfield{name, strings.Contains(opts, "omitempty"), strings.Contains(opts, "string"), ix, f.Type(), true}
				continue
			}
			seen[name] = len(out)
			out = append(out, jfield{name, strings.Contains(opts, "omitempty"), strings.Contains(opts, "string"), ix, f.Type(), true})
		}
	}
	walk(t, nil, 0)
	return out
}

func hasSig(fn *ssa.Function, nparams, nresults int) bool {
	return fn != nil && fn.Signature.Params().Len() == nparams && fn.Signature.Results().Len() == nresults
}

func (m *Machine) jcall(fn *ssa.Function, recv value) *jnode {
	r := m.callValue(nil, fn, []value{recv}).(tuple)
	if e := r[1].(iface); e.t != nil {
		panic(jsonErr{e})
	}
	s := m.sliceSeq(r[0].(*Slice))
	if fn.Name() == "MarshalText" {
		return jstr(m, s)
	}
	n, rest := m.jparse(s)
	if rest != nil {
		m.jfail("json: error calling MarshalJSON: invalid character after top-level value")
	}
	return n
}

func (m *Machine) jenc(t types.Type, v value, addr *value) *jnode {
	c := m.tc
	if p, ok := v.(*value); ok && p == nil {
		if _, isptr := t.Underlying().(*types.Pointer); isptr {
			return &jnode{k: jNull}
		}
	}
	if _, isIface := t.Underlying().(*types.Interface); !isIface {
		for _, name := range []string{"MarshalJSON", "MarshalText"} {
			if fn := m.w.findMethod(t, name); hasSig(fn, 0, 2) {
				return m.jcall(fn, v)
			}
			if _, isptr := t.Underlying().(*types.Pointer); addr != nil && !isptr {
				if fn := m.w.findMethod(types.NewPointer(t), name); hasSig(fn, 0, 2) {
					return m.jcall(fn, addr)
				}
			}
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := v.(type) {
		case *Term:
			if x.w == 0 {
				return &jnode{k: jBool, b: m.branch(x)}
			}
			_, signed, _ := basicInfo(u)
			return &jnode{k: jNum, raw: concatDec(x, signed)}
		case *Seq:
			return jstr(m, x)
		case float64:
			b, err := json.Marshal(x)
			if err != nil {
				m.jfail("%v", err)
			}
			return &jnode{k: jNum, raw: litSeq(string(b))}
		}
	case *types.Pointer:
		p, ok := v.(*value)
		if !ok {
			unsupported("json of %T", v)
		}
		return m.jenc(u.Elem(), *p, p)
	case *types.Interface:
		x := v.(iface)
		if x.t == nil {
			return &jnode{k: jNull}
		}
		return m.jenc(x.t, x.v, nil)
	case *types.Struct:
		st, ok := v.(structure)
		if !ok {
			unsupported("json of modelled struct %v", t)
		}
		n := &jnode{k: jObj}
		for _, f := range jsonFields(u) {
			cur := st
			var fa *value
			for d, i := range f.idx {
				if d < len(f.idx)-1 {
					cur = cur[i].(structure)
				} else {
					fa = &cur[i]
				}
			}
			fv := *fa
			if f.omitempty && m.jempty(f.t, fv) {
				continue
			}
			if f.asString {
				unsupported("json ,string option")
			}
			a := fa
			if addr == nil {
				a = nil
			}
			n.keys = append(n.keys, litSeq(f.name))
			n.qkeys = append(n.qkeys, m.jquote(litSeq(f.name)))
			n.arr = append(n.arr, m.jenc(f.t, fv, a))
		}
		return n
	case *types.Slice:
		s := v.(*Slice)
		if s.nilp {
			return &jnode{k: jNull}
		}
		if isByteElem(u.Elem()) {
			unsupported("json base64")
		}
		n := &jnode{k: jArr}
		for i := range s.e {
			n.arr = append(n.arr, m.jenc(u.Elem(), s.e[i], &s.e[i]))
		}
		return n
	case *types.Array:
		a := v.(array)
		n := &jnode{k: jArr}
		for i := range a {
			var p *value
			if addr != nil {
				p = &a[i]
			}
			n.arr = append(n.arr, m.jenc(u.Elem(), a[i], p))
		}
		return n
	case *types.Map:
		mp := v.(*Map)
		if mp == nil {
			return &jnode{k: jNull}
		}
		if kb, ok := u.Key().Underlying().(*types.Basic); ok && kb.Kind() == types.String && !mp.sym {
			n := &jnode{k: jObj}
			ks := map[string]value{}
			for _, e := range mp.ents {
				s, ok := e.k.(*Seq).concrete()
				if !ok {
					unsupported("json map with symbolic keys")
				}
				ks[s] = e.v
			}
			for _, k := range sortedKeys(ks) {
				n.keys = append(n.keys, litSeq(k))
				n.qkeys = append(n.qkeys, m.jquote(litSeq(k)))
				n.arr = append(n.arr, m.jenc(u.Elem(), ks[k], nil))
			}
			return n
		}
		unsupported("json map")
	}
	_ = c
	unsupported("json of %v", t)
	return nil
}

func (m *Machine) jempty(t types.Type, v value) bool {
	c := m.tc
	switch x := v.(type) {
	case *Term:
		if x.w == 0 {
			return m.branch(c.Not(x))
		}
		return m.branch(c.Eq(x, c.BV(x.w, 0)))
	case *Seq:
		return m.isEmpty(x)
	case float64:
		return x == 0
	case *Slice:
		return x.nilp || m.branch(c.Eq(m.lenOf(x), c.BV(64, 0)))
	case *Map:
		return x == nil || len(x.ents) == 0
	case *value:
		return x == nil
	case iface:
		return x.t == nil
	}
	return false
}

// ---- parsing ----

type jparser struct {
	m    *Machine
	toks []tok
	pos  int
}

func (m *Machine) jparse(s *Seq) (n *jnode, rest *Seq) {
	p := &jparser{m: m, toks: m.toToks(s)}
	n = p.value(0)
	p.space()
	if p.pos < len(p.toks) && !p.done() {
		return n, m.fromToks(p.toks[p.pos:])
	}
	return n, nil
}

func (p *jparser) done() bool {
	for p.pos < len(p.toks) {
		t := p.toks[p.pos]
		if t.p == nil || t.p.k == pDec {
			return false
		}
		if !p.m.branch(p.m.tc.Eq(t.p.n, p.m.tc.BV(64, 0))) {
			return false
		}
		p.pos++
	}
	return true
}

func (p *jparser) expandHere() {
	e := p.m.expand(&Seq{p: []piece{*p.toks[p.pos].p}})
	p.toks = append(append(append([]tok{}, p.toks[:p.pos]...), p.m.toToks(e)...), p.toks[p.pos+1:]...)
}

// peek returns the byte at the cursor, expanding symbolic pieces (except Dec, reported as a digit).
func (p *jparser) peek() (b *Term, dec bool) {
	for {
		if p.pos >= len(p.toks) {
			p.m.jfail("unexpected end of JSON input")
		}
		t := p.toks[p.pos]
		if t.p == nil {
			return t.b, false
		}
		if t.p.k == pDec {
			return nil, true
		}
		if t.p.k == pRep && t.p.t.op == OConst {
			if p.m.branch(p.m.tc.Eq(t.p.n, p.m.tc.BV(64, 0))) {
				p.pos++
				continue
			}
			return t.p.t, false
		}
		p.expandHere()
	}
}

var jsonSpace = []rrange{{' ', ' '}, {'\t', '\t'}, {'\n', '\n'}, {'\r', '\r'}}

func (p *jparser) space() {
	for p.pos < len(p.toks) {
		t := p.toks[p.pos]
		if t.p != nil {
			if t.p.k == pDec {
				return
			}
			if t.p.k == pRep && t.p.t.op == OConst && inRanges(jsonSpace, rune(t.p.t.k), rune(t.p.t.k)) == 1 {
				p.pos++
				continue
			}
			p.expandHere()
			continue
		}
		if !p.m.member(t.b, jsonSpace) {
			return
		}
		p.pos++
	}
}

func (p *jparser) is(k byte) bool {
	b, dec := p.peek()
	if dec {
		return false
	}
	return p.m.branch(p.m.tc.Eq(b, p.m.tc.BV(8, uint64(k))))
}

func (p *jparser) expect(k byte, where string) {
	if !p.is(k) {
		p.m.jfail("invalid character %s", where)
	}
	p.pos++
}

func (p *jparser) value(depth int) *jnode {
	if depth > 1000 {
		p.m.jfail("exceeded max depth")
	}
	p.space()
	start := p.pos
	n := p.value1(depth)
	n.text = p.m.fromToks(p.toks[start:p.pos])
	return n
}

func (p *jparser) word(w string) bool {
	for i := 0; i < len(w); i++ {
		p.expect(w[i], "in literal "+w)
	}
	return true
}

func (p *jparser) value1(depth int) *jnode {
	b, dec := p.peek()
	if dec {
		return p.number()
	}
	if b.op == OConst {
		switch byte(b.k) {
		case '{':
			return p.object(depth)
		case '[':
			return p.array(depth)
		case '"':
			return p.str()
		case 't':
			p.word("true")
			return &jnode{k: jBool, b: true}
		case 'f':
			p.word("false")
			return &jnode{k: jBool}
		case 'n':
			p.word("null")
			return &jnode{k: jNull}
		}
		if b.k == '-' || isDigitByte(byte(b.k)) {
			return p.number()
		}
		p.m.jfail("invalid character looking for beginning of value")
	}
	switch {
	case p.is('{'):
		return p.object(depth)
	case p.is('['):
		return p.array(depth)
	case p.is('"'):
		return p.str()
	case p.is('t'):
		p.word("true")
		return &jnode{k: jBool, b: true}
	case p.is('f'):
		p.word("false")
		return &jnode{k: jBool}
	case p.is('n'):
		p.word("null")
		return &jnode{k: jNull}
	case p.m.member(b, []rrange{{'-', '-'}, {'0', '9'}}):
		return p.number()
	}
	p.m.jfail("invalid character looking for beginning of value")
	return nil
}

func (p *jparser) number() *jnode {
	start := p.pos
	m := p.m
	digits := func() int {
		n := 0
		for p.pos < len(p.toks) {
			t := p.toks[p.pos]
			if t.p != nil {
				if t.p.k == pDec {
					if t.p.signed && !t.p.t.nonneg() && m.branch(m.tc.Slt(t.p.t, m.tc.BV(t.p.t.w, 0))) {
						if n == 0 && p.pos == start {
							p.pos++
							n++
							continue
						}
						m.jfail("invalid number")
					}
					n++
					p.pos++
					continue
				}
				if m.branch(m.tc.Eq(t.p.n, m.tc.BV(64, 0))) {
					p.pos++
					continue
				}
				p.expandHere()
				continue
			}
			if !m.member(t.b, []rrange{{'0', '9'}}) {
				break
			}
			n++
			p.pos++
		}
		return n
	}
	at := func(rs ...rrange) bool {
		if p.pos >= len(p.toks) || p.toks[p.pos].p != nil {
			return false
		}
		return m.member(p.toks[p.pos].b, rs)
	}
	if at(rrange{'-', '-'}) {
		p.pos++
	}
	// leading zero must stand alone
	if at(rrange{'0', '0'}) {
		p.pos++
		if at(rrange{'0', '9'}) {
			m.jfail("invalid character after leading zero")
		}
	} else if digits() == 0 {
		m.jfail("invalid number")
	}
	if at(rrange{'.', '.'}) {
		p.pos++
		if digits() == 0 {
			m.jfail("invalid number")
		}
	}
	if at(rrange{'e', 'e'}, rrange{'E', 'E'}) {
		p.pos++
		if at(rrange{'+', '+'}, rrange{'-', '-'}) {
			p.pos++
		}
		if digits() == 0 {
			m.jfail("invalid number")
		}
	}
	return &jnode{k: jNum, raw: m.fromToks(p.toks[start:p.pos])}
}

func (p *jparser) str() *jnode {
	m, c := p.m, p.m.tc
	start := p.pos
	p.pos++ // quote
	out := seqB{}
	for {
		if p.pos >= len(p.toks) {
			m.jfail("unexpected end of JSON input")
		}
		t := p.toks[p.pos]
		if t.p != nil {
			if t.p.k == pDec {
				out.add(*t.p)
				p.pos++
				continue
			}
			lo, hi := pieceRange(t.p)
			if inRanges(jsonPlain, lo, hi) == 1 {
				out.add(*t.p)
				p.pos++
				continue
			}
			p.expandHere()
			continue
		}
		b := t.b
		if m.member(b, jsonPlain) {
			out.add(piece{k: pByte, t: b})
			p.pos++
			continue
		}
		if m.branch(c.Eq(b, c.BV(8, '"'))) {
			p.pos++
			break
		}
		if m.branch(c.Ult(b, c.BV(8, 0x20))) {
			m.jfail("invalid character in string literal")
		}
		if m.branch(c.Eq(b, c.BV(8, '\\'))) {
			p.pos++
			e, dec := p.peek()
			if dec {
				m.jfail("invalid escape")
			}
			simple := map[byte]string{'"': `"`, '\\': `\`, '/': `/`, 'b': "\b", 'f': "\f", 'n': "\n", 'r': "\r", 't': "\t"}
			found := false
			for _, k := range []byte{'"', '\\', '/', 'b', 'f', 'n', 'r', 't'} {
				if m.branch(c.Eq(e, c.BV(8, uint64(k)))) {
					out.add(piece{k: pLit, lit: simple[k]})
					found = true
					break
				}
			}
			if found {
				p.pos++
				continue
			}
			if !m.branch(c.Eq(e, c.BV(8, 'u'))) {
				m.jfail("invalid character in string escape code")
			}
			p.pos++
			var r *Term
			for i := 0; i < 4; i++ {
				h, dec := p.peek()
				if dec {
					p.expandHere()
					h, _ = p.peek()
				}
				nb, ok := m.hexNibble(h)
				if !ok {
					m.jfail("invalid character in \\u hexadecimal character escape")
				}
				p.pos++
				if r == nil {
					r = nb
				} else {
					r = c.Concat(r, nb)
				}
			}
			if m.branch(c.And(c.Ule(c.BV(16, 0xd800), r), c.Ule(r, c.BV(16, 0xdfff)))) {
				unsupported("json surrogate escape")
			}
			for _, x := range m.encodeRune(c.Zext(r, 32)) {
				out.add(piece{k: pByte, t: x})
			}
			continue
		}
		x := &matcher{m: m, toks: p.toks}
		_, n := x.runeAtSafe(p.pos)
		if n == 1 {
			out.add(piece{k: pLit, lit: "\ufffd"})
			p.pos++
			continue
		}
		for n > 0 {
			if p.toks[p.pos].p == nil {
				out.add(piece{k: pByte, t: p.toks[p.pos].b})
				n--
			}
			p.pos++
		}
	}
	return &jnode{k: jStr, raw: m.fromToks(p.toks[start:p.pos]), str: out.seq()}
}

func (p *jparser) array(depth int) *jnode {
	n := &jnode{k: jArr}
	p.pos++
	p.space()
	if p.is(']') {
		p.pos++
		return n
	}
	for {
		n.arr = append(n.arr, p.value(depth+1))
		p.space()
		if p.is(']') {
			p.pos++
			return n
		}
		p.expect(',', "after array element")
	}
}

func (p *jparser) object(depth int) *jnode {
	n := &jnode{k: jObj}
	p.pos++
	p.space()
	if p.is('}') {
		p.pos++
		return n
	}
	for {
		p.space()
		if !p.is('"') {
			p.m.jfail("invalid character looking for beginning of object key string")
		}
		k := p.str()
		n.keys = append(n.keys, k.str)
		n.qkeys = append(n.qkeys, k.raw)
		p.space()
		p.expect(':', "after object key")
		n.arr = append(n.arr, p.value(depth+1))
		p.space()
		if p.is('}') {
			p.pos++
			return n
		}
		p.expect(',', "after object key:value pair")
	}
}

// ---- decoding ----

type jdec struct {
	m     *Machine
	saved *iface
}

func (d *jdec) save(format string, args ...any) {
	if d.saved == nil {
		e := d.m.errNew(litSeq(fmt.Sprintf(format, args...)))
		d.saved = &e
	}
}

func (d *jdec) dec(n *jnode, t types.Type, p *value) {
	m, c := d.m, d.m.tc
	if pt, ok := t.Underlying().(*types.Pointer); ok {
		if n.k == jNull {
			*p = (*value)(nil)
			return
		}
		q, ok := (*p).(*value)
		if !ok {
			unsupported("json into %T", *p)
		}
		if q == nil {
			q = m.newPtr(m.zero(pt.Elem()))
			*p = q
		}
		d.dec(n, pt.Elem(), q)
		return
	}
	if _, isIface := t.Underlying().(*types.Interface); !isIface {
		if fn := m.w.findMethod(types.NewPointer(t), "UnmarshalJSON"); hasSig(fn, 1, 1) {
			r := m.callValue(nil, fn, []value{p, m.seqToSlice(n.text)}).(iface)
			if r.t != nil {
				panic(jsonErr{r})
			}
			return
		}
		if fn := m.w.findMethod(types.NewPointer(t), "UnmarshalText"); hasSig(fn, 1, 1) {
			if n.k == jNull {
				return
			}
			if n.k != jStr {
				d.save("json: cannot unmarshal into Go value of type %s", typeName(t))
				return
			}
			r := m.callValue(nil, fn, []value{p, m.seqToSlice(n.str)}).(iface)
			if r.t != nil {
				panic(jsonErr{r})
			}
			return
		}
	}
	mismatch := func() { d.save("json: cannot unmarshal into Go value of type %s", typeName(t)) }
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if n.k == jNull {
			return
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			if n.k != jBool {
				mismatch()
				return
			}
			*p = c.Bool(n.b)
		case u.Info()&types.IsString != 0:
			if n.k != jStr {
				mismatch()
				return
			}
			*p = n.str
		case u.Info()&types.IsInteger != 0:
			if n.k != jNum {
				mismatch()
				return
			}
			w, signed, _ := basicInfo(u)
			var fn *ssa.Function
			if sp := m.w.pkgs["strconv"]; sp != nil {
				fn, _ = sp.Members["ParseUint"].(*ssa.Function)
			}
			r := m.parseNum(n.raw, c.BV(64, 10), c.BV(64, uint64(w)), signed, fn)
			tp, ok := r.(tuple)
			if !ok {
				unsupported("json number")
			}
			if tp[1].(iface).t != nil {
				mismatch()
				return
			}
			*p = c.Extract2(tp[0].(*Term), w)
		case u.Info()&types.IsFloat != 0:
			if n.k != jNum {
				mismatch()
				return
			}
			x, ok := n.raw.concrete()
			if !ok {
				unsupported("json symbolic float")
			}
			f, err := strconv.ParseFloat(x, 64)
			if err != nil {
				mismatch()
				return
			}
			*p = f
		default:
			unsupported("json into %v", t)
		}
	case *types.Struct:
		if n.k == jNull {
			return
		}
		if n.k != jObj {
			mismatch()
			return
		}
		st, ok := (*p).(structure)
		if !ok {
			unsupported("json into modelled struct")
		}
		fs := jsonFields(u)
		for i := range n.arr {
			key, ok := n.keys[i].concrete()
			if !ok {
				unsupported("json symbolic key")
			}
			k := -1
			for j := range fs {
				if fs[j].name == key {
					k = j
					break
				}
			}
			if k < 0 {
				for j := range fs {
					if strings.EqualFold(fs[j].name, key) {
						k = j
						break
					}
				}
			}
			if k < 0 {
				continue
			}
			cur := st
			for dd, ix := range fs[k].idx {
				if dd < len(fs[k].idx)-1 {
					cur = cur[ix].(structure)
				} else {
					d.dec(n.arr[i], fs[k].t, &cur[ix])
				}
			}
		}
	case *types.Slice:
		if n.k == jNull {
			*p = &Slice{nilp: true}
			return
		}
		if isByteElem(u.Elem()) {
			if n.k == jStr {
				unsupported("json base64")
			}
		}
		if n.k != jArr {
			mismatch()
			return
		}
		e := make([]value, len(n.arr))
		for i := range e {
			e[i] = m.zero(u.Elem())
			d.dec(n.arr[i], u.Elem(), &e[i])
		}
		*p = &Slice{e: e}
	case *types.Array:
		if n.k == jNull {
			return
		}
		if n.k != jArr {
			mismatch()
			return
		}
		a := (*p).(array)
		for i := range a {
			if i < len(n.arr) {
				d.dec(n.arr[i], u.Elem(), &a[i])
			} else {
				a[i] = m.zero(u.Elem())
			}
		}
	case *types.Map:
		if n.k == jNull {
			*p = (*Map)(nil)
			return
		}
		if n.k != jObj {
			mismatch()
			return
		}
		mp := (*p).(*Map)
		if mp == nil {
			mp = &Map{t: u, idx: map[string]int{}}
			*p = mp
		}
		for i := range n.arr {
			q := m.newPtr(m.zero(u.Elem()))
			d.dec(n.arr[i], u.Elem(), q)
			m.mapUpdate(mp, n.keys[i], *q)
		}
	case *types.Interface:
		if n.k == jNull {
			*p = iface{}
			return
		}
		if u.NumMethods() > 0 {
			mismatch()
			return
		}
		unsupported("json into interface{}")
	default:
		unsupported("json into %v", t)
	}
}

func (m *Machine) jsonGuard(f func()) (err iface) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(jsonErr); ok {
				err = e.err
				return
			}
			panic(r)
		}
	}()
	f()
	return iface{}
}

func (m *Machine) junmarshal(n *jnode, target iface) iface {
	pt, ok := target.t.Underlying().(*types.Pointer)
	p, ok2 := target.v.(*value)
	if !ok || !ok2 || p == nil {
		return m.errNew(litSeq("json: Unmarshal(non-pointer)"))
	}
	d := &jdec{m: m}
	if err := m.jsonGuard(func() { d.dec(n, pt.Elem(), p) }); err.t != nil {
		return err
	}
	if d.saved != nil {
		return *d.saved
	}
	return iface{}
}

type jsonDecModel struct {
	src iface
	buf *Seq
	got bool
	err iface
}

func init() {
	reg("encoding/json.Marshal", func(m *Machine, fn *ssa.Function, a []value) value {
		var out *Seq
		x := a[0].(iface)
		err := m.jsonGuard(func() {
			n := &jnode{k: jNull}
			if x.t != nil {
				n = m.jenc(x.t, x.v, nil)
			}
			out = m.jprint(n, false, "", "", 0)
		})
		if err.t != nil {
			return tuple{&Slice{nilp: true}, err}
		}
		return tuple{m.seqToSlice(out), m.nilErr()}
	})
	reg("encoding/json.MarshalIndent", func(m *Machine, fn *ssa.Function, a []value) value {
		var out *Seq
		x := a[0].(iface)
		prefix, ind := m.concreteStr(a[1], "prefix"), m.concreteStr(a[2], "indent")
		err := m.jsonGuard(func() {
			n := &jnode{k: jNull}
			if x.t != nil {
				n = m.jenc(x.t, x.v, nil)
			}
			out = m.jprint(n, true, prefix, ind, 0)
		})
		if err.t != nil {
			return tuple{&Slice{nilp: true}, err}
		}
		return tuple{m.seqToSlice(out), m.nilErr()}
	})
	reg("encoding/json.Unmarshal", func(m *Machine, fn *ssa.Function, a []value) value {
		var n *jnode
		if err := m.jsonGuard(func() {
			var rest *Seq
			n, rest = m.jparse(m.sliceSeq(a[0].(*Slice)))
			if rest != nil {
				m.jfail("invalid character after top-level value")
			}
		}); err.t != nil {
			return err
		}
		return m.junmarshal(n, a[1].(iface))
	})
	reg("encoding/json.NewDecoder", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.newPtr(&jsonDecModel{src: a[0].(iface)})
	})
	reg("(*encoding/json.Decoder).Decode", func(m *Machine, fn *ssa.Function, a []value) value {
		d := slot[*jsonDecModel](m, a[0])
		if !d.got {
			d.got = true
			if p := m.modelSource(d.src); p != nil {
				d.buf = *p
				*p = emptySeq
			} else {
				d.buf, d.err = m.drain(d.src)
			}
		}
		if d.err.t != nil {
			return d.err
		}
		p := &jparser{m: m, toks: m.toToks(d.buf)}
		p.space()
		if p.done() {
			return m.eof()
		}
		var n *jnode
		if err := m.jsonGuard(func() { n = p.value(0) }); err.t != nil {
			return err
		}
		d.buf = m.fromToks(p.toks[p.pos:])
		return m.junmarshal(n, a[1].(iface))
	})
	reg("encoding/json.Valid", func(m *Machine, fn *ssa.Function, a []value) value {
		err := m.jsonGuard(func() {
			_, rest := m.jparse(m.sliceSeq(a[0].(*Slice)))
			if rest != nil {
				m.jfail("x")
			}
		})
		return m.tc.Bool(err.t == nil)
	})
}
