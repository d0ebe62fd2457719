package main

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"text/template"
	"text/template/parse"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
)

// text/template: the template text is parsed by the library itself; execution over symbolic values
// follows text/template/exec.go for the node kinds in use (actions, fields, methods, functions, if,
// with, range over slices, template calls, variables).

type tmplModel struct {
	t     *template.Template
	funcs map[string]iface
}

type tmplErr struct{ msg string }

type tv struct {
	t    types.Type // nil: no value
	v    value
	addr *value
}

type texec struct {
	m    *Machine
	tm   *tmplModel
	out  seqB
	vars []tvar
	deep int
}
type tvar struct {
	name string
	v    tv
}

func (x *texec) fail(format string, args ...any) { panic(tmplErr{fmt.Sprintf(format, args...)}) }

func (x *texec) walk(dot tv, n parse.Node) {
	switch n := n.(type) {
	case *parse.ListNode:
		if n == nil {
			return
		}
		for _, c := range n.Nodes {
			x.walk(dot, c)
		}
	case *parse.TextNode:
		x.out.add(piece{k: pLit, lit: string(n.Text)})
	case *parse.CommentNode:
	case *parse.ActionNode:
		v := x.pipe(dot, n.Pipe)
		if len(n.Pipe.Decl) == 0 {
			x.print(v)
		}
	case *parse.IfNode:
		mark := len(x.vars)
		if x.truth(x.pipe(dot, n.Pipe)) {
			x.walk(dot, n.List)
		} else if n.ElseList != nil {
			x.walk(dot, n.ElseList)
		}
		x.vars = x.vars[:mark]
	case *parse.WithNode:
		mark := len(x.vars)
		if v := x.pipe(dot, n.Pipe); x.truth(v) {
			x.walk(v, n.List)
		} else if n.ElseList != nil {
			x.walk(dot, n.ElseList)
		}
		x.vars = x.vars[:mark]
	case *parse.RangeNode:
		x.rng(dot, n)
	case *parse.TemplateNode:
		t := x.tm.t.Lookup(n.Name)
		if t == nil || t.Tree == nil {
			x.fail("template %q not defined", n.Name)
		}
		if x.deep++; x.deep > 1000 {
			unsupported("template recursion")
		}
		var d tv
		if n.Pipe != nil {
			d = x.pipe(dot, n.Pipe)
		}
		vars := x.vars
		x.vars = []tvar{{"$", d}}
		x.walk(d, t.Tree.Root)
		x.vars = vars
		x.deep--
	default:
		unsupported("template node %T", n)
	}
}

func (x *texec) rng(dot tv, n *parse.RangeNode) {
	m := x.m
	mark := len(x.vars)
	v := x.indirect(x.pipe(dot, n.Pipe))
	if v.t == nil {
		x.fail("range can't iterate over nil")
	}
	step := func(i int, e tv) {
		at := len(x.vars)
		if d := n.Pipe.Decl; len(d) > 0 {
			if len(d) > 1 {
				x.set(d[0].Ident[0], tv{t: types.Typ[types.Int], v: m.tc.BV(64, uint64(i))})
				x.set(d[1].Ident[0], e)
			} else {
				x.set(d[0].Ident[0], e)
			}
		}
		x.walk(e, n.List)
		x.vars = x.vars[:at]
	}
	switch u := v.t.Underlying().(type) {
	case *types.Slice, *types.Array:
		var es []value
		var et types.Type
		switch u := u.(type) {
		case *types.Slice:
			s := v.v.(*Slice)
			if s.r != nil {
				unsupported("template range over a slice of symbolic length")
			}
			es, et = s.e, u.Elem()
		case *types.Array:
			es, et = v.v.(array), u.Elem()
		}
		if len(es) == 0 {
			break
		}
		for i := range es {
			step(i, tv{t: et, v: es[i], addr: &es[i]})
		}
		x.vars = x.vars[:mark]
		return
	default:
		unsupported("template range over %v", v.t)
	}
	if n.ElseList != nil {
		x.walk(dot, n.ElseList)
	}
	x.vars = x.vars[:mark]
}

func (x *texec) set(name string, v tv) {
	for i := len(x.vars) - 1; i >= 0; i-- {
		if x.vars[i].name == name {
			x.vars[i].v = v
			return
		}
	}
	x.vars = append(x.vars, tvar{name, v})
}

func (x *texec) pipe(dot tv, p *parse.PipeNode) (v tv) {
	if p == nil {
		return
	}
	var final *tv
	for _, c := range p.Cmds {
		v = x.cmd(dot, c, final)
		if it, ok := v.t.(types.Type); ok && it != nil {
			if i, is := v.t.Underlying().(*types.Interface); is && i.NumMethods() == 0 {
				e := v.v.(iface)
				v = tv{t: e.t, v: e.v}
			}
		}
		w := v
		final = &w
	}
	for _, d := range p.Decl {
		if p.IsAssign {
			x.set(d.Ident[0], v)
		} else {
			x.vars = append(x.vars, tvar{d.Ident[0], v})
		}
	}
	return
}

func (x *texec) cmd(dot tv, c *parse.CommandNode, final *tv) tv {
	first := c.Args[0]
	noArgs := func() {
		if len(c.Args) > 1 || final != nil {
			x.fail("can't give argument to non-function %s", first)
		}
	}
	switch n := first.(type) {
	case *parse.FieldNode:
		return x.chain(dot, dot, n.Ident, c.Args, final)
	case *parse.ChainNode:
		return x.chain(dot, x.arg(dot, nil, n.Node), n.Field, c.Args, final)
	case *parse.IdentifierNode:
		return x.function(dot, n.Ident, c.Args, final)
	case *parse.PipeNode:
		noArgs()
		return x.pipe(dot, n)
	case *parse.VariableNode:
		return x.chain(dot, x.variable(n.Ident[0]), n.Ident[1:], c.Args, final)
	}
	noArgs()
	return x.constant(dot, first)
}

func (x *texec) constant(dot tv, n parse.Node) tv {
	m := x.m
	switch n := n.(type) {
	case *parse.DotNode:
		return dot
	case *parse.BoolNode:
		return tv{t: types.Typ[types.Bool], v: m.tc.Bool(n.True)}
	case *parse.StringNode:
		return tv{t: types.Typ[types.String], v: litSeq(n.Text)}
	case *parse.NumberNode:
		if n.IsInt {
			return tv{t: types.Typ[types.Int], v: m.tc.BV(64, uint64(n.Int64))}
		}
	}
	unsupported("template operand %v", n)
	return tv{}
}

func (x *texec) variable(name string) tv {
	for i := len(x.vars) - 1; i >= 0; i-- {
		if x.vars[i].name == name {
			return x.vars[i].v
		}
	}
	x.fail("undefined variable: %s", name)
	return tv{}
}

func (x *texec) chain(dot, recv tv, ident []string, args []parse.Node, final *tv) tv {
	if len(ident) == 0 {
		if len(args) > 1 || final != nil {
			x.fail("can't give argument to non-function")
		}
		return recv
	}
	for _, id := range ident[:len(ident)-1] {
		recv = x.field(dot, id, nil, nil, recv)
	}
	return x.field(dot, ident[len(ident)-1], args, final, recv)
}

// indirect follows pointers and interfaces; a nil one is returned as it is.
func (x *texec) indirect(v tv) tv {
	for v.t != nil {
		switch u := v.t.Underlying().(type) {
		case *types.Pointer:
			p, ok := v.v.(*value)
			if !ok {
				unsupported("template over %T", v.v)
			}
			if p == nil {
				return v
			}
			v = tv{t: u.Elem(), v: *p, addr: p}
			continue
		case *types.Interface:
			e := v.v.(iface)
			if e.t == nil {
				return v
			}
			v = tv{t: e.t, v: e.v}
			continue
		}
		break
	}
	return v
}

func (x *texec) field(dot tv, name string, args []parse.Node, final *tv, recv tv) tv {
	m := x.m
	if recv.t == nil {
		x.fail("nil data; no entry for key %q", name)
	}
	r := x.indirect(recv)
	if i, ok := r.t.Underlying().(*types.Interface); ok && i != nil {
		x.fail("nil pointer evaluating %v.%s", recv.t, name)
	}
	_, isptr := r.t.Underlying().(*types.Pointer)
	if token.IsExported(name) {
		if fn := m.w.findMethod(r.t, name); fn != nil {
			return x.call(dot, name, fn, fn.Signature, []value{r.v}, args, final)
		}
		if !isptr && r.addr != nil {
			if fn := m.w.findMethod(types.NewPointer(r.t), name); fn != nil {
				return x.call(dot, name, fn, fn.Signature, []value{r.addr}, args, final)
			}
		}
	}
	if isptr {
		x.fail("nil pointer evaluating %v.%s", recv.t, name)
	}
	switch r.t.Underlying().(type) {
	case *types.Struct:
		obj, index, _ := types.LookupFieldOrMethod(r.t, false, nil, name)
		f, ok := obj.(*types.Var)
		if !ok {
			x.fail("can't evaluate field %s in type %v", name, recv.t)
		}
		if !f.Exported() {
			x.fail("%s is an unexported field of struct type %v", name, recv.t)
		}
		if len(args) > 1 || final != nil {
			x.fail("%s has arguments but cannot be invoked as function", name)
		}
		for _, ix := range index {
			if p, ok := r.t.Underlying().(*types.Pointer); ok {
				q := r.v.(*value)
				if q == nil {
					x.fail("nil pointer evaluating %v.%s", recv.t, name)
				}
				r = tv{t: p.Elem(), v: *q, addr: q}
			}
			s, ok := r.v.(structure)
			if !ok {
				unsupported("template field of %T", r.v)
			}
			g := tv{t: r.t.Underlying().(*types.Struct).Field(ix).Type(), v: s[ix]}
			if r.addr != nil {
				g.addr = &s[ix]
			}
			r = g
		}
		return r
	case *types.Map:
		unsupported("template field of a map")
	}
	x.fail("can't evaluate field %s in type %v", name, recv.t)
	return tv{}
}

func (x *texec) call(dot tv, name string, f value, sig *types.Signature, recv []value, args []parse.Node, final *tv) (res tv) {
	m := x.m
	if len(args) > 0 {
		args = args[1:]
	}
	n := len(args)
	if final != nil {
		n++
	}
	np := sig.Params().Len()
	nfixed := np
	if sig.Variadic() {
		nfixed--
		if n < nfixed {
			x.fail("wrong number of args for %s: want at least %d got %d", name, nfixed, n)
		}
	} else if n != np {
		x.fail("wrong number of args for %s: want %d got %d", name, np, n)
	}
	vals := append([]value{}, recv...)
	var rest []value
	for i := 0; i < n; i++ {
		var pt types.Type
		if i < nfixed {
			pt = sig.Params().At(i).Type()
		} else {
			pt = sig.Params().At(np - 1).Type().Underlying().(*types.Slice).Elem()
		}
		var v tv
		if i < len(args) {
			v = x.arg(dot, pt, args[i])
		} else {
			v = *final
		}
		w := x.assign(v, pt)
		if i < nfixed {
			vals = append(vals, w)
		} else {
			rest = append(rest, w)
		}
	}
	if sig.Variadic() {
		vals = append(vals, &Slice{nilp: rest == nil, e: rest})
	}
	var r value
	func() {
		defer func() {
			if e := recover(); e != nil {
				if tp, ok := e.(targetPanic); ok {
					panic(tmplErr{"error calling " + name + ": " + m.panicString(tp.v)})
				}
				panic(e)
			}
		}()
		r = m.callValue(nil, f, vals)
	}()
	switch sig.Results().Len() {
	case 1:
		return tv{t: sig.Results().At(0).Type(), v: r}
	case 2:
		t := r.(tuple)
		if e, ok := t[1].(iface); ok && e.t != nil {
			x.fail("error calling %s", name)
		}
		return tv{t: sig.Results().At(0).Type(), v: t[0]}
	}
	unsupported("template call of %s", name)
	return
}

func (x *texec) arg(dot tv, t types.Type, n parse.Node) tv {
	switch n := n.(type) {
	case *parse.FieldNode:
		return x.chain(dot, dot, n.Ident, []parse.Node{n}, nil)
	case *parse.ChainNode:
		return x.chain(dot, x.arg(dot, nil, n.Node), n.Field, []parse.Node{n}, nil)
	case *parse.IdentifierNode:
		return x.function(dot, n.Ident, []parse.Node{n}, nil)
	case *parse.PipeNode:
		return x.pipe(dot, n)
	case *parse.VariableNode:
		return x.chain(dot, x.variable(n.Ident[0]), n.Ident[1:], []parse.Node{n}, nil)
	case *parse.NumberNode:
		if t != nil {
			if w, signed, ok := basicInfo(t); ok && w > 0 {
				if signed && n.IsInt {
					return tv{t: t, v: x.m.tc.BV(w, uint64(n.Int64)&mask(w))}
				}
				if !signed && n.IsUint {
					return tv{t: t, v: x.m.tc.BV(w, n.Uint64&mask(w))}
				}
				x.fail("expected integer; found %s", n)
			}
		}
	case *parse.StringNode:
		if t != nil {
			if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
				return tv{t: t, v: litSeq(n.Text)}
			}
		}
	}
	return x.constant(dot, n)
}

// assign: the value as one of type t.
func (x *texec) assign(v tv, t types.Type) value {
	if v.t == nil {
		if _, ok := t.Underlying().(*types.Interface); ok {
			return iface{}
		}
		x.fail("invalid value; expected %v", t)
	}
	toIface := func(v tv) iface {
		if e, ok := v.v.(iface); ok {
			if _, is := v.t.Underlying().(*types.Interface); is {
				return e
			}
		}
		return iface{v.t, copyVal(v.v)}
	}
	if it, ok := t.Underlying().(*types.Interface); ok {
		if types.AssignableTo(v.t, t) || it.NumMethods() == 0 {
			return toIface(v)
		}
	}
	if types.AssignableTo(v.t, t) {
		return copyVal(v.v)
	}
	if e, ok := v.v.(iface); ok && e.t != nil {
		if types.AssignableTo(e.t, t) {
			return copyVal(e.v)
		}
	}
	if p, ok := v.t.Underlying().(*types.Pointer); ok && types.AssignableTo(p.Elem(), t) {
		if q, ok := v.v.(*value); ok && q != nil {
			return copyVal(*q)
		}
		x.fail("dereference of nil pointer of type %v", v.t)
	}
	if v.addr != nil && types.AssignableTo(types.NewPointer(v.t), t) {
		return v.addr
	}
	x.fail("wrong type for value; expected %v; got %v", t, v.t)
	return nil
}

func (x *texec) function(dot tv, name string, args []parse.Node, final *tv) tv {
	m := x.m
	if f, ok := x.tm.funcs[name]; ok {
		sig, ok := f.t.Underlying().(*types.Signature)
		if !ok {
			unsupported("template function %s", name)
		}
		return x.call(dot, name, f.v, sig, nil, args, final)
	}
	boolean := func(t *Term) tv { return tv{t: types.Typ[types.Bool], v: t} }
	var vals []tv
	if name == "and" || name == "or" {
		ops := args[1:]
		for i := 0; i < len(ops)+1; i++ {
			var v tv
			if i < len(ops) {
				v = x.arg(dot, nil, ops[i])
			} else if final != nil {
				v = *final
			} else {
				break
			}
			vals = append(vals, v)
			if x.truth(v) == (name == "or") {
				return v
			}
		}
		if len(vals) == 0 {
			x.fail("wrong number of args for %s", name)
		}
		return vals[len(vals)-1]
	}
	for _, a := range args[1:] {
		vals = append(vals, x.arg(dot, nil, a))
	}
	if final != nil {
		vals = append(vals, *final)
	}
	need := func(n int) {
		if len(vals) < n {
			x.fail("wrong number of args for %s: want at least %d got %d", name, n, len(vals))
		}
	}
	switch name {
	case "not":
		need(1)
		return boolean(m.tc.Bool(!x.truth(vals[0])))
	case "eq":
		need(2)
		r := m.tc.ff
		for _, v := range vals[1:] {
			r = m.tc.Or(r, x.eq(vals[0], v))
		}
		return boolean(r)
	case "ne":
		need(2)
		return boolean(m.tc.Not(x.eq(vals[0], vals[1])))
	case "len":
		need(1)
		v := x.indirect(vals[0])
		switch v.v.(type) {
		case *Seq, *Slice, array, *Map:
			return tv{t: types.Typ[types.Int], v: m.lenOf(v.v)}
		}
		x.fail("len of type %v", v.t)
	case "print", "printf", "println":
		as := []value{}
		for _, v := range vals {
			as = append(as, x.assign(v, types.NewInterfaceType(nil, nil)))
		}
		s := emptySeq
		if name == "printf" {
			need(1)
			f, ok := vals[0].v.(*Seq)
			if !ok {
				x.fail("wrong type for value; expected string")
			}
			s = m.sprintf(f, as[1:])
		} else {
			s = m.sprint(as, name == "println")
		}
		return tv{t: types.Typ[types.String], v: s}
	}
	unsupported("template function %s", name)
	return tv{}
}

func (x *texec) eq(a, b tv) *Term {
	m := x.m
	un := func(v tv) tv {
		if v.t != nil {
			if _, ok := v.t.Underlying().(*types.Interface); ok {
				e := v.v.(iface)
				return tv{t: e.t, v: e.v}
			}
		}
		return v
	}
	a, b = un(a), un(b)
	if a.t == nil || b.t == nil {
		return m.tc.Bool(a.t == nil && b.t == nil)
	}
	switch p := a.v.(type) {
	case *Seq:
		if q, ok := b.v.(*Seq); ok {
			return m.seqEq(p, q)
		}
	case *Term:
		if q, ok := b.v.(*Term); ok && (p.w == 0) == (q.w == 0) {
			if p.w == q.w && (p.w == 0 || signedT(a.t) == signedT(b.t)) {
				return m.tc.Eq(p, q)
			}
			ext := func(t *Term, ty types.Type) *Term {
				if t.w == 64 {
					return t
				}
				if signedT(ty) {
					return m.tc.Sext(t, 64)
				}
				return m.tc.Zext(t, 64)
			}
			e := m.tc.Eq(ext(p, a.t), ext(q, b.t))
			if signedT(a.t) != signedT(b.t) {
				s, t := p, a.t
				if !signedT(t) {
					s, t = q, b.t
				}
				e = m.tc.And(e, m.tc.Not(m.tc.Slt(s, m.tc.BV(s.w, 0))))
			}
			return e
		}
	}
	x.fail("incompatible types for comparison")
	return nil
}

func signedT(t types.Type) bool { _, s, _ := basicInfo(t); return s }

func (x *texec) truth(v tv) bool {
	m := x.m
	if v.t == nil {
		return false
	}
	if _, ok := v.t.Underlying().(*types.Struct); ok {
		return true
	}
	if a, ok := v.v.(array); ok {
		return len(a) > 0
	}
	if t, ok := v.v.(*Term); ok && t.w == 0 {
		return m.branch(t)
	}
	return !m.jempty(v.t, v.v)
}

func (x *texec) print(v tv) {
	m := x.m
	if v.t != nil {
		if _, ok := v.t.Underlying().(*types.Pointer); ok {
			v = x.indirect(v)
		}
	}
	if v.t == nil {
		x.out.add(piece{k: pLit, lit: "<no value>"})
		return
	}
	str := func(t types.Type) bool {
		for _, n := range []string{"Error", "String"} {
			if fn := m.w.findMethod(t, n); fn != nil && hasSig(fn, 0, 1) && types.Identical(fn.Signature.Results().At(0).Type(), types.Typ[types.String]) {
				return true
			}
		}
		return false
	}
	a := iface{v.t, v.v}
	switch v.t.Underlying().(type) {
	case *types.Interface:
		a = v.v.(iface)
	default:
		if !str(v.t) && v.addr != nil && str(types.NewPointer(v.t)) {
			a = iface{types.NewPointer(v.t), v.addr}
		} else if !str(v.t) {
			switch v.t.Underlying().(type) {
			case *types.Chan, *types.Signature:
				x.fail("can't print of type %v", v.t)
			}
		}
	}
	x.out.addSeq(m.fmtArg(a, fmtSpec{verb: 'v'}))
}

func (m *Machine) tmplOf(v value) *tmplModel {
	p, ok := v.(*value)
	if !ok || p == nil {
		m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
	}
	t, ok := (*p).(*tmplModel)
	if !ok {
		unsupported("template.Template built without New")
	}
	return t
}

var tmplCache sync.Map // name + text -> *template.Template, for the first Parse of a template

func parseCached(t *template.Template, text string) error {
	if len(t.Templates()) > 0 {
		_, err := t.Parse(text)
		return err
	}
	key := t.Name() + "\x00" + text
	if c, ok := tmplCache.Load(key); ok {
		for _, x := range c.(*template.Template).Templates() {
			if x.Name() == t.Name() {
				t.Tree = x.Tree
			}
			if _, err := t.AddParseTree(x.Name(), x.Tree); err != nil {
				return err
			}
		}
		return nil
	}
	if _, err := t.Parse(text); err != nil {
		return err
	}
	if c, err := t.Clone(); err == nil {
		tmplCache.Store(key, c)
	}
	return nil
}

func lit(s value, what string) string {
	c, ok := s.(*Seq).concrete()
	if !ok {
		unsupported("symbolic %s", what)
	}
	return c
}

func init() {
	const T = "(*text/template.Template)."
	mk := func(m *Machine, t *template.Template, funcs map[string]iface) value {
		return m.newPtr(&tmplModel{t: t, funcs: funcs})
	}
	reg("text/template.New", func(m *Machine, fn *ssa.Function, a []value) value {
		return mk(m, template.New(lit(a[0], "template name")), map[string]iface{})
	})
	reg(T+"New", func(m *Machine, fn *ssa.Function, a []value) value {
		t := m.tmplOf(a[0])
		return mk(m, t.t.New(lit(a[1], "template name")), t.funcs)
	})
	reg(T+"Name", func(m *Machine, fn *ssa.Function, a []value) value { return litSeq(m.tmplOf(a[0]).t.Name()) })
	reg(T+"Funcs", func(m *Machine, fn *ssa.Function, a []value) value {
		t := m.tmplOf(a[0])
		stubs := template.FuncMap{}
		if mp := a[1].(*Map); mp != nil {
			for _, e := range mp.ents {
				n := lit(e.k, "template function name")
				f := e.v.(iface)
				if f.t == nil {
					m.rtPanic("value for " + n + " not a function")
				}
				t.funcs[n] = f
				stubs[n] = func(...any) any { return nil }
			}
		}
		t.t.Funcs(stubs)
		return a[0]
	})
	reg(T+"Parse", func(m *Machine, fn *ssa.Function, a []value) value {
		t := m.tmplOf(a[0])
		if err := parseCached(t.t, lit(a[1], "template")); err != nil {
			return tuple{(*value)(nil), m.errNew(litSeq(err.Error()))}
		}
		return tuple{a[0], m.nilErr()}
	})
	reg("text/template.Must", func(m *Machine, fn *ssa.Function, a []value) value {
		if e := a[1].(iface); e.t != nil {
			panic(targetPanic{e})
		}
		return a[0]
	})
	reg(T+"Lookup", func(m *Machine, fn *ssa.Function, a []value) value {
		t := m.tmplOf(a[0])
		l := t.t.Lookup(lit(a[1], "template name"))
		if l == nil {
			return (*value)(nil)
		}
		return mk(m, l, t.funcs)
	})
	exec := func(m *Machine, tm *tmplModel, w iface, data iface) (err value) {
		x := &texec{m: m, tm: tm}
		err = m.nilErr()
		func() {
			defer func() {
				if e := recover(); e != nil {
					if te, ok := e.(tmplErr); ok {
						err = m.errNew(litSeq("template: " + tm.t.Name() + ": " + te.msg))
						return
					}
					panic(e)
				}
			}()
			if tm.t.Tree == nil || tm.t.Tree.Root == nil {
				x.fail("%q is an incomplete or empty template", tm.t.Name())
			}
			d := tv{t: data.t, v: data.v}
			x.vars = []tvar{{"$", d}}
			x.walk(d, tm.t.Tree.Root)
		}()
		// the output so far is written in any case
		if we := m.writeTo(w, x.out.seq()); we.t != nil && err.(iface).t == nil {
			err = we
		}
		return
	}
	reg(T+"Execute", func(m *Machine, fn *ssa.Function, a []value) value {
		return exec(m, m.tmplOf(a[0]), a[1].(iface), a[2].(iface))
	})
	reg(T+"ExecuteTemplate", func(m *Machine, fn *ssa.Function, a []value) value {
		t := m.tmplOf(a[0])
		l := t.t.Lookup(lit(a[2], "template name"))
		if l == nil {
			return m.errNew(litSeq("template: no template " + strconv.Quote(lit(a[2], "template name")) + " associated with template"))
		}
		return exec(m, &tmplModel{t: l, funcs: t.funcs}, a[1].(iface), a[3].(iface))
	})
}

// embedsOf: the content of the //go:embed variables (string or []byte) of a package.
func embedsOf(p *packages.Package, out map[string]string) {
	if !strings.HasPrefix(p.PkgPath, repoMod) {
		return
	}
	for _, f := range p.Syntax {
		dir := filepath.Dir(p.Fset.Position(f.Pos()).Filename)
		for _, d := range f.Decls {
			gd, ok := d.(*ast.GenDecl)
			if !ok || gd.Tok != token.VAR {
				continue
			}
			for _, s := range gd.Specs {
				vs := s.(*ast.ValueSpec)
				for _, doc := range []*ast.CommentGroup{gd.Doc, vs.Doc} {
					if doc == nil {
						continue
					}
					for _, c := range doc.List {
						if pat, ok := strings.CutPrefix(c.Text, "//go:embed "); ok && len(vs.Names) == 1 {
							if b, err := os.ReadFile(filepath.Join(dir, strings.Trim(strings.TrimSpace(pat), "\"`"))); err == nil {
								out[p.PkgPath+"."+vs.Names[0].Name] = string(b)
							}
						}
					}
				}
			}
		}
	}
}

func (m *Machine) embedded(g *ssa.Global) value {
	s, ok := m.w.embeds[g.Pkg.Pkg.Path()+"."+g.Name()]
	if !ok {
		return nil
	}
	t := g.Type().Underlying().(*types.Pointer).Elem()
	if isByteSlice(t) {
		return m.seqToSlice(litSeq(s))
	}
	if b, ok := t.Underlying().(*types.Basic); ok && b.Kind() == types.String {
		return litSeq(s)
	}
	return nil
}
