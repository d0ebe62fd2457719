package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type nativeModel func(m *Machine, fn *ssa.Function, args []value) value

// fnInfo holds register numbering for a function.
type fnInfo struct {
	regs map[ssa.Value]int
	n    int
	mu    sync.Mutex
	loops map[*ssa.BasicBlock]*loopInfo
}

var fnInfos sync.Map

func infoOf(fn *ssa.Function) *fnInfo {
	if x, ok := fnInfos.Load(fn); ok {
		return x.(*fnInfo)
	}
	fi := &fnInfo{regs: map[ssa.Value]int{}}
	for _, p := range fn.Params {
		fi.regs[p] = fi.n
		fi.n++
	}
	for _, p := range fn.FreeVars {
		fi.regs[p] = fi.n
		fi.n++
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				fi.regs[v] = fi.n
				fi.n++
			}
		}
	}
	fnInfos.Store(fn, fi)
	return fi
}

type frame struct {
	m        *Machine
	caller   *frame
	fn       *ssa.Function
	fi       *fnInfo
	regs     []value
	block    *ssa.BasicBlock
	prev     *ssa.BasicBlock
	defers   *deferred
	result   value
	panicking bool
	panicV   *targetPanic
	loops    map[*ssa.BasicBlock]*loopTrack
}

type deferred struct {
	fn   value
	args []value
	site *ssa.CallCommon
	tail *deferred
}

func (f *frame) get(v ssa.Value) value {
	switch x := v.(type) {
	case *ssa.Const:
		return f.m.constVal(x)
	case *ssa.Function:
		return x
	case *ssa.Builtin:
		return x
	case *ssa.Global:
		return f.m.global(x)
	case nil:
		return nil
	}
	return f.regs[f.fi.regs[v]]
}

func (f *frame) set(v ssa.Value, x value) { f.regs[f.fi.regs[v]] = x }

func (m *Machine) global(g *ssa.Global) *value {
	if p, ok := m.globals[g]; ok {
		return p
	}
	m.ensureInit(g.Pkg)
	if p, ok := m.globals[g]; ok {
		return p
	}
	p := new(value)
	if mk := modelGlobal(m, g); mk != nil {
		*p = mk
	} else {
		*p = m.zero(g.Type().Underlying().(*types.Pointer).Elem())
	}
	m.globals[g] = p
	return p
}

// ensureInit runs a package's initialiser once per path.
func (m *Machine) ensureInit(p *ssa.Package) {
	if m.inited[p] {
		return
	}
	m.inited[p] = true
	for _, mem := range p.Members {
		if g, ok := mem.(*ssa.Global); ok {
			if _, done := m.globals[g]; !done {
				q := new(value)
				if mk := modelGlobal(m, g); mk != nil {
					*q = mk
				} else {
					*q = m.zeroSafe(g.Type().Underlying().(*types.Pointer).Elem())
				}
				m.globals[g] = q
			}
		}
	}
	if skipInit(p.Pkg.Path()) {
		return
	}
	m.w.build(p)
	if init := p.Func("init"); init != nil {
		m.call(init, nil, nil)
	}
}

func (m *Machine) zeroSafe(t types.Type) (v value) {
	defer func() {
		if r := recover(); r != nil {
			v = nil
		}
	}()
	return m.zero(t)
}

func (m *Machine) constVal(c *ssa.Const) value {
	if c.Value == nil {
		return m.zero(c.Type())
	}
	t := c.Type().Underlying()
	if tp, ok := t.(*types.Basic); ok {
		if w, signed, ok := basicInfo(tp); ok {
			if w == 0 {
				return m.tc.Bool(constant.BoolVal(c.Value))
			}
			v := constant.ToInt(c.Value)
			if signed {
				i, ok := constant.Int64Val(v)
				if !ok {
					u, _ := constant.Uint64Val(v)
					return m.tc.BV(w, u)
				}
				return m.tc.BV(w, uint64(i))
			}
			u, ok := constant.Uint64Val(v)
			if !ok {
				i, _ := constant.Int64Val(v)
				return m.tc.BV(w, uint64(i))
			}
			return m.tc.BV(w, u)
		}
		switch tp.Kind() {
		case types.String, types.UntypedString:
			if c.Value.Kind() == constant.String {
				return litSeq(constant.StringVal(c.Value))
			}
			i, _ := constant.Int64Val(c.Value)
			return litSeq(string(rune(i)))
		case types.Float32, types.Float64, types.UntypedFloat:
			f, _ := constant.Float64Val(c.Value)
			return f
		}
	}
	unsupported("constant %v", c)
	return nil
}

// call invokes a function value.
func (m *Machine) callValue(caller *frame, fv value, args []value) value {
	switch f := fv.(type) {
	case *ssa.Function:
		if f == nil {
			m.rtPanic("runtime error: invalid memory address or nil pointer dereference (nil func)")
		}
		return m.callF(caller, f, args, nil)
	case *closure:
		return m.callF(caller, f.fn, args, f.env)
	case *nativeFn:
		return f.fn(m, args)
	}
	unsupported("call of %T", fv)
	return nil
}

func (m *Machine) call(fn *ssa.Function, args []value, env []value) value {
	return m.callF(nil, fn, args, env)
}

func (m *Machine) callF(caller *frame, fn *ssa.Function, args []value, env []value) value {
	if nm := m.nativeFor(fn); nm != nil {
		return nm(m, fn, args)
	}
	if fn.Name() == "init" && fn.Pkg != nil && fn.Signature.Recv() == nil && fn.Parent() == nil && caller != nil && caller.fn.Name() == "init" {
		// package initialisers of imports run lazily
		return nil
	}
	if s := m.subst[fn]; s != nil {
		m.contractUse[fn.String()+" by "+s.Name()] = true
		fn = s
	}
	if !m.called[fn] {
		// (Blocks may be set while another worker is still building the package)
		if fn.Pkg != nil {
			m.w.build(fn.Pkg)
		} else if o := fn.Origin(); o != nil && o.Pkg != nil {
			m.w.build(o.Pkg)
		}
		if fn.Blocks == nil {
			unsupported("no body for %s", fn)
		}
	}
	if fn.Pkg != nil && !m.inited[fn.Pkg] {
		m.ensureInit(fn.Pkg)
	}
	m.called[fn] = true
	m.depth++
	if m.depth > 400 {
		panic(pathEnd{kind: "limit", msg: "call depth"})
	}
	defer func() { m.depth-- }()
	fi := infoOf(fn)
	f := &frame{m: m, caller: caller, fn: fn, fi: fi, regs: make([]value, fi.n), block: fn.Blocks[0]}
	for i, p := range fn.Params {
		f.regs[fi.regs[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		f.regs[fi.regs[p]] = env[i]
	}
	for f.block != nil {
		f.run()
	}
	return f.result
}

func (f *frame) run() {
	defer func() {
		if f.block == nil {
			return
		}
		r := recover()
		if r == nil {
			return
		}
		tp, ok := r.(targetPanic)
		if !ok {
			if e, isEnd := r.(pathEnd); isEnd && !e.at && (e.kind == "unsupported" || e.kind == "limit") {
				e.at = true
				e.msg += " in " + f.fn.String()
				r = e
			}
			panic(r)
		}
		f.panicking = true
		f.panicV = &tp
		f.runDefers()
		// recovered
		f.block = f.fn.Recover
		if f.block == nil {
			f.result = f.m.zeroResults(f.fn)
		}
	}()
	m := f.m
	for {
		b := f.block
		var next *ssa.BasicBlock
		// phis in parallel
		i := 0
		if len(b.Instrs) > 0 {
			if _, ok := b.Instrs[0].(*ssa.Phi); ok {
				var pi int
				for k, p := range b.Preds {
					if p == f.prev {
						pi = k
						break
					}
				}
				var vals []value
				for i < len(b.Instrs) {
					ph, ok := b.Instrs[i].(*ssa.Phi)
					if !ok {
						break
					}
					vals = append(vals, f.get(ph.Edges[pi]))
					i++
				}
				for k := range vals {
					f.set(b.Instrs[k].(*ssa.Phi), vals[k])
				}
			}
		}
		if len(b.Preds) > 1 || (len(b.Preds) == 1 && b.Index <= b.Preds[0].Index) {
			f.loopHead(b, i)
		}
		for ; i < len(b.Instrs); i++ {
			m.steps++
			if m.steps > m.maxSteps {
				panic(pathEnd{kind: "limit", msg: "step limit"})
			}
			if forkProf {
				m.cur, m.curPos = f, b.Instrs[i].Pos()
				if x, ok := b.Instrs[i].(*ssa.If); ok {
					m.curPos = x.Cond.Pos()
				}
			}
			switch in := b.Instrs[i].(type) {
			case *ssa.If:
				c := f.get(in.Cond).(*Term)
				if c.op != OConst {
					if next = logSkip(b); next != nil {
						continue
					}
				}
				if m.branch(c) {
					next = b.Succs[0]
				} else {
					next = b.Succs[1]
				}
			case *ssa.Jump:
				next = b.Succs[0]
			case *ssa.Return:
				switch len(in.Results) {
				case 0:
				case 1:
					f.result = f.get(in.Results[0])
				default:
					t := make(tuple, len(in.Results))
					for k, r := range in.Results {
						t[k] = f.get(r)
					}
					f.result = t
				}
				f.block = nil
				return
			case *ssa.Panic:
				panic(targetPanic{f.get(in.X)})
			default:
				f.instr(in)
			}
		}
		f.prev, f.block = b, next
	}
}

func (m *Machine) zeroResults(fn *ssa.Function) value {
	r := fn.Signature.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return m.zero(r.At(0).Type())
	}
	return m.zero(r)
}

func (f *frame) runDefers() {
	for d := f.defers; d != nil; d = f.defers {
		f.defers = d.tail
		f.runDefer(d)
	}
	if f.panicking {
		panic(*f.panicV)
	}
}

func (f *frame) runDefer(d *deferred) {
	var ok bool
	defer func() {
		if !ok {
			r := recover()
			tp, is := r.(targetPanic)
			if !is {
				panic(r)
			}
			f.panicking = true
			f.panicV = &tp
		}
	}()
	f.m.doCall(f, d.fn, d.args)
	ok = true
}

func (m *Machine) doCall(f *frame, fv value, args []value) value {
	if b, ok := fv.(*ssa.Builtin); ok {
		return m.builtin(f, b, args, nil)
	}
	return m.callValue(f, fv, args)
}

func (f *frame) prepare(c *ssa.CallCommon) (value, []value) {
	var fn value
	var args []value
	if c.IsInvoke() {
		recv, ok := f.get(c.Value).(iface)
		if !ok {
			unsupported("invoke on %T", f.get(c.Value))
		}
		if recv.t == nil {
			f.m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		fn = f.m.methodValue(recv, c.Method)
		args = append(args, recv.v)
	} else {
		fn = f.get(c.Value)
	}
	for _, a := range c.Args {
		args = append(args, copyVal(f.get(a)))
	}
	return fn, args
}

// methodValue finds the concrete method for an interface call.
func (m *Machine) methodValue(recv iface, meth *types.Func) value {
	fn := m.w.lookupMethod(recv.t, meth.Pkg(), meth.Name())
	if fn == nil {
		unsupported("method %s not found on %v", meth.Name(), recv.t)
	}
	return fn
}

func (f *frame) instr(in ssa.Instruction) {
	m := f.m
	c := m.tc
	switch x := in.(type) {
	case *ssa.DebugRef:
	case *ssa.UnOp:
		f.set(x, f.unop(x))
	case *ssa.BinOp:
		f.set(x, m.binop(x.Op, x.X.Type(), f.get(x.X), f.get(x.Y), x.Y.Type()))
	case *ssa.Call:
		fn, args := f.prepare(&x.Call)
		if b, ok := fn.(*ssa.Builtin); ok {
			f.set(x, m.builtin(f, b, args, x))
		} else {
			f.set(x, m.callValue(f, fn, args))
		}
	case *ssa.ChangeInterface:
		f.set(x, f.get(x.X))
	case *ssa.ChangeType:
		f.set(x, f.get(x.X))
	case *ssa.Convert:
		f.set(x, m.convert(x.X.Type(), x.Type(), f.get(x.X)))
	case *ssa.MultiConvert:
		f.set(x, m.convert(x.X.Type(), x.Type(), f.get(x.X)))
	case *ssa.SliceToArrayPointer:
		s := f.get(x.X).(*Slice)
		n := x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if s.r != nil {
			unsupported("slice to array of symbolic slice")
		}
		if int64(len(s.e)) < n {
			m.rtPanic("runtime error: cannot convert slice to array pointer")
		}
		p := m.newPtr(array(s.e[:n:n]))
		f.set(x, p)
	case *ssa.MakeInterface:
		f.set(x, iface{t: x.X.Type(), v: copyVal(f.get(x.X))})
	case *ssa.Extract:
		f.set(x, f.get(x.Tuple).(tuple)[x.Index])
	case *ssa.Slice:
		f.set(x, f.slice(x))
	case *ssa.RunDefers:
		f.runDefers()
	case *ssa.Defer:
		fn, args := f.prepare(&x.Call)
		f.defers = &deferred{fn: fn, args: args, tail: f.defers}
	case *ssa.Go:
		fn, args := f.prepare(&x.Call)
		m.sched.spawn(func() { m.doCall(nil, fn, args) })
	case *ssa.MakeChan:
		n := m.concretize(f.get(x.Size).(*Term), 16)
		f.set(x, &Chan{cap: int(n)})
	case *ssa.Send:
		m.sched.send(f.get(x.Chan).(*Chan), f.get(x.X))
	case *ssa.Select:
		f.set(x, f.selectStmt(x))
	case *ssa.Store:
		m.store(f.get(x.Addr), f.get(x.Val))
	case *ssa.MapUpdate:
		m.mapUpdate(f.get(x.Map).(*Map), f.get(x.Key), copyVal(f.get(x.Value)))
	case *ssa.Alloc:
		t := x.Type().Underlying().(*types.Pointer).Elem()
		f.set(x, m.newPtr(m.zero(t)))
	case *ssa.MakeSlice:
		f.set(x, m.makeSlice(x.Type(), f.get(x.Len).(*Term), f.get(x.Cap).(*Term), x.Len.Type()))
	case *ssa.MakeMap:
		mp := &Map{t: x.Type().Underlying().(*types.Map), idx: map[string]int{}}
		m.logAlloc(mp)
		f.set(x, mp)
	case *ssa.Range:
		f.set(x, m.rangeIter(f.get(x.X)))
	case *ssa.Next:
		f.set(x, m.next(f.get(x.Iter), x))
	case *ssa.FieldAddr:
		p := f.get(x.X)
		f.set(x, m.fieldAddr(p, x.Field))
	case *ssa.Field:
		v := f.get(x.X)
		s, ok := v.(structure)
		if !ok {
			unsupported("field of %T", v)
		}
		f.set(x, copyVal(s[x.Field]))
	case *ssa.IndexAddr:
		f.set(x, m.indexAddr(f.get(x.X), m.toIdx(f.get(x.Index).(*Term), x.Index.Type())))
	case *ssa.Index:
		f.set(x, m.index(f.get(x.X), m.toIdx(f.get(x.Index).(*Term), x.Index.Type())))
	case *ssa.Lookup:
		f.set(x, m.lookup(f, x))
	case *ssa.TypeAssert:
		f.set(x, m.typeAssert(x, f.get(x.X).(iface)))
	case *ssa.MakeClosure:
		env := make([]value, len(x.Bindings))
		for i, b := range x.Bindings {
			env[i] = f.get(b)
		}
		f.set(x, &closure{fn: x.Fn.(*ssa.Function), env: env})
	default:
		unsupported("instruction %T", in)
	}
	_ = c
}

func (m *Machine) toIdx(t *Term, ty types.Type) *Term {
	w, signed, _ := basicInfo(ty)
	_ = w
	if signed {
		return m.tc.Sext(t, 64)
	}
	return m.tc.Zext(t, 64)
}

func (m *Machine) fieldAddr(p value, field int) value {
	switch q := p.(type) {
	case *value:
		if q == nil {
			m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		s, ok := (*q).(structure)
		if !ok {
			unsupported("field address of modelled object %T", *q)
		}
		return &s[field]
	case *symPtr:
		k := m.concretize(q.idx, len(q.e)+1)
		s := q.e[k].(structure)
		return &s[field]
	}
	unsupported("fieldAddr %T", p)
	return nil
}

func (m *Machine) load(p value) value {
	switch q := p.(type) {
	case *value:
		if q == nil {
			m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		return copyVal(*q)
	case *symPtr:
		return m.selectIdx(q.e, q.idx)
	case *ropePtr:
		return m.seqIndex(q.o.seq, q.idx)
	}
	unsupported("load %T", p)
	return nil
}

// selectIdx reads element idx (in range) of concrete storage.
func (m *Machine) selectIdx(e []value, idx *Term) value {
	if idx.op == OConst {
		return copyVal(e[idx.k])
	}
	ts := make([]*Term, len(e))
	ok := true
	for i := range e {
		t, is := e[i].(*Term)
		if !is {
			ok = false
			break
		}
		ts[i] = t
	}
	if ok && len(e) > 0 {
		return m.iteIndex(ts, idx)
	}
	k := m.concretize(idx, len(e)+1)
	return copyVal(e[k])
}

func (m *Machine) store(p value, v value) {
	switch q := p.(type) {
	case *value:
		if q == nil {
			m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		v = copyVal(v)
		// keep interior pointers valid: overwrite aggregates in place
		m.logCell(q)
		assign(q, v)
	case *symPtr:
		if t, ok := v.(*Term); ok {
			all := true
			for i := range q.e {
				if _, is := q.e[i].(*Term); !is {
					all = false
				}
			}
			if all {
				for i := range q.e {
					m.logCell(&q.e[i])
					q.e[i] = m.tc.Ite(m.tc.Eq(q.idx, m.tc.BV(64, uint64(i))), t, q.e[i].(*Term))
				}
				return
			}
		}
		k := m.concretize(q.idx, len(q.e)+1)
		m.logCell(&q.e[k])
		assign(&q.e[k], copyVal(v))
	case *ropePtr:
		m.logBad(q.o)
		a, b := m.splitAt(q.o.seq, q.idx)
		_, b = m.splitAt(b, m.tc.BV(64, 1))
		q.o.seq = concat(a, &Seq{p: []piece{{k: pByte, t: v.(*Term)}}}, b)
		q.o.seq = normSeq(q.o.seq)
	default:
		unsupported("store %T", p)
	}
}

func normSeq(s *Seq) *Seq {
	b := seqB{}
	b.addSeq(s)
	return b.seq()
}

func assign(p *value, v value) {
	switch o := (*p).(type) {
	case structure:
		if n, ok := v.(structure); ok && len(n) == len(o) {
			for i := range o {
				assign(&o[i], n[i])
			}
			return
		}
	case array:
		if n, ok := v.(array); ok && len(n) == len(o) {
			for i := range o {
				assign(&o[i], n[i])
			}
			return
		}
	}
	*p = v
}

func (m *Machine) lenOf(v value) *Term {
	switch x := v.(type) {
	case *Slice:
		if x.r != nil {
			return x.rn
		}
		return m.tc.BV(64, uint64(len(x.e)))
	case *Seq:
		return m.seqLen(x)
	case array:
		return m.tc.BV(64, uint64(len(x)))
	case *Map:
		if x == nil {
			return m.tc.BV(64, 0)
		}
		return m.tc.BV(64, uint64(len(x.ents)))
	case *Chan:
		return m.tc.BV(64, uint64(len(x.buf)))
	case *value:
		if x == nil {
			m.rtPanic("nil deref")
		}
		return m.lenOf(*x)
	}
	unsupported("len of %T", v)
	return nil
}

func (m *Machine) boundsCheck(idx, n *Term) {
	if !m.branch(m.tc.Ult(idx, n)) {
		m.rtPanic("runtime error: index out of range")
	}
}

func (m *Machine) indexAddr(v value, idx *Term) value {
	switch x := v.(type) {
	case *Slice:
		m.boundsCheck(idx, m.lenOf(x))
		if x.r != nil {
			return &ropePtr{x.r, m.tc.Bin(OAdd, x.ro, idx)}
		}
		if idx.op == OConst {
			return &x.e[idx.k]
		}
		return &symPtr{x.e, idx}
	case *value:
		if x == nil {
			m.rtPanic("runtime error: invalid memory address or nil pointer dereference")
		}
		a, ok := (*x).(array)
		if !ok {
			unsupported("indexAddr of %T", *x)
		}
		m.boundsCheck(idx, m.tc.BV(64, uint64(len(a))))
		if idx.op == OConst {
			return &a[idx.k]
		}
		return &symPtr{a, idx}
	}
	unsupported("indexAddr %T", v)
	return nil
}

func (m *Machine) index(v value, idx *Term) value {
	switch x := v.(type) {
	case array:
		m.boundsCheck(idx, m.tc.BV(64, uint64(len(x))))
		return m.selectIdx(x, idx)
	case *Seq:
		m.boundsCheck(idx, m.seqLen(x))
		return m.seqIndex(x, idx)
	}
	unsupported("index %T", v)
	return nil
}

func (m *Machine) makeSlice(t types.Type, n, cp *Term, lt types.Type) value {
	el := t.Underlying().(*types.Slice).Elem()
	n = m.toIdx(n, lt)
	cp = m.tc.Sext(cp, 64)
	if n.op == OConst {
		if int64(n.k) < 0 || int64(n.k) > 1<<40 {
			m.rtPanic("runtime error: makeslice: len out of range")
		}
		k := int(n.k)
		ck := k
		if cp.op == OConst && int(cp.k) > k {
			ck = int(cp.k)
		}
		if ck > 1<<24 {
			unsupported("huge make %d", ck)
		}
		e := make([]value, ck)
		for i := range e {
			e[i] = m.zero(el)
		}
		m.logAlloc(e)
		return &Slice{e: e[:k:ck]}
	}
	if m.branch(m.tc.Slt(n, m.tc.BV(64, 0))) {
		m.rtPanic("runtime error: makeslice: len out of range")
	}
	if isByteSlice(t) {
		o := &RObj{seq: &Seq{p: []piece{{k: pRep, t: m.tc.BV(8, 0), n: n}}}}
		m.logAlloc(o)
		return &Slice{r: o, ro: m.tc.BV(64, 0), rn: n}
	}
	k := int(m.concretize(n, 64))
	e := make([]value, k)
	for i := range e {
		e[i] = m.zero(el)
	}
	return &Slice{e: e}
}

func (f *frame) slice(x *ssa.Slice) value {
	m := f.m
	c := m.tc
	v := f.get(x.X)
	var lo, hi, mx *Term
	get := func(a ssa.Value) *Term {
		if a == nil {
			return nil
		}
		return m.toIdx(f.get(a).(*Term), a.Type())
	}
	lo, hi, mx = get(x.Low), get(x.High), get(x.Max)
	return m.sliceOp(v, lo, hi, mx, c)
}

func (m *Machine) sliceOp(v value, lo, hi, mx *Term, c *TermCtx) value {
	zero := c.BV(64, 0)
	if lo == nil {
		lo = zero
	}
	oob := func() { m.rtPanic("runtime error: slice bounds out of range") }
	switch s := v.(type) {
	case *Seq:
		n := m.seqLen(s)
		if hi == nil {
			hi = n
		} else if !m.branch(c.Ule(hi, n)) {
			oob()
		}
		if !m.branch(c.Ule(lo, hi)) {
			oob()
		}
		return m.seqSlice(s, lo, hi)
	case *Slice:
		if s.r != nil {
			capT := m.seqLen(s.r.seq)
			capT = c.Bin(OSub, capT, s.ro)
			if hi == nil {
				hi = s.rn
			} else if !m.branch(c.Ule(hi, s.rn)) {
				if !m.branch(c.Ule(hi, capT)) {
					oob()
				}
			}
			if !m.branch(c.Ule(lo, hi)) {
				oob()
			}
			return &Slice{r: s.r, ro: c.Bin(OAdd, s.ro, lo), rn: c.Bin(OSub, hi, lo)}
		}
		if s.nilp {
			if (hi == nil || (hi.op == OConst && hi.k == 0)) && lo.op == OConst && lo.k == 0 {
				return s
			}
		}
		n, cp := len(s.e), cap(s.e)
		if hi == nil {
			hi = c.BV(64, uint64(n))
		}
		limit := cp
		if mx != nil {
			if mx.op != OConst {
				unsupported("symbolic slice max")
			}
			if mx.k > uint64(cp) {
				oob()
			}
			limit = int(mx.k)
		}
		if !m.branch(c.Ule(hi, c.BV(64, uint64(limit)))) {
			oob()
		}
		if !m.branch(c.Ule(lo, hi)) {
			oob()
		}
		if hi.op != OConst || lo.op != OConst {
			if len(s.e) > 0 && m.allTerms8(s.e) && cp > 64 {
				// symbolic window on bytes: keep it symbolic (copy, aliasing lost; flagged)
				unsupported("symbolic window on a large concrete byte slice")
			}
			l := m.concretize(lo, 2*cp+2)
			h := m.concretize(hi, 2*cp+2)
			return &Slice{e: s.e[l:h:limit]}
		}
		return &Slice{e: s.e[lo.k:hi.k:limit], nilp: false}
	case *value: // pointer to array
		if s == nil {
			oob()
		}
		a := (*s).(array)
		return m.sliceOp(&Slice{e: []value(a)}, lo, hi, mx, c)
	}
	unsupported("slice of %T", v)
	return nil
}

func (m *Machine) allTerms8(e []value) bool {
	for _, x := range e {
		if t, ok := x.(*Term); !ok || t.w != 8 {
			return false
		}
	}
	return true
}

// sliceSeq returns the content of a byte slice as a Seq.
func (m *Machine) sliceSeq(s *Slice) *Seq {
	if s.r != nil {
		q := s.r.seq
		q = m.seqSlice(q, s.ro, m.tc.Bin(OAdd, s.ro, s.rn))
		return q
	}
	b := make([]*Term, len(s.e))
	for i := range s.e {
		t, ok := s.e[i].(*Term)
		if !ok {
			unsupported("byte slice with %T", s.e[i])
		}
		b[i] = t
	}
	return m.seqOfBytes(b)
}

// seqSliceVal makes a fresh byte slice from a Seq.
func (m *Machine) seqToSlice(s *Seq) *Slice {
	if s.fixed() {
		bs := m.seqBytes(s)
		e := make([]value, len(bs))
		for i := range bs {
			e[i] = bs[i]
		}
		return &Slice{e: e}
	}
	n := m.seqLen(s)
	return &Slice{r: &RObj{seq: s}, ro: m.tc.BV(64, 0), rn: n}
}

func (m *Machine) rangeIter(v value) value {
	switch x := v.(type) {
	case *Map:
		if x == nil {
			return &mapIter{}
		}
		// Go's map order is unspecified; entries are visited in insertion order here and the
		// order-dependence is noted as an assumption where it matters.
		return &mapIter{m: x, ents: append([]mapEntry{}, x.ents...)}
	case *Seq:
		return &strIter{s: m.expand(x)}
	}
	unsupported("range over %T", v)
	return nil
}

func (m *Machine) next(it value, x *ssa.Next) value {
	switch i := it.(type) {
	case *mapIter:
		for i.i < len(i.ents) {
			e := i.ents[i.i]
			i.i++
			// deleted meanwhile?
			cur := i.m.find(m, e.k)
			if cur < 0 {
				continue
			}
			return tuple{m.tc.tt, copyVal(e.k), copyVal(i.m.ents[cur].v)}
		}
		t := x.Type().(*types.Tuple)
		return tuple{m.tc.ff, m.zeroOrNil(t.At(1).Type()), m.zeroOrNil(t.At(2).Type())}
	case *strIter:
		bs := m.seqBytes(i.s)
		if i.i >= len(bs) {
			return tuple{m.tc.ff, m.tc.BV(64, 0), m.tc.BV(32, 0)}
		}
		r, n := m.decodeRune(bs[i.i:])
		k := i.i
		i.i += n
		return tuple{m.tc.tt, m.tc.BV(64, uint64(k)), r}
	}
	unsupported("next %T", it)
	return nil
}

func (m *Machine) zeroOrNil(t types.Type) value {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return nil
	}
	return m.zero(t)
}

// decodeRune decodes one UTF-8 rune from byte terms (forking as needed).
func (m *Machine) decodeRune(bs []*Term) (*Term, int) {
	c := m.tc
	z := func(t *Term) *Term { return c.Zext(t, 32) }
	b0 := bs[0]
	if m.branch(c.Ult(b0, c.BV(8, 0x80))) {
		return z(b0), 1
	}
	bad := c.BV(32, 0xfffd)
	in := func(t *Term, lo, hi uint64) bool {
		return m.branch(c.And(c.Ule(c.BV(8, lo), t), c.Ule(t, c.BV(8, hi))))
	}
	lowbits := func(t *Term, n int) *Term { return c.Zext(c.Extract(t, n-1, 0), 32) }
	shl := func(t *Term, n int) *Term { return c.Bin(OShl, t, c.BV(32, uint64(n))) }
	or := func(a, b *Term) *Term { return c.Bin(OBor, a, b) }
	cont := func(i int, lo, hi uint64) bool { return i < len(bs) && in(bs[i], lo, hi) }
	switch {
	case in(b0, 0xc2, 0xdf):
		if !cont(1, 0x80, 0xbf) {
			return bad, 1
		}
		return or(shl(lowbits(b0, 5), 6), lowbits(bs[1], 6)), 2
	case in(b0, 0xe0, 0xef):
		lo, hi := uint64(0x80), uint64(0xbf)
		if m.branch(c.Eq(b0, c.BV(8, 0xe0))) {
			lo = 0xa0
		} else if m.branch(c.Eq(b0, c.BV(8, 0xed))) {
			hi = 0x9f
		}
		if !cont(1, lo, hi) || !cont(2, 0x80, 0xbf) {
			return bad, 1
		}
		return or(shl(lowbits(b0, 4), 12), or(shl(lowbits(bs[1], 6), 6), lowbits(bs[2], 6))), 3
	case in(b0, 0xf0, 0xf4):
		lo, hi := uint64(0x80), uint64(0xbf)
		if m.branch(c.Eq(b0, c.BV(8, 0xf0))) {
			lo = 0x90
		} else if m.branch(c.Eq(b0, c.BV(8, 0xf4))) {
			hi = 0x8f
		}
		if !cont(1, lo, hi) || !cont(2, 0x80, 0xbf) || !cont(3, 0x80, 0xbf) {
			return bad, 1
		}
		return or(shl(lowbits(b0, 3), 18), or(shl(lowbits(bs[1], 6), 12), or(shl(lowbits(bs[2], 6), 6), lowbits(bs[3], 6)))), 4
	}
	return bad, 1
}

// encodeRune encodes a rune term as UTF-8 bytes.
func (m *Machine) encodeRune(r *Term) []*Term {
	c := m.tc
	if r.op == OConst {
		s := string(rune(int32(r.k)))
		var out []*Term
		for i := 0; i < len(s); i++ {
			out = append(out, c.BV(8, uint64(s[i])))
		}
		return out
	}
	lt := func(k uint64) bool { return m.branch(c.Ult(r, c.BV(32, k))) }
	six := func(sh int) *Term {
		return c.Bin(OBor, c.BV(8, 0x80), c.Zext(c.Extract(r, sh+5, sh), 8))
	}
	if lt(0x80) {
		return []*Term{c.Extract(r, 7, 0)}
	}
	if lt(0x800) {
		return []*Term{c.Bin(OBor, c.BV(8, 0xc0), c.Zext(c.Extract(r, 10, 6), 8)), six(0)}
	}
	bad := []*Term{c.BV(8, 0xef), c.BV(8, 0xbf), c.BV(8, 0xbd)}
	if lt(0x10000) {
		if !lt(0xd800) && lt(0xe000) {
			return bad
		}
		return []*Term{c.Bin(OBor, c.BV(8, 0xe0), c.Zext(c.Extract(r, 15, 12), 8)), six(6), six(0)}
	}
	if lt(0x110000) {
		return []*Term{c.Bin(OBor, c.BV(8, 0xf0), c.Zext(c.Extract(r, 20, 18), 8)), six(12), six(6), six(0)}
	}
	return bad
}

// ---- maps ----

func keyString(k value) (string, bool) {
	switch x := k.(type) {
	case *Term:
		if x.op == OConst {
			return fmt.Sprintf("t%d", x.k), true
		}
	case *Seq:
		if s, ok := x.concrete(); ok {
			return "s" + s, true
		}
	case structure:
		var sb strings.Builder
		sb.WriteString("{")
		for _, y := range x {
			s, ok := keyString(y)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(s), s)
		}
		return sb.String(), true
	case array:
		var sb strings.Builder
		sb.WriteString("[")
		for _, y := range x {
			s, ok := keyString(y)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&sb, "%d:%s,", len(s), s)
		}
		return sb.String(), true
	case iface:
		if x.t == nil {
			return "nil", true
		}
		s, ok := keyString(x.v)
		return "i" + x.t.String() + ":" + s, ok
	case *value:
		return fmt.Sprintf("p%p", x), true
	}
	return "", false
}

// find returns the entry index for key k, forking when equality is symbolic.
func (mp *Map) find(m *Machine, k value) int {
	if mp == nil {
		return -1
	}
	ks, conc := keyString(k)
	if conc && !mp.sym {
		if i, ok := mp.idx[ks]; ok {
			return i
		}
		return -1
	}
	for i := range mp.ents {
		if m.branch(m.equals(mp.t.Key(), mp.ents[i].k, k)) {
			return i
		}
	}
	return -1
}

func (mp *Map) reindex() {
	mp.idx = map[string]int{}
	mp.sym = false
	for i := range mp.ents {
		if ks, ok := keyString(mp.ents[i].k); ok {
			mp.idx[ks] = i
		} else {
			mp.sym = true
		}
	}
}

func (m *Machine) mapUpdate(mp *Map, k, v value) {
	m.logBad(mp)
	if mp == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	if x, ok := k.(iface); ok && x.t != nil && !types.Comparable(x.t) {
		m.rtPanic("runtime error: hash of unhashable type")
	}
	if i := mp.find(m, k); i >= 0 {
		mp.ents[i].v = v
		return
	}
	mp.ents = append(mp.ents, mapEntry{k, v})
	if ks, ok := keyString(k); ok {
		mp.idx[ks] = len(mp.ents) - 1
	} else {
		mp.sym = true
	}
}

func (m *Machine) mapDelete(mp *Map, k value) {
	m.logBad(mp)
	if mp == nil {
		return
	}
	if i := mp.find(m, k); i >= 0 {
		mp.ents = append(append([]mapEntry{}, mp.ents[:i]...), mp.ents[i+1:]...)
		mp.reindex()
	}
}

func (m *Machine) lookup(f *frame, x *ssa.Lookup) value {
	v := f.get(x.X)
	k := f.get(x.Index)
	if s, ok := v.(*Seq); ok {
		return m.index(s, m.toIdx(k.(*Term), x.Index.Type()))
	}
	mp := v.(*Map)
	mt := x.X.Type().Underlying().(*types.Map)
	// symbolic scalar key with scalar values: ite chain instead of forking
	if kt, ok := k.(*Term); ok && mp != nil && kt.op != OConst && !mp.sym && len(mp.ents) > 0 {
		all := true
		for i := range mp.ents {
			if _, ok := mp.ents[i].v.(*Term); !ok {
				all = false
				break
			}
			if t, ok := mp.ents[i].k.(*Term); !ok || t.op != OConst {
				all = false
				break
			}
		}
		if all {
			r := m.zero(mt.Elem()).(*Term)
			found := m.tc.ff
			for i := range mp.ents {
				e := m.tc.Eq(kt, mp.ents[i].k.(*Term))
				r = m.tc.Ite(e, mp.ents[i].v.(*Term), r)
				found = m.tc.Or(found, e)
			}
			if x.CommaOk {
				return tuple{r, found}
			}
			return r
		}
	}
	i := mp.find(m, k)
	var r value
	if i >= 0 {
		r = copyVal(mp.ents[i].v)
	} else {
		r = m.zero(mt.Elem())
	}
	if x.CommaOk {
		return tuple{r, m.tc.Bool(i >= 0)}
	}
	return r
}

// ---- type assertions ----

func (m *Machine) implements(t types.Type, it *types.Interface) bool {
	return types.Implements(t, it)
}

func (m *Machine) typeAssert(x *ssa.TypeAssert, v iface) value {
	ok := false
	if v.t != nil {
		if it, is := x.AssertedType.Underlying().(*types.Interface); is {
			ok = m.implements(v.t, it)
			if ok {
				if x.CommaOk {
					return tuple{v, m.tc.tt}
				}
				return v
			}
		} else {
			ok = types.Identical(v.t, x.AssertedType)
			if ok {
				if x.CommaOk {
					return tuple{copyVal(v.v), m.tc.tt}
				}
				return copyVal(v.v)
			}
		}
	}
	if x.CommaOk {
		return tuple{m.zero(x.AssertedType), m.tc.ff}
	}
	m.rtPanic(fmt.Sprintf("interface conversion: interface is %v, not %v", v.t, x.AssertedType))
	return nil
}

// ---- operators ----

func (f *frame) unop(x *ssa.UnOp) value {
	m := f.m
	v := f.get(x.X)
	switch x.Op {
	case token.MUL:
		return m.load(v)
	case token.NOT:
		return m.tc.Not(v.(*Term))
	case token.SUB:
		switch t := v.(type) {
		case *Term:
			return m.tc.Bin(OSub, m.tc.BV(t.w, 0), t)
		case float64:
			return -t
		}
	case token.XOR:
		t := v.(*Term)
		return m.tc.Bin(OBxor, t, m.tc.BV(t.w, mask(t.w)))
	case token.ARROW:
		r, ok := m.sched.recv(v.(*Chan))
		if r == nil {
			r = m.zero(x.X.Type().Underlying().(*types.Chan).Elem())
		}
		if x.CommaOk {
			return tuple{r, m.tc.Bool(ok)}
		}
		return r
	}
	unsupported("unop %v %T", x.Op, v)
	return nil
}

// FTerm: placeholder for a symbolic float (only carried, never computed with).
type FTerm struct {
	desc string
	num  *Term // value = num/den exactly rounded, when known
	den  *Term
}

func (m *Machine) binop(op token.Token, t types.Type, x, y value, yt types.Type) value {
	c := m.tc
	switch op {
	case token.EQL:
		return m.equals(t, x, y)
	case token.NEQ:
		return c.Not(m.equals(t, x, y))
	}
	switch a := x.(type) {
	case *Term:
		b := y.(*Term)
		_, signed, _ := basicInfo(t)
		switch op {
		case token.ADD:
			return c.Bin(OAdd, a, b)
		case token.SUB:
			return c.Bin(OSub, a, b)
		case token.MUL:
			return c.Bin(OMul, a, b)
		case token.QUO, token.REM:
			if m.branch(c.Eq(b, c.BV(b.w, 0))) {
				m.rtPanic("runtime error: integer divide by zero")
			}
			o := OUdiv
			switch {
			case op == token.QUO && signed:
				o = OSdiv
			case op == token.REM && signed:
				o = OSrem
			case op == token.REM:
				o = OUrem
			}
			return c.Bin(o, a, b)
		case token.AND:
			if a.w == 0 {
				return c.And(a, b)
			}
			return c.Bin(OBand, a, b)
		case token.OR:
			if a.w == 0 {
				return c.Or(a, b)
			}
			return c.Bin(OBor, a, b)
		case token.XOR:
			return c.Bin(OBxor, a, b)
		case token.AND_NOT:
			return c.Bin(OBand, a, c.Bin(OBxor, b, c.BV(b.w, mask(b.w))))
		case token.SHL, token.SHR:
			_, ys, _ := basicInfo(yt)
			if ys && m.branch(c.Slt(b, c.BV(b.w, 0))) {
				m.rtPanic("runtime error: negative shift amount")
			}
			// saturate the shift count to the width of a
			var s *Term
			if b.w > a.w {
				big := c.Ult(c.BV(b.w, uint64(a.w)), b)
				s = c.Ite(big, c.BV(a.w, uint64(a.w)), c.Extract(b, a.w-1, 0))
			} else {
				s = c.Zext(b, a.w)
			}
			o := OShl
			if op == token.SHR {
				o = OLshr
				if signed {
					o = OAshr
				}
			}
			return c.Bin(o, a, s)
		case token.LSS:
			if signed {
				return c.Slt(a, b)
			}
			return c.Ult(a, b)
		case token.LEQ:
			if signed {
				return c.Sle(a, b)
			}
			return c.Ule(a, b)
		case token.GTR:
			if signed {
				return c.Slt(b, a)
			}
			return c.Ult(b, a)
		case token.GEQ:
			if signed {
				return c.Sle(b, a)
			}
			return c.Ule(b, a)
		}
	case *Seq:
		b := y.(*Seq)
		switch op {
		case token.ADD:
			return concat(a, b)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return m.seqCmp(op, a, b)
		}
	case float64:
		b, ok := y.(float64)
		if !ok {
			unsupported("symbolic float")
		}
		is32 := false
		if bt, ok := t.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			is32 = true
		}
		rnd := func(f float64) value {
			if is32 {
				return float64(float32(f))
			}
			return f
		}
		switch op {
		case token.ADD:
			return rnd(a + b)
		case token.SUB:
			return rnd(a - b)
		case token.MUL:
			return rnd(a * b)
		case token.QUO:
			return rnd(a / b)
		case token.LSS:
			return c.Bool(a < b)
		case token.LEQ:
			return c.Bool(a <= b)
		case token.GTR:
			return c.Bool(a > b)
		case token.GEQ:
			return c.Bool(a >= b)
		}
	}
	unsupported("binop %v %T %T", op, x, y)
	return nil
}

func (m *Machine) seqCmp(op token.Token, a, b *Seq) *Term {
	x, y := m.expandBytes(a), m.expandBytes(b)
	c := m.tc
	// lexicographic less
	var less func(i int) *Term
	less = func(i int) *Term {
		if i >= len(y) {
			return c.ff
		}
		if i >= len(x) {
			return c.tt
		}
		return c.Or(c.Ult(x[i], y[i]), c.And(c.Eq(x[i], y[i]), less(i+1)))
	}
	lt := less(0)
	switch op {
	case token.LSS:
		return lt
	case token.GEQ:
		return c.Not(lt)
	}
	x, y = y, x
	gt := less(0)
	if op == token.GTR {
		return gt
	}
	return c.Not(gt)
}

func (m *Machine) convert(from, to types.Type, v value) value {
	c := m.tc
	ut := to.Underlying()
	uf := from.Underlying()
	switch x := v.(type) {
	case *Term:
		if tb, ok := ut.(*types.Basic); ok {
			_, signed, _ := basicInfo(uf)
			if tb.Kind() == types.String {
				var r *Term
				if signed {
					r = c.Sext(x, 64)
				} else {
					r = c.Zext(x, 64)
				}
				if r.op == OConst {
					i := int64(r.k)
					if i < 0 || i > math.MaxInt32 {
						i = 0xfffd
					}
					return litSeq(string(rune(i)))
				}
				if !m.branch(c.Ult(r, c.BV(64, 0x110000))) {
					return litSeq("\ufffd")
				}
				return m.seqOfBytes(m.encodeRune(c.Extract(r, 31, 0)))
			}
			if w, _, ok := basicInfo(tb); ok {
				if w <= x.w {
					return c.Extract2(x, w)
				}
				if signed {
					return c.Sext(x, w)
				}
				return c.Zext(x, w)
			}
			if tb.Info()&types.IsFloat != 0 {
				if x.op == OConst {
					var f float64
					if signed {
						f = float64(x.sval())
					} else {
						f = float64(x.k)
					}
					if tb.Kind() == types.Float32 {
						f = float64(float32(f))
					}
					return f
				}
				unsupported("symbolic int to float")
			}
			if tb.Kind() == types.UnsafePointer {
				unsupported("unsafe pointer")
			}
		}
	case float64:
		if tb, ok := ut.(*types.Basic); ok {
			if w, signed, ok := basicInfo(tb); ok {
				if signed {
					return c.BV(w, uint64(int64(x)))
				}
				return c.BV(w, uint64(x))
			}
			if tb.Kind() == types.Float32 {
				return float64(float32(x))
			}
			return x
		}
	case *Seq:
		switch t := ut.(type) {
		case *types.Basic:
			return x
		case *types.Slice:
			eb := t.Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return m.seqToSlice(x)
			}
			// []rune
			bs := m.expandBytes(x)
			var e []value
			for i := 0; i < len(bs); {
				r, n := m.decodeRune(bs[i:])
				e = append(e, r)
				i += n
			}
			return &Slice{e: e}
		}
	case *Slice:
		if tb, ok := ut.(*types.Basic); ok && tb.Kind() == types.String {
			eb := uf.(*types.Slice).Elem().Underlying().(*types.Basic)
			if eb.Kind() == types.Uint8 {
				return m.sliceSeq(x)
			}
			var bs []*Term
			for _, r := range x.e {
				bs = append(bs, m.encodeRune(r.(*Term))...)
			}
			return m.seqOfBytes(bs)
		}
		return x
	case *value:
		return x
	}
	if types.Identical(ut, uf) {
		return v
	}
	unsupported("convert %v to %v (%T)", from, to, v)
	return nil
}

func (c *TermCtx) Extract2(x *Term, w int) *Term {
	if w == x.w {
		return x
	}
	return c.Extract(x, w-1, 0)
}

// ---- builtins ----

func (m *Machine) builtin(f *frame, b *ssa.Builtin, args []value, call *ssa.Call) value {
	c := m.tc
	switch b.Name() {
	case "len":
		return m.lenOf(args[0])
	case "cap":
		switch x := args[0].(type) {
		case *Slice:
			if x.r != nil {
				return c.Bin(OSub, m.seqLen(x.r.seq), x.ro)
			}
			return c.BV(64, uint64(cap(x.e)))
		case *Chan:
			return c.BV(64, uint64(x.cap))
		}
		return m.lenOf(args[0])
	case "append":
		var et types.Type
		if call != nil {
			et = call.Type().Underlying().(*types.Slice).Elem()
		}
		return m.appendOp(args[0].(*Slice), args[1], et)
	case "copy":
		return m.copyOp(args[0].(*Slice), args[1])
	case "delete":
		m.mapDelete(args[0].(*Map), args[1])
		return nil
	case "close":
		m.sched.close(args[0].(*Chan))
		return nil
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{args[0]})
	case "recover":
		// f is the deferred function's frame; its caller is the panicking frame
		cf := f
		if cf != nil && cf.caller != nil && cf.caller.panicking {
			cf.caller.panicking = false
			p := cf.caller.panicV.v
			if i, ok := p.(iface); ok {
				return i
			}
			return iface{}
		}
		return iface{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*value); ok && p == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "min", "max":
		r := args[0]
		for _, y := range args[1:] {
			switch a := r.(type) {
			case *Term:
				_, signed, _ := basicInfo(call.Type())
				var lt *Term
				if signed {
					lt = c.Slt(y.(*Term), a)
				} else {
					lt = c.Ult(y.(*Term), a)
				}
				if b.Name() == "max" {
					lt = c.Not(lt)
				}
				r = c.Ite(lt, y.(*Term), a)
			case float64:
				if b.Name() == "min" {
					r = math.Min(a, y.(float64))
				} else {
					r = math.Max(a, y.(float64))
				}
			default:
				unsupported("min/max %T", r)
			}
		}
		return r
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				x.ents = nil
				x.reindex()
			}
			return nil
		}
	}
	unsupported("builtin %s", b.Name())
	return nil
}

var growCache sync.Map

// growCap emulates the runtime's capacity growth for elements of the given size.
func growCap(oldCap, oldLen, add int, size int64) int {
	if size <= 0 {
		size = 1
	}
	if size > 4096 || oldCap+add > 1<<20 {
		return oldLen + add
	}
	type key struct {
		a, b, c int
		s       int64
	}
	k := key{oldCap, oldLen, add, size}
	if v, ok := growCache.Load(k); ok {
		return v.(int)
	}
	at := reflect.SliceOf(reflect.ArrayOf(int(size), reflect.TypeOf(byte(0))))
	s := reflect.MakeSlice(at, oldLen, oldCap)
	r := reflect.AppendSlice(s, reflect.MakeSlice(at, add, add))
	growCache.Store(k, r.Cap())
	return r.Cap()
}

var stdSizes = types.SizesFor("gc", "amd64")

func (m *Machine) appendOp(s *Slice, y value, et types.Type) value {
	switch t := y.(type) {
	case *Seq:
		if t.fixed() && s.r == nil {
			return m.appendOp(s, m.seqToSlice(t), et)
		}
		return m.appendSeq(s, t)
	case *Slice:
		if s.r != nil || t.r != nil {
			return m.appendSeq(s, m.sliceSeq(t))
		}
		if len(t.e) == 0 {
			if s.nilp {
				return s
			}
			return &Slice{e: s.e}
		}
		n := len(s.e) + len(t.e)
		if n <= cap(s.e) {
			r := s.e[:n]
			for i := range t.e {
				r[len(s.e)+i] = copyVal(t.e[i])
			}
			return &Slice{e: r}
		}
		sz := int64(8)
		if et != nil {
			sz = safeSizeof(et)
		}
		nc := growCap(cap(s.e), len(s.e), len(t.e), sz)
		if nc < n {
			nc = n
		}
		r := make([]value, n, nc)
		copy(r, s.e)
		for i := range t.e {
			r[len(s.e)+i] = copyVal(t.e[i])
		}
		full := r[:nc]
		m.logAlloc([]value(full))
		if et != nil {
			for i := n; i < nc; i++ {
				full[i] = m.zero(et)
			}
		}
		return &Slice{e: r}
	}
	unsupported("append %T", y)
	return nil
}

func safeSizeof(t types.Type) (n int64) {
	defer func() {
		if recover() != nil {
			n = 8
		}
	}()
	return stdSizes.Sizeof(t)
}

func (m *Machine) appendSeq(s *Slice, q *Seq) value {
	base := m.sliceSeq(s)
	if len(q.p) == 0 {
		return s
	}
	r := concat(base, q)
	return m.seqToSlice(r)
}

func (m *Machine) copyOp(dst *Slice, src value) value {
	c := m.tc
	if d, ok := src.(*Slice); ok && dst.r == nil && d.r == nil {
		n := min(len(dst.e), len(d.e))
		tmp := make([]value, n)
		for i := 0; i < n; i++ {
			tmp[i] = copyVal(d.e[i])
		}
		for i := 0; i < n; i++ {
			m.logCell(&dst.e[i])
			assign(&dst.e[i], tmp[i])
		}
		return c.BV(64, uint64(n))
	}
	var q *Seq
	switch s := src.(type) {
	case *Slice:
		q = m.sliceSeq(s)
	case *Seq:
		q = s
	}
	n := m.copySeq(dst, q)
	return n
}

// copySeq copies min(len(dst), len(q)) bytes into dst.
func (m *Machine) copySeq(dst *Slice, q *Seq) *Term {
	c := m.tc
	dl := m.lenOf(dst)
	ql := m.seqLen(q)
	var n *Term
	if m.branch(c.Ule(ql, dl)) {
		n = ql
	} else {
		n = dl
		q, _ = m.splitAt(q, dl)
	}
	if dst.r == nil {
		q = m.expand(q)
		bs := m.seqBytes(q)
		for i := range bs {
			m.logCell(&dst.e[i])
			dst.e[i] = bs[i]
		}
		return c.BV(64, uint64(len(bs)))
	}
	m.logBad(dst.r)
	a, rest := m.splitAt(dst.r.seq, dst.ro)
	_, rest = m.splitAt(rest, n)
	dst.r.seq = concat(a, q, rest)
	return n
}
