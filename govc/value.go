package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Values of the symbolic interpreter.
//
//	bool, ints           *Term
//	floats               float64
//	strings              *Seq
//	pointers             *value (nil pointer: (*value)(nil)), *symPtr, *ropePtr
//	structs              structure
//	arrays               array
//	slices               *Slice (nil slice: Slice with nilp)
//	maps                 *Map ((*Map)(nil) for nil)
//	interfaces           iface
//	funcs                *ssa.Function, *closure, *ssa.Builtin, *nativeFn
//	channels             *Chan
//	tuples               tuple
//	modelled std objects model structs (stored in slots)
type value interface{}

type structure []value
type array []value
type tuple []value

type iface struct {
	t types.Type
	v value
}

type closure struct {
	fn  *ssa.Function
	env []value
}

type nativeFn struct {
	name string
	fn   func(m *Machine, args []value) value
}

// Arr is the backing store of a concrete-length slice.
type Slice struct {
	nilp    bool
	e       []value // the slice window with its capacity (host slice shares backing)
	r       *RObj   // symbolic-length byte slice
	ro, rn  *Term
}

// RObj is a byte buffer of symbolic length.
type RObj struct {
	seq *Seq
}

type symPtr struct { // pointer to element of concrete-length storage at a symbolic index
	e   []value
	idx *Term // BV64, known in range
}
type ropePtr struct {
	o   *RObj
	idx *Term
}

type mapEntry struct {
	k, v value
}
type Map struct {
	ents []mapEntry
	t    *types.Map
	idx  map[string]int // concrete key -> entry
	sym  bool           // has entries with symbolic keys
}

type Chan struct {
	buf    []value
	cap    int
	closed bool
	recvq  int
	sendq  []*sendWait
}
type sendWait struct {
	v    value
	done bool
}

type mapIter struct {
	m    *Map
	ents []mapEntry
	i    int
}
type strIter struct {
	s *Seq
	i int
}

type targetPanic struct {
	v value
}

type pathEnd struct {
	kind string // "assume", "done", "unsupported", "limit", "goexit"
	msg  string
	at   bool
	why  string
}

func unsupported(format string, args ...any) {
	panic(pathEnd{kind: "unsupported", msg: fmt.Sprintf(format, args...)})
}

func copyVal(v value) value {
	switch x := v.(type) {
	case structure:
		c := make(structure, len(x))
		for i := range x {
			c[i] = copyVal(x[i])
		}
		return c
	case array:
		c := make(array, len(x))
		for i := range x {
			c[i] = copyVal(x[i])
		}
		return c
	case cloner:
		return x.clone()
	}
	return v
}

type cloner interface{ clone() value }

func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	b, ok := s.Elem().Underlying().(*types.Basic)
	return ok && (b.Kind() == types.Uint8)
}

func basicInfo(t types.Type) (w int, signed bool, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, true
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func (m *Machine) zero(t types.Type) value {
	if named, ok := types.Unalias(t).(*types.Named); ok {
		if mk := modelZero(named); mk != nil {
			return mk()
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if w, _, ok := basicInfo(u); ok {
			if w == 0 {
				return m.tc.ff
			}
			return m.tc.BV(w, 0)
		}
		switch u.Kind() {
		case types.String, types.UntypedString:
			return emptySeq
		case types.Float32, types.Float64, types.UntypedFloat:
			return float64(0)
		case types.UnsafePointer:
			return (*value)(nil)
		case types.UntypedNil:
			return nil
		}
		unsupported("zero of %v", t)
	case *types.Pointer:
		return (*value)(nil)
	case *types.Slice:
		return &Slice{nilp: true}
	case *types.Map:
		return (*Map)(nil)
	case *types.Chan:
		return (*Chan)(nil)
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Interface:
		return iface{}
	case *types.Struct:
		s := make(structure, u.NumFields())
		for i := range s {
			s[i] = m.zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		a := make(array, u.Len())
		for i := range a {
			a[i] = m.zero(u.Elem())
		}
		return a
	case *types.Tuple:
		if u.Len() == 1 {
			return m.zero(u.At(0).Type())
		}
		s := make(tuple, u.Len())
		for i := range s {
			s[i] = m.zero(u.At(i).Type())
		}
		return s
	}
	unsupported("zero of %v (%T)", t, t.Underlying())
	return nil
}

func (m *Machine) newPtr(v value) *value {
	p := new(value)
	*p = v
	m.logAlloc(p)
	return p
}

// ---- equality (returns Bool term) ----

func (m *Machine) equals(t types.Type, x, y value) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch x := x.(type) {
		case *Term:
			return m.tc.Eq(x, y.(*Term))
		case *Seq:
			return m.seqEq(x, y.(*Seq))
		case float64:
			return m.tc.Bool(x == y.(float64))
		case *value:
			return m.tc.Bool(x == y.(*value))
		case *rtypeModel:
			return m.tc.Bool(types.Identical(x.t, y.(*rtypeModel).t))
		case *FTerm:
			unsupported("symbolic float comparison")
		}
	case *types.Pointer, *types.Chan, *types.Map:
		return m.tc.Bool(m.ptrEq(x, y))
	case *types.Interface:
		return m.ifaceEq(x.(iface), y.(iface))
	case *types.Struct:
		xs, ok1 := x.(structure)
		ys, ok2 := y.(structure)
		if !ok1 || !ok2 {
			unsupported("comparison of modelled %v", t)
		}
		r := m.tc.tt
		for i := 0; i < u.NumFields(); i++ {
			r = m.tc.And(r, m.equals(u.Field(i).Type(), xs[i], ys[i]))
		}
		return r
	case *types.Array:
		xs, ys := x.(array), y.(array)
		r := m.tc.tt
		for i := range xs {
			r = m.tc.And(r, m.equals(u.Elem(), xs[i], ys[i]))
		}
		return r
	case *types.Slice:
		// only comparison with nil is legal
		xs, ys := x.(*Slice), y.(*Slice)
		return m.tc.Bool(xs.nilp && ys.nilp)
	case *types.Signature:
		return m.tc.Bool(isNilFunc(x) && isNilFunc(y))
	}
	unsupported("comparison of %v (%T,%T)", t, x, y)
	return nil
}

func (m *Machine) ptrEq(x, y value) bool {
	switch a := x.(type) {
	case *value:
		b, ok := y.(*value)
		return ok && a == b
	case *Map:
		return a == y.(*Map)
	case *Chan:
		return a == y.(*Chan)
	case *ropePtr:
		b, ok := y.(*ropePtr)
		if !ok {
			return false
		}
		return a.o == b.o && a.idx == b.idx
	case *symPtr:
		if b, ok := y.(*value); ok && b == nil {
			return false
		}
	}
	unsupported("pointer comparison %T %T", x, y)
	return false
}

func isNilFunc(x value) bool {
	switch f := x.(type) {
	case *ssa.Function:
		return f == nil
	case *closure:
		return f == nil
	case *nativeFn:
		return f == nil
	case *ssa.Builtin:
		return f == nil
	case nil:
		return true
	}
	return false
}

func (m *Machine) ifaceEq(x, y iface) *Term {
	if x.t == nil || y.t == nil {
		return m.tc.Bool(x.t == nil && y.t == nil)
	}
	if !types.Identical(x.t, y.t) {
		return m.tc.ff
	}
	if !types.Comparable(x.t) {
		m.rtPanic("runtime error: comparing uncomparable type " + x.t.String())
	}
	return m.equals(x.t, x.v, y.v)
}
