package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// bufio.Scanner over lines.
type scanModel struct {
	src   iface
	rest  *Seq // nil: not read yet
	tok   *Seq
	err   iface // of the source
	final iface // reported by Err
	max   *Term
	done  bool
}

func init() {
	const S = "(*bufio.Scanner)."
	reg("bufio.NewScanner", func(m *Machine, fn *ssa.Function, a []value) value {
		m.ensureInit(m.w.pkgs["bufio"])
		return m.newPtr(&scanModel{src: a[0].(iface), tok: emptySeq, max: m.tc.BV(64, 65536)})
	})
	reg(S+"Buffer", func(m *Machine, fn *ssa.Function, a []value) value {
		s := slot[*scanModel](m, a[0])
		if b := a[1].(*Slice); len(b.e) > 0 || b.r != nil {
			unsupported("Scanner.Buffer with a buffer")
		}
		s.max = a[2].(*Term)
		return nil
	})
	reg(S+"Split", func(m *Machine, fn *ssa.Function, a []value) value {
		if f, ok := a[1].(*ssa.Function); !ok || f.String() != "bufio.ScanLines" {
			unsupported("Scanner.Split")
		}
		return nil
	})
	reg(S+"Scan", func(m *Machine, fn *ssa.Function, a []value) value {
		s := slot[*scanModel](m, a[0])
		c := m.tc
		if s.done {
			return c.ff
		}
		if s.rest == nil {
			if p := m.modelSource(s.src); p != nil {
				s.rest, *p = *p, emptySeq
			} else {
				s.rest, s.err = m.drain(s.src)
			}
		}
		stop := func(err iface) value {
			s.done, s.tok, s.rest, s.final = true, emptySeq, emptySeq, err
			return c.ff
		}
		line := func(t *Seq) value {
			if n := len(t.p); n > 0 && t.p[n-1].k == pDec {
				// ends in a digit
			} else if m.hasSuffix(t, litSeq("\r")) {
				t, _ = m.splitAt(t, c.Bin(OSub, m.seqLen(t), c.BV(64, 1)))
			}
			s.tok = t
			return c.tt
		}
		re, _ := compileRe(`\n`)
		toks := m.toToks(s.rest)
		caps := m.reFind(re, &toks, 0)
		tooLong := func() value { return stop(m.globalVal("bufio", "ErrTooLong").(iface)) }
		if caps == nil {
			if m.isEmpty(s.rest) {
				return stop(s.err)
			}
			t := s.rest
			if m.branch(c.Sle(s.max, m.seqLen(t))) {
				return tooLong()
			}
			s.rest = emptySeq
			return line(t)
		}
		t := m.fromToks(toks[:caps[0]])
		if m.branch(c.Slt(s.max, c.Bin(OAdd, m.seqLen(t), c.BV(64, 1)))) {
			return tooLong()
		}
		s.rest = m.fromToks(toks[caps[1]:])
		return line(t)
	})
	reg(S+"Text", func(m *Machine, fn *ssa.Function, a []value) value { return slot[*scanModel](m, a[0]).tok })
	reg(S+"Bytes", func(m *Machine, fn *ssa.Function, a []value) value {
		return m.seqToSlice(slot[*scanModel](m, a[0]).tok)
	})
	reg(S+"Err", func(m *Machine, fn *ssa.Function, a []value) value { return slot[*scanModel](m, a[0]).final })
}

var _ types.Type
