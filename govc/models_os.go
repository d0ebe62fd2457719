package main

import (
	"go/types"
	"path/filepath"
	"regexp"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Files: a harness names its files with verif.Path; contents live in Machine.fileSys.  Writing never fails.

const virtualDir = "/virtual/"

func (m *Machine) fileErr(op, path, why string) iface {
	e := &lazyErr{msg: litSeq(op + " " + path + ": " + why)}
	return iface{t: types.NewPointer(m.w.typ("errors", "errorString")), v: m.newPtr(e)}
}

// wrBuf is a bufio.Writer.
type wrBuf struct {
	dst iface
	buf *Seq
}

func cleanPath(p string) string {
	if strings.HasPrefix(p, virtualDir) {
		return p
	}
	return ""
}

func init() {
	reg("verif.Path", func(m *Machine, fn *ssa.Function, a []value) value {
		return litSeq(virtualDir + m.concreteStr(a[0], "file name"))
	})
	readFile := func(m *Machine, fn *ssa.Function, a []value) value {
		p := m.concreteStr(a[0], "file name")
		s, ok := m.fileSys[p]
		if !ok {
			return tuple{&Slice{}, m.fileErr("open", p, "no such file or directory")}
		}
		return tuple{m.seqToSlice(s), m.nilErr()}
	}
	reg("os.ReadFile", readFile)
	reg("io/ioutil.ReadFile", readFile)
	writeFile := func(m *Machine, fn *ssa.Function, a []value) value {
		p := m.concreteStr(a[0], "file name")
		if cleanPath(p) == "" {
			return m.fileErr("open", p, "no such file or directory")
		}
		m.logBad(&m.fileSys)
		m.fileSys[p] = m.sliceSeq(a[1].(*Slice))
		return m.nilErr()
	}
	reg("os.WriteFile", writeFile)
	reg("io/ioutil.WriteFile", writeFile)
	reg("os.Open", func(m *Machine, fn *ssa.Function, a []value) value {
		p := m.concreteStr(a[0], "file name")
		s, ok := m.fileSys[p]
		if !ok {
			return tuple{(*value)(nil), m.fileErr("open", p, "no such file or directory")}
		}
		return tuple{m.newPtr(&fileModel{name: p, rd: s}), m.nilErr()}
	})
	reg("os.Create", func(m *Machine, fn *ssa.Function, a []value) value {
		p := m.concreteStr(a[0], "file name")
		if cleanPath(p) == "" {
			return tuple{(*value)(nil), m.fileErr("open", p, "no such file or directory")}
		}
		if m.memo["sealed:"+filepath.Dir(p)] != nil {
			return tuple{(*value)(nil), m.fileErr("open", p, "permission denied")}
		}
		m.logBad(&m.fileSys)
		m.fileSys[p] = emptySeq
		return tuple{m.newPtr(&fileModel{name: p, wr: true}), m.nilErr()}
	})
	mkdir := func(m *Machine, fn *ssa.Function, a []value) value {
		p := m.concreteStr(a[0], "directory name")
		if perm := a[1].(*Term); perm.op == OConst && perm.k&0300 != 0300 {
			// nobody but root can make files in it
			m.memo["sealed:"+strings.TrimSuffix(p, "/")] = true
		}
		return m.nilErr()
	}
	reg("os.MkdirAll", mkdir)
	reg("os.Mkdir", mkdir)
	reg("(*os.File).Close", func(m *Machine, fn *ssa.Function, a []value) value {
		f := slot[*fileModel](m, a[0])
		if f.closed {
			return m.fileErr("close", f.name, "file already closed")
		}
		f.closed = true
		return m.nilErr()
	})
	reg("(*os.File).Sync", func(m *Machine, fn *ssa.Function, a []value) value { return m.nilErr() })
	reg("(*os.File).Name", func(m *Machine, fn *ssa.Function, a []value) value {
		return litSeq(slot[*fileModel](m, a[0]).name)
	})
	reg("(*os.File).Write", func(m *Machine, fn *ssa.Function, a []value) value {
		s := m.sliceSeq(a[1].(*Slice))
		err := slot[*fileModel](m, a[0]).write(m, s)
		if err.t != nil {
			return tuple{m.tc.BV(64, 0), err}
		}
		return tuple{m.seqLen(s), m.nilErr()}
	})
	reg("(*os.File).WriteString", func(m *Machine, fn *ssa.Function, a []value) value {
		s := a[1].(*Seq)
		err := slot[*fileModel](m, a[0]).write(m, s)
		if err.t != nil {
			return tuple{m.tc.BV(64, 0), err}
		}
		return tuple{m.seqLen(s), m.nilErr()}
	})
	reg("(*os.File).Read", func(m *Machine, fn *ssa.Function, a []value) value {
		f := slot[*fileModel](m, a[0])
		dst := a[1].(*Slice)
		if f.rd == nil || f.closed {
			unsupported("read of a file not open for reading")
		}
		if m.branch(m.tc.Eq(m.lenOf(dst), m.tc.BV(64, 0))) {
			return tuple{m.tc.BV(64, 0), m.nilErr()}
		}
		if m.isEmpty(f.rd) {
			return tuple{m.tc.BV(64, 0), m.eof()}
		}
		return tuple{m.readInto(dst, &f.rd), m.nilErr()}
	})

	// --- bufio.Writer ---
	newW := func(m *Machine, fn *ssa.Function, a []value) value {
		return m.newPtr(&wrBuf{dst: a[0].(iface), buf: emptySeq})
	}
	reg("bufio.NewWriter", newW)
	reg("bufio.NewWriterSize", newW)
	const W = "(*bufio.Writer)."
	add := func(m *Machine, p value, s *Seq) {
		b := slot[*wrBuf](m, p)
		m.logBad(b)
		b.buf = concat(b.buf, s)
	}
	reg(W+"Write", func(m *Machine, fn *ssa.Function, a []value) value {
		s := m.sliceSeq(a[1].(*Slice))
		add(m, a[0], s)
		return tuple{m.seqLen(s), m.nilErr()}
	})
	reg(W+"WriteString", func(m *Machine, fn *ssa.Function, a []value) value {
		s := a[1].(*Seq)
		add(m, a[0], s)
		return tuple{m.seqLen(s), m.nilErr()}
	})
	reg(W+"WriteByte", func(m *Machine, fn *ssa.Function, a []value) value {
		add(m, a[0], m.seqOfBytes([]*Term{a[1].(*Term)}))
		return m.nilErr()
	})
	reg(W+"WriteRune", func(m *Machine, fn *ssa.Function, a []value) value {
		r := a[1].(*Term)
		if r.op != OConst {
			unsupported("symbolic WriteRune")
		}
		s := string(rune(int32(uint32(r.k))))
		add(m, a[0], litSeq(s))
		return tuple{m.tc.BV(64, uint64(len(s))), m.nilErr()}
	})
	reg(W+"Flush", func(m *Machine, fn *ssa.Function, a []value) value {
		b := slot[*wrBuf](m, a[0])
		m.logBad(b)
		s := b.buf
		b.buf = emptySeq
		if len(s.p) == 0 {
			return m.nilErr()
		}
		return m.writeTo(b.dst, s)
	})

	// --- encoding/csv: the real code runs, except for this scan ---
	reg("(*encoding/csv.Writer).fieldNeedsQuotes", func(m *Machine, fn *ssa.Function, a []value) value {
		st := slot[structure](m, a[0])
		comma := st[0].(*Term)
		if comma.op != OConst {
			return notHandled
		}
		s := a[1].(*Seq)
		if m.isEmpty(s) {
			return m.tc.ff
		}
		if s.p[0].k != pDec && m.branch(m.seqEq(s, litSeq(`\.`))) {
			return m.tc.tt
		}
		re, err := compileRe(`[\n\r"]|` + regexp.QuoteMeta(string(rune(comma.k))))
		if err != nil {
			unsupported("csv delimiter")
		}
		toks := m.toToks(s)
		if m.reFind(re, &toks, 0) != nil {
			return m.tc.tt
		}
		// unicode.IsSpace of the first rune
		sp, _ := compileRe("^[\\t\\n\\v\\f\\r \u0085\u00a0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]")
		toks = m.toToks(s)
		return m.tc.Bool(m.reFind(sp, &toks, 0) != nil)
	})
}

func (f *fileModel) write(m *Machine, s *Seq) iface {
	if !f.wr {
		return iface{} // stdout, stderr
	}
	if f.closed {
		return m.fileErr("write", f.name, "file already closed")
	}
	m.logBad(f)
	m.fileSys[f.name] = concat(m.fileSys[f.name], s)
	return iface{}
}
