package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Cooperative scheduler: one host goroutine runs at a time (baton passing).  The interleaving is a fixed
// deterministic one; programs whose result depends on the schedule are outside its reach (assumption).
type gor struct {
	wake chan bool
	cond func() bool
	done bool
	fn   func()
	started bool
	depth int
}

type sched struct {
	m    *Machine
	gs   []*gor
	cur  *gor
	main *gor
	end  *pathEnd
	dead bool
	fin  chan bool
}

func newSched(m *Machine) *sched {
	g := &gor{wake: make(chan bool, 1), started: true}
	return &sched{m: m, gs: []*gor{g}, cur: g, main: g, fin: make(chan bool, 1)}
}

func (s *sched) spawn(fn func()) {
	s.gs = append(s.gs, &gor{wake: make(chan bool, 1), fn: fn})
}

// pick returns the next runnable goroutine after the current one.
func (s *sched) pick() *gor {
	n := len(s.gs)
	start := 0
	for i, g := range s.gs {
		if g == s.cur {
			start = i
		}
	}
	for k := 1; k <= n; k++ {
		g := s.gs[(start+k)%n]
		if g.done {
			continue
		}
		if g.cond == nil || g.cond() {
			return g
		}
	}
	return nil
}

func (s *sched) resume(g *gor) {
	s.cur.depth = s.m.depth
	s.cur = g
	s.m.depth = g.depth
	if !g.started {
		g.started = true
		go s.body(g)
		return
	}
	g.wake <- true
}

func (s *sched) body(g *gor) {
	e := s.m.guard(func() { g.fn() })
	g.done = true
	if s.dead {
		s.fin <- true
		return
	}
	if e.kind != "done" || e.msg == "panic" {
		s.end = &e
		s.resume(s.main)
		return
	}
	nx := s.pick()
	if nx == nil {
		// everything blocked
		x := pathEnd{kind: "deadlock", msg: "all goroutines are asleep"}
		s.end = &x
		s.resume(s.main)
		return
	}
	s.resume(nx)
}

// wait parks the current goroutine until cond holds.
func (s *sched) wait(cond func() bool) {
	for !cond() {
		g := s.cur
		g.cond = cond
		nx := s.pick()
		if nx == nil {
			g.cond = nil
			panic(pathEnd{kind: "deadlock", msg: "all goroutines are asleep"})
		}
		if nx == g {
			g.cond = nil
			continue
		}
		s.resume(nx)
		<-g.wake
		g.cond = nil
		if s.dead {
			panic(pathEnd{kind: "goexit", msg: ""})
		}
		if g == s.main && s.end != nil {
			e := *s.end
			if e.kind == "done" {
				e = pathEnd{kind: "done", msg: "panic"}
			}
			panic(e)
		}
	}
}

func (s *sched) killAll() {
	s.dead = true
	for _, g := range s.gs {
		if g == s.main || g.done || !g.started {
			continue
		}
		g.wake <- true
		<-s.fin
	}
}

func (s *sched) send(c *Chan, v value) {
	if c == nil {
		s.wait(func() bool { return false })
	}
	if c.closed {
		s.m.rtPanic("send on closed channel")
	}
	if c.cap > 0 {
		s.wait(func() bool { return len(c.buf) < c.cap || c.closed })
		if c.closed {
			s.m.rtPanic("send on closed channel")
		}
		c.buf = append(c.buf, v)
		return
	}
	w := &sendWait{v: v}
	c.sendq = append(c.sendq, w)
	s.wait(func() bool { return w.done || c.closed })
	if !w.done {
		s.m.rtPanic("send on closed channel")
	}
}

func (c *Chan) canRecv() bool { return len(c.buf) > 0 || len(c.sendq) > 0 || c.closed }

func (s *sched) recv(c *Chan) (value, bool) {
	if c == nil {
		s.wait(func() bool { return false })
	}
	c.recvq++
	s.wait(c.canRecv)
	c.recvq--
	return c.take()
}

func (c *Chan) take() (value, bool) {
	if len(c.buf) > 0 {
		v := c.buf[0]
		c.buf = c.buf[1:]
		return v, true
	}
	if len(c.sendq) > 0 {
		w := c.sendq[0]
		c.sendq = c.sendq[1:]
		w.done = true
		return w.v, true
	}
	return nil, false
}

func (s *sched) close(c *Chan) {
	if c == nil {
		s.m.rtPanic("close of nil channel")
	}
	if c.closed {
		s.m.rtPanic("close of closed channel")
	}
	c.closed = true
}

func (f *frame) selectStmt(x *ssa.Select) value {
	m := f.m
	s := m.sched
	chans := make([]*Chan, len(x.States))
	for i, st := range x.States {
		chans[i] = f.get(st.Chan).(*Chan)
	}
	ready := func() int {
		for i, st := range x.States {
			c := chans[i]
			if c == nil {
				continue
			}
			if st.Dir == types.RecvOnly {
				if c.canRecv() {
					return i
				}
			} else {
				if c.closed || (c.cap > 0 && len(c.buf) < c.cap) || (c.cap == 0 && c.recvq > len(c.sendq)) {
					return i
				}
			}
		}
		return -1
	}
	i := ready()
	if i < 0 && x.Blocking {
		for k, st := range x.States {
			if st.Dir == types.RecvOnly && chans[k] != nil {
				chans[k].recvq++
			}
		}
		s.wait(func() bool { return ready() >= 0 })
		for k, st := range x.States {
			if st.Dir == types.RecvOnly && chans[k] != nil {
				chans[k].recvq--
			}
		}
		i = ready()
	}
	r := tuple{m.tc.BV(64, uint64(int64(i))), m.tc.ff}
	var recvd value
	ok := false
	if i >= 0 {
		st := x.States[i]
		if st.Dir == types.RecvOnly {
			recvd, ok = chans[i].take()
			r[1] = m.tc.Bool(ok)
		} else {
			c := chans[i]
			if c.closed {
				m.rtPanic("send on closed channel")
			}
			if c.cap > 0 {
				c.buf = append(c.buf, f.get(st.Send))
			} else {
				c.sendq = append(c.sendq, &sendWait{v: f.get(st.Send)})
			}
		}
	}
	for k, st := range x.States {
		if st.Dir == types.RecvOnly {
			v := m.zero(st.Chan.Type().Underlying().(*types.Chan).Elem())
			if k == i && ok {
				v = recvd
			}
			r = append(r, v)
		}
	}
	return r
}
