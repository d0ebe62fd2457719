package main

import (
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
)

// Fork profile (GOVC_FORKS=1): where paths are split.
var forkProf = os.Getenv("GOVC_FORKS") != ""
var forkMu sync.Mutex
var forks = map[string]int{}

func (m *Machine) noteFork(c *Term) {
	var pcs [12]uintptr
	n := runtime.Callers(3, pcs[:])
	fr := runtime.CallersFrames(pcs[:n])
	s := []string{}
	for {
		f, more := fr.Next()
		nm := f.Function[strings.LastIndex(f.Function, ".")+1:]
		s = append(s, fmt.Sprintf("%s:%d", nm, f.Line))
		if nm == "instr" || !more || len(s) > 6 {
			break
		}
	}
	cur := ""
	if m.cur != nil {
		cur = m.cur.fn.String()
		if p := m.curPos; p.IsValid() {
			cur += fmt.Sprintf(":%d", m.w.prog.Fset.Position(p).Line)
		}
	}
	forkMu.Lock()
	forks[cur+" "+strings.Join(s, "<")]++
	forkMu.Unlock()
}

func dumpForks() {
	var k []string
	for x := range forks {
		k = append(k, x)
	}
	sort.Slice(k, func(i, j int) bool { return forks[k[i]] > forks[k[j]] })
	for i, x := range k {
		if i >= 25 {
			break
		}
		fmt.Printf("%6d %s\n", forks[x], x)
	}
}
