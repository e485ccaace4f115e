package main

import (
	"fmt"
	"sort"
	"strings"
	"time"
)

type raceEv struct {
	cell  int
	write bool
	locks string
	ls    []raceLock
	where string
}

type raceLock struct {
	l      int
	shared bool
}

// raceQuery: two threads run the observed call (or two different calls) at the same time. The solver
// chooses one access of each thread and the time of every event: is there a schedule in which both
// accesses, at least one of them a write, touch the same memory at the same instant? Critical
// sections of one lock exclude each other unless both hold it for reading.
func (w *Worker) raceQuery() int {
	cells, locks := map[any]int{}, map[any]int{}
	two := false
	for _, s := range w.shared {
		two = two || s.second
	}
	dedup := func(second bool) []raceEv {
		seen := map[string]bool{}
		var out []raceEv
		for _, s := range w.shared {
			if two && s.second != second {
				continue
			}
			c, ok := cells[s.cell]
			if !ok {
				c = len(cells)
				cells[s.cell] = c
			}
			e := raceEv{cell: c, write: s.write, where: s.where}
			for _, l := range s.locks {
				k, ok := locks[l.c]
				if !ok {
					k = len(locks)
					locks[l.c] = k
				}
				e.ls = append(e.ls, raceLock{k, l.shared})
			}
			sort.Slice(e.ls, func(i, j int) bool { return e.ls[i].l < e.ls[j].l })
			e.locks = fmt.Sprint(e.ls)
			k := fmt.Sprint(e.cell, e.write, e.locks)
			if !seen[k] {
				seen[k] = true
				out = append(out, e)
			}
		}
		return out
	}
	a := dedup(false)
	b := a
	if two {
		b = dedup(true)
	}
	// memory that nobody writes cannot race: drop it from the encoding
	wr := map[int]bool{}
	for _, e := range append(append([]raceEv{}, a...), b...) {
		if e.write {
			wr[e.cell] = true
		}
	}
	cut := func(es []raceEv) []raceEv {
		var out []raceEv
		for _, e := range es {
			if wr[e.cell] {
				out = append(out, e)
			}
		}
		if len(out) > 60 {
			out = out[:60]
		}
		return out
	}
	a, b = cut(a), cut(b)
	key := fmt.Sprintf("%v|%v", a, b)
	if w.raceMemo == nil {
		w.raceMemo = map[string]string{}
	}
	res, ok := w.raceMemo[key]
	if !ok {
		res = w.sol.race(a, b)
		w.raceMemo[key] = res
	}
	w.races++
	if res == "sat" {
		return 1
	}
	return 0
}

func (s *Solver) race(a, b []raceEv) string {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	if s.cmd == nil {
		s.start()
	}
	var sb strings.Builder
	sb.WriteString("(push 1)\n(declare-const ra (_ BitVec 8))\n(declare-const rb (_ BitVec 8))\n(declare-const now (_ BitVec 8))\n")
	for _, side := range []struct {
		n  string
		es []raceEv
	}{{"a", a}, {"b", b}} {
		fmt.Fprintf(&sb, "(assert (bvult r%s (_ bv%d 8)))\n", side.n, len(side.es))
		for i, e := range side.es {
			for _, l := range e.ls {
				// the critical section around the access
				fmt.Fprintf(&sb, "(declare-const acq%s%d_%d (_ BitVec 8))\n(declare-const rel%s%d_%d (_ BitVec 8))\n", side.n, i, l.l, side.n, i, l.l)
				fmt.Fprintf(&sb, "(assert (and (bvult acq%s%d_%d now) (bvult now rel%s%d_%d)))\n", side.n, i, l.l, side.n, i, l.l)
			}
		}
	}
	sb.WriteString("(assert (or false")
	for i, x := range a {
		for j, y := range b {
			if x.cell != y.cell || !(x.write || y.write) {
				continue
			}
			fmt.Fprintf(&sb, "\n (and (= ra (_ bv%d 8)) (= rb (_ bv%d 8))", i, j)
			for _, l := range x.ls {
				for _, m := range y.ls {
					if l.l == m.l && !(l.shared && m.shared) {
						fmt.Fprintf(&sb, " (or (bvult rela%d_%d acqb%d_%d) (bvult relb%d_%d acqa%d_%d))", i, l.l, j, l.l, j, l.l, i, l.l)
					}
				}
			}
			sb.WriteString(")")
		}
	}
	sb.WriteString("))\n(check-sat)\n(pop 1)\n")
	s.send(sb.String())
	res := s.line()
	s.queries++
	switch res {
	case "sat":
		s.sat++
	case "unsat":
		s.unsat++
	default:
		s.unknown++
		s.stop()
	}
	return res
}
