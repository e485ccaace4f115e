package main

import (
	"fmt"
	"os"
	"sort"
	"strconv"
	"time"
)

// bench times the families of a property.
func benchSB(b *SB, e *Engine, nw int, limit time.Duration) {
	fams := map[string][]*Scenario{}
	for _, s := range b.out {
		f := s.Name
		for i := range f {
			if f[i] == '/' {
				f = f[:i]
				break
			}
		}
		fams[f] = append(fams[f], s)
	}
	var names []string
	for k := range fams {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, n := range names {
		if x := os.Getenv("VERIF_FAM"); x != "" && x != n {
			continue
		}
		var ws []*Worker
		for i := 0; i < nw; i++ {
			ws = append(ws, newWorker(e))
		}
		t0 := time.Now()
		nc := 0
		st := e.explore(ws, fams[n], time.Now().Add(limit), func(f *found) bool {
			nc++
			if nc < 5 {
				fmt.Println("  CAND", f.conc.Scen, f.cand.kind, f.cand.label, f.conc.Texts)
			}
			return false
		}, nil)
		fmt.Printf("%-12s scen %d complete %d paths %d infeas %d queries %d (%.1fs) asserts %d folded %d steps %d wall %.1fs unsup %v reach %v cands %d obl %d disch %d ident %d pathcap %d timecap %d verdicts %d sat %d unk %d big %d conc %d races %d\n", n, st.Scenarios, st.Complete, st.Paths, st.Infeasible, st.Queries, st.SolverS, st.Asserts, st.Folded, st.Steps, time.Since(t0).Seconds(), st.Unsup, st.Reach, nc, st.OblPaths, st.Discharged, st.IdentPaths, st.PathCap, st.TimeCap, st.Verdicts, st.VerdictSat, st.VerdictUnk, st.VerdictBig, st.Concrete, st.Races)
		for _, w := range ws {
			w.sol.stop()
		}
	}
	_ = os.Stdout
}

func bench() {
	debugEngine = true
	e, err := loadEngine("/verif", repoDir(), "z3-new")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	v := newVocab(e)
	fmt.Println("words", len(v.words), "gram", len(v.gram[0]), len(v.gram[1]), len(v.gram[2]), "novel", v.novel, "ints", v.repoInt, "chars", len(v.chars().vals), "full", len(v.full(0).vals), len(v.full(1).vals), len(v.full(2).vals), "mid", len(v.mid(2).vals), "names", len(v.names(0).vals))
	prop, _ := strconv.Atoi(os.Args[2])
	b := buildScen(v, prop, len(os.Args) > 3)
	benchSB(b, e, 8, 300*time.Second)
}
