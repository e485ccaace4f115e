package main

import (
	"fmt"
	"os"
	"strconv"
	"strings"
	"time"
)

func dbg() {
	debugEngine = true
	e, _ := loadEngine("/verif", "/repo", "z3-new")
	v := newVocab(e)
	p, _ := strconv.Atoi(os.Args[2])
	b := buildScen(v, p, false)
	for _, s := range b.out {
		if strings.HasPrefix(s.Name, os.Args[3]) {
			fmt.Println(s.Name, s.Harness, s.Dialect, s.Args, s.Texts)
			w := newWorker(e)
			dbgPaths = true
			st := e.explore([]*Worker{w}, []*Scenario{s}, time.Now().Add(60*time.Second), func(f *found) bool { fmt.Println("CAND", f.cand.kind, f.cand.label, f.conc.Texts); return false }, nil)
			fmt.Println(st.Paths, st.VerdictSat, st.Unsup, st.Reach)
		}
	}
}

var dbgPaths bool
