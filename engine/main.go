package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
	"time"
)

func main() {
	debug.SetMaxStack(8 << 30)
	if p := os.Getenv("VERIF_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
		time.AfterFunc(60*time.Second, func() {
			pprof.StopCPUProfile()
			if h, err := os.Create(p + ".heap"); err == nil {
				pprof.WriteHeapProfile(h)
				h.Close()
			}
		})
	}
	if len(os.Args) > 1 && os.Args[1] == "smoke" {
		smoke()
	} else if len(os.Args) > 2 && os.Args[1] == "check" {
		os.Exit(runCheck(os.Args[2]))
	} else if len(os.Args) > 2 && os.Args[1] == "replay" {
		os.Exit(replayFile(os.Args[2]))
	} else if len(os.Args) > 3 && os.Args[1] == "dbg" {
		dbg()
	} else if len(os.Args) > 1 && os.Args[1] == "bench" {
		bench()
	}
}

func smoke() {
	debugEngine = true
	t0 := time.Now()
	e, err := loadEngine("/verif", "/repo", "z3-new")
	if err != nil {
		fmt.Println(err)
		os.Exit(1)
	}
	fmt.Println("load", time.Since(t0))
	ws := []*Worker{newWorker(e)}
	b, _ := os.ReadFile("/tmp/devfuzz/corpus.txt")
	var scens []*Scenario
	voc := map[string]bool{}
	var lines []string
	for _, l := range strings.Split(string(b), "\n") {
		if len(l) > 3 {
			lines = append(lines, l)
			for _, t := range strings.Fields(l[2:]) {
				voc[t] = true
			}
		}
	}
	d := &Domain{name: "v"}
	for t := range voc {
		d.vals = append(d.vals, t)
	}
	for i, l := range lines {
		ts := strings.Fields(l[2:])
		if len(os.Args) > 2 {
			for k := range ts {
				ps := fixed(ts...)
				ps[k] = Piece{Var: 1}
				scens = append(scens, &Scenario{Name: fmt.Sprint(i, ".", k), Harness: "Main", Dialect: int(l[0] - '0'), Texts: [][]Piece{ps}, Vars: []*Domain{d}})
			}
		} else {
			scens = append(scens, &Scenario{Name: fmt.Sprint(i), Harness: "Main", Dialect: int(l[0] - '0'), Texts: [][]Piece{fixed(ts...)}})
			scens = append(scens, &Scenario{Name: fmt.Sprint(i, "c"), Mode: 1, Harness: "Main", Dialect: int(l[0] - '0'), Texts: [][]Piece{fixed(l[2:])}})
		}
	}
	if len(os.Args) > 2 {
		for i := 0; i < 7; i++ {
			ws = append(ws, newWorker(e))
		}
	}
	t0 = time.Now()
	st := e.explore(ws, scens, time.Now().Add(300*time.Second), func(f *found) bool {
		fmt.Println("CAND", f.conc.Scen, f.cand.kind, f.cand.label, f.conc.Texts)
		return false
	}, nil)
	fmt.Println(time.Since(t0))
	fmt.Printf("%+v\n", st)
}
