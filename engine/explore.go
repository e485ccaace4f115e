package main

import (
	"fmt"
	"reflect"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Piece is one part of an input text: a fixed text or a symbolic variable.
type Piece struct {
	S   string
	Var int // 0: fixed; k: the scenario's k-th variable (1-based)
}

// Scenario is one harness run: a function, a dialect, a mode and texts with holes.
type Scenario struct {
	Name    string
	Harness string
	Mode    int // 0 = token list, 1 = characters
	Dialect int
	Args    []int
	Texts   [][]Piece
	Vars    []*Domain
	MaxPath int
	Weight  int
	Huge    bool // long texts: higher step and recursion bounds
}

func fixed(ss ...string) []Piece {
	var out []Piece
	for _, s := range ss {
		out = append(out, Piece{S: s})
	}
	return out
}

// Concrete instantiates the scenario with an assignment.
type Concrete struct {
	Harness string     `json:"harness"`
	Mode    int        `json:"mode"`
	Dialect int        `json:"dialect"`
	Args    []int      `json:"args"`
	Texts   [][]string `json:"texts"`
	Label   string     `json:"label,omitempty"`
	Kind    string     `json:"kind,omitempty"`
	Scen    string     `json:"scenario,omitempty"`
	Prop    string     `json:"property,omitempty"`
}

func (s *Scenario) concrete(asg map[int]int) *Concrete {
	c := &Concrete{Harness: s.Harness, Mode: s.Mode, Dialect: s.Dialect, Args: s.Args, Scen: s.Name}
	if c.Args == nil {
		c.Args = []int{}
	}
	for _, t := range s.Texts {
		ps := []string{}
		for _, p := range t {
			if p.Var == 0 {
				ps = append(ps, p.S)
			} else if d := s.Vars[p.Var-1]; d.ph != nil && s.Mode == 0 {
				ps = append(ps, d.ph[asg[p.Var-1]]...)
			} else {
				ps = append(ps, d.vals[asg[p.Var-1]])
			}
		}
		c.Texts = append(c.Texts, ps)
	}
	return c
}

// Stats of an exploration.
type Stats struct {
	Scenarios  int
	Complete   int
	Paths      int64
	Infeasible int64
	Queries    int
	Sat        int
	Unsat      int
	Unknown    int
	CacheHits  int
	SetHits    int
	Asserts    int
	Folded     int
	SolverS    float64
	Unsup      map[string]int
	Trunc      int
	PathCap    int
	TimeCap    int
	Reach      map[string]int
	Fns        []string
	Hooked     int
	Branches   int
	Steps      int64
	Discharged int
	OblPaths   int
	IdentPaths int
	Incomplete map[string]bool
	Verdicts   int
	VerdictSat int
	VerdictUnk int
	VerdictBig int
	Concrete   int
	Races      int
	Witness    int
}

type job struct {
	sc  int
	dec []byte
}

type found struct {
	sc   int
	cand cand
	conc *Concrete
}

// explore runs all paths of all scenarios on the worker pool. onCand is called (serialised) for
// every counterexample candidate; returning true stops the exploration.
func (e *Engine) explore(ws []*Worker, scens []*Scenario, deadline time.Time, onCand func(f *found) bool, onWit func(f *found)) *Stats {
	st := &Stats{Unsup: map[string]int{}, Reach: map[string]int{}, Incomplete: map[string]bool{}, Scenarios: len(scens)}
	var mu sync.Mutex
	cond := sync.NewCond(&mu)
	queue := []job{}
	next := 0
	active := 0
	stop := false
	perPath := make([]int, len(scens))
	perOpen := make([]int, len(scens))
	capped := make([]bool, len(scens))
	wit := make([]atomic.Bool, len(scens))
	witEvery := len(scens)/250 + 1
	recs := make([][]pathRec, len(scens))
	norec := make([]bool, len(scens))
	var paths, infeas int64
	seenCand := map[string]int{}

	take := func() (job, bool) {
		mu.Lock()
		defer mu.Unlock()
		for {
			if stop {
				return job{}, false
			}
			if time.Now().After(deadline) || e.halt.Load() {
				stop = true
				cond.Broadcast()
				return job{}, false
			}
			// new scenarios first: breadth before the depth of a single one
			if n := len(queue); n > 0 && (next >= len(scens) || n > 4) {
				j := queue[n-1]
				queue = queue[:n-1]
				active++
				return j, true
			}
			if next < len(scens) {
				j := job{next, nil}
				perOpen[next] = 1
				next++
				active++
				return j, true
			}
			if active == 0 {
				cond.Broadcast()
				return job{}, false
			}
			cond.Wait()
		}
	}
	var wg sync.WaitGroup
	for _, w := range ws {
		wg.Add(1)
		go func(w *Worker) {
			defer wg.Done()
			for {
				j, ok := take()
				if !ok {
					return
				}
				// a worker follows one subtree locally for a while to keep its tables warm
				local := []job{j}
				n := 0
				for len(local) > 0 {
					k := local[len(local)-1]
					local = local[:len(local)-1]
					sc := scens[k.sc]
					mu.Lock()
					max := sc.MaxPath
					if max == 0 {
						max = 4000
					}
					over := perPath[k.sc] >= max || stop
					if !over {
						perPath[k.sc]++
					} else if !capped[k.sc] {
						capped[k.sc] = true
					}
					mu.Unlock()
					if over {
						mu.Lock()
						perOpen[k.sc]--
						mu.Unlock()
						continue
					}
					every := onWit != nil && sc.Harness != "History" && sc.Harness != "Conc"
					w.wantWit = w.witness && !every && k.sc%witEvery == 0 && !wit[k.sc].Load()
					end := w.runPath(e, sc, k.dec)
					if w.wantWit && end == "ok" {
						wit[k.sc].Store(true)
					}
					if every && end == "ok" && w.witness {
						var last map[int]int
						for i := 0; i < 3; i++ {
							asg := w.pick(i)
							if asg == nil || reflect.DeepEqual(asg, last) {
								break
							}
							onWit(&found{k.sc, cand{label: "path witness", kind: "witness", asg: asg}, sc.concrete(asg)})
							last = asg
						}
					}
					atomic.AddInt64(&paths, 1)
					if end == "infeasible" {
						atomic.AddInt64(&infeas, 1)
					}
					mu.Lock()
					if dbgPaths {
						fmt.Print("PATH ", end, " dec ", w.dec)
						for i, d := range w.doms {
							fmt.Print(" v", i, ":", d.cnt, "/", d.n)
							if d.cnt < 6 {
								d.each(func(k int) bool { fmt.Printf(" %q", w.vars[i].dom.vals[k]); return true })
							}
						}
						fmt.Println(" resid", len(w.resid))
					}
					if strings.HasPrefix(end, "unsupported: ") {
						st.Unsup[end[13:]]++
						st.Incomplete[sc.Name] = true
					}
					if end == "case split limit" {
						st.Unsup[end]++
						st.Incomplete[sc.Name] = true
					}
					perOpen[k.sc] += len(w.pending) - 1
					for _, c := range w.cands {
						if c.kind != "witness" {
							norec[k.sc] = true
						}
					}
					if !norec[k.sc] {
						recs[k.sc] = append(recs[k.sc], w.excl...)
						switch end {
						case "ok":
							recs[k.sc] = append(recs[k.sc], pathRec{w.pc(), w.and(w.obl...)})
						case "assumption", "infeasible":
						default:
							norec[k.sc] = true
						}
						if len(recs[k.sc]) > maxVerdict {
							norec[k.sc] = true
							st.VerdictBig++
						}
						if norec[k.sc] {
							recs[k.sc] = nil
						}
					}
					var vrecs []pathRec
					if perOpen[k.sc] == 0 && !norec[k.sc] && !capped[k.sc] {
						vrecs = recs[k.sc]
						recs[k.sc] = nil
					}
					for _, c := range w.cands {
						key := fmt.Sprint(k.sc, c.label, c.kind)
						if seenCand[key] >= 3 || stop {
							continue
						}
						seenCand[key]++
						f := &found{k.sc, c, sc.concrete(c.asg)}
						f.conc.Label, f.conc.Kind = c.label, c.kind
						if onCand(f) {
							stop = true
							cond.Broadcast()
						}
					}
					for _, d := range w.pending {
						local = append(local, job{k.sc, d})
					}
					n++
					// share work
					if (len(queue) < 2*len(ws) && len(local) > 1) || (n > 200 && len(local) > 0) {
						h := len(local) / 2
						if n > 200 {
							h = len(local)
						}
						queue = append(queue, local[:h]...)
						local = append([]job{}, local[h:]...)
						cond.Broadcast()
					}
					if time.Now().After(deadline) || e.halt.Load() {
						stop = true
						cond.Broadcast()
					}
					mu.Unlock()
					if vrecs != nil {
						if len(sc.Vars) == 0 {
							mu.Lock()
							st.Concrete++
							mu.Unlock()
						} else {
							r := w.sol.verdict(sc.Vars, vrecs)
							mu.Lock()
							switch r {
							case "unsat":
								st.Verdicts++
							case "sat":
								st.VerdictSat++
								st.Incomplete[sc.Name] = true
							default:
								st.VerdictUnk++
							}
							mu.Unlock()
						}
					}
				}
				mu.Lock()
				active--
				if active == 0 {
					cond.Broadcast()
				}
				mu.Unlock()
			}
		}(w)
	}
	wg.Wait()
	st.Paths, st.Infeasible = paths, infeas
	for i, s := range scens {
		done := perPath[i] > 0 && perOpen[i] <= 0 && !capped[i]
		if i >= next {
			done = false
		}
		if capped[i] {
			st.PathCap++
		}
		if !done {
			st.Incomplete[s.Name] = true
			if !capped[i] {
				st.TimeCap++
			}
		}
		if done && !st.Incomplete[s.Name] {
			st.Complete++
		}
	}
	for _, w := range ws {
		st.Queries += w.sol.queries
		st.Sat += w.sol.sat
		st.Unsat += w.sol.unsat
		st.Unknown += w.sol.unknown
		st.SolverS += w.sol.dur.Seconds()
		st.CacheHits += w.cacheHits
		st.SetHits += w.setHits
		st.Asserts += w.asserts
		st.Folded += w.folded
		st.Trunc += w.truncated
		st.Hooked += w.hooked
		st.Discharged += w.discharged
		st.OblPaths += w.oblPaths
		st.IdentPaths += w.identPaths
		st.Races += w.races
		st.Branches += w.branches
		st.Steps += w.allSteps
		for k, v := range w.reach {
			st.Reach[k] += v
		}
	}
	st.Fns = usedRepoFns(ws)
	return st
}

// runPath executes one path of a scenario, forced along dec; alternatives go to w.pending.
func (w *Worker) runPath(e *Engine, sc *Scenario, dec []byte) (end string) {
	w.maxStep, w.maxDep = 4000000, 6000
	if sc.Huge {
		w.maxStep, w.maxDep = 400000000, 300000
	}
	w.rollback()
	w.vars, w.doms, w.resid = w.vars[:0], w.doms[:0], nil
	w.dec = append([]byte{}, dec...)
	w.pos = 0
	w.pending = nil
	w.cands = nil
	w.steps, w.depth = 0, 0
	w.epoch, w.floor, w.callFloor = 1, 0, 0
	w.scope, w.inMemo = nil, 0
	w.locks, w.shared, w.recoverStack = nil, nil, nil
	w.trackShared, w.initing = false, false
	w.curFn = nil
	w.obl = w.obl[:0]
	w.dialect = sc.Dialect
	w.excl, w.second = nil, false
	w.syncWrites = 0
	if len(w.memo) > 60000 {
		w.memo = map[string]*memoEnt{}
	}
	if len(w.feasMemo) > 400000 {
		w.feasMemo = map[string]byte{}
	}
	if lv := e.memLevel.Load(); len(w.fp.m) > 1500000 || w.tabSize > 6<<20 || lv > 0 && time.Since(w.lastReset) > 10*time.Second {
		w.resetPools()
	}
	defer func() {
		w.allSteps += w.steps
		if r := recover(); r != nil {
			switch x := r.(type) {
			case pathEnd:
				end = x.why
			case goPanic:
				end = "panic"
				if asg, res := w.model(nil); res == "sat" {
					w.cands = append(w.cands, cand{label: "panic: " + x.msg, kind: "panic", asg: asg})
				}
			case limitHit:
				end = "limit"
				if asg, res := w.model(nil); res == "sat" {
					w.cands = append(w.cands, cand{label: "limit: " + x.what, kind: "limit", asg: asg})
				}
			case unsup:
				end = "unsupported: " + x.what + " in " + w.where()
				if w.witness {
					if asg, res := w.model(nil); res == "sat" {
						w.cands = append(w.cands, cand{label: "path with an unsupported operation", kind: "unsupported", asg: asg})
					}
				}
			case scopeAbort:
				end = "unsupported: scope abort"
			default:
				end = fmt.Sprintf("unsupported: engine: %v", r)
				if debugEngine {
					fmt.Println(end)
					debug.PrintStack()
				}
			}
		}
	}()
	f := e.pkgs[harnessP+"/h"].Func(sc.Harness)
	if f == nil {
		return "unsupported: no harness " + sc.Harness
	}
	var vs []V
	for _, d := range sc.Vars {
		v := w.newVar(d)
		vs = append(vs, V{o: &Sym{v, w.rootTab(d)}})
	}
	var texts []V
	for _, t := range sc.Texts {
		var ps []V
		for _, p := range t {
			if p.Var == 0 {
				ps = append(ps, vStr(p.S))
			} else if d := sc.Vars[p.Var-1]; d.ph != nil && sc.Mode == 0 {
				ps = append(ps, w.phrase(vs[p.Var-1].o.(*Sym), d)...)
			} else {
				ps = append(ps, vs[p.Var-1])
			}
		}
		texts = append(texts, w.cells(ps))
	}
	var args []V
	for _, a := range sc.Args {
		args = append(args, vInt(int64(a)))
	}
	w.epoch = 2
	w.exec(w.fnOf(f), []V{vInt(int64(sc.Mode)), vInt(int64(sc.Dialect)), w.cells(args), w.cells(texts)}, nil)
	w.discharge()
	if w.wantWit {
		if asg, res := w.model(nil); res == "sat" {
			w.cands = append(w.cands, cand{label: "path witness", kind: "witness", asg: asg})
		}
	}
	return "ok"
}

// pick chooses one value of every variable on a finished path, nil when relations between variables
// remain.
func (w *Worker) pick(n int) map[int]int {
	if len(w.resid) > 0 {
		return nil
	}
	asg := map[int]int{}
	h := uint32(2166136261 + 77*n)
	for _, b := range w.dec {
		h = (h ^ uint32(b)) * 16777619
	}
	for i, d := range w.doms {
		if d.cnt == 0 {
			return nil
		}
		h = h*1664525 + 1013904223
		k := int(h>>8) % d.cnt
		d.each(func(j int) bool {
			if k == 0 {
				asg[i] = j
				return false
			}
			k--
			return true
		})
	}
	return asg
}

// phrase expands a variable that ranges over token lists: the path forks on the number of tokens,
// each token is then a function of the variable.
func (w *Worker) phrase(s *Sym, d *Domain) []V {
	n := int(w.cint(V{o: &Sym{s.v, w.phTab(d, -1)}}))
	var out []V
	for j := 0; j < n; j++ {
		out = append(out, V{o: &Sym{s.v, w.phTab(d, j)}})
	}
	return out
}

func (w *Worker) phTab(d *Domain, j int) *Tab {
	k := fmt.Sprint(d.name, "#", j)
	if t, ok := w.memoAll[k]; ok {
		return t
	}
	t := w.newTab(len(d.ph), func(i int) (V, bool) {
		if j < 0 {
			return vInt(int64(len(d.ph[i]))), false
		}
		if j < len(d.ph[i]) {
			return vStr(d.ph[i][j]), false
		}
		return vStr(""), false
	})
	w.memoAll[k] = t
	return t
}

func (w *Worker) resetPools() {
	w.memo = map[string]*memoEnt{}
	w.feasMemo = map[string]byte{}
	w.prodMemo = nil
	w.fp = newFormPool()
	w.bp = newBitsPool()
	w.memoAll = map[string]*Tab{}
	w.tabSize = 0
	w.lastReset = time.Now()
	w.sol.stop()
}

// watchMemory keeps the process within the sandbox: caches are dropped above 12 GB, and paths that go on
// growing above 22 GB are given up (reported as unsupported).
func (e *Engine) watchMemory() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(10 << 30)
	go func() {
		for {
			var m runtime.MemStats
			runtime.ReadMemStats(&m)
			lv := int32(0)
			if m.HeapAlloc > 22<<30 {
				lv = 2
			} else if m.HeapAlloc > 12<<30 {
				lv = 1
			}
			e.memLevel.Store(lv)
			time.Sleep(500 * time.Millisecond)
		}
	}()
}

const maxVerdict = 1500

var debugEngine bool

func sortedKeys(m map[string]int) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = ssa.BuilderMode(0)
