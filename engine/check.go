package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// check decides one property: explore symbolically, replay every counterexample on the real code.
type confirmed struct {
	f    *found
	res  *nativeRes
	what string
}

type checker struct {
	prop     int
	id       string
	nat      *Native
	race     *Native
	e        *Engine
	mu       sync.Mutex
	queue    []*found
	wake     *sync.Cond
	closed   bool
	conf     []confirmed
	unconf   []map[string]any
	nUnconf  int
	nReplay  int
	nWitness int
	errs     []string
}

func envInt(k string, d int) int {
	if n, err := strconv.Atoi(os.Getenv(k)); err == nil {
		return n
	}
	return d
}

func runCheck(id string) int {
	t0 := time.Now()
	verif, repo := verifDir(), repoDir()
	tier := os.Getenv("VERIF_TIER")
	if len(os.Args) > 3 {
		tier = os.Args[3]
	}
	if tier != "thorough" {
		tier = "quick"
	}
	prop, err := strconv.Atoi(strings.TrimPrefix(id, "C"))
	if err != nil || prop < 1 || prop > 21 {
		fmt.Fprintln(os.Stderr, "unknown property", id)
		return 2
	}
	scratch, err := os.MkdirTemp("", "verif-"+id+"-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	c := &checker{prop: prop, id: id}
	c.wake = sync.NewCond(&c.mu)
	c.nat = buildNative(verif, repo, scratch, false)
	if prop == 21 {
		c.race = buildNative(verif, repo, scratch, true)
	}
	z3 := "z3-new"
	if v := os.Getenv("VERIF_Z3"); v != "" {
		z3 = v
	}
	e, err := loadEngine(verif, repo, z3)
	if err != nil {
		fmt.Fprintln(os.Stderr, "cannot load the repository:", err)
		return 2
	}
	c.e = e
	v := newVocab(e)
	b := buildScen(v, prop, tier == "thorough")
	var ws []*Worker
	nw := runtime.NumCPU()
	if nw > 16 {
		nw = 16
	}
	for i := 0; i < nw; i++ {
		w := newWorker(e)
		w.witness = true
		ws = append(ws, w)
	}
	limit := 420 * time.Second
	if tier == "thorough" {
		limit = 45 * time.Minute
	}
	if s := envInt("VERIF_LIMIT", 0); s > 0 {
		limit = time.Duration(s) * time.Second
	}
	tLoad := time.Since(t0)
	done := make(chan struct{})
	go c.confirmer(done)
	wits := make(chan *found, 20000)
	var witWG sync.WaitGroup
	for i := 0; i < 3; i++ {
		witWG.Add(1)
		go func() { defer witWG.Done(); c.witnesses(wits) }()
	}
	spread(b.out)
	t1 := time.Now()
	e.watchMemory()
	// a solver that neither answers nor times out must not hang the check
	dog := time.AfterFunc(limit+60*time.Second, func() {
		e.halt.Store(true)
		for i := 0; i < 20; i++ {
			for _, w := range ws {
				if c := w.sol.cmd; c != nil && c.Process != nil {
					c.Process.Kill()
				}
			}
			time.Sleep(time.Second)
		}
	})
	st := e.explore(ws, b.out, t1.Add(limit), func(f *found) bool {
		c.mu.Lock()
		defer c.mu.Unlock()
		if len(c.queue) < 5000 {
			c.queue = append(c.queue, f)
			c.wake.Signal()
		}
		return len(c.conf) > 0
	}, func(f *found) {
		select {
		case wits <- f:
		default:
		}
	})
	dog.Stop()
	close(wits)
	tExp := time.Since(t1)
	witDone := make(chan struct{})
	go func() { witWG.Wait(); close(witDone) }()
	select {
	case <-witDone:
	case <-time.After(90 * time.Second):
	}
	c.mu.Lock()
	c.closed = true
	c.wake.Signal()
	c.mu.Unlock()
	select {
	case <-done:
	case <-time.After(240 * time.Second):
	}
	for _, w := range ws {
		w.sol.stop()
	}
	if c.nat != nil {
		go func() { c.nat.mu.Lock(); c.nat.stop(); c.nat.mu.Unlock() }()
	}
	known := knownFindings(verif, c)
	for _, k := range known {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, k)
	}
	c.mu.Lock()
	conf := append([]confirmed{}, c.conf...)
	c.mu.Unlock()
	code := 0
	if len(conf) > 0 {
		dir := filepath.Join(verif, "replays")
		os.MkdirAll(dir, 0o755)
		p := filepath.Join(dir, id+".json")
		x := conf[0]
		texts := []string{}
		for _, t := range x.f.conc.Texts {
			sep := " "
			if x.f.conc.Mode != 0 {
				sep = ""
			}
			texts = append(texts, strings.Join(t, sep))
		}
		x.f.conc.Prop = id
		out, _ := json.MarshalIndent(map[string]any{"property": id, "what": x.what, "label": x.f.cand.label, "dialect": dialectNames[x.f.conc.Dialect], "texts": texts,
			"native": x.res, "run": x.f.conc, "how": "bash /verif/replay.sh " + p}, "", " ")
		os.WriteFile(p, append(out, '\n'), 0o644)
		fmt.Printf("%s: %s\n  dialect %s, texts %q\n", id, x.what, dialectNames[x.f.conc.Dialect], texts)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, p)
		code = 1
	}
	c.evidence(verif, tier, b, st, len(conf), time.Since(t0), tLoad, tExp, nw, v)
	fmt.Printf("%s %s: %d scenarios, %d complete, %d paths, %d queries, %d verdicts, %d candidates unconfirmed, %.1f s\n", id, tier, st.Scenarios, st.Complete, st.Paths, st.Queries, st.Verdicts, c.nUnconf, time.Since(t0).Seconds())
	return code
}

// spread leaves the families in their order but starts every family early: the first scenarios of
// each family come first, so that a run that is cut short has seen something of everything.
func spread(ss []*Scenario) {
	fam := func(s *Scenario) string { return s.Name[:strings.IndexByte(s.Name+"/", '/')] }
	rank := map[*Scenario]int{}
	cnt := map[string]int{}
	for _, s := range ss {
		f := fam(s)
		rank[s] = cnt[f]
		cnt[f]++
	}
	// position of a scenario inside its family, relative to the family's size
	sort.SliceStable(ss, func(i, j int) bool {
		return rank[ss[i]]*1000/cnt[fam(ss[i])] < rank[ss[j]]*1000/cnt[fam(ss[j])]
	})
}

// confirmer replays candidates natively as they come.
func (c *checker) confirmer(done chan struct{}) {
	defer close(done)
	for {
		c.mu.Lock()
		for len(c.queue) == 0 && !c.closed {
			c.wake.Wait()
		}
		if len(c.queue) == 0 || len(c.conf) > 0 {
			c.mu.Unlock()
			return
		}
		// counterexamples before witnesses
		k := 0
		for i, f := range c.queue {
			if f.cand.kind != "witness" && f.cand.kind != "unsupported" {
				k = i
				break
			}
		}
		f := c.queue[k]
		c.queue = append(c.queue[:k:k], c.queue[k+1:]...)
		c.mu.Unlock()
		res, what := c.confirm(f)
		c.mu.Lock()
		if what != "" {
			c.conf = append(c.conf, confirmed{f, res, what})
			c.e.halt.Store(true)
		} else if f.cand.kind != "witness" && f.cand.kind != "unsupported" {
			c.nUnconf++
			if len(c.unconf) < 5 {
				c.unconf = append(c.unconf, map[string]any{"label": f.cand.label, "kind": f.cand.kind, "run": f.conc})
			}
		}
		c.mu.Unlock()
	}
}

// witnesses runs one text per path on the real code: the same assertions must hold there. What fails
// goes to the confirmer like a counterexample.
func (c *checker) witnesses(q chan *found) {
	<-c.nat.ready
	if c.nat.err != nil {
		for range q {
		}
		return
	}
	n := &Native{ready: c.nat.ready, bin: c.nat.bin}
	defer func() { n.mu.Lock(); n.stop(); n.mu.Unlock() }()
	bad := 0
	for f := range q {
		if c.e.halt.Load() || bad > 20 {
			continue
		}
		res, err := n.run(f.conc)
		c.mu.Lock()
		c.nWitness++
		if err == nil && (res.Crash != "" || (len(res.Failed) > 0 && !res.Skipped)) {
			bad++
			c.queue = append(c.queue, f)
			c.wake.Signal()
		}
		c.mu.Unlock()
	}
}

// confirm returns what fails natively, "" if nothing does.
func (c *checker) confirm(f *found) (*nativeRes, string) {
	nat := c.nat
	if c.race != nil && f.cand.kind == "assert" {
		nat = c.race
	}
	c.mu.Lock()
	if f.cand.kind == "witness" {
		c.nWitness++
	} else {
		c.nReplay++
	}
	c.mu.Unlock()
	res, err := nat.runFresh(f.conc)
	if err != nil && nat == c.race {
		c.note("race build: " + err.Error())
		nat = c.nat
		res, err = nat.runFresh(f.conc)
	}
	if err != nil {
		c.note("replay: " + err.Error())
		return nil, ""
	}
	if res.Crash != "" {
		if c.prop == 21 && strings.Contains(res.Crash, "DATA RACE") {
			return res, "data race between two concurrent calls"
		}
		if c.crashCounts(f, nat) {
			return res, "the call did not return: " + res.Crash
		}
		return res, ""
	}
	if len(res.Failed) > 0 && !res.Skipped {
		return res, res.Failed[0]
	}
	return res, ""
}

func (c *checker) note(s string) {
	if len(c.errs) < 5 {
		if len(s) > 600 {
			s = s[:600]
		}
		c.errs = append(c.errs, s)
	}
}

// crashCounts: does a call that does not return break this property? C01 and C02 always; for the
// properties about accepted (or rejected) texts when the specification says which one the text is;
// for two texts that must
// give the same when one of them returns; for the other relations when no text crashes on its own.
func (c *checker) crashCounts(f *found, nat *Native) bool {
	if c.prop <= 2 {
		return true
	}
	if f.conc.Harness == "Main" {
		q := *f.conc
		q.Harness = "Judge"
		res, err := c.nat.run(&q)
		if err != nil || res.Crash != "" || len(res.Failed) == 0 {
			return false
		}
		switch res.Failed[0] {
		case "accepted":
			return c.prop != 3 && c.prop != 4
		case "rejected":
			switch c.prop {
			case 3, 4, 9, 10, 14, 15, 16, 20:
				return true
			}
		}
		return false
	}
	if f.conc.Harness == "Pair" || f.conc.Harness == "Layout" {
		// the texts are equal but for what must not matter: one of them returns
		for _, t := range f.conc.Texts {
			if res, err := c.nat.run(&Concrete{Harness: "Main", Mode: f.conc.Mode, Dialect: f.conc.Dialect, Args: []int{1}, Texts: [][]string{t}}); err == nil && res.Crash == "" {
				return true
			}
		}
		return false
	}
	for i, t := range f.conc.Texts {
		ds := []int{f.conc.Dialect}
		if f.conc.Harness == "Entry" {
			ds = []int{0, 1, 2}
		}
		if (f.conc.Harness == "History" && i+1 < len(f.conc.Texts)) || (f.conc.Harness == "Conc" && i == 1) {
			k := i + 1
			if f.conc.Harness == "Conc" {
				k = 1
			}
			if k < len(f.conc.Args) {
				ds = []int{f.conc.Args[k]}
			}
		}
		for _, d := range ds {
			res, err := c.nat.run(&Concrete{Harness: "Main", Mode: f.conc.Mode, Dialect: d, Args: []int{1}, Texts: [][]string{t}})
			if err != nil || res.Crash != "" {
				return false
			}
		}
	}
	return true
}

type knownFinding struct {
	Property string    `json:"property"`
	Status   string    `json:"status"`
	What     string    `json:"what"`
	Run      *Concrete `json:"run"`
}

// knownFindings: the recorded defects of this property that still fail on the real code.
func knownFindings(verif string, c *checker) []string {
	b, err := os.ReadFile(filepath.Join(verif, "known-findings.json"))
	if err != nil {
		return nil
	}
	var l []knownFinding
	if json.Unmarshal(b, &l) != nil {
		return nil
	}
	var out []string
	for _, k := range l {
		if k.Property != c.id || k.Status != "known" || k.Run == nil {
			continue
		}
		if res, err := c.nat.run(k.Run); err == nil && (res.Crash != "" || len(res.Failed) > 0) {
			out = append(out, k.What)
		}
	}
	return out
}

func (c *checker) evidence(verif, tier string, b *SB, st *Stats, viol int, wall, load, exp time.Duration, nw int, v *Vocab) {
	fams := map[string]int{}
	for k, n := range b.fam {
		fams[k] = n
	}
	var samples []any
	for i := 0; i < len(b.out) && len(samples) < 8; i += len(b.out)/8 + 1 {
		s := b.out[i]
		m := map[string]any{"scenario": s.Name, "harness": s.Harness, "dialect": dialectNames[s.Dialect]}
		var vs []string
		for _, d := range s.Vars {
			vs = append(vs, fmt.Sprintf("%s (%d values)", d.name, len(d.vals)))
		}
		m["symbolic"] = vs
		var ts []string
		for _, t := range s.Texts {
			x := ""
			for _, p := range t {
				if p.Var > 0 {
					x += fmt.Sprintf("‹%d›", p.Var-1)
				} else {
					x += p.S
				}
				if s.Mode == 0 {
					x += " "
				}
			}
			if len(x) > 300 {
				x = x[:300] + "…"
			}
			ts = append(ts, x)
		}
		m["texts"] = ts
		samples = append(samples, m)
	}
	inc := []string{}
	for k := range st.Incomplete {
		inc = append(inc, k)
	}
	sort.Strings(inc)
	if len(inc) > 20 {
		inc = inc[:20]
	}
	space := "0"
	{
		t := 0.0
		for _, s := range b.out {
			p := 1.0
			for _, d := range s.Vars {
				p *= float64(len(d.vals))
			}
			t += p
		}
		space = fmt.Sprintf("%.4g", t)
	}
	seen := map[string]bool{}
	var bounds []string
	for _, x := range b.bounds {
		if !seen[x] {
			seen[x] = true
			bounds = append(bounds, x)
		}
	}
	cov := map[string]any{
		"explanation": "Symbolic execution of the repository's SSA (regenerated from the working tree on this run) with one Z3 process per worker; each scenario is a text with symbolic tokens or characters. " +
			"Branches on symbolic values are decided by feasibility queries; per scenario one verdict query (negated disjunction of path condition and assertions over all paths) is unsat when every value of the symbolic inputs is covered and satisfies the assertions. Candidates are replayed on the natively compiled code before they are reported.",
		"samples":                   samples,
		"functions_encoded":         st.Fns,
		"functions_encoded_n":       len(st.Fns),
		"bounds":                    bounds,
		"input_values_covered":      space,
		"scenarios":                 st.Scenarios,
		"scenarios_complete":        st.Complete,
		"families":                  fams,
		"paths":                     st.Paths,
		"solver_queries":            st.Queries,
		"solver_sat":                st.Sat,
		"solver_unsat":              st.Unsat,
		"solver_unknown":            st.Unknown,
		"solver_seconds":            round(st.SolverS),
		"feasibility_cache_hits":    st.CacheHits,
		"feasibility_by_set":        st.SetHits,
		"verdict_queries_unsat":     st.Verdicts,
		"verdict_queries_sat":       st.VerdictSat,
		"verdict_queries_unknown":   st.VerdictUnk,
		"verdict_too_many_paths":    st.VerdictBig,
		"scenarios_without_symbols": st.Concrete,
		"assertions":                st.Asserts,
		"assertions_identities":     st.Folded,
		"paths_discharged_by_query": st.Discharged,
		"race_queries":              st.Races,
		"reach":                     st.Reach,
		"unsupported":               st.Unsup,
		"truncated_merges":          st.Trunc,
		"cut_by_path_limit":         st.PathCap,
		"cut_by_time":               st.TimeCap,
		"incomplete":                inc,
		"branches":                  st.Branches,
		"steps":                     st.Steps,
		"workers":                   nw,
		"load_s":                    round(load.Seconds()),
		"explore_s":                 round(exp.Seconds()),
		"vocabulary_words":          len(v.words),
		"replayed_candidates":       c.nReplay,
		"unconfirmed_candidates":    c.nUnconf,
		"unconfirmed_samples":       c.unconf,
		"witnesses_replayed":        c.nWitness,
		"notes":                     c.errs,
	}
	ev := map[string]any{
		"property": c.id, "tier": tier, "seed": envInt("VERIF_SEED", 1), "level": levelOf, "coverage": cov, "wall_s": round(wall.Seconds()), "violations": viol,
		"assumptions": []string{
			"the harness specification (harness/spec) states the supported grammar and the expected tables",
			"standard-library functions are modelled by the engine's native functions or by their own SSA; the models are exercised by replaying path witnesses natively",
			"inputs outside the stated scenarios, vocabularies and lengths are outside the claim",
		},
	}
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	out, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(verif, "evidence", c.id+".json"), append(out, '\n'), 0o644)
}

const levelOf = "other"

func round(f float64) float64 { return float64(int(f*100)) / 100 }

// replayFile runs a recorded counterexample natively; exit 1 if it still fails.
func replayFile(p string) int {
	b, err := os.ReadFile(p)
	var r struct {
		Property string    `json:"property"`
		Run      *Concrete `json:"run"`
	}
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	scratch, err := os.MkdirTemp("", "verif-replay-")
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	defer os.RemoveAll(scratch)
	n := buildNative(verifDir(), repoDir(), scratch, r.Property == "C21")
	res, err := n.run(r.Run)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	n.stop()
	out, _ := json.Marshal(res)
	fmt.Println(string(out))
	if res.Crash != "" || len(res.Failed) > 0 {
		return 1
	}
	return 0
}

func verifDir() string {
	if v := os.Getenv("VERIF_DIR"); v != "" {
		return v
	}
	return "/verif"
}

func repoDir() string {
	if v := os.Getenv("REPO_DIR"); v != "" {
		return v
	}
	return "/repo"
}
