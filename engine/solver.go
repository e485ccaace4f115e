package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// Solver is one incremental Z3 process.
type Solver struct {
	bin     string
	cmd     *exec.Cmd
	in      io.WriteCloser
	out     *bufio.Reader
	defs    map[string]bool
	vars    map[string]int
	queries int
	sat     int
	unsat   int
	unknown int
	dur     time.Duration
	dead    bool
	sent    chan struct{}
}

const bvWidth = 14

func newSolver(bin string) *Solver { return &Solver{bin: bin} }

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic("cannot start " + s.bin + ": " + err.Error())
	}
	s.defs = map[string]bool{}
	s.vars = map[string]int{}
	io.WriteString(s.in, "(set-option :timeout 20000)\n(set-logic QF_UFBV)\n")
}

func (s *Solver) stop() {
	if s.cmd != nil {
		s.in.Close()
		s.cmd.Process.Kill()
		s.cmd.Wait()
		s.cmd = nil
	}
}

// query checks the conjunction of the formulas; with wantModel it returns the index of every variable.
func (s *Solver) query(fs []*Form, model []*Var) (res string, asg map[int]int) {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	if s.cmd == nil {
		s.start()
	}
	var pre, sb strings.Builder
	decl := func(v *Var) {
		if _, ok := s.vars[v.name]; !ok {
			s.vars[v.name] = v.id
			fmt.Fprintf(&pre, "(declare-const %s (_ BitVec %d))\n(assert (bvult %s (_ bv%d %d)))\n", v.name, bvWidth, v.name, len(v.dom.vals), bvWidth)
		}
	}
	def := func(v *Var, b *Bits) string {
		decl(v)
		name := "s" + strconv.Itoa(b.id)
		if !s.defs[name] {
			s.defs[name] = true
			fmt.Fprintf(&pre, "(define-fun %s ((x (_ BitVec %d))) Bool (or false", name, bvWidth)
			for i := 0; i < b.n; {
				if !b.has(i) {
					i++
					continue
				}
				j := i
				for j+1 < b.n && b.has(j+1) {
					j++
				}
				if i == j {
					fmt.Fprintf(&pre, " (= x (_ bv%d %d))", i, bvWidth)
				} else {
					fmt.Fprintf(&pre, " (and (bvuge x (_ bv%d %d)) (bvule x (_ bv%d %d)))", i, bvWidth, j, bvWidth)
				}
				i = j + 1
			}
			pre.WriteString("))\n")
		}
		return "(" + name + " " + v.name + ")"
	}
	for _, f := range fs {
		sb.WriteString("(assert ")
		f.smt(&sb, def)
		sb.WriteString(")\n")
	}
	for _, v := range model {
		decl(v)
	}
	s.send(pre.String() + "(push 1)\n" + sb.String() + "(check-sat)\n")
	res = s.line()
	s.queries++
	switch res {
	case "sat":
		s.sat++
	case "unsat":
		s.unsat++
	default:
		s.unknown++
		if strings.HasPrefix(res, "(error") || res == "" {
			s.stop()
			return "unknown", nil
		}
	}
	if res == "sat" && len(model) > 0 {
		var g strings.Builder
		g.WriteString("(get-value (")
		for _, v := range model {
			g.WriteString(v.name + " ")
		}
		g.WriteString("))\n")
		io.WriteString(s.in, g.String())
		asg = map[int]int{}
		depth := 0
		var txt strings.Builder
		for {
			l := s.line()
			if l == "" {
				break
			}
			txt.WriteString(l + " ")
			depth += strings.Count(l, "(") - strings.Count(l, ")")
			if depth <= 0 {
				break
			}
		}
		fields := strings.FieldsFunc(txt.String(), func(r rune) bool { return r == '(' || r == ')' || r == ' ' })
		for i := 0; i+1 < len(fields); i += 2 {
			id := s.vars[fields[i]]
			var n int64
			if strings.HasPrefix(fields[i+1], "#x") {
				n, _ = strconv.ParseInt(fields[i+1][2:], 16, 64)
			} else if strings.HasPrefix(fields[i+1], "#b") {
				n, _ = strconv.ParseInt(fields[i+1][2:], 2, 64)
			}
			asg[id] = int(n)
		}
	}
	io.WriteString(s.in, "(pop 1)\n")
	return res, asg
}

// send writes without waiting: a solver that reports errors must not block the writer.
func (s *Solver) send(text string) {
	in := s.in
	s.sent = make(chan struct{})
	go func(done chan struct{}) {
		io.WriteString(in, text)
		close(done)
	}(s.sent)
}

func (s *Solver) line() string {
	l, err := s.out.ReadString('\n')
	if err == nil && s.sent != nil && !strings.HasPrefix(l, "(error") {
		<-s.sent
		s.sent = nil
	}
	if err != nil {
		return ""
	}
	return strings.TrimSpace(l)
}
