package main

import (
	"fmt"
	"io"
	"strings"
	"time"
)

// pathRec is a finished path of a scenario: its condition and what was asserted on it.
type pathRec struct {
	pc  []*Form
	obl *Form
}

// verdict asks the solver for the whole scenario at once: is there a value of the symbolic inputs
// that no explored path covers or on whose path an assertion fails? unsat is the verdict "holds for
// every value".
func (s *Solver) verdict(vars []*Domain, recs []pathRec) string {
	t0 := time.Now()
	defer func() { s.dur += time.Since(t0) }()
	if s.cmd == nil {
		s.start()
	}
	var pre, sb strings.Builder
	for i, d := range vars {
		fmt.Fprintf(&pre, "(declare-const x%d (_ BitVec %d))\n(assert (bvult x%d (_ bv%d %d)))\n", i, bvWidth, i, len(d.vals), bvWidth)
	}
	defs := map[string]string{}
	byPtr := map[*Bits]string{}
	def := func(v *Var, b *Bits) string {
		n, ok := byPtr[b]
		if !ok {
			k := b.key()
			if n, ok = defs[k]; !ok {
				n = fmt.Sprint("q", len(defs))
				defs[k] = n
				writeSet(&pre, n, b)
			}
			byPtr[b] = n
		}
		return fmt.Sprintf("(%s x%d)", n, v.id)
	}
	sb.WriteString("(assert (not (or false")
	for _, r := range recs {
		sb.WriteString(" (and true")
		for _, f := range r.pc {
			sb.WriteByte(' ')
			f.smt(&sb, def)
		}
		if r.obl != nil {
			sb.WriteByte(' ')
			r.obl.smt(&sb, def)
		}
		sb.WriteString(")")
	}
	sb.WriteString(")))\n")
	s.send("(push 1)\n(set-option :timeout 6000)\n" + pre.String() + sb.String() + "(check-sat)\n")
	res := s.line()
	s.queries++
	switch res {
	case "sat":
		s.sat++
	case "unsat":
		s.unsat++
	default:
		s.unknown++
		if strings.HasPrefix(res, "(error") || res == "" {
			s.stop()
			return "unknown"
		}
	}
	io.WriteString(s.in, "(pop 1)\n(set-option :timeout 20000)\n")
	return res
}

func writeSet(sb *strings.Builder, name string, b *Bits) {
	fmt.Fprintf(sb, "(define-fun %s ((x (_ BitVec %d))) Bool (or false", name, bvWidth)
	for i := 0; i < b.n; {
		if !b.has(i) {
			i++
			continue
		}
		j := i
		for j+1 < b.n && b.has(j+1) {
			j++
		}
		if i == j {
			fmt.Fprintf(sb, " (= x (_ bv%d %d))", i, bvWidth)
		} else {
			fmt.Fprintf(sb, " (and (bvuge x (_ bv%d %d)) (bvule x (_ bv%d %d)))", i, bvWidth, j, bvWidth)
		}
		i = j + 1
	}
	sb.WriteString("))\n")
}
