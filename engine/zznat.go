package main

// Natives of the harness API (package zz).
func (e *Engine) registerZZ() {
	N := e.natives
	zz := harnessP + "/zz."
	N[zz+"Text"] = func(w *Worker, a []V) V {
		cs, _ := a[1].o.([]Cell)
		var ps []V
		for i := range cs {
			ps = append(ps, cs[i].v)
		}
		if a[0].n == 0 {
			return w.tokRope(ps)
		}
		return w.mkRope(ps...)
	}
	N[zz+"Toks"] = func(w *Worker, a []V) V {
		if r, ok := a[0].o.(*Rope); ok && r.toks != nil {
			return V{o: tuple{w.cells(r.toks), vBool(true)}}
		}
		return V{o: tuple{V{}, vBool(false)}}
	}
	N[zz+"Symbolic"] = func(w *Worker, a []V) V { return vBool(true) }
	N[zz+"Assert"] = func(w *Worker, a []V) V {
		l, _ := conc(a[1])
		w.assert(w.form(a[0]), l)
		return V{}
	}
	N[zz+"Assume"] = func(w *Worker, a []V) V {
		f := w.simp(w.form(a[0]))
		if w.scope != nil {
			w.abortScope("assume")
		}
		if f == w.fp.T {
			return V{}
		}
		w.excl = append(w.excl, pathRec{append(w.pc(), w.not(f)), nil})
		if f == w.fp.F || !w.feasible(f) || !w.assume(f) {
			w.endPath("assumption")
		}
		return V{}
	}
	N[zz+"Reach"] = func(w *Worker, a []V) V {
		l, _ := conc(a[0])
		w.reach[dialectNames[w.dialect]+": "+l]++
		return V{}
	}
	N[zz+"Fresh"] = func(w *Worker, a []V) V {
		if w.scope != nil {
			w.abortScope("fresh")
		}
		w.rollback()
		return V{}
	}
	N[zz+"Mark"] = func(w *Worker, a []V) V {
		if w.scope != nil {
			w.abortScope("mark")
		}
		w.epoch++
		w.callFloor = w.epoch
		w.trackShared = true
		w.shared = nil
		w.syncWrites = 0
		w.second = false
		return V{}
	}
	N[zz+"Second"] = func(w *Worker, a []V) V { w.second = true; return V{} }
	N[zz+"Writes"] = func(w *Worker, a []V) V {
		n := w.syncWrites
		for _, s := range w.shared {
			if s.write {
				n++
			}
		}
		return vInt(int64(n))
	}
	// Unsynced: number of writes to memory that outlives the call made without holding a lock
	N[zz+"Unsynced"] = func(w *Worker, a []V) V { return vInt(int64(w.raceQuery())) }
	N[zz+"EndMark"] = func(w *Worker, a []V) V {
		w.trackShared = false
		w.callFloor = 0
		return V{}
	}
}

func (w *Worker) rollback() {
	for i := len(w.undo) - 1; i >= 0; i-- {
		w.undo[i]()
	}
	w.undo = w.undo[:0]
	w.dirty = false
}
