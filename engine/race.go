package main

import "strings"

// monitor watches the memory shared by the threads of sym.Parallel. The
// threads run one after the other; memory that a thread did not allocate
// itself is shared. A write to shared memory without a lock, or an unlocked
// read of a cell that is also written under a lock, is reported and replayed
// natively with several goroutines under the race detector.
type monitor struct {
	wl, rl int // held locks
	sync   int // inside a modelled synchronisation operation
	rd     map[any]string
	wr     map[any]bool
	seen   map[string]bool
}

type cellKey struct {
	a *Agg
	i int
}

func (in *Interp) monWrite(k any) {
	m := in.mon
	if m.sync > 0 || in.spec {
		return
	}
	if m.wl > 0 {
		m.wr[k] = true
		return
	}
	in.race("write to shared memory without a lock" + in.here())
}

// monUse reports the use of memory the thread has given away.
func (in *Interp) monUse(a *Agg) {
	if a.ep == gone && in.mon.sync == 0 && !in.spec {
		in.race("use of memory given to another thread" + in.here())
	}
}

func (in *Interp) monRead(k any) {
	m := in.mon
	if m.sync > 0 || m.wl > 0 || m.rl > 0 || in.spec {
		return
	}
	if _, ok := m.rd[k]; !ok {
		h := in.here()
		if strings.HasPrefix(h, " < sync.") {
			return // guarded by an atomic flag
		}
		m.rd[k] = h
	}
}

func (in *Interp) race(what string) {
	if in.mon.seen[what] {
		return
	}
	in.mon.seen[what] = true
	if in.onRace != nil {
		// one report for each place
		l := "race"
		if f := strings.Split(what, " < "); len(f) > 1 {
			l += " " + f[1]
		}
		in.onRace(l, what)
	}
}

func (in *Interp) lock(w, r int) {
	if in.mon != nil {
		in.mon.wl += w
		in.mon.rl += r
	}
}

// claim makes the objects behind a received value the thread's own.
func (in *Interp) claim(v V, ep uint32) {
	switch x := v.o.(type) {
	case *Agg:
		in.claimAgg(x, ep)
	case AV:
		in.claimAgg(x.a, ep)
	}
}

func (in *Interp) claimAgg(a *Agg, ep uint32) {
	if a.ep == ep {
		return
	}
	e, old := append([]V(nil), a.e...), a.ep
	in.trail = append(in.trail, trailEnt{undo: func() { copy(a.e, e); a.ep = old }})
	a.ep = ep
	for _, v := range a.e {
		if av, ok := v.o.(AV); ok {
			in.claimAgg(av.a, ep)
		}
	}
}

const (
	nobody = ^uint32(0) - iota // reachable from shared memory
	gone                       // given away through a channel
)

// publish makes everything the thread owns behind a value shared memory.
func (in *Interp) publish(v V, ep uint32) {
	switch x := v.o.(type) {
	case *Agg:
		in.publishAgg(x, ep)
	case AV:
		in.publishAgg(x.a, ep)
	case *Slice:
		if x != nil {
			in.publishAgg(x.a, ep)
		}
	case Iface:
		in.publish(x.v, ep)
	case *Iface:
		if x != nil {
			in.publish(x.v, ep)
		}
	case *Map:
		if x == nil || x.ep != in.ep || x.shared {
			return
		}
		x.shared = true
		in.trail = append(in.trail, trailEnt{undo: func() { x.shared = false }})
		for _, e := range x.ents {
			in.publish(e.k, ep)
			in.publish(e.v, ep)
		}
	case *Func:
		if x != nil {
			for _, e := range x.env {
				in.publish(e, ep)
			}
		}
	}
}

func (in *Interp) publishAgg(a *Agg, ep uint32) {
	if a == nil || a.ep != in.ep {
		return
	}
	in.trail = append(in.trail, trailEnt{undo: func() { a.ep = in.ep }})
	a.ep = ep
	for _, e := range a.e {
		in.publish(e, ep)
	}
}

// parallel runs the function once for each of two threads.
func (in *Interp) parallel(fr *frame, f V) {
	if in.mon != nil {
		in.abort("nested sym.Parallel")
	}
	in.mon = &monitor{rd: map[any]string{}, wr: map[any]bool{}, seen: map[string]bool{}}
	for i := 0; i < 2; i++ {
		in.ep++
		in.mon.wl, in.mon.rl = 0, 0
		in.callFuncVal(fr, f, []V{cint(i)})
	}
	for k, where := range in.mon.rd {
		if in.mon.wr[k] {
			in.race("read without the lock it is written with" + where)
		}
	}
	in.mon = nil
}

// sent gives up the ownership of a value that is sent to a channel.
func (in *Interp) sent(v V) V {
	if in.mon != nil {
		in.publish(v, gone)
	}
	return v
}

// synced marks the modelled synchronisation operations.
func synced() {
	for n, f := range intrinsics {
		if !strings.HasPrefix(n, "sync/atomic.") && !strings.HasPrefix(n, "internal/runtime/atomic.") && !strings.HasPrefix(n, "(*sync/atomic.") && !strings.HasPrefix(n, "(*sync.Map)") {
			continue
		}
		f := f
		intrinsics[n] = func(in *Interp, fr *frame, a []V) (V, bool) {
			if in.mon == nil {
				return f(in, fr, a)
			}
			m := in.mon
			m.sync++
			defer func() { m.sync-- }()
			return f(in, fr, a)
		}
	}
}
