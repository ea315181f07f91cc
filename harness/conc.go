package main

import (
	"reflect"
	"sync"

	"github.com/qjebbs/go-sqlf/v2"
	"github.com/qjebbs/go-sqlf/v2/util"
)

// ConcSpec describes builds which run concurrently.
type ConcSpec struct {
	Builds []struct {
		N     *Node  `json:"n"`
		Style string `json:"style"`
		Query bool   `json:"query"` // with BuildQuery, gates are those of custom builders only
		// Interp has what BuildQuery gives interpolated
		Interp bool `json:"interp"`
	} `json:"builds"`
	// Sched is the order in which the builds pass their gates, empty to let
	// them run free.
	Sched  []int `json:"sched"`
	Rounds int   `json:"rounds"`
}

// built is what a build returned
type built struct {
	t    string
	args []any
	err  error
	odd  *Res // it did not return
}

// describe is called when all builds are done: what they returned belongs to
// the caller.
func (b *built) describe(w *world) *Res {
	if b.odd != nil {
		return b.odd
	}
	return w.result(b.t, b.args, b.err)
}

// buildGated builds node i of the spec in its own context, where #gate() calls
// gate.
func (w *world) buildGated(s *ConcSpec, i int, gate func()) *built {
	b := &built{}
	b.odd = safely(func() *Res {
		n := w.builder(s.Builds[i].N)
		if q, ok := n.(queryBuilder); ok && s.Builds[i].Query {
			b.t, b.args, b.err = q.BuildQuery(style(s.Builds[i].Style))
			if s.Builds[i].Interp && b.err == nil {
				b.t, b.err = util.Interpolate(b.t, b.args)
			}
			return nil
		}
		root := sqlf.NewContext(style(s.Builds[i].Style))
		ctx, err := sqlf.ContextWithFuncs(root, sqlf.FuncMap{"gate": func() { gate() }})
		must(err)
		b.t, b.err = n.BuildFragment(ctx)
		b.args = ctx.Args()
		return nil
	})
	return b
}

// alone is what build i of the spec gives in a world of its own
func (w *world) alone(s *ConcSpec, i int) *Res {
	r := w.buildGated(s, i, func() {}).describe(w)
	fill([]*Res{r})
	return r
}

func (w *world) conc(s *ConcSpec) *Res {
	w.quiet = true
	n := len(s.Builds)
	res := &Res{S: "ok", Rs: make([]*Res, n)}
	first := make([]*built, n)
	if len(s.Sched) == 0 {
		var wg sync.WaitGroup
		start := make(chan struct{})
		for i := 0; i < n; i++ {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				for r := 0; r < s.Rounds; r++ {
					b := w.buildGated(s, i, func() {})
					if r == 0 {
						first[i] = b
					}
					one := b.describe(w)
					if res.Rs[i] == nil || reflect.DeepEqual(res.Rs[i], one) {
						res.Rs[i] = one
						continue
					}
					res.Rs[i] = one
					return
				}
			}()
		}
		close(start)
		wg.Wait()
		for i, b := range first {
			if one := b.describe(w); b.odd == nil && !reflect.DeepEqual(res.Rs[i], one) {
				res.Rs[i] = one
			}
		}
		fill(res.Rs)
		return res
	}
	type thread struct {
		grant chan struct{}
		stop  chan bool // true when the thread is done
		gate  func()
		done  bool
	}
	ts := make([]*thread, n)
	for i := range ts {
		i := i
		t := &thread{grant: make(chan struct{}), stop: make(chan bool)}
		t.gate = func() {
			t.stop <- false
			<-t.grant
		}
		ts[i] = t
		go func() {
			<-t.grant
			first[i] = w.buildGated(s, i, t.gate)
			t.stop <- true
		}()
	}
	step := func(i int) {
		if ts[i].done {
			return
		}
		w.gate = ts[i].gate // only this one runs
		ts[i].grant <- struct{}{}
		ts[i].done = <-ts[i].stop
	}
	for _, i := range s.Sched {
		step(i)
	}
	for i := range ts {
		for !ts[i].done {
			step(i)
		}
	}
	w.gate = nil
	for i, b := range first {
		res.Rs[i] = b.describe(w)
	}
	fill(res.Rs)
	return res
}

func fill(rs []*Res) {
	for _, r := range rs {
		if r.Args == nil {
			r.Args = []Val{}
		}
		if r.Log == nil {
			r.Log = []Call{}
		}
	}
}
