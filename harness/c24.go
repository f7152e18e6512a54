package zharness

import (
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/core"
	"github.com/levilutz/basiccoin/pkg/disksyncmap"
	"github.com/levilutz/basiccoin/pkg/syncmap"
	"github.com/levilutz/basiccoin/pkg/syncqueue"
)

// op: one operation with the result that was observed; model runs it on the specification and says whether it could have given that result
type op[S any] struct {
	run  func()
	spec func(S) (S, bool)
}

// race runs the programs concurrently under every schedule within the bounds and then looks for an order of all
// operations, respecting each program's own, that explains every result
func race[S any](start S, progs [][]op[S], after []op[S], msg string) {
	done := make([]bool, len(progs))
	zverif.Explore(true)
	for i := range progs {
		i := i
		go func() {
			for _, o := range progs[i] {
				o.run()
			}
			done[i] = true
		}()
	}
	zverif.Quiesce()
	zverif.Explore(false)
	zverif.Settle()
	for i := range done {
		ok(done[i], "an operation does not come back")
	}
	for _, o := range after {
		o.run()
	}
	ok(explain(start, progs, after), msg)
}

func explain[S any](s S, progs [][]op[S], after []op[S]) bool {
	left := false
	for i := range progs {
		if len(progs[i]) == 0 {
			continue
		}
		left = true
		t, can := progs[i][0].spec(s)
		if !can {
			continue
		}
		rest := append([][]op[S]{}, progs...)
		rest[i] = progs[i][1:]
		if explain(t, rest, after) {
			return true
		}
	}
	if left {
		return false
	}
	for _, o := range after {
		t, can := o.spec(s)
		if !can {
			return false
		}
		s = t
	}
	return true
}

type fifo struct {
	l      []uint64
	closed bool
}

func push(q *syncqueue.SyncQueue[uint64], vs ...uint64) op[fifo] {
	return op[fifo]{func() { q.Push(vs...) }, func(s fifo) (fifo, bool) {
		if s.closed {
			return s, true
		}
		return fifo{append(append([]uint64{}, s.l...), vs...), false}, true
	}}
}

func popOp(q *syncqueue.SyncQueue[uint64], peek bool) op[fifo] {
	var v uint64
	var has bool
	return op[fifo]{func() {
		if peek {
			v, has = q.Peek()
		} else {
			v, has = q.Pop()
		}
	}, func(s fifo) (fifo, bool) {
		if s.closed || len(s.l) == 0 {
			return s, !has
		}
		if !has || v != s.l[0] {
			return s, false
		}
		if peek {
			return s, true
		}
		return fifo{s.l[1:], false}, true
	}}
}

func sizeOp(q *syncqueue.SyncQueue[uint64]) op[fifo] {
	var n int
	return op[fifo]{func() { n = q.Size() }, func(s fifo) (fifo, bool) { return s, s.closed && n == 0 || !s.closed && n == len(s.l) }}
}

func closeOp(q *syncqueue.SyncQueue[uint64]) op[fifo] {
	return op[fifo]{func() { q.Close() }, func(s fifo) (fifo, bool) { return fifo{nil, true}, true }}
}

func closedOp(q *syncqueue.SyncQueue[uint64]) op[fifo] {
	var c bool
	return op[fifo]{func() { c = q.Closed() }, func(s fifo) (fifo, bool) { return s, c == s.closed }}
}

// Concurrent operations on a shared queue have the results of some order of them.
// bounds: two or three goroutines of two operations each: pushing one and two values, popping, peeking, sizing, closing; a queue that holds 0..1 values; every different values; up to 4 (thorough 6) preemptions at any memory access or lock operation, every order in which goroutines are resumed
// reach: end
// cfg: paths=200000 preempt=4 budget=300
// cfg-thorough: paths=2000000 preempt=6 budget=1500
func C24_queue() {
	var vs []uint64
	for i := 0; i < 5; i++ {
		vs = append(vs, zverif.U64("v"+sprint(i)))
		for j := 0; j < i; j++ {
			zverif.Assume(vs[i] != vs[j])
		}
	}
	var init []uint64
	if zverif.Bool("held") {
		init = append(init, vs[0])
	}
	q := syncqueue.NewSyncQueue[uint64](init...)
	var progs [][]op[fifo]
	switch zverif.Choice("programs", 6) {
	case 0:
		progs = [][]op[fifo]{{push(q, vs[1]), push(q, vs[2], vs[3])}, {push(q, vs[4]), popOp(q, false)}}
	case 1:
		progs = [][]op[fifo]{{popOp(q, false), popOp(q, false)}, {popOp(q, false), push(q, vs[4])}}
	case 2:
		progs = [][]op[fifo]{{popOp(q, true), popOp(q, false)}, {push(q, vs[1]), sizeOp(q)}}
	case 3:
		progs = [][]op[fifo]{{closeOp(q), sizeOp(q)}, {push(q, vs[1]), popOp(q, false)}}
	case 4:
		progs = [][]op[fifo]{{closeOp(q)}, {popOp(q, true), closedOp(q)}, {push(q, vs[1], vs[2])}}
	case 5:
		progs = [][]op[fifo]{{push(q, vs[1])}, {push(q, vs[2])}, {popOp(q, false)}}
	}
	race(fifo{init, false}, progs, []op[fifo]{sizeOp(q), closedOp(q), popOp(q, false), popOp(q, false), popOp(q, false), popOp(q, false), popOp(q, false)},
		"no order of the operations explains what a shared queue returned")
	zverif.Reach("end")
}

type pairs []struct{ k, v core.HashT }

func (p pairs) get(k core.HashT) (core.HashT, bool) {
	for i := len(p) - 1; i >= 0; i-- {
		if p[i].k == k {
			return p[i].v, true
		}
	}
	return core.HashT{}, false
}

type mapper interface {
	Has(core.HashT) bool
	Get(core.HashT) core.HashT
	Store(core.HashT, core.HashT)
}

func storeOp(m mapper, k, v core.HashT) op[pairs] {
	return op[pairs]{func() { m.Store(k, v) }, func(p pairs) (pairs, bool) {
		return append(append(pairs{}, p...), struct{ k, v core.HashT }{k, v}), true
	}}
}

// loadOp: the value if there is one
func loadOp(m mapper, k core.HashT) op[pairs] {
	var has bool
	var v core.HashT
	return op[pairs]{func() {
		if has = m.Has(k); has {
			v = m.Get(k)
		}
	}, func(p pairs) (pairs, bool) {
		w, any := p.get(k)
		return p, has == any && v == w
	}}
}

// Concurrent operations on a shared map have the results of some order of them; a key never shows another key's value.
// bounds: two or three goroutines storing and reading two different keys, any keys and values, values of one key the same or not; up to 4 preemptions at any memory access, every order in which goroutines are resumed
// reach: end
// cfg: paths=200000 preempt=4 budget=300
func C24_map() {
	var m mapper = syncmap.NewSyncMap[core.HashT, core.HashT]()
	a, b := symHash("a"), symHash("b")
	zverif.Assume(a != b)
	v, w, x := symHash("v"), symHash("w"), symHash("x")
	start := pairs{}
	if zverif.Bool("held") {
		m.Store(a, x)
		start = pairs{{a, x}}
	}
	var progs [][]op[pairs]
	switch zverif.Choice("programs", 3) {
	case 0:
		progs = [][]op[pairs]{{storeOp(m, a, v), loadOp(m, b)}, {storeOp(m, b, w), loadOp(m, a)}}
	case 1:
		progs = [][]op[pairs]{{storeOp(m, a, v)}, {storeOp(m, a, v), storeOp(m, b, w)}, {loadOp(m, b)}}
	case 2:
		progs = [][]op[pairs]{{loadOp(m, b), storeOp(m, b, w)}, {storeOp(m, b, v)}}
	}
	race(start, progs, []op[pairs]{loadOp(m, a), loadOp(m, b)}, "no order of the operations explains what a shared map returned")
	zverif.Reach("end")
}

// The same for the map that is kept on disk, part of which was saved before, and again after it is reopened.
// bounds: as C24_map, at up to 3 (thorough 5) preemptions, one value per key (objects are stored under their hash)
// reach: end
// cfg: paths=200000 preempt=3 budget=300
// cfg-thorough: paths=2000000 preempt=5 budget=1500
func C24_disk() {
	open := func() mapper {
		return disksyncmap.NewDiskSyncMap[core.HashT, core.HashT]("save", core.NewHashTFromString)
	}
	m := open()
	a, b := symHash("a"), symHash("b")
	zverif.Assume(a != b)
	v, w := symHash("v"), symHash("w")
	start := pairs{}
	if zverif.Bool("held") {
		m.Store(a, v)
		start = pairs{{a, v}}
		if zverif.Bool("reopened") {
			m = open()
		}
	}
	var progs [][]op[pairs]
	switch zverif.Choice("programs", 3) {
	case 0:
		progs = [][]op[pairs]{{storeOp(m, a, v), loadOp(m, b)}, {storeOp(m, b, w), loadOp(m, a)}}
	case 1:
		progs = [][]op[pairs]{{loadOp(m, a), storeOp(m, b, w)}, {loadOp(m, a)}}
	case 2:
		progs = [][]op[pairs]{{loadOp(m, b), storeOp(m, b, w)}, {loadOp(m, a), loadOp(m, b)}}
	}
	race(start, progs, []op[pairs]{loadOp(m, a), loadOp(m, b)}, "no order of the operations explains what a saved map returned")
	n := open()
	for _, k := range []core.HashT{a, b} {
		ok(n.Has(k) == m.Has(k), "a saved map lost or gained a key when reopened")
		if n.Has(k) {
			ok(n.Get(k) == m.Get(k), "a saved map reads back another value")
		}
	}
	zverif.Reach("end")
}
