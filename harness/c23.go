package zharness

import (
	"time"

	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/topic"
)

// published: the messages of two publishers, each a list of calls
type published struct {
	calls [2][][]uint64
}

func newPublished() *published {
	var vs []uint64
	for i := 0; i < 5; i++ {
		vs = append(vs, zverif.U64("m"+sprint(i)))
		for j := 0; j < i; j++ {
			zverif.Assume(vs[i] != vs[j])
		}
	}
	p := &published{}
	switch zverif.Choice("messages", 3) {
	case 0:
		p.calls = [2][][]uint64{{vs[0:1], vs[1:2]}, {vs[2:3]}}
	case 1:
		p.calls = [2][][]uint64{{vs[0:2]}, {vs[2:4], vs[4:5]}}
	case 2:
		p.calls = [2][][]uint64{{vs[0:3]}, {}}
	}
	return p
}

func (p *published) all(i int) (l []uint64) {
	for _, c := range p.calls[i] {
		l = append(l, c...)
	}
	return
}

// check: got holds the messages of each publisher from some call on (all of them, unless late), once, in order; what
// one call published in one piece
func (p *published) check(got []uint64, late bool, who string) {
	n := 0
	for i := range p.calls {
		all := p.all(i)
		var mine []uint64
		for _, g := range got {
			for _, a := range all {
				if g == a {
					mine = append(mine, g)
				}
			}
		}
		n += len(mine)
		ok(late || len(mine) == len(all), who+" misses a message or has one twice")
		ok(len(mine) <= len(all), who+" has a message twice")
		skip := len(all) - len(mine)
		for k := range mine {
			ok(mine[k] == all[skip+k], who+" has messages out of order or misses one between others")
		}
		at := 0
		for _, c := range p.calls[i] {
			ok(skip <= at || skip >= at+len(c), who+" has a part of what was published at once")
			at += len(c)
		}
	}
	ok(n == len(got), who+" has a message that nobody published")
}

func (p *published) publish(t *topic.Topic[uint64]) []func() {
	var fs []func()
	for i := range p.calls {
		i := i
		fs = append(fs, func() {
			for _, c := range p.calls[i] {
				t.Pub(c...)
			}
		})
	}
	return fs
}

// together runs all under schedule exploration and waits for them
func together(fs ...func()) {
	done := make([]bool, len(fs))
	zverif.Explore(true)
	for i := range fs {
		i := i
		go func() {
			fs[i]()
			done[i] = true
		}()
	}
	zverif.Quiesce()
	zverif.Explore(false)
	zverif.Settle()
	for i := range done {
		ok(done[i], "an operation on a topic does not come back")
	}
}

func popAll(s topic.Sub[uint64]) (l []uint64) {
	for v, has := s.Pop(); has; v, has = s.Pop() {
		l = append(l, v)
	}
	return
}

// Subscribers of a topic get every message published after they subscribed once and in order, whoever publishes, subscribes or closes meanwhile, and after old subscriptions are collected.
// bounds: two publishers with 1..3 messages each in 1..2 calls, every different values; a subscriber from before that reads meanwhile, one that subscribes meanwhile, one that closes meanwhile; up to 1 (thorough 2) preemptions at any memory access or lock operation, every order in which goroutines are resumed; then a collection and one more message
// reach: end
// cfg: paths=600000 preempt=1 budget=300
// cfg-thorough: paths=6000000 preempt=2 budget=1500
func C23_queues() {
	t := topic.NewTopic[uint64]()
	p := newPublished()
	early, closing := t.Sub(), t.Sub()
	var late topic.Sub[uint64]
	var got []uint64
	other := func() { late = t.Sub() }
	if zverif.Bool("close meanwhile") {
		other = func() { closing.Close() }
	}
	fs := append(p.publish(t), other)
	if zverif.Bool("read meanwhile") {
		fs = append(fs, func() {
			for i := 0; i < 2; i++ {
				if v, has := early.Pop(); has {
					got = append(got, v)
				}
			}
		})
	}
	together(fs...)
	if late == nil {
		_, has := closing.Pop()
		ok(!has && closing.Size() == 0, "a closed subscription still gives messages")
	} else {
		p.check(popAll(closing), false, "a subscriber")
		p.check(popAll(late), true, "a late subscriber")
		closing.Close()
	}
	got = append(got, popAll(early)...)
	p.check(got, false, "a subscriber that reads meanwhile")
	// collection of what is closed must not touch the rest
	last := zverif.U64("last")
	if zverif.Bool("collect") {
		time.Sleep(16 * time.Second)
		zverif.Settle()
	}
	t.Pub(last)
	l := popAll(early)
	ok(len(l) == 1 && l[0] == last, "a message is lost after another subscription closed")
	if late != nil {
		l = popAll(late)
		ok(len(l) == 1 && l[0] == last, "a message is lost after another subscription closed")
	}
	zverif.Reach("end")
}

// The same through subscription channels, one of which closes at any moment while it may have messages waiting.
// bounds: two publishers with up to 3 messages, published before or meanwhile; a subscription that is read and one that closes, at once, when its loop looks for messages, or after it took one or all; at most 1 (thorough 2) preemptions at any memory access, lock or channel operation, every order in which goroutines are resumed while messages are passed on
// reach: end
// cfg: paths=400000 preempt=1 budget=400 hang=600
// cfg-thorough: paths=3000000 preempt=2 budget=1500 hang=600
func C23_channels() {
	t := topic.NewTopic[uint64]()
	vs := []uint64{zverif.U64("m0"), zverif.U64("m1"), zverif.U64("m2")}
	zverif.Assume(vs[0] != vs[1] && vs[1] != vs[2] && vs[0] != vs[2])
	p := &published{calls: [2][][]uint64{{vs[:2]}, {vs[2:]}}}
	if zverif.Bool("one") {
		p.calls[1] = nil
	}
	keep, gone := t.SubCh(), t.SubCh()
	zverif.Settle()
	var got []uint64
	stop := make(chan bool)
	stopped, closed := false, false
	go func() {
		for {
			select {
			case v := <-keep.C:
				got = append(got, v)
			case <-stop:
				stopped = true
				return
			}
		}
	}()
	when := zverif.Choice("close", 4)
	meanwhile := zverif.Bool("publish meanwhile")
	if !meanwhile {
		for _, f := range p.publish(t) {
			f()
		}
	}
	zverif.Explore(true)
	if meanwhile {
		for _, f := range p.publish(t) {
			go f()
		}
	}
	go func() {
		switch when {
		case 1:
			time.Sleep(25 * time.Millisecond)
		case 2:
			v := <-gone.C
			ok(v == vs[0] || v == vs[2], "a subscription starts with another message than the first")
		case 3:
			n := len(p.all(0)) + len(p.all(1))
			for i := 0; i < n; i++ {
				<-gone.C
			}
			time.Sleep(25 * time.Millisecond)
		}
		gone.Close()
		closed = true
	}()
	time.Sleep(30 * time.Millisecond)
	zverif.Explore(false)
	zverif.Settle()
	ok(closed, "closing a subscription does not come back")
	p.check(got, false, "a subscriber by channel")
	last := zverif.U64("last")
	t.Pub(last)
	zverif.Settle()
	ok(len(got) > 0 && got[len(got)-1] == last, "a message is lost after another subscription closed")
	stop <- true
	keep.Close()
	zverif.Settle()
	ok(stopped, "the reader did not end")
	t.Pub(last) // nobody is left
	zverif.Reach("end")
}

// Subscribing at the same moment, closing and collection of the closed ones leave every other subscriber complete.
// bounds: three concurrent operations: two subscriptions, and a third one, a publication, a close or (when it is due anyway) the collection; before them 0..2 older subscriptions of which one may be closed and collected; up to 2 (thorough 3) preemptions at any memory access or lock operation, every order in which goroutines are resumed; two messages after that
// reach: end
// cfg: paths=400000 preempt=2 budget=250
// cfg-thorough: paths=4000000 preempt=3 budget=800
func C23_subscribe() {
	t := topic.NewTopic[uint64]()
	var subs []topic.Sub[uint64]
	for i, n := 0, zverif.Choice("older", 3); i < n; i++ {
		subs = append(subs, t.Sub())
	}
	if len(subs) > 0 && zverif.Bool("collected") {
		subs[0].Close()
		subs = subs[1:]
		time.Sleep(16 * time.Second)
		zverif.Settle()
	}
	first, last := zverif.U64("first"), zverif.U64("last")
	zverif.Assume(first != last)
	var now [3]topic.Sub[uint64]
	fs := []func(){func() { now[0] = t.Sub() }, func() { now[1] = t.Sub() }}
	published := false
	switch zverif.Choice("third", 3) {
	case 0:
		fs = append(fs, func() { now[2] = t.Sub() })
	case 1:
		published = true
		fs = append(fs, func() { t.Pub(first) })
	case 2:
		if len(subs) > 0 {
			gone := subs[0]
			subs = subs[1:]
			fs = append(fs, func() { gone.Close() })
		}
	}
	together(fs...)
	if !published {
		t.Pub(first)
	}
	t.Pub(last)
	for _, s := range subs {
		l := popAll(s)
		ok(len(l) == 2 && l[0] == first && l[1] == last, "an older subscriber loses or repeats messages when others subscribe")
	}
	for _, s := range now {
		if s == nil {
			continue
		}
		l := popAll(s)
		ok(len(l) > 0 && l[len(l)-1] == last, "one of several simultaneous subscribers receives nothing")
		ok(len(l) == 1 && published || len(l) == 2 && l[0] == first, "one of several simultaneous subscribers loses or repeats messages")
	}
	zverif.Reach("end")
}
