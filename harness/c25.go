package zharness

import (
	"github.com/levilutz/basiccoin/internal/zverif"
	"github.com/levilutz/basiccoin/pkg/queue"
	"github.com/levilutz/basiccoin/pkg/set"
	"github.com/levilutz/basiccoin/pkg/util"
)

// symList: a list of symbolic bytes with spare capacity holding sentinels, and a private copy of all of it
func symList(name string, maxLen, maxSpare int) (ls, whole []byte) {
	n, spare := zverif.Int(name+" len", 0, maxLen), zverif.Int(name+" spare", 0, maxSpare)
	full := zverif.Bytes(name, n+spare)
	whole = make([]byte, n+spare)
	copy(whole, full)
	return full[: n : n+spare], whole
}

func sameAs(a, b []byte) bool {
	r := len(a) == len(b)
	if r {
		for i := range a {
			r = zverif.And(r, a[i] == b[i])
		}
	}
	return r
}

// Prepending puts the new items in front, one after the other, keeps the rest, and leaves the given list and its storage alone.
// bounds: lists of 0..3 (5 thorough) arbitrary elements with 0..2 spare slots, 0..2 items
// reach: end
func C25_prepend() {
	ls, whole := symList("ls", zverif.Tier(3, 5), 2)
	items := zverif.Bytes("items", zverif.Int("nitems", 0, 2))
	got := util.Prepend(ls, items...)
	want := []byte{}
	for i := len(items) - 1; i >= 0; i-- {
		want = append(want, items[i])
	}
	want = append(want, whole[:len(ls)]...)
	ok(sameAs(got, want), "prepending does not give the items in front of the list")
	ok(sameAs(ls[:cap(ls)], whole), "prepending changed the list passed in or its storage")
	// two owners of one list prepend different things
	a := util.Prepend(ls, 1)
	b := util.Prepend(ls, 2)
	ok(a[0] == 1, "prepending to a shared list changed another result")
	ok(b[0] == 2, "prepending to a shared list gives a wrong head")
	ok(sameAs(a[1:], whole[:len(ls)]), "prepending to a shared list changed another result")
	ok(sameAs(b[1:], whole[:len(ls)]), "prepending to a shared list loses elements")
	zverif.Reach("end")
}

// Reversing and copying lists: right contents, the list passed in unchanged, no shared storage.
// bounds: lists of 0..4 (6 thorough) arbitrary elements with 0..2 spare slots
// reach: end
func C25_lists() {
	ls, whole := symList("ls", zverif.Tier(4, 6), 2)
	r := util.Reverse(ls)
	ok(len(r) == len(ls), "a reversed list has another length")
	for i := range r {
		ok(r[i] == whole[len(ls)-1-i], "a reversed list has the wrong elements")
	}
	c := util.CopyList(ls)
	ok(sameAs(c, whole[:len(ls)]), "a copied list differs")
	ok(sameAs(ls[:cap(ls)], whole), "reversing or copying changed the list passed in")
	for i := range c {
		c[i] ^= 0xff
		r[i] ^= 0xff
	}
	_ = append(c, 1)
	_ = append(r, 1)
	ok(sameAs(ls[:cap(ls)], whole), "a copied or reversed list shares storage with its source")
	zverif.Reach("end")
}

// Flattening a list of lists keeps every element in order and leaves the lists alone.
// bounds: up to 3 lists of 0..2 arbitrary elements with 0..1 spare slots
// reach: end
func C25_flatten() {
	n := zverif.Int("lists", 0, 3)
	var in [][]byte
	var wholes [][]byte
	want := []byte{}
	for i := 0; i < n; i++ {
		l, w := symList("l"+sprint(i), 2, 1)
		in = append(in, l)
		wholes = append(wholes, w)
		want = append(want, w[:len(l)]...)
	}
	got := util.FlattenLists(in)
	ok(sameAs(got, want), "flattening lists loses, adds or reorders elements")
	for i := range got {
		got[i] ^= 0xff
	}
	_ = append(got, 1)
	for i := range in {
		ok(sameAs(in[i][:cap(in[i])], wholes[i]), "flattening changed a list passed in")
	}
	zverif.Reach("end")
}

// Map keys and copies of maps.
// bounds: maps of 0..3 arbitrary keys (4 thorough) and values
// reach: end
func C25_maps() {
	n := zverif.Int("n", 0, zverif.Tier(3, 4))
	ks, vs := zverif.Bytes("k", n), zverif.Bytes("v", n)
	for i := range ks {
		for j := 0; j < i; j++ {
			zverif.Assume(ks[i] != ks[j])
		}
	}
	m := map[byte]byte{}
	for i := range ks {
		m[ks[i]] = vs[i]
	}
	l := util.MapKeys(m)
	ok(len(l) == n, "the keys of a map are listed with another count")
	for _, k := range ks {
		c := 0
		for _, x := range l {
			if x == k {
				c++
			}
		}
		ok(c == 1, "a key of a map is not listed exactly once")
	}
	c := util.CopyMap(m)
	ok(len(c) == n, "a copied map has another size")
	for i := range ks {
		v, has := c[ks[i]]
		ok(has, "a copied map misses a key")
		ok(v == vs[i], "a copied map has another value")
		c[ks[i]] = vs[i] ^ 0xff
	}
	c[0], c[1], c[2], c[3], c[4] = 1, 1, 1, 1, 1
	ok(len(m) == n, "a copied map shares storage with its source")
	for i := range ks {
		ok(m[ks[i]] == vs[i], "a copied map shares storage with its source")
	}
	zverif.Reach("end")
}

// Sets against a membership table, over every sequence of operations.
// bounds: 3 operations (4 thorough) on 3 possible keys, starting from every set built from a list of 0..3 keys with repetitions
// reach: end
// cfg: paths=60000 maporder=3
func C25_set() {
	const K = 3
	key := func(name string) int { return zverif.Choice(name, K) }
	var have [K]bool
	init := []int{}
	for i, n := 0, zverif.Int("init", 0, 2); i < n; i++ {
		k := key("k" + sprint(i))
		init = append(init, k)
		have[k] = true
	}
	s := set.NewSetFromList(init)
	check := func() {
		n := 0
		l := s.ToList()
		for k := 0; k < K; k++ {
			ok(s.Includes(k) == have[k], "a set answers membership wrong")
			if have[k] {
				n++
			}
			c := 0
			for _, x := range l {
				if x == k {
					c++
				}
			}
			ok((c == 1) == have[k] && c <= 1, "a set lists its members wrong")
		}
		ok(s.Size() == n && len(l) == n, "a set counts its members wrong")
		ok(s.IncludesAny() == false, "a set includes one of no keys")
		ok(s.IncludesAny(0, 2) == (have[0] || have[2]), "a set answers membership of several wrong")
		ok(s.IncludesAny(7, 1) == have[1], "a set answers membership of several wrong")
		o := set.NewSet[int]()
		ok(!s.HasIntersection(o), "a set intersects the empty set")
		o.Add(1, 9)
		ok(s.HasIntersection(o) == have[1], "sets intersect wrongly")
		ok(o.HasIntersection(s) == have[1], "sets intersect wrongly")
	}
	check()
	for i, n := 0, zverif.Tier(2, 3); i < n; i++ {
		switch zverif.Choice("op"+sprint(i), 5) {
		case 0:
			k := key("arg" + sprint(i))
			s.Add(k, (k+1)%K)
			have[k], have[(k+1)%K] = true, true
		case 1:
			k := key("arg" + sprint(i))
			ok(s.Remove(k) == have[k], "removing from a set reports the wrong membership")
			have[k] = false
		case 2: // continue on the copy, spoil the original
			c := s.Copy()
			for k := 0; k < K; k++ {
				s.Remove(k)
			}
			s.Add(77)
			s = c
		case 3: // spoil a copy
			c := s.Copy()
			for k := 0; k < K; k++ {
				c.Remove(k)
			}
			c.Add(77)
		case 4:
			k := key("arg" + sprint(i))
			s.Filter(func(x int) bool { return x != k })
			have[k] = false
		}
		check()
	}
	// a set keeps nothing of the list it was made from
	for i := range init {
		init[i] = 99
	}
	check()
	zverif.Reach("end")
}

// The queue is first in first out over every sequence of operations, and independent of the list it was made from.
// bounds: 4 operations (6 thorough), initial lists of 0..2 arbitrary elements with spare slots
// reach: end
// cfg: paths=60000
func C25_queue() {
	ls, whole := symList("ls", 2, 2)
	var want []byte
	want = append(want, ls...)
	q := queue.NewQueue(ls...)
	q2 := queue.NewQueue(ls...)
	q2.Push(1)
	vals := zverif.Bytes("vals", 12)
	for i, n := 0, zverif.Tier(4, 6); i < n; i++ {
		switch zverif.Choice("op"+sprint(i), 4) {
		case 0:
			q.Push(vals[2*i])
			want = append(want, vals[2*i])
		case 1:
			q.Push(vals[2*i], vals[2*i+1])
			want = append(want, vals[2*i], vals[2*i+1])
		case 2:
			v, has := q.Pop()
			ok(has == (len(want) > 0), "a queue reports emptiness wrong")
			if has {
				ok(v == want[0], "a queue gives elements out of order")
				want = want[1:]
			}
		case 3:
			v, has := q.Peek()
			ok(has == (len(want) > 0), "a queue reports emptiness wrong")
			if has {
				ok(v == want[0], "a queue shows the wrong element")
			}
		}
		ok(q.Size() == len(want), "a queue counts its elements wrong")
	}
	ok(sameAs(ls[:cap(ls)], whole), "a queue wrote into the list it was made from")
	for range want {
		v, _ := q.Pop()
		ok(v == want[0], "a queue gives elements out of order")
		want = want[1:]
	}
	zverif.Reach("end")
}
