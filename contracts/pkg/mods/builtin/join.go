//go:build go1.21

package builtin

import . "github.com/innerr/ticat/pkg/vstd"

// ---- all combinations of the join lists (C18)

//vc:spec
func ids(it *joinKvsIter, i int) int { return it.ids[i] }

//vc:spec
func last(it *joinKvsIter, i int) int { return len(it.kvs[i].Vals) - 1 }

// joinOK: one position per list, each inside its list; no list is empty.
//
//vc:spec
func joinOK(it *joinKvsIter) bool {
	return it != nil && len(it.ids) == len(it.kvs) && Forall(0, len(it.ids), func(i int) bool {
		Trig(it.ids[i])
		return 0 <= it.ids[i] && it.ids[i] < len(it.kvs[i].Vals)
	})
}

//vc:contract newJoinKvsIter
func _(kvs []joinKv) (r *joinKvsIter) {
	Requires(Forall(0, len(kvs), func(i int) bool { Trig(kvs[i]); return len(kvs[i].Vals) > 0 }))
	Ensures(Fresh(r) && Eq(r.kvs, kvs) && joinOK(r))
	Ensures(Forall(0, len(kvs), func(i int) bool { Trig(r.ids[i]); return r.ids[i] == 0 }), "starts at the first value of every list")
	return
}

// advanced: p is the last position that could move; it moves one on, the later ones restart.
//
//vc:spec
func advanced(old, now []int, kvs []joinKv, p int) bool {
	return 0 <= p && p < len(now) && now[p] == old[p]+1 && now[p] < len(kvs[p].Vals) &&
		Forall(0, p, func(i int) bool { Trig(now[i]); return now[i] == old[i] }) &&
		Forall(p+1, len(now), func(i int) bool { Trig(now[i]); return now[i] == 0 }) &&
		Forall(p+1, len(now), func(i int) bool { Trig(old[i]); return old[i] == len(kvs[i].Vals)-1 })
}

//vc:spec
func lastOne(it *joinKvsIter) bool {
	return Forall(0, len(it.ids), func(i int) bool { Trig(it.ids[i]); return it.ids[i] == len(it.kvs[i].Vals)-1 })
}

//vc:contract joinKvsIter.next
func _(iter *joinKvsIter) (ok bool) {
	NoAlloc()
	Requires(joinOK(iter))
	Modifies(&iter.ids)
	Ensures(joinOK(iter) && len(iter.ids) == Old(len(iter.ids)))
	Ensures(Implies(!ok, Old(lastOne(iter))), "stops only after the last combination")
	Ensures(Implies(!ok, Eq(iter.ids, Old(iter.ids))))
	Ensures(Implies(ok, Exists(0, len(iter.ids), func(p int) bool { Trig(iter.ids[p]); return advanced(Old(iter.ids), iter.ids, iter.kvs, p) })), "moves to the next combination")
	//vc:inv 0: Forall(i+1, l, func(j int) bool { Trig(iter.ids[j]); return iter.ids[j] == len(iter.kvs[j].Vals)-1 })
	//vc:inv 0: !ok && i < l
	//vc:inv 1: i < l && l == len(iter.ids) && len(iter.ids) == len(iter.kvs)
	//vc:inv 1: Forall(0, i+1, func(j int) bool { Trig(iter.ids[j]); return iter.ids[j] == AtLoop(iter.ids)[j] })
	//vc:inv 1: Forall(i+1, l, func(j int) bool { Trig(iter.ids[j]); return iter.ids[j] == 0 })
	//vc:inv 1: Forall(i+1, l, func(j int) bool { Trig(AtLoop(iter.ids)[j]); return AtLoop(iter.ids)[j] == len(iter.kvs[j].Vals)-1 })
	return
}

// before: lexicographic order of combinations, from position q on.
//
//vc:spec
func firstDiff(a, b []int, q int) bool {
	return 0 <= q && q < len(a) && a[q] != b[q] && Forall(0, q, func(i int) bool { Trig(a[i]); return a[i] == b[i] })
}

// noneBetween: nothing lies between a combination and the next one, so with the order being total
// every combination comes exactly once.
//
//vc:lemma
func noneBetween(old, now, t []int, kvs []joinKv, p, q, r int) {
	Requires(len(old) == len(kvs) && len(now) == len(kvs) && len(t) == len(kvs))
	Requires(Forall(0, len(t), func(i int) bool { Trig(t[i]); return 0 <= t[i] && t[i] < len(kvs[i].Vals) }))
	Requires(advanced(old, now, kvs, p))
	Requires(firstDiff(old, t, q) && old[q] < t[q])
	Ensures(!(firstDiff(t, now, r) && t[r] < now[r]), "no combination is left out")
}

// endsOfOrder: the start is the least combination, the place where next stops the greatest.
//
//vc:lemma
func endsOfOrder(a, t []int, kvs []joinKv, q int) {
	Requires(len(a) == len(kvs) && len(t) == len(kvs) && firstDiff(a, t, q))
	Requires(Forall(0, len(t), func(i int) bool { Trig(t[i]); return 0 <= t[i] && t[i] < len(kvs[i].Vals) }))
	Ensures(Implies(Forall(0, len(a), func(i int) bool { Trig(a[i]); return a[i] == 0 }), a[q] < t[q]), "the first combination is before all others")
	Ensures(Implies(Forall(0, len(a), func(i int) bool { Trig(a[i]); return a[i] == len(kvs[i].Vals)-1 }), t[q] < a[q]), "the last combination is after all others")
}

//vc:contract joinKvsIter.get
func _(iter *joinKvsIter) (keys, vals []string) {
	NoAlloc()
	Requires(joinOK(iter))
	Ensures(len(keys) == len(iter.kvs) && len(vals) == len(iter.kvs))
	Ensures(Forall(0, len(keys), func(i int) bool { Trig(keys[i]); return keys[i] == iter.kvs[i].Key }), "the keys in their order")
	Ensures(Forall(0, len(vals), func(i int) bool { Trig(vals[i]); return vals[i] == iter.kvs[i].Vals[iter.ids[i]] }), "each value from its own list")
	//vc:inv 0: len(keys) == Iter() && len(vals) == Iter()
	//vc:inv 0: Forall(0, len(keys), func(i int) bool { Trig(keys[i]); return keys[i] == iter.kvs[i].Key })
	//vc:inv 0: Forall(0, len(vals), func(i int) bool { Trig(vals[i]); return vals[i] == iter.kvs[i].Vals[iter.ids[i]] })
	return
}
