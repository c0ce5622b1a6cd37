package main

import "strings"

// Quantified facts: what a completed loop establishes for every element of a
// sequence.

// pv follows a field path from a value; a segment starting with '*' is a
// pointer field that is followed.
func pv(v *Term, path string) *Term {
	for _, f := range strings.Split(path, ".") {
		d := strings.HasPrefix(f, "*")
		v = mkField(v, strings.TrimPrefix(f, "*"))
		if d {
			v = mk("deref", "", v)
		}
	}
	return v
}

// an iter is a loop over all elements of a sequence that was completed.
type iter struct {
	li *LoopInfo
	i  *Term // the index

	down bool // from the last to the first
}

// itersOver are the loops known in st to have visited every element of seq.
func itersOver(st *State, seq *Term) []iter {
	var l []iter
	seen := map[*LoopInfo]bool{}
	n := norm(mkLen(seq))
	add := func(li *LoopInfo, i *Term, down bool) {
		if li != nil && !seen[li] {
			seen[li] = true
			l = append(l, iter{li, i, down})
		}
	}
	for f, v := range st.facts {
		if len(f.Args) != 2 {
			continue
		}
		a, b := f.Args[0], f.Args[1]
		switch {
		case f.Op == "lt" && !v && norm(b) == n: // !(i < len)
			if li, ok := counter(a); ok {
				add(li, a, false)
			}
		case f.Op == "eq" && v && (norm(b) == n || norm(a) == n): // i == len
			if norm(a) == n {
				a = b
			}
			if li, ok := counter(a); ok {
				add(li, a, false)
			}
		case f.Op == "lt" && !v && a == mkInt(0) || f.Op == "eq" && v && (a == mkInt(0) || b == mkInt(0)): // !(0 < n) or n == 0, counting down with i = n-1
			if b == mkInt(0) {
				b = a
			}
			if li, init, next := lvOf(b); li != nil && norm(init) == n && allEq(next, mkBin("-", b, mkInt(1))) {
				add(li, mkBin("-", b, mkInt(1)), true)
			}
		case f.Op == "lt" && v && norm(a) == n: // len < n, counting from 1 with i = n-1
			x := b
			if li, init, next := lvOf(x); li != nil && init == mkInt(1) && allEq(next, mkBin("+", x, mkInt(1))) {
				add(li, mkBin("-", x, mkInt(1)), false)
			}
		case f.Op == "lt" && v && b == mkInt(0): // i < 0, counting down
			if li, init, next := lvOf(a); li != nil && norm(init) == norm(mkBin("-", mkLen(seq), mkInt(1))) && allEq(next, mkBin("-", a, mkInt(1))) {
				add(li, a, true)
			}
		}
	}
	return l
}

func allEq(l []*Term, t *Term) bool {
	for _, x := range l {
		if x != t {
			return false
		}
	}
	return len(l) > 0
}

// forAll: st establishes pred for every element of seq. pred gets the state at
// the end of the iteration and the element.
func forAll(st *State, seq *Term, pred func(b *State, el, i *Term) bool) bool {
	if st.holds(mkEq(mkLen(seq), mkInt(0))) {
		return true
	}
	for _, it := range itersOver(st, seq) {
		if it.all(st, seq, pred) {
			return true
		}
	}
	return false
}

// hasElements: st establishes that seq has elements. Without any, a loop over it
// leaves its flags as they were initially.
func hasElements(st *State, seq *Term) bool {
	n := mkLen(seq)
	if st.refuted(mkEq(n, mkInt(0))) || st.truth(mkLt(mkInt(0), n, false)) == 1 {
		return true
	}
	for _, it := range itersOver(st, seq) {
		for name, f := range it.li.lv {
			v := st.truth(f)
			if v < 0 {
				continue
			}
			s := it.li.entry.clone()
			s.assume(mkEq(n, mkInt(0)), true)
			if iv := s.truth(it.li.init[name]); iv >= 0 && iv != v {
				return true
			}
		}
	}
	return false
}

// dead: iterations that end in back state k cannot have happened, because they
// set a flag (or error) that is never reset and is unset in st.
func (it iter) dead(st *State, k int) bool {
	for name, f := range it.li.lv {
		next := it.li.next[name]
		if len(next) != len(it.li.back) || next[k] == f {
			continue
		}
		init := it.li.init[name]
		// the loop is left as soon as the flag is set
		for _, v := range []*Term{tTrue, tFalse} {
			want := 0
			if v == tFalse {
				want = 1
			}
			if next[k] != v || st.truth(f) != want {
				continue
			}
			left := true
			for _, b := range it.li.back {
				left = left && b.truth(f) == want
			}
			if left {
				return true
			}
		}
		var set func(t *Term) bool
		switch {
		case init == tFalse && st.truth(f) == 0:
			set = func(t *Term) bool { return t == tTrue }
		case init == tTrue && st.truth(f) == 1:
			set = func(t *Term) bool { return t == tFalse }
		case init == tNil && st.truth(mkEq(f, tNil)) == 1:
			set = func(t *Term) bool { return t != tNil && nonNil(t) }
		default:
			continue
		}
		ok := set(next[k])
		for _, n := range next {
			ok = ok && (n == f || set(n))
		}
		if ok {
			return true
		}
	}
	return false
}

func (it iter) all(st *State, seq *Term, pred func(b *State, el, i *Term) bool) bool {
	for k, b := range it.li.back {
		if it.dead(st, k) {
			continue
		}
		if !pred(b, mkSel(seq, it.i), it.i) {
			return false
		}
	}
	return true
}

// uniqueKey: elements selected by sel have the given key.
type keyed struct {
	sel func(b *State, el *Term) bool // may return true when unsure
	key func(el, i *Term) *Term
}

// unique: st establishes that no two selected elements of seq have equal keys
// (with a table of the keys seen so far).
func unique(st *State, seq *Term, ks ...keyed) bool {
	if st.holds(mkEq(mkLen(seq), mkInt(0))) {
		return true
	}
	for _, it := range itersOver(st, seq) {
		for name, m := range it.li.lv {
			init, next := it.li.init[name], it.li.next[name]
			if len(next) != len(it.li.back) || init.Op != "emptymap" && init.Op != "zero" {
				continue
			}
			ok := true
			for k, b := range it.li.back {
				if it.dead(st, k) {
					continue
				}
				keys := mapGrown(next[k], m)
				if keys == nil {
					ok = false
					break
				}
				for _, q := range ks {
					if !q.sel(b, mkSel(seq, it.i)) {
						continue
					}
					key := norm(q.key(mkSel(seq, it.i), it.i))
					if !(b.refuted(mkMapHas(m, key)) || b.refutedGet(m, key)) || !keys[key] {
						ok = false
					}
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}

// mapGrown: t is m with keys added; returns the (normalised) keys.
func mapGrown(t, m *Term) map[*Term]bool {
	keys := map[*Term]bool{}
	for t != m {
		if t.Op != "mapset" {
			return nil
		}
		if v := t.Args[2]; v != tFalse {
			keys[norm(t.Args[1])] = true
		}
		t = t.Args[0]
	}
	return keys
}

// refutedGet: the boolean table m is known to be false at key.
func (s *State) refutedGet(m, key *Term) bool {
	for f, v := range s.facts {
		if !v && f.Op == "mapget" && f.Args[0] == m && norm(f.Args[1]) == key {
			return true
		}
	}
	return false
}

// atMostOne: st establishes that at most one element of seq is selected (a
// flag or counter is kept).
func atMostOne(st *State, seq *Term, sel func(b *State, el *Term) bool) bool {
	if st.holds(mkEq(mkLen(seq), mkInt(0))) {
		return true
	}
	for _, it := range itersOver(st, seq) {
		for name, f := range it.li.lv {
			init, next := it.li.init[name], it.li.next[name]
			if len(next) != len(it.li.back) {
				continue
			}
			flag := init == tFalse
			count := init == mkInt(0) && f != it.i
			if !flag && !count {
				continue
			}
			final := count && (st.truth(mkLt(mkInt(1), f, false)) == 0 || st.truth(mkLt(f, mkInt(2), false)) == 1)
			ok := true
			for k, b := range it.li.back {
				if it.dead(st, k) {
					continue
				}
				if !sel(b, mkSel(seq, it.i)) {
					if next[k] != f && !(flag && next[k] == tTrue) && !(count && next[k] == mkBin("+", f, mkInt(1))) {
						ok = false
					}
					continue
				}
				switch {
				case flag:
					ok = ok && b.truth(f) == 0 && next[k] == tTrue
				case count:
					first := b.truth(mkEq(f, mkInt(0))) == 1 || b.truth(mkLt(mkInt(0), f, false)) == 0 || b.truth(mkLt(f, mkInt(1), false)) == 1
					ok = ok && next[k] == mkBin("+", f, mkInt(1)) && (first || final)
				}
			}
			if ok {
				return true
			}
		}
	}
	return false
}
