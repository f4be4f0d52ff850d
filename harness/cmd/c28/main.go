package main

import (
	"bytes"
	"fmt"
	"math/rand"

	"xv/rep"

	"github.com/renthraysk/xtorm/slice"
)

var r *rep.Run

// buf returns a slice of length l and capacity c (at least l) inside a larger
// array with guard bytes on both sides.
func buf(rng *rand.Rand, l, c int) (in, before, guard []byte) {
	all := make([]byte, 8+c+8)
	rng.Read(all)
	in = all[8 : 8+l : 8+c]
	return in, append([]byte(nil), all...), all
}

func clip(p []byte) []byte { return p[:min(len(p), 64)] }

func overlap(a, b []byte) bool { // same first byte in memory
	return len(a) > 0 && len(b) > 0 && &a[0] == &b[0]
}

// guards: bytes outside [8, 8+end) of the array are never written.
func guards(before, all []byte, from, to int) bool {
	return bytes.Equal(before[:8+from], all[:8+from]) && bytes.Equal(before[8+to:], all[8+to:])
}

func forAppend(rng *rand.Rand, l, c, n int) {
	in, before, all := buf(rng, l, c)
	what := func() string { return fmt.Sprintf("ForAppend(len %d cap %d, %d)", l, c, n) }
	old := append([]byte(nil), in...)
	head, tail := slice.ForAppend(in, n)
	if len(head) != l+n || len(tail) != n {
		r.Violation("%s: head has %d bytes, tail %d", what(), len(head), len(tail))
		return
	}
	if !bytes.Equal(head[:l], old) || !bytes.Equal(in, old) {
		r.Violation("%s: earlier bytes changed: %x -> %x", what(), clip(old), clip(head[:l]))
		return
	}
	if n > 0 && !overlap(head[l:], tail) {
		r.Violation("%s: tail is not the end of head", what())
		return
	}
	for i := range tail {
		tail[i] = byte(i) ^ 0x5a
	}
	if !bytes.Equal(head[:l], old) {
		r.Violation("%s: filling the tail changed the head", what())
		return
	}
	if !guards(before, all, l, min(c, l+n)) {
		r.Violation("%s: bytes outside the slice were written", what())
		return
	}
	r.Count("for_append", 1)
	r.Eval(fmt.Sprintf("f/%d/%d/%d", l, c, n))
}

func insert(rng *rand.Rand, l, c, pos, n int) {
	in, before, all := buf(rng, l, c)
	what := func() string { return fmt.Sprintf("Insert(len %d cap %d, %d, %d)", l, c, pos, n) }
	old := append([]byte(nil), in...)
	out := slice.Insert(in, pos, n)
	if len(out) != l+n {
		r.Violation("%s: %d bytes returned", what(), len(out))
		return
	}
	if !bytes.Equal(out[:pos], old[:pos]) || !bytes.Equal(out[pos+n:], old[pos:]) {
		r.Violation("%s: %x became %x", what(), clip(old), clip(out))
		return
	}
	if !guards(before, all, pos, min(c, l+n)) {
		r.Violation("%s: bytes outside the result were written", what())
		return
	}
	r.Count("insert", 1)
	r.Eval(fmt.Sprintf("i/%d/%d/%d/%d", l, c, pos, n))
}

func allocate(rng *rand.Rand, l, c, n int) {
	in, before, all := buf(rng, l, c)
	what := func() string { return fmt.Sprintf("Allocate(len %d cap %d, %d)", l, c, n) }
	old := append([]byte(nil), in...)
	head, area := slice.Allocate(in, n)
	if len(area) != n || len(head) < n {
		r.Violation("%s: %d bytes allocated in a buffer of %d", what(), len(area), len(head))
		return
	}
	if n > 0 && !overlap(head[len(head)-n:], area) {
		r.Violation("%s: the area is not the end of the buffer", what())
		return
	}
	for i := range area {
		area[i] = byte(i) ^ 0x5a
	}
	if !bytes.Equal(in, old) {
		r.Violation("%s: filling the area changed earlier bytes", what())
		return
	}
	if k := len(head) - n; k != 0 && !bytes.Equal(head[:k], old) {
		r.Violation("%s: the buffer begins with %x, it held %x", what(), clip(head[:k]), clip(old))
		return
	}
	if !guards(before, all, l, min(c, l+n)) {
		r.Violation("%s: bytes outside the slice were written", what())
		return
	}
	r.Count("allocate", 1)
	r.Eval(fmt.Sprintf("a/%d/%d/%d", l, c, n))
}

func main() {
	r = rep.Start("C28", "exploration", "slice.ForAppend, Insert and Allocate called for every length up to 16, spare capacity up to 20, position and count up to 20, and for random large ones, on slices cut out of larger arrays whose neighbouring bytes are watched. Non-trivial: distinct (function, length, capacity, position, count).")
	const L, S, N = 16, 20, 20
	r.Each("small", (L+1)*(S+1), func(i int, rng *rand.Rand) {
		l, c := i%(L+1), i%(L+1)+i/(L+1)
		for n := 0; n <= N; n++ {
			forAppend(rng, l, c, n)
			allocate(rng, l, c, n)
			for pos := 0; pos <= l; pos++ {
				insert(rng, l, c, pos, n)
			}
		}
	})
	r.Each("large", r.N(20000, 500000), func(i int, rng *rand.Rand) {
		m := 1 << uint(rng.Intn(16))
		l := rng.Intn(m)
		c := l
		if rng.Intn(3) > 0 {
			c += rng.Intn(m)
		}
		n := rng.Intn(m)
		if rng.Intn(3) == 0 && c > l {
			n = max(0, c-l-2+rng.Intn(5))
		}
		forAppend(rng, l, c, n)
		allocate(rng, l, c, n)
		pos := rng.Intn(l + 1)
		if rng.Intn(3) == 0 {
			pos = l
		}
		insert(rng, l, c, pos, n)
	})
	// every buffer size a frame can have: more than one or two bytes of length
	r.Each("huge", r.N(400, 5000), func(i int, rng *rand.Rand) {
		l := 1<<16 - 4 + rng.Intn(1<<uint(4+rng.Intn(18)))
		c, n := l, rng.Intn(64)
		if rng.Intn(2) == 0 {
			c += rng.Intn(1 << uint(1+rng.Intn(18)))
		}
		if rng.Intn(3) == 0 {
			n = rng.Intn(1 << uint(1+rng.Intn(20)))
		}
		forAppend(rng, l, c, n)
		allocate(rng, l, c, n)
		pos := rng.Intn(l + 1)
		if rng.Intn(2) == 0 {
			pos = l - rng.Intn(8)
		}
		insert(rng, l, c, pos, n)
		forAppend(rng, rng.Intn(64), 64, l)
		allocate(rng, rng.Intn(64), 64, l)
		r.Count("huge", 1)
	})
	// nil slices
	for n := 0; n < 100; n++ {
		if h, t := slice.ForAppend(nil, n); len(h) != n || len(t) != n {
			r.Violation("ForAppend(nil, %d): %d, %d bytes", n, len(h), len(t))
		}
		if h, a := slice.Allocate(nil, n); len(h) != n || len(a) != n {
			r.Violation("Allocate(nil, %d): %d, %d bytes", n, len(h), len(a))
		}
		if p := slice.Insert(nil, 0, n); len(p) != n {
			r.Violation("Insert(nil, 0, %d): %d bytes", n, len(p))
		}
	}
	r.Need("insert", 50000)
	r.Need("huge", 100)
	r.Finish()
}
