// Package enc holds the workloads shared by the encoding checks (C01..C06, C09).
package enc

import (
	"encoding/hex"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"

	"xv/gen"
	"xv/rep"
)

// Judge evaluates one program. only: report just this mismatch class ("" = all).
func Judge(r *rep.Run, p *gen.Prog, capacity int, only, what string) {
	class, diff, sent := p.Check(capacity)
	r.EvalBytes(sent)
	r.Count("messages", len(p.Frames()))
	r.Count("bytes", len(sent))
	if class != "" && (only == "" || only == class) {
		head := sent
		if len(head) > 400 {
			head = head[:400]
		}
		d := p.String()
		if len(d) > 2500 {
			d = d[:2500] + "..."
		}
		r.Violation("%s\n%s (initial capacity %d)\ncalls: %s\nsent %d bytes: %s", diff, what, capacity, d, len(sent), hex.EncodeToString(head))
	}
}

// Sweep runs all size sweeps of the given group ("" = all).
func Sweep(r *rep.Run, group, only string, lengths []int, counts []int) {
	type job struct {
		s gen.Sweep
		n int
	}
	var jobs []job
	for _, s := range gen.Sweeps {
		if group != "" && s.Group != group {
			continue
		}
		for _, n := range lengths {
			jobs = append(jobs, job{s, n})
		}
	}
	for _, s := range gen.CountSweeps {
		if group != "" && s.Group != group {
			continue
		}
		for _, n := range counts {
			jobs = append(jobs, job{s, n})
		}
	}
	r.Each("sweep", len(jobs), func(i int, rng *rand.Rand) {
		j := jobs[i]
		g := &gen.Gen{R: rng, Max: 64, Depth: 2}
		p := gen.SweepProg(g, j.s, j.n)
		Judge(r, p, rng.Intn(64), only, fmt.Sprintf("sweep %q size %d", j.s.Name, j.n))
	})
}

// Huge runs the size sweeps of the group once more with messages around 2^24
// bytes (three bytes of frame length), with very many elements, and, for a few
// of them, around 2^28 (the longest protobuf length prefix).
func Huge(r *rep.Run, group, only string) {
	if os.Getenv("XV_SCALE") != "" { // development runs
		return
	}
	type job struct {
		s gen.Sweep
		n int
	}
	var jobs, giant []job
	rng := r.Rng("huge-sizes", 0)
	k := r.N(1, 6)
	for _, s := range gen.Sweeps {
		if group != "" && s.Group != group {
			continue
		}
		for i := 0; i < k; i++ {
			jobs = append(jobs, job{s, 1<<24 - rng.Intn(40)}, job{s, 1<<24 + rng.Intn(1<<22)}, job{s, 1<<22 + rng.Intn(1<<22)})
		}
		giant = append(giant, job{s, 1<<28 - rng.Intn(40)}, job{s, 1<<28 + rng.Intn(1<<20)})
	}
	for _, s := range gen.CountSweeps {
		if group != "" && s.Group != group {
			continue
		}
		c := []int{1<<14 + rng.Intn(1<<13), 1<<16 + rng.Intn(1<<12)}
		if s.Name == "nested operators" {
			c = []int{8000 + rng.Intn(1000)}
		}
		for _, n := range c {
			jobs = append(jobs, job{s, n})
		}
	}
	run := func(j job, rng *rand.Rand) {
		p := gen.SweepProg(&gen.Gen{R: rng, Max: 64, Depth: 2}, j.s, j.n)
		Judge(r, p, rng.Intn(64), only, fmt.Sprintf("sweep %q size %d", j.s.Name, j.n))
	}
	r.EachW("huge", len(jobs), 4, func(i int, rng *rand.Rand) { run(jobs[i], rng) })
	rng.Shuffle(len(giant), func(i, j int) { giant[i], giant[j] = giant[j], giant[i] })
	giant = giant[:min(len(giant), r.N(2, 12))]
	r.EachW("giant", len(giant), 1, func(i int, rng *rand.Rand) { run(giant[i], rng); debug.FreeOSMemory() })
}

// Counts returns swept element counts.
func Counts(hi int) []int {
	var c []int
	for i := 0; i <= hi; i++ {
		c = append(c, i)
	}
	return append(c, 500, 1365, 2000, 2731, 5000)
}

// Cap draws an initial pipe capacity.
func Cap(rng *rand.Rand) int {
	switch rng.Intn(4) {
	case 0:
		return 0
	case 1:
		return rng.Intn(64)
	case 2:
		return rng.Intn(2048)
	default:
		return 64 << uint(rng.Intn(12))
	}
}
