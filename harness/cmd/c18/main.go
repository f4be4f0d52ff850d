package main

import (
	"math/rand"

	"xv/ppool"
	"xv/rep"
	"xv/xsrv"
)

func main() {
	r := rep.Start("C18", "exploration", "the real pool over fake connections whose every call stops at a gate; a seeded scheduler starts sends (live and cancelled contexts) and occasionally closes, opens or refuses connections, answers, breaks or spoils them in any order, and a reference model judges every step; plus free-running concurrency whose recorded history is checked. Judged here: spoiled and surplus connections closed, nothing leaked (no goroutine of the library either, with the whole real stack at work), at most size idle, failures reported to their caller only. Non-trivial: distinct scheduler histories.")
	var err error
	if pki, err = xsrv.NewPKI(); err != nil {
		r.Harness("pki: %v", err)
		r.Finish()
	}
	r.EachW("leftovers", r.N(6, 60), 1, func(i int, rng *rand.Rand) { leftovers(r, i, rng) })
	r.EachW("scenarios", r.N(60000, 2000000), 16, func(i int, rng *rand.Rand) { ppool.Scenario(r, ppool.C18, i, rng, i%5 == 0) })
	ppool.Virtual(r, ppool.C18, r.N(6000, 200000), func(i int) bool { return i%5 == 0 })
	r.EachW("long", r.N(12, 120), 4, func(i int, rng *rand.Rand) {
		n := r.N(30000, 1000000)
		if i < 2 {
			n *= 10
		}
		ppool.Long(r, ppool.C18, i, rng, n)
	})
	r.EachW("stress", r.N(3000, 100000), 4, func(i int, rng *rand.Rand) { ppool.Stress(r, ppool.C18, i, rng, i%4 == 0) })
	r.Need("quiet_moments_without_goroutines", 5)
	r.Need("surplus_closed", 1000)
	r.Need("answers_error response", 1000)
	r.Need("open_failures", 1000)
	r.Need("cancelled_reported", 100)
	r.Finish()
}
