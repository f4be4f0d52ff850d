package main

import (
	"math/rand"

	"xv/ppool"
	"xv/rep"
)

func main() {
	r := rep.Start("C17", "exploration", "the real pool over fake connections whose every call stops at a gate; a seeded scheduler starts sends (live and cancelled contexts) and occasionally closes, opens or refuses connections, answers, breaks or spoils them in any order, and a reference model judges every step; plus free-running concurrency whose recorded history is checked. Judged here: exclusive use, exactly-once transmission, own responses, idle before new, longest idle first. Non-trivial: distinct scheduler histories.")
	r.EachW("scenarios", r.N(60000, 2000000), 16, func(i int, rng *rand.Rand) { ppool.Scenario(r, ppool.C17, i, rng, i%5 == 0) })
	ppool.Virtual(r, ppool.C17, r.N(6000, 200000), func(i int) bool { return i%5 == 0 })
	r.EachW("long", r.N(12, 120), 4, func(i int, rng *rand.Rand) {
		n := r.N(30000, 1000000)
		if i < 2 {
			n *= 10
		}
		ppool.Long(r, ppool.C17, i, rng, n)
	})
	r.EachW("stress", r.N(3000, 100000), 4, func(i int, rng *rand.Rand) { ppool.Stress(r, ppool.C17, i, rng, i%4 == 0) })
	r.Need("fifo_choices", 1000)
	r.Need("idle_reused", 5000)
	r.Finish()
}
