package main

import (
	"math/rand"

	"xv/ppool"
	"xv/rep"
)

func main() {
	r := rep.Start("C19", "exploration", "the real pool over fake connections whose every call stops at a gate; a seeded scheduler starts sends (live and cancelled contexts) and closes, with closing a connection stopping at a gate as well, opens or refuses connections, answers, breaks or spoils them in any order, and a reference model judges every step; plus free-running concurrency whose recorded history is checked. Judged here: no panic, idle connections closed, later sends refused, in-flight sends complete and their connections are closed. Non-trivial: distinct scheduler histories.")
	r.EachW("scenarios", r.N(60000, 2000000), 16, func(i int, rng *rand.Rand) { ppool.Scenario(r, ppool.C19, i, rng, true) })
	ppool.Virtual(r, ppool.C19, r.N(6000, 200000), func(i int) bool { return true })
	r.EachW("stress", r.N(3000, 100000), 4, func(i int, rng *rand.Rand) { ppool.Stress(r, ppool.C19, i, rng, true) })
	r.Need("in_flight_at_close", 500)
	r.Need("sends_after_close", 1000)
	r.Need("stress_sends_after_close", 200)
	r.Finish()
}
