package gen

import (
	"math/rand"
	"time"
)

// EdgeU64 is every 64-bit value within k of a power of two (and of 0 and 2^64).
func EdgeU64(k uint64) []uint64 {
	var r []uint64
	seen := map[uint64]bool{}
	add := func(x uint64) {
		if !seen[x] {
			seen[x] = true
			r = append(r, x)
		}
	}
	for i := uint(0); i < 64; i++ {
		for d := uint64(0); d <= k; d++ {
			add(uint64(1)<<i + d)
			add(uint64(1)<<i - d)
			add(-(uint64(1) << i) + d)
			add(-(uint64(1) << i) - d)
		}
	}
	for d := uint64(0); d <= k; d++ {
		add(d)
		add(-d)
	}
	return r
}

// Numbers is the exhaustive/edge list of numeric literals: every 8- and 16-bit
// integer, wider ones around every power of two.
func Numbers() []Val {
	var r []Val
	for i := 0; i < 1<<8; i++ {
		r = append(r, Int8(int8(i)), Uint8(uint8(i)))
	}
	for i := 0; i < 1<<16; i++ {
		r = append(r, Int16(int16(i)), Uint16(uint16(i)))
	}
	for _, x := range EdgeU64(3) {
		r = append(r, Int64(int64(x)), Uint64(x), Int(int(x)), Uint(uint(x)), Int32(int32(x)), Uint32(uint32(x)), F64(x))
		if b := uint32(x); b&0x7f800000 != 0x7f800000 {
			r = append(r, F32(b))
		}
	}
	r = append(r, Bool(true), Bool(false), Null(), Bytes(nil))
	return r
}

// Times is a list of durations and times: every second of a day (stride s) and
// each hour count up to 900, both signs; each day of a few years.
func Times(r *rand.Rand, s int) []Val {
	var v []Val
	for i := 0; i < 86400; i += s {
		d := time.Duration(i)*time.Second + time.Duration(r.Intn(1000000000))
		v = append(v, Dur(d), Dur(-d))
	}
	for h := 0; h < 900; h++ {
		d := time.Duration(h)*time.Hour + time.Duration(r.Int63n(int64(time.Hour)))
		v = append(v, Dur(d), Dur(-d), Dur(time.Duration(h)*time.Hour), Dur(-time.Duration(h)*time.Hour), Dur(time.Duration(h)*time.Hour-1))
	}
	t := time.Date(1999, 12, 25, 0, 0, 0, 0, time.UTC)
	for i := 0; i < 1600; i++ {
		v = append(v, Time(t.AddDate(0, 0, i).Add(time.Duration(r.Int63n(int64(24*time.Hour)))).In(zones[i%len(zones)])))
	}
	for y := -50; y <= 10050; y += 7 {
		v = append(v, Time(time.Date(y, time.Month((y+60)%12+1), (y+60)%28+1, (y+60)%24, (y+60)%60, (y+60)%59, (y+50)*99991%1000000000, zones[(y+60)%len(zones)]).UTC()))
	}
	for n := 1; n < 1000000000; n *= 10 {
		v = append(v, Time(time.Date(2020, 1, 1, 0, 0, 0, n, time.UTC)), Time(time.Date(2020, 1, 1, 0, 0, 0, n-1, time.UTC)), Time(time.Date(2020, 1, 1, 0, 0, 0, n*9, time.UTC)))
	}
	for i := 0; i < 500; i++ {
		v = append(v, Dur(randDur(r)), Time(randTime(r)))
	}
	return v
}
