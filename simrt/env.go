// Package zzsimrt is the simulator's side of every seam that the
// instrumented copy of wampproto-go calls: clock, entropy, pseudo random
// numbers, map iteration order, locks and the task scheduler.
//
// With nothing activated every function falls through to the real thing.
package zzsimrt

import (
	crand "crypto/rand"
	"io"
	"math"
	"math/big"
	"os"
	"strconv"
	"time"
)

// ---------------------------------------------------------------- PRNG

// PRNG is splitmix64. It is the only source of randomness in a simulation.
type PRNG struct{ s uint64 }

//go:norace
func NewPRNG(seed uint64) PRNG { return PRNG{s: seed} }

//go:norace
func (p *PRNG) U64() uint64 {
	p.s += 0x9e3779b97f4a7c15
	z := p.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:norace
func (p *PRNG) N(n int) int {
	if n <= 1 {
		return 0
	}
	return int(p.U64() % uint64(n))
}

// Mix hashes its arguments into one seed.
//
//go:norace
func Mix(a, b uint64) uint64 {
	p := PRNG{s: a ^ (b+0x632be59bd9b4e019)*0xd6e8feb86659fd93}
	p.U64()
	return p.U64()
}

// ---------------------------------------------------------------- clock

var (
	clockOn  bool
	clockNow int64 // unix nanoseconds
	clockLoc = time.UTC
	// ClockReads counts how often code under test read the simulated clock.
	ClockReads uint64
)

// SetClock makes ns the simulated time in the zone loc.
func SetClock(ns int64, loc *time.Location) {
	clockOn, clockNow = true, ns
	if loc == nil {
		loc = time.UTC
	}
	clockLoc = loc
}

//go:norace
func Now() time.Time {
	if !clockOn {
		return time.Now()
	}
	ClockReads++
	return time.Unix(clockNow/1e9, clockNow%1e9).In(clockLoc)
}

func Since(t time.Time) time.Duration { return Now().Sub(t) }
func Until(t time.Time) time.Duration { return t.Sub(Now()) }

//go:norace
func Sleep(d time.Duration) {
	if !clockOn {
		Y() // nothing here depends on the time
		return
	}
	if d > 0 {
		clockNow += int64(d)
	}
	Y()
}

// ---------------------------------------------------------------- entropy

// Entropy, when set, serves every read from the system entropy source.
var Entropy func(b []byte) (int, error)

var entropy PRNG

//go:norace
func entropyFill(b []byte) (int, error) {
	for i := range b {
		b[i] = byte(entropy.U64())
	}
	return len(b), nil
}

// SeedEntropy makes the entropy source a deterministic one that tasks may share.
//
//go:norace
func SeedEntropy(seed uint64) {
	entropy = PRNG{s: seed}
	Entropy = entropyFill
}

type cryptoReader struct{}

func (cryptoReader) Read(b []byte) (int, error) {
	if Entropy != nil {
		return Entropy(b)
	}
	return crand.Read(b)
}

// CR_Reader stands for crypto/rand.Reader.
var CR_Reader io.Reader = cryptoReader{}

func CR_Read(b []byte) (int, error) {
	return io.ReadFull(CR_Reader, b)
}

func CR_Int(r io.Reader, max *big.Int) (*big.Int, error) { return crand.Int(r, max) }

func CR_Text() string {
	const alphabet = "ABCDEFGHIJKLMNOPQRSTUVWXYZ234567"
	b := make([]byte, 26)
	if _, err := CR_Read(b); err != nil {
		panic("crypto/rand: failed to read random data")
	}
	for i := range b {
		b[i] = alphabet[b[i]%32]
	}
	return string(b)
}

// ---------------------------------------------------------------- math/rand

// rnd serves math/rand and math/rand/v2: auto-seeded, so its state is the
// simulated process' boot entropy. xrnd serves golang.org/x/exp/rand, whose
// global source starts from a fixed seed in every process.
var (
	rnd  = PRNG{s: bootSeed()}
	xrnd = PRNG{s: 1}
)

func bootSeed() uint64 {
	if v := os.Getenv("ZZSIM_BOOT_SEED"); v != "" {
		n, err := strconv.ParseUint(v, 10, 64)
		if err == nil {
			return n
		}
	}
	return 0x5eed
}

func init() {
	if v := os.Getenv("ZZSIM_BOOT_CLOCK"); v != "" {
		if n, err := strconv.ParseInt(v, 10, 64); err == nil {
			SetClock(n, time.UTC)
		}
	}
	if v := os.Getenv("ZZSIM_BOOT_SEED"); v != "" {
		p := PRNG{s: Mix(bootSeed(), 0xc0ffee)}
		Entropy = func(b []byte) (int, error) {
			for i := range b {
				b[i] = byte(p.U64())
			}
			return len(b), nil
		}
	}
}

// SeedRand restarts the pseudo random sources for a run.
//
//go:norace
func SeedRand(seed uint64) {
	Extremes, extreme = false, extremeNo
	rnd = PRNG{s: seed}
	xrnd = PRNG{s: 1}
}

// RandDraws counts draws from the pseudo random sources.
var RandDraws uint64

// Extremes makes draws hit the ends of their range: a few seeds in 2^60 would.
var Extremes bool

const (
	extremeNo = iota
	extremeLow
	extremeHigh
)

var extreme int

//go:norace
func draw(u uint64) uint64 {
	RandDraws++
	extreme = extremeNo
	if Extremes {
		switch u % 5 {
		case 0:
			extreme = extremeLow
			return 0
		case 1:
			extreme = extremeHigh
			return math.MaxUint64
		}
	}
	return u
}

//go:norace
func mr() uint64 { return draw(rnd.U64()) }

//go:norace
func xr() uint64 { return draw(xrnd.U64()) }

//go:norace
func f64(u uint64) float64 { return float64(u>>11) / (1 << 53) }

//go:norace
func norm(next func() uint64) float64 {
	u1, u2 := f64(next()), f64(next())
	if u1 == 0 {
		u1 = 0.5
	}
	return math.Sqrt(-2*math.Log(u1)) * math.Cos(2*math.Pi*u2)
}

//go:norace
func expf(next func() uint64) float64 {
	u := f64(next())
	if u == 0 {
		u = 0.5
	}
	return -math.Log(u)
}

//go:norace
func bounded(u uint64, n uint64, name string) uint64 {
	if n == 0 {
		panic("invalid argument to " + name)
	}
	if extreme == extremeHigh {
		return n - 1
	}
	return u % n
}

//go:norace
func boundedI(u uint64, n int64, name string) int64 {
	if n <= 0 {
		panic("invalid argument to " + name)
	}
	if extreme == extremeHigh {
		return n - 1
	}
	return int64(u % uint64(n))
}

//go:norace
func perm(n int, next func() uint64) []int {
	m := make([]int, n)
	for i := 0; i < n; i++ {
		j := int(next() % uint64(i+1))
		m[i] = m[j]
		m[j] = i
	}
	return m
}

//go:norace
func shuffle(n int, swap func(i, j int), next func() uint64) {
	for i := n - 1; i > 0; i-- {
		swap(i, int(next()%uint64(i+1)))
	}
}

//go:norace
func fill(p []byte, next func() uint64) (int, error) {
	for i := range p {
		p[i] = byte(next())
	}
	return len(p), nil
}

func MR_Int() int                           { return int(mr() >> 1) }
func MR_Intn(n int) int                     { return int(boundedI(mr(), int64(n), "Intn")) }
func MR_Int31() int32                       { return int32(mr() >> 33) }
func MR_Int31n(n int32) int32               { return int32(boundedI(mr(), int64(n), "Int31n")) }
func MR_Int63() int64                       { return int64(mr() >> 1) }
func MR_Int63n(n int64) int64               { return boundedI(mr()>>1, n, "Int63n") }
func MR_Uint32() uint32                     { return uint32(mr() >> 32) }
func MR_Uint64() uint64                     { return mr() }
func MR_Float64() float64                   { return f64(mr()) }
func MR_Float32() float32                   { return float32(mr()>>40) / (1 << 24) }
func MR_NormFloat64() float64               { return norm(mr) }
func MR_ExpFloat64() float64                { return expf(mr) }
func MR_Perm(n int) []int                   { return perm(n, mr) }
func MR_Shuffle(n int, swap func(i, j int)) { shuffle(n, swap, mr) }
func MR_Read(p []byte) (int, error)         { return fill(p, mr) }
func MR_Seed(seed int64)                    { rnd = PRNG{s: uint64(seed)} }

func MR2_Int() int                           { return int(mr() >> 1) }
func MR2_IntN(n int) int                     { return int(boundedI(mr(), int64(n), "IntN")) }
func MR2_Int32() int32                       { return int32(mr() >> 33) }
func MR2_Int32N(n int32) int32               { return int32(boundedI(mr(), int64(n), "Int32N")) }
func MR2_Int64() int64                       { return int64(mr() >> 1) }
func MR2_Int64N(n int64) int64               { return boundedI(mr()>>1, n, "Int64N") }
func MR2_Uint() uint                         { return uint(mr()) }
func MR2_UintN(n uint) uint                  { return uint(bounded(mr(), uint64(n), "UintN")) }
func MR2_Uint32() uint32                     { return uint32(mr() >> 32) }
func MR2_Uint32N(n uint32) uint32            { return uint32(bounded(mr(), uint64(n), "Uint32N")) }
func MR2_Uint64() uint64                     { return mr() }
func MR2_Uint64N(n uint64) uint64            { return bounded(mr(), n, "Uint64N") }
func MR2_Float64() float64                   { return f64(mr()) }
func MR2_Float32() float32                   { return float32(mr()>>40) / (1 << 24) }
func MR2_NormFloat64() float64               { return norm(mr) }
func MR2_ExpFloat64() float64                { return expf(mr) }
func MR2_Perm(n int) []int                   { return perm(n, mr) }
func MR2_Shuffle(n int, swap func(i, j int)) { shuffle(n, swap, mr) }
func MR2_N[T ~int | ~int8 | ~int16 | ~int32 | ~int64 | ~uint | ~uint8 | ~uint16 | ~uint32 | ~uint64](n T) T {
	if n <= 0 {
		panic("invalid argument to N")
	}
	u := mr()
	if extreme == extremeHigh {
		return n - 1
	}
	return T(u % uint64(n))
}

func XR_Int() int                           { return int(xr() >> 1) }
func XR_Intn(n int) int                     { return int(boundedI(xr(), int64(n), "Intn")) }
func XR_Int31() int32                       { return int32(xr() >> 33) }
func XR_Int31n(n int32) int32               { return int32(boundedI(xr(), int64(n), "Int31n")) }
func XR_Int63() int64                       { return int64(xr() >> 1) }
func XR_Int63n(n int64) int64               { return boundedI(xr()>>1, n, "Int63n") }
func XR_Uint32() uint32                     { return uint32(xr() >> 32) }
func XR_Uint64() uint64                     { return xr() }
func XR_Uint64n(n uint64) uint64            { return bounded(xr(), n, "Uint64n") }
func XR_Float64() float64                   { return f64(xr()) }
func XR_Float32() float32                   { return float32(xr()>>40) / (1 << 24) }
func XR_NormFloat64() float64               { return norm(xr) }
func XR_ExpFloat64() float64                { return expf(xr) }
func XR_Perm(n int) []int                   { return perm(n, xr) }
func XR_Shuffle(n int, swap func(i, j int)) { shuffle(n, swap, xr) }
func XR_Read(p []byte) (int, error)         { return fill(p, xr) }
func XR_Seed(seed uint64)                   { xrnd = PRNG{s: seed} }
