// Deterministic-simulation support, added to package runtime through
// `go build -overlay`. Never compiled into the shipped library.
//
// The process runs with GOMAXPROCS=1, no sysmon, no asynchronous
// preemption and no GC, under the simulated clock of time_fake.go. What is
// left of nondeterminism is decided here, by a seeded stream or by a
// script of recorded decisions:
//   - which runnable goroutine runs next          (simPick, from runqget)
//   - which ready case a select takes             (simSel, from selectgo)
//   - whether a goroutine loses the CPU here      (SimYield, from
//     instrumented library statements and simulated I/O)
//   - for how long a goroutine is stalled         (SimYield)

package runtime

import (
	"internal/abi"
	"unsafe"
)

// SimConfig configures the scheduler of one simulated run.
type SimConfig struct {
	Seed       uint64
	Policy     int    // 0 fifo, 1 uniform, 2 priorities, 3 newest first
	PickNum    uint32 // a pick deviates from FIFO with probability PickNum/65536
	YieldNum   uint32 // a yield point yields with probability YieldNum/65536
	StallNum   uint32 // a yield point stalls with probability StallNum/65536^2*...
	StallMax   int64  // longest stall, ns
	StallCap   int    // stalls allowed in the run
	EpochNum   uint32 // priorities are redrawn with probability EpochNum/65536
	SelRandom  bool   // random select order (else source order)
	HotMod     uint32 // if >0: only sites with hash%HotMod==HotRem yield with HotNum
	HotRem     uint32
	HotNum     uint32
	MapOff     bool   // no preemption and no judgement at map accesses
	MapNum     uint32 // like HotNum, for the preemption points before map accesses
	StepCap    uint64
	Scripted   bool     // take decisions from Script only
	Script     []uint64 // pairs (decision number, value), ascending
	TraceLimit int
}

var simst struct {
	on       bool
	cfg      SimConfig
	rng      uint64
	salt     uint64
	dec      uint64 // decisions taken so far
	steps    uint64 // yield points passed
	since    uint64 // yield points since the clock last moved
	picks    uint64
	switches uint64
	stalls   uint64
	stallNs  int64
	stallOff bool
	sels     uint64
	si       int // next script entry
	trace    []uint64
	tn       int
	lost     bool
	hash     uint64 // digest of all decisions with choice
	wallOff  int64
	capHit   bool
}

// separate streams: the one map iteration, hash seeds, math/rand and
// crypto/rand draw from, and the one for scheduling.
var simRandState uint64 = 0x9e3779b97f4a7c15
var simCheapState uint64 = 0xd1b54a32d192ed03
var simSysState uint64 = 0x2545f4914f6cdd1d
var simOrderState uint64 = 0x8cb92ba72f3d8dd7

//go:nosplit
func simMix(z uint64) uint64 {
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

//go:nosplit
func simRand64() uint64 {
	simRandState += 0x9e3779b97f4a7c15
	return simMix(simRandState)
}

//go:nosplit
func simCheap64() uint64 {
	simCheapState += 0x9e3779b97f4a7c15
	return simMix(simCheapState)
}

// SimOrderN is a seeded number below n, from a stream of its own: the runtime
// draws from the others as its threads happen to come and go.
func SimOrderN(n uint32) uint32 {
	simOrderState += 0x9e3779b97f4a7c15
	return uint32(simMix(simOrderState)>>8) % n
}

// SimSysRand fills b: the entropy source of crypto/rand.
func SimSysRand(b []byte) {
	var x uint64
	for i := range b {
		if i%8 == 0 {
			simSysState += 0x9e3779b97f4a7c15
			x = simMix(simSysState)
		}
		b[i] = byte(x)
		x >>= 8
	}
}

//go:nosplit
func simNext() uint64 {
	simst.rng += 0x9e3779b97f4a7c15
	return simMix(simst.rng)
}

// simDecide takes one decision with values 0..n-1; 0 is the default.
// want computes the seeded choice and is ignored in a scripted run.
//
//go:nosplit
func simRecord(v uint64) {
	if v != 0 {
		if simst.tn+2 <= len(simst.trace) {
			simst.trace[simst.tn] = simst.dec
			simst.trace[simst.tn+1] = v
			simst.tn += 2
		} else {
			simst.lost = true
		}
	}
	simst.hash = simMix(simst.hash ^ (simst.dec<<20 + v + 1))
	simst.dec++
}

//go:nosplit
func simScript() uint64 {
	s := simst.cfg.Script
	for simst.si < len(s) && s[simst.si] < simst.dec {
		simst.si += 2
	}
	if simst.si < len(s) && s[simst.si] == simst.dec {
		return s[simst.si+1]
	}
	return 0
}

// simPick chooses among the n runnable goroutines at the head of pp.runq.
func simPick(pp *p, h, n uint32) uint32 {
	if !simst.on || n < 2 {
		return 0
	}
	simst.picks++
	var v uint64
	if simst.cfg.Scripted {
		v = simScript() % uint64(n)
	} else {
		r := simNext()
		switch simst.cfg.Policy {
		case 1:
			if uint32(r&0xffff) < simst.cfg.PickNum {
				v = (r >> 16) % uint64(n)
			}
		case 2:
			if uint32(r&0xffff) < simst.cfg.EpochNum {
				simst.salt = simNext()
			}
			var best uint64
			for i := uint32(0); i < n; i++ {
				gp := pp.runq[(h+i)%uint32(len(pp.runq))].ptr()
				pr := simMix(gp.goid*0x9e3779b97f4a7c15 ^ simst.salt)
				if i == 0 || pr > best {
					best = pr
					v = uint64(i)
				}
			}
		case 3:
			if uint32(r&0xffff) < simst.cfg.PickNum {
				v = uint64(n - 1)
			}
		}
	}
	if v != 0 {
		simst.switches++
	}
	simRecord(v)
	return uint32(v)
}

func simSel(n uint32) uint32 {
	if !simst.on {
		return cheaprandn(n)
	}
	if n < 2 {
		return 0
	}
	var v uint64
	if simst.cfg.Scripted {
		v = simScript() % uint64(n)
	} else if simst.cfg.SelRandom {
		v = simNext() % uint64(n)
	}
	simRecord(v)
	// never the same case for ever: loops may rely on select being fair
	simst.sels++
	simst.since++
	if simst.since > simst.cfg.StepCap {
		simst.capHit = true
		simst.on = false
		panicSimCap()
	}
	return uint32((v + simMix(simst.sels*0x9e3779b97f4a7c15)) % uint64(n))
}

// SimYield is a preemption point. site identifies the code location.
func SimYield(site uint32) {
	if !simst.on {
		return
	}
	simYield(site, 0)
}

func simYield(site, min uint32) {
	simst.steps++
	simst.since++
	if simst.since > simst.cfg.StepCap {
		simst.capHit = true
		simst.on = false
		panicSimCap()
	}
	var v uint64
	if simst.cfg.Scripted {
		v = simScript()
	} else {
		r := simNext()
		num := simst.cfg.YieldNum
		if m := simst.cfg.HotMod; m > 0 && uint32(simMix(uint64(site)^0x5bd1e995))%m == simst.cfg.HotRem {
			num = simst.cfg.HotNum
		}
		if num < min {
			num = min
		}
		if uint32(r&0xffff) < num {
			v = 1
		}
		if simst.cfg.StallCap > 0 && !simst.stallOff && uint32((r>>16)&0xffffff) < simst.cfg.StallNum {
			simst.cfg.StallCap--
			v = 2 + (r>>40)%uint64(simst.cfg.StallMax)
		}
	}
	simRecord(v)
	if v == 0 {
		return
	}
	if v == 1 {
		mcall(goyield_m)
		return
	}
	if simst.stallOff {
		return
	}
	d := int64(v - 1)
	simst.stalls++
	simst.stallNs += d
	timeSleep(d)
}

var simMaps [128]struct {
	m     unsafe.Pointer
	gid   uint64
	write bool
}

// SimMap is a preemption point right before a goroutine accesses m. Another
// goroutine standing before an access of the same map, one of the two
// writing, means that nothing orders them: the Go runtime would, if it
// noticed, end the process.
func SimMap(site uint32, m any, write bool) {
	if !simst.on || simst.cfg.MapOff {
		return
	}
	e := efaceOf(&m)
	if e._type == nil || e._type.Kind() != abi.Map || e.data == nil {
		return
	}
	gid := getg().goid
	free := -1
	for i := range simMaps {
		s := &simMaps[i]
		if s.m == nil {
			if free < 0 {
				free = i
			}
		} else if s.m == e.data && s.gid != gid && (write || s.write) {
			if write && s.write {
				fatal("concurrent map writes")
			}
			fatal("concurrent map read and map write")
		}
	}
	if free < 0 {
		return
	}
	s := &simMaps[free]
	s.m, s.gid, s.write = e.data, gid, write
	simYield(site, simst.cfg.MapNum)
	s.m = nil
}

func panicSimCap() {
	throw("SIMCAP: step cap exceeded: the program spins without the clock advancing")
}

// SimY is v, with a preemption point between its evaluation and its use.
func SimY[T any](site uint32, v T) T {
	SimYield(site)
	return v
}

// SimSeed seeds every random stream that is not a scheduling decision.
func SimSeed(seed uint64) {
	simRandState = simMix(seed ^ 0xa0761d6478bd642f)
	simCheapState = simMix(seed ^ 0xe7037ed1a0b428db)
	simSysState = simMix(seed ^ 0x8ebc6af09c88c6e3)
	simOrderState = simMix(seed ^ 0x589965cc75374cc3)
}

// SimStart hands the scheduler over to cfg.
func SimStart(cfg SimConfig) {
	if cfg.TraceLimit == 0 {
		cfg.TraceLimit = 1 << 17
	}
	if cfg.StallMax <= 0 {
		cfg.StallMax = 1
	}
	if cfg.StepCap == 0 {
		cfg.StepCap = 1 << 25
	}
	simst.cfg = cfg
	simst.rng = simMix(cfg.Seed)
	simst.salt = simNext()
	simst.trace = make([]uint64, cfg.TraceLimit)
	// goroutines are numbered alike whatever ran before
	pp := getg().m.p.ptr()
	pp.goidcache, pp.goidcacheend = 0, 0
	sched.goidgen.Store(1 << 20)
	pp.schedtick = 0
	simst.on = true
}

// SimStop ends control; what follows runs FIFO.
func SimStop() { simst.on = false }

// SimNoStall ends stall injection (faults stop here).
func SimNoStall() { simst.stallOff = true }

// SimStats reports (decisions, picks, switches, steps, stalls, stall ns, digest).
func SimStats() (dec, picks, switches, steps, stalls uint64, stallNs int64, hash uint64) {
	return simst.dec, simst.picks, simst.switches, simst.steps, simst.stalls, simst.stallNs, simst.hash
}

// SimTrace is the list of non-default decisions taken.
func SimTrace() ([]uint64, bool) { return simst.trace[:simst.tn], simst.lost }

// SimStallNs is the total of injected stalls so far.
func SimStallNs() int64 { return simst.stallNs }

// SimWallJump moves the wall clock, and only it, by d nanoseconds.
func SimWallJump(d int64) { simst.wallOff += d }

// SimNow is the simulated monotonic clock.
func SimNow() int64 { return faketime }

// SimGoid identifies the calling goroutine.
func SimGoid() uint64 { return getg().goid }

// simTick is called when the clock moves.
//
//go:nosplit
func simTick() { simst.since = 0 }

// simDump writes the decision trace to descriptor 3 when the process dies.
//
//go:nowritebarrierrec
func simDump() {
	if simst.trace == nil {
		return
	}
	var hdr [4]uint64
	hdr[0] = 0x53494d54524143 // "SIMTRAC"
	hdr[1] = uint64(simst.tn)
	hdr[2] = simst.dec
	hdr[3] = uint64(faketime)
	write1(3, unsafe.Pointer(&hdr[0]), 32)
	if simst.tn > 0 {
		off := 0
		for off < simst.tn {
			n := simst.tn - off
			if n > 4096 {
				n = 4096
			}
			write1(3, unsafe.Pointer(&simst.trace[off]), int32(n*8))
			off += n
		}
	}
}
