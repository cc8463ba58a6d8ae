//go:build go1.23

// Package zsim is the deterministic simulator: one simulated operating-system
// process at a time runs inside this real process. Every goroutine of the code
// under test is a coroutine, every scheduling decision, timer, fault and random
// number comes from one seeded generator or from a recorded replay.
package zsim

import (
	"fmt"
	"iter"
	"math"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"unsafe"
)

// ---------------------------------------------------------------- randomness

// Rng is splitmix64.
type Rng struct{ s uint64 }

func NewRng(seed uint64) *Rng { return &Rng{s: seed} }

func (r *Rng) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}

func (r *Rng) Intn(n int) int {
	if n <= 0 {
		return 0
	}
	return int(r.U64() % uint64(n))
}

func (r *Rng) Float() float64 { return float64(r.U64()>>11) / (1 << 53) }

func (r *Rng) Bool(p float64) bool { return r.Float() < p }

// ---------------------------------------------------------------- decisions

// Sched is the scheduling part of a test case: either a seed and a policy, or
// an explicit list of deviations from the default decisions (replay).
type Sched struct {
	Seed    uint64     `json:"seed"`
	Policy  string     `json:"policy"`            // random sticky pct starve lifo rr
	Mean    int        `json:"mean,omitempty"`    // mean number of yield points between preemptions; 0 = none
	PTime   float64    `json:"ptime,omitempty"`   // probability of advancing the clock early at a scheduling point
	PDrop   float64    `json:"pdrop,omitempty"`   // probability that sync.Pool loses / shuffles an item
	Victims int        `json:"victims,omitempty"` // starve: bit set of goroutine ids (mod 16)
	PctD    int        `json:"pctd,omitempty"`    // pct: number of priority change points
	PctN    int        `json:"pctn,omitempty"`    // pct: estimated number of scheduling steps
	Replay  bool       `json:"replay,omitempty"`  // use the two lists below instead of seed and policy
	Dev     [][2]int64 `json:"dev,omitempty"`     // (decision number, value) where value != default
	Pre     []int64    `json:"pre,omitempty"`     // yield-point numbers at which the running goroutine is preempted
}

type decider struct {
	sc      Sched
	rng     *Rng
	n       int64 // number of decisions taken
	rec     [][2]int64
	pre     []int64
	replay  map[int64]int64
	prePos  int
	yTotal  int64
	pctPrio map[int]int64
	pctNext []int64
	pctLow  int64
	hash    uint64
	nz      int64
}

func newDecider(sc Sched) *decider {
	d := &decider{sc: sc, rng: NewRng(sc.Seed ^ 0x5ced5ced), hash: 1469598103934665603}
	if sc.Replay {
		d.replay = make(map[int64]int64, len(sc.Dev))
		for _, x := range sc.Dev {
			d.replay[x[0]] = x[1]
		}
	}
	if sc.Policy == "pct" {
		d.pctPrio = map[int]int64{}
		n := sc.PctN
		if n < 10 {
			n = 10
		}
		for i := 0; i < sc.PctD; i++ {
			d.pctNext = append(d.pctNext, int64(d.rng.Intn(n)))
		}
		sort.Slice(d.pctNext, func(i, j int) bool { return d.pctNext[i] < d.pctNext[j] })
	}
	return d
}

func (d *decider) mix(v uint64) {
	d.hash = (d.hash ^ v) * 1099511628211
	d.hash ^= d.hash >> 29
}

// choose returns a value in [0,n). pick is consulted only when not replaying.
func (d *decider) choose(kind uint64, n int64, pick func() int64) int64 {
	if n <= 1 {
		return 0
	}
	i := d.n
	d.n++
	var v int64
	if d.sc.Replay {
		v = d.replay[i]
		if v < 0 || v >= n {
			v = 0
		}
	} else {
		v = pick()
	}
	if v != 0 {
		d.rec = append(d.rec, [2]int64{i, v})
		d.nz++
	}
	d.mix(kind<<56 ^ uint64(v)<<8 ^ uint64(n))
	return v
}

const (
	kSched = iota + 1
	kSelect
	kTime
	kPool
	kMap
	kRand
	kOther
)

// Choose is for shims and harness code: uniform, default 0.
func Choose(n int) int {
	if P == nil {
		return 0
	}
	d := P.d
	return int(d.choose(kOther, int64(n), func() int64 { return int64(d.rng.Intn(n)) }))
}

// ---------------------------------------------------------------- goroutines

type killTok struct{}

type G struct {
	id     int
	next   func() (struct{}, bool)
	stop   func()
	yield  func(struct{}) bool
	state  int8 // 0 runnable 1 blocked 2 done
	wait   string
	since  int64 // step at which it became runnable
	stall  int64 // not scheduled before this simulated time
	daemon bool
	vc     vclock

	panicking bool // running deferred calls because of a panic
	panicN    int
	recovered bool // has recovered from a panic once: no longer tracked
}

// Fault is one injected event.
type Fault struct {
	Kind   string `json:"kind"`             // io shortread crash cancel key stall tsc drop
	Op     string `json:"op,omitempty"`     // io: open create read write seek close remove rename mmap munmap stat
	Path   string `json:"path,omitempty"`   // io/crash: suffix the path must have
	N      int64  `json:"n,omitempty"`      // io: nth matching operation; crash/cancel/key: step number; crash with Op: nth matching op
	Err    string `json:"err,omitempty"`    // io: EIO ENOSPC EMFILE EACCES EINTR
	Arg    int64  `json:"arg,omitempty"`    // bytes written before the failure/crash; key code; stall length
	G      int    `json:"g,omitempty"`      // stall: goroutine id
	Sticky bool   `json:"sticky,omitempty"` // io: all later matching operations fail too
}

func (f Fault) String() string {
	return fmt.Sprintf("%s op=%s path=%s n=%d err=%s arg=%d g=%d sticky=%v", f.Kind, f.Op, f.Path, f.N, f.Err, f.Arg, f.G, f.Sticky)
}

type faultState struct {
	Fault
	seen  int64
	fired int64
}

// Cfg is the environment of one simulated process.
type Cfg struct {
	Sched   Sched
	Faults  []Fault
	FS      *FS
	NumCPU  int
	FDLimit int
	Budget  int64 // yield-point budget; exceeding it is reported as a livelock
	TscMode int   // 0 smooth, 1 coarse/identical, 2 jumping, 3 about the overhead
	Cmd     string
	Shots   bool          // record what the terminal shows
	ScreenW int           // width of the terminal; 0: 80
	OnStep  func(p *Proc) // invariant hook, called between scheduling steps
	Trace   bool
	Poison  bool
	Record  *Trace // records what the process does to the disk
	Other   *Other // a second process at work on the same disk
	Pid     int
}

// Result is what the outside world sees of a finished simulated process.
type Result struct {
	Exit         int
	Panic        string // non-empty: the process died with this panic or fatal error
	Stack        string
	Stdout       string
	Stderr       string
	Hang         string // deadlock / livelock description
	Killed       bool   // injected crash
	Steps        int64
	Yields       int64
	Decs         int64
	NonDef       int64
	SimNs        int64
	Hash         uint64 // hash of all decisions taken (interleaving identity)
	Dev          [][2]int64
	Pre          []int64
	Ops          []FsOp
	Fired        map[string]int64
	Switches     int64
	MaxG         int
	OpenFiles    []string // files still open when the process ended
	LiveMaps     []string // mappings still live when the process ended
	MaxFD        int
	Probes       map[string]int64
	Cancelled    bool
	CancelAtStep int64
	Screens      int // terminals opened
	Shots        []Shot
	Heaps        []Heap   // with faults of kind "heap"
	HeapSamples  []int64  // at much the same distances in steps
	GSamples     []int    // goroutines at the same moments
	LiveScreens  int      // terminals not given back when the process ended
	Races        []string // with the tag zrace: unordered accesses of the same memory
	Accesses     int64
	SyncOps      int64
}

// OK reports a normal successful exit.
func (r *Result) OK() bool { return r.Exit == 0 && r.Panic == "" && r.Hang == "" && !r.Killed }

func (r *Result) Status() string {
	switch {
	case r.Killed:
		return "killed"
	case r.Hang != "":
		return "hang: " + r.Hang
	case r.Panic != "":
		return "panic: " + r.Panic
	default:
		return fmt.Sprintf("exit %d", r.Exit)
	}
}

type Proc struct {
	cfg        Cfg
	d          *decider
	fs         *FS
	gs         []*G
	runq       []*G // runnable, in wake order
	cur        *G
	last       *G
	main       *G
	ngo        int
	now        int64
	timers     timerHeap
	tseq       int64
	dead       bool
	over       bool
	exit       int
	panicV     string
	stack      string
	hang       string
	killed     bool
	steps      int64
	idle       int64
	early      int
	switches   int64
	chans      map[unsafe.Pointer]*chanState
	keyIDs     map[any]uint64
	stdout     strings.Builder
	stderr     strings.Builder
	args       []string
	faults     []*faultState
	fired      map[string]int64
	probes     map[string]int64
	ops        []FsOp
	open       map[*OsFile]int
	openSeq    int
	maxfd      int
	maps       map[*Mapping]int
	mapSeq     int
	tsc        uint64
	screens    []*Screen
	heap0      int64
	heapEvery  int64
	heapNext   int64
	samples    []int64
	gsamples   []int
	heaps      []Heap
	slow       string // operation that waits for a slow disk
	shots      []Shot
	slowN      int64
	ctxs       []*cancelCtx
	cancelled  bool
	cancelAt   int64
	countdown0 int64
	notify     []sigReg
	tmpSeq     int
	inHook     bool
	preLeft    int64
	preDue     bool
	forced     bool
	stepFaults bool
	cand       []*G
	race       *raceState
}

// P is the current simulated process (nil outside a simulation).
var P *Proc

// yield-point countdown: Y decrements, slow path on zero.
var countdown int64 = math.MaxInt64

// Y is a yield point: inserted before statements that touch memory other
// goroutines may see, and at the top of every loop body.
func Y() {
	countdown--
	if countdown <= 0 {
		ySlow()
	}
}

const yChunk = 20000

func ySlow() {
	p := P
	if p == nil || p.cur == nil {
		countdown = math.MaxInt64
		return
	}
	d := p.d
	d.yTotal += p.countdown0
	if p.dead {
		countdown, p.countdown0 = 1, 1
		panic(killTok{})
	}
	if d.yTotal > p.cfg.Budget {
		p.fatalHang(fmt.Sprintf("livelock: more than %d yield points without finishing", p.cfg.Budget))
		p.yieldOut()
		return
	}
	pre := false
	if d.sc.Replay {
		if d.prePos < len(d.sc.Pre) && d.sc.Pre[d.prePos] <= d.yTotal {
			d.prePos++
			pre = true
		}
	} else if d.sc.Mean > 0 {
		// chunks never exceed yChunk, so decide whether this is a real preemption
		pre = p.preDue
		p.preDue = false
	}
	if pre {
		d.pre = append(d.pre, d.yTotal)
	}
	p.rearm()
	if pre && len(p.runq) > 0 {
		p.preempt(true)
	}
}

func (p *Proc) rearm() {
	d := p.d
	n := int64(yChunk)
	if d.sc.Replay {
		if d.prePos < len(d.sc.Pre) {
			if k := d.sc.Pre[d.prePos] - d.yTotal; k < n {
				n = k
				if n < 1 {
					n = 1
				}
			}
		}
	} else if d.sc.Mean > 0 {
		if p.preLeft <= 0 {
			m := float64(d.sc.Mean)
			p.preLeft = 1 + int64(-m*math.Log(1-d.rng.Float()))
		}
		if p.preLeft <= n {
			n = p.preLeft
			p.preDue = true
		}
		p.preLeft -= n
	}
	countdown, p.countdown0 = n, n
}

// Go starts a simulated goroutine.
func Go(fn func()) {
	p := P
	if p == nil {
		panic("zsim: go statement outside a simulated process")
	}
	if p.dead {
		panic(killTok{})
	}
	p.spawn(fn)
	p.point()
}

func (p *Proc) spawn(fn func()) *G {
	g := &G{id: p.ngo, since: p.steps}
	p.ngo++
	seq := func(yield func(struct{}) bool) {
		g.yield = yield
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(killTok); ok {
					return
				}
				if p.dead {
					return
				}
				p.crash(r, string(debug.Stack()))
			}
		}()
		debug.SetPanicOnFault(true)
		if p.dead {
			return
		}
		fn()
	}
	p.hbSpawn(g)
	g.next, g.stop = iter.Pull(iter.Seq[struct{}](seq))
	p.gs = append(p.gs, g)
	p.runq = append(p.runq, g)
	return g
}

func (p *Proc) crash(r any, stack string) {
	if p.over {
		return
	}
	p.over = true
	p.exit = 2
	if e, ok := r.(error); ok {
		p.panicV = e.Error()
	} else {
		p.panicV = fmt.Sprint(r)
	}
	if p.panicV == "" {
		p.panicV = "(empty panic value)"
	}
	p.stack = stack
}

// Fatal models runtime.throw: the process dies, recover does not help.
func (p *Proc) fatal(msg string) {
	if !p.over {
		p.over = true
		p.exit = 2
		p.panicV = "fatal error: " + msg
		p.stack = string(debug.Stack())
	}
	p.dead = true
	panic(killTok{})
}

func (p *Proc) fatalHang(msg string) {
	if !p.over {
		p.over = true
		p.hang = msg
	}
}

// yieldOut gives control back to the scheduler; returns when rescheduled.
func (p *Proc) yieldOut() {
	g := p.cur
	if g == nil {
		panic("zsim: blocking operation outside a goroutine")
	}
	if p.dead || !g.yield(struct{}{}) || p.dead {
		panic(killTok{})
	}
}

// preempt puts the current goroutine back on the run queue and reschedules.
func (p *Proc) preempt(force bool) {
	g := p.cur
	p.forced = force
	g.since = p.steps
	p.runq = append(p.runq, g)
	p.yieldOut()
}

// point is a scheduling point before or after a synchronisation operation.
func (p *Proc) point() {
	if p.dead {
		panic(killTok{})
	}
	if p.cur == nil {
		return
	}
	p.steps++
	if p.over {
		p.preempt(false)
		return
	}
	if p.cur.panicking {
		if p.cur.panicN++; p.cur.panicN < 100000 {
			return
		}
	}
	if len(p.runq) == 0 && len(p.timers) == 0 && p.cfg.OnStep == nil && !p.stepFaults {
		return
	}
	p.preempt(false)
}

// PanicCheck runs right before every deferred call. A panic nobody recovers
// from kills the process within moments; that others finish the program in
// the middle of the unwinding is possible, but not a behaviour to judge
// anything by, so a panicking goroutine is not preempted.
func PanicCheck() {
	p := P
	if p == nil || p.dead || p.cur == nil || p.cur.recovered {
		return
	}
	g := p.cur
	g.panicking = false
	var pcs [48]uintptr
	for _, pc := range pcs[:runtime.Callers(2, pcs[:])] {
		if f := runtime.FuncForPC(pc - 1); f != nil && f.Name() == "runtime.gopanic" {
			g.panicking = true
			return
		}
	}
}

// Recovered is put around recover().
func Recovered(r any) any {
	if _, ok := r.(killTok); ok {
		panic(r)
	}
	if r != nil && P != nil && P.cur != nil {
		P.cur.panicking, P.cur.recovered = false, true
	}
	return r
}

// Point is exported for shims in other packages (mmap, tsc).
func Point() {
	if P != nil {
		P.point()
	}
}

func (p *Proc) park(why string) {
	g := p.cur
	if g == nil {
		panic("zsim: blocking operation (" + why + ") outside a simulated process")
	}
	g.state = 1
	g.wait = why
	p.yieldOut()
}

func (p *Proc) ready(g *G) {
	if g.state == 1 {
		g.state = 0
		g.wait = ""
		g.since = p.steps
		p.runq = append(p.runq, g)
	}
}

func (p *Proc) pickPolicy(c []*G) int64 {
	d := p.d
	n := len(c)
	// weak fairness: nothing runnable waits forever, and the longer the run the
	// less unfair it is (a periodic timer could keep the unfair policies busy)
	bound := int64(20000)
	if p.steps > 60_000 {
		bound = 200
	}
	for i, g := range c {
		if p.steps-g.since > bound && g != p.last {
			return int64(i)
		}
	}
	switch d.sc.Policy {
	case "sticky":
		if c[0] == p.last && !p.forced && d.rng.Float() < 0.85 {
			return 0
		}
		return int64(d.rng.Intn(n))
	case "rr":
		if c[0] == p.last && n > 1 {
			return 1
		}
		return 0
	case "lifo":
		if d.rng.Float() < 0.1 {
			return int64(d.rng.Intn(n))
		}
		return int64(n - 1)
	case "starve":
		var ok []int64
		for i, g := range c {
			if d.sc.Victims>>(uint(g.id)%16)&1 == 0 {
				ok = append(ok, int64(i))
			}
		}
		if len(ok) == 0 {
			return int64(d.rng.Intn(n))
		}
		return ok[d.rng.Intn(len(ok))]
	case "pct":
		for len(d.pctNext) > 0 && p.steps >= d.pctNext[0] {
			d.pctNext = d.pctNext[1:]
			if p.last != nil {
				d.pctLow--
				d.pctPrio[p.last.id] = d.pctLow
			}
		}
		best := int64(0)
		bp := int64(math.MinInt64)
		for i, g := range c {
			pr, ok := d.pctPrio[g.id]
			if !ok {
				pr = int64(d.rng.Intn(1 << 30))
				d.pctPrio[g.id] = pr
			}
			if p.forced && g == p.last {
				continue
			}
			if pr > bp {
				bp, best = pr, int64(i)
			}
		}
		return best
	default: // random
		return int64(d.rng.Intn(n))
	}
}

// RunProcess runs fn as main() of a fresh simulated process until it exits,
// crashes, hangs or is killed.
func RunProcess(cfg Cfg, args []string, fn func()) *Result {
	if P != nil {
		panic("zsim: nested process")
	}
	if cfg.Budget == 0 {
		cfg.Budget = 200_000_000
	}
	if cfg.NumCPU == 0 {
		cfg.NumCPU = 4
	}
	if cfg.FDLimit == 0 {
		cfg.FDLimit = 1024
	}
	p := &Proc{
		cfg: cfg, d: newDecider(cfg.Sched), fs: cfg.FS, args: args,
		chans: map[unsafe.Pointer]*chanState{}, keyIDs: map[any]uint64{},
		fired: map[string]int64{}, probes: map[string]int64{},
		open: map[*OsFile]int{}, maps: map[*Mapping]int{},
		tsc: 1_000_000,
	}
	if p.fs == nil {
		p.fs = NewFS()
	}
	for _, f := range cfg.Faults {
		ff := &faultState{Fault: f}
		p.faults = append(p.faults, ff)
		switch f.Kind {
		case "heap":
			p.heapEvery = 4
			runtime.GC()
			runtime.GC() // pools keep what they hold for two
			p.heap0 = p.heapNow()
		case "cancel", "key", "stall", "resize":
			p.stepFaults = true
		case "crash":
			if f.Op == "" {
				p.stepFaults = true
			}
		}
	}
	P = p
	defer func() { P = nil; countdown = math.MaxInt64 }()
	p.rearm()
	resetGlobals()
	p.hbStart()
	p.main = p.spawn(func() {
		fn()
		p.point()
		if !p.over {
			p.over = true
		}
	})
	p.loop()
	p.unwind()
	res := p.result()
	p.hbEnd(res)
	return res
}

func (p *Proc) loop() {
	for !p.over {
		if p.cfg.OnStep != nil && !p.inHook {
			p.inHook = true
			p.cfg.OnStep(p)
			p.inHook = false
		}
		if p.heapEvery > 0 && p.steps >= p.heapNext {
			p.sampleHeap()
		}
		if p.stepFaults {
			p.fireStepFaults()
			if p.over {
				return
			}
		}
		p.now += 1000
		for len(p.timers) > 0 && p.timers[0].when <= p.now {
			p.fireTimer()
		}
		if len(p.timers) > 0 && p.d.sc.PTime > 0 {
			d := p.d
			if d.choose(kTime, 2, func() int64 {
				if p.early < 300 && d.rng.Float() < d.sc.PTime {
					p.early++
					return 1
				}
				return 0
			}) == 1 {
				p.fireTimer()
			}
		}
		// candidates, the last running goroutine first
		c := p.cand[:0]
		if p.last != nil && !p.forced {
			for _, g := range p.runq {
				if g == p.last && g.stall <= p.now {
					c = append(c, g)
				}
			}
		}
		minStall := int64(math.MaxInt64)
		for _, g := range p.runq {
			if g.stall > p.now {
				if g.stall < minStall {
					minStall = g.stall
				}
				continue
			}
			if len(c) > 0 && g == c[0] && g == p.last && !p.forced {
				continue
			}
			c = append(c, g)
		}
		p.cand = c
		if len(c) == 0 {
			if len(p.timers) > 0 && p.timers[0].when <= minStall {
				p.idle++
				if p.idle > 5000 {
					p.fatalHang("no progress: only timers fire; " + p.describe())
					return
				}
				p.fireTimer()
				continue
			}
			if minStall != math.MaxInt64 {
				p.now = minStall
				continue
			}
			p.fatalHang("deadlock: all goroutines are asleep; " + p.describe())
			return
		}
		var k int64
		if len(c) > 1 {
			k = p.d.choose(kSched, int64(len(c)), func() int64 { return p.pickPolicy(c) })
		}
		p.forced = false
		g := c[k]
		for i, x := range p.runq {
			if x == g {
				p.runq = append(p.runq[:i], p.runq[i+1:]...)
				break
			}
		}
		if g != p.last {
			p.switches++
			p.d.mix(uint64(g.id)<<32 | uint64(p.steps)&0xffffffff)
		}
		p.last = g
		p.cur = g
		if _, alive := g.next(); !alive {
			g.state = 2
			for i, x := range p.gs {
				if x == g {
					p.gs = append(p.gs[:i], p.gs[i+1:]...)
					break
				}
			}
			if !p.over && g != p.main {
				p.idle = 0
			}
		}
		p.cur = nil
	}
}

func (p *Proc) describe() string {
	var s []string
	for _, g := range p.gs {
		if g.state == 1 {
			n := fmt.Sprintf("g%d", g.id)
			if g == p.main {
				n = "main"
			}
			s = append(s, n+" blocked on "+g.wait)
		}
	}
	return strings.Join(s, ", ")
}

func (p *Proc) unwind() {
	p.dead = true
	countdown, p.countdown0 = 1, 1
	for _, g := range p.gs {
		p.cur = g
		func() {
			defer func() { _ = recover() }()
			g.stop()
		}()
	}
	p.cur = nil
}

func (p *Proc) result() *Result {
	r := &Result{
		Exit: p.exit, Panic: p.panicV, Stack: p.stack, Stdout: p.stdout.String(), Stderr: p.stderr.String(),
		Hang: p.hang, Killed: p.killed, Steps: p.steps, Yields: p.d.yTotal, Decs: p.d.n, NonDef: p.d.nz,
		SimNs: p.now, Hash: p.d.hash, Dev: p.d.rec, Pre: p.d.pre, Ops: p.ops, Fired: p.fired,
		Switches: p.switches, MaxG: p.ngo, MaxFD: p.maxfd, Probes: p.probes, Cancelled: p.cancelled, CancelAtStep: p.cancelAt,
	}
	r.Screens, r.Shots, r.Heaps = len(p.screens), p.shots, p.heaps
	r.HeapSamples, r.GSamples = p.samples, p.gsamples
	for _, s := range p.screens {
		if s.Live() {
			r.LiveScreens++
		}
	}
	for f := range p.open {
		r.OpenFiles = append(r.OpenFiles, f.name)
	}
	sort.Strings(r.OpenFiles)
	for m := range p.maps {
		if m.live {
			r.LiveMaps = append(r.LiveMaps, m.name)
		}
		m.release()
	}
	sort.Strings(r.LiveMaps)
	return r
}

// Exit models os.Exit: no deferred functions run.
func OsExit(code int) {
	p := P
	if p == nil || p.cur == nil {
		panic("zsim: os.Exit outside a process")
	}
	if !p.over {
		p.over = true
		p.exit = code
	}
	for {
		p.yieldOut()
	}
}

// Goexit models runtime.Goexit.
func Goexit() { panic(killTok{}) }

func (p *Proc) kill() {
	p.over = true
	p.killed = true
	p.exit = 137
}

func (p *Proc) fireStepFaults() {
	for _, f := range p.faults {
		if f.fired > 0 || p.steps < f.N {
			continue
		}
		switch f.Kind {
		case "crash":
			if f.Op == "" {
				f.fired++
				p.fired["crash"]++
				p.kill()
				return
			}
		case "cancel":
			// cancel every cancellable context of the process, as Ctrl-C in the UI does
			if len(p.ctxs) > 0 {
				f.fired++
				p.fired["cancel"]++
				p.cancelled = true
				p.cancelAt = p.steps
				for _, c := range p.ctxs {
					c.cancelNow(ctxCanceled)
				}
			}
		case "key", "resize":
			if len(p.screens) > 0 && p.screens[0].inited && !p.screens[0].fini {
				f.fired++
				p.fired[f.Kind]++
				p.screens[0].inject(f.Kind, int(f.Arg))
			}
		case "stall":
			for _, g := range p.gs {
				if g.id == f.G {
					f.fired++
					p.fired["stall"]++
					g.stall = p.now + f.Arg
				}
			}
		}
	}
}

// Probe counts a rare condition.
func Probe(name string) {
	if P != nil {
		P.probes[name]++
	}
}

func (p *Proc) Steps() int64       { return p.steps }
func (p *Proc) Now() int64         { return p.now }
func (p *Proc) Kill()              { p.kill() }
func (p *Proc) Screens() []*Screen { return p.screens }
func (p *Proc) CancelAll() {
	p.cancelled = true
	for _, c := range p.ctxs {
		c.cancelNow(ctxCanceled)
	}
}

// ---------------------------------------------------------------- globals

var resets []func()

// RegisterReset is called by instrumented packages, in dependency order.
func RegisterReset(f func()) { resets = append(resets, f) }

func resetGlobals() {
	for _, f := range resets {
		f()
	}
}
