package props

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math"
	"os"
	osexec "os/exec"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{
		ID:   "C20",
		Race: true,
		Families: []core.Family{
			{Name: "cold", Quick: 160, Thorough: 2400, Run: c20Cold},
			{Name: "forward", Quick: 1200, Thorough: 40000, Run: c20Forward},
			{Name: "hot", Quick: 1200, Thorough: 40000, Run: c20Hot},
			{Name: "graphs", Quick: 1000, Thorough: 30000, Run: c20Graphs},
			{Name: "mixed", Quick: 800, Thorough: 24000, Run: c20Mixed},
			{Name: "train", Quick: 300, Thorough: 8000, Run: c20Train},
			{Name: "large", Quick: 60, Thorough: 1500, Run: c20Large},
			{Name: "random", Quick: 300, Thorough: 8000, Run: c20Random},
		},
		Rule: "concurrent programs of 2 to 300 goroutines under the Go race detector: the same or different forward programs (every operation, reducer, accessor, constructor, activation, FC layer, loss, metric, rejected calls) over shared leaves, shared computed tensors, shared tracked parameters and spent parameters, shared layer / loss objects, shared argument slices; graphs that share only untracked tensors built and back-propagated concurrently, alone and while other goroutines run forward over shared tracked parameters; training loops; concurrent random constructors and initializers; " +
			"GOMAXPROCS 1 to 16, lock-step and free-running schedules with random yields and delays; every result (values read by the goroutine, values read again after the join, gradients of graphs built concurrently) compared with a sequential run of the same computation; cold cases run in fresh processes, so that the first use of every operation is concurrent, and are compared with a sequential fresh process; distinct = distinct program structure and schedule parameters",
		Assumptions: []string{
			"the race detector reports only races on executed paths; a race hidden by synchronisation on all executed schedules is not seen",
			"a deadlock is reported when every goroutine of the process is blocked on a synchronisation primitive in two consistent stack snapshots",
		},
		MinEvents: map[string]uint64{"steps": 50000, "same_operand_overlaps": 5000, "goroutines": 8000, "bp": 3000, "cold_processes": 200, "random_tensors": 3000},
	})
}

// cstep is one step of a goroutine: a tensor operation (obs == "") or an observation.
type cstep struct {
	in  prog.Ins
	obs string
	ids []int // operands of an observation
	ix  []int
	pre []tensor.Range
	k   int
}

func (s *cstep) String() string {
	if s.obs == "" {
		return s.in.String()
	}
	return fmt.Sprintf("%s%v%v/%d", s.obs, s.ids, s.ix, s.k)
}

func (s *cstep) operands() []int {
	if s.obs == "" {
		return s.in.A
	}
	return s.ids
}

// scen is a concurrent program.
type scen struct {
	base   []prog.Ins
	spend  []int // base roots back-propagated before the goroutines start
	gs     [][]*cstep
	procs  int
	step   bool // lock-step
	yield  int  // 1/yield probability of a yield between steps (0: never)
	spin   int
	data2  [][]float64
	data1  []float64
	dims   []int
	conf   *tensor.Config
	post   [][2]int // (goroutine, id) roots back-propagated after the join
	shared bool     // shared component objects
	nobj   int
	ref    []*prog.Builder // reference values per goroutine
	refOff int
}

// outc is one observed outcome.
type outc struct {
	L string    `json:"l"`
	S []int     `json:"s,omitempty"`
	V []float64 `json:"-"`
	X []string  `json:"x,omitempty"` // hex values, for transport
	E string    `json:"e,omitempty"`
}

func (o *outc) pack() {
	for _, v := range o.V {
		o.X = append(o.X, fmt.Sprintf("%x", math.Float64bits(v)))
	}
}

func (o *outc) unpack() {
	o.V = make([]float64, len(o.X))
	for i, x := range o.X {
		var u uint64
		fmt.Sscanf(x, "%x", &u)
		o.V[i] = math.Float64frombits(u)
	}
}

// sameOut compares two outcomes; values may differ by rounding (a library that sums in parallel).
func sameOut(a, b *outc) string {
	if a.L != b.L {
		return fmt.Sprintf("%s instead of %s", a.L, b.L)
	}
	if (a.E == "") != (b.E == "") {
		return fmt.Sprintf("%s: outcome %q instead of %q", a.L, a.E, b.E)
	}
	if strings.HasPrefix(a.E, "panic") != strings.HasPrefix(b.E, "panic") {
		return fmt.Sprintf("%s: outcome %q instead of %q", a.L, a.E, b.E)
	}
	if !prog.SameShape(a.S, b.S) || len(a.V) != len(b.V) {
		return fmt.Sprintf("%s: shape %v instead of %v", a.L, a.S, b.S)
	}
	sc := 0.
	for i := range b.V {
		if x := math.Abs(b.V[i]); x > sc && !math.IsInf(x, 0) {
			sc = x
		}
	}
	for i := range a.V {
		if !prog.SameBits(a.V[i], b.V[i]) && !prog.Close(a.V[i], b.V[i], 1e-11*sc) {
			return fmt.Sprintf("%s: element %d is %v instead of %v", a.L, i, a.V[i], b.V[i])
		}
	}
	return ""
}

// world is one execution of a scenario.
type world struct {
	s    *scen
	base []tensor.Tensor
	objs map[string]any
	ts   [][]tensor.Tensor // per goroutine: base followed by own tensors
	out  [][]outc
	tm   [][][2]int64
	err  string
}

func objKey(in prog.Ins) string {
	k := fmt.Sprintf("%s/%v/%d/%v", in.Op, in.F, in.I, in.RNil)
	if in.Op == "FC" {
		k += fmt.Sprint(in.A[:2])
	}
	return k
}

func isComp(op string) bool {
	for _, o := range prog.CompOps {
		if o == op {
			return true
		}
	}
	return false
}

// newWorld builds the shared tensors and objects.
func newWorld(s *scen) *world {
	w := &world{s: s, objs: map[string]any{}}
	for i, in := range s.base {
		t, err := prog.Apply(in, w.base, nil)
		if err != nil || t == nil {
			w.err = fmt.Sprintf("shared t%d=%s failed: %v", i, in, err)
			return w
		}
		w.base = append(w.base, t)
	}
	for _, id := range s.spend {
		if err := tensor.BackPropagate(w.base[id]); err != nil {
			w.err = fmt.Sprintf("BackPropagate(t%d) failed: %v", id, err)
			return w
		}
	}
	for _, g := range s.gs {
		for _, st := range g {
			in := st.in
			if st.obs != "" || !isComp(in.Op) || !s.shared {
				continue
			}
			k := objKey(in)
			if w.objs[k] != nil {
				continue
			}
			switch in.Op {
			case "FC":
				if in.A[0] < len(s.base) && in.A[1] < len(s.base) {
					w.objs[k] = &layers.FC{Weight: w.base[in.A[0]], Bias: w.base[in.A[1]]}
				}
			case "MSE":
				w.objs[k] = newLoss(0)
			case "BCE":
				w.objs[k] = newLoss(1)
			case "CE":
				w.objs[k] = newLoss(2)
			default:
				a, err := prog.Activation(in)
				if err != nil {
					w.err = fmt.Sprintf("%s: %v", in, err)
					return w
				}
				w.objs[k] = a
			}
		}
	}
	n := len(s.gs)
	w.ts = make([][]tensor.Tensor, n)
	w.out = make([][]outc, n)
	w.tm = make([][][2]int64, n)
	for g := range s.gs {
		w.ts[g] = append([]tensor.Tensor{}, w.base...)
		w.tm[g] = make([][2]int64, 0, len(s.gs[g]))
	}
	return w
}

func scal(v float64) *outc { return &outc{V: []float64{v}} }

// do executes one step for goroutine g.
func (w *world) do(g, k int, st *cstep) (o outc) {
	ts := w.ts[g]
	defer func() {
		if p := recover(); p != nil {
			o.E = "panic: " + fmt.Sprint(p)
			if st.obs == "" && len(w.ts[g]) == len(ts) {
				w.ts[g] = append(w.ts[g], nil)
			}
		}
		o.L = fmt.Sprintf("goroutine %d step %d %s", g, k, st)
	}()
	a := func(i int) tensor.Tensor { return ts[st.ids[i]] }
	tens := func(t tensor.Tensor, err error) {
		if err != nil {
			o.E = "error: " + err.Error()
			return
		}
		s, v, err := prog.Read(t)
		if err != nil {
			o.E = "unreadable: " + err.Error()
		}
		o.S, o.V = s, v
	}
	if st.obs == "" {
		var t tensor.Tensor
		var err error
		in := st.in
		obj := w.objs[objKey(in)]
		switch {
		case obj != nil && isComp(in.Op):
			switch x := obj.(type) {
			case *layers.FC:
				t, err = x.Forward(ts[in.A[2]])
			case losser:
				t, err = x.Compute(ts[in.A[0]], ts[in.A[1]])
			case forwarder:
				t, err = x.Forward(ts[in.A[0]])
			}
		case in.Op == "Reshape":
			t, err = ts[in.A[0]].Reshape(in.D) // the very slice other goroutines pass
		case in.Op == "Broadcast":
			t, err = ts[in.A[0]].Broadcast(in.D)
		case in.Op == "Slice" && !in.RNil:
			t, err = ts[in.A[0]].Slice(st.pre)
		case in.Op == "Patch" && !in.RNil:
			t, err = ts[in.A[0]].Patch(st.pre, ts[in.A[1]])
		default:
			in.Cut = 0
			t, err = prog.Apply(in, ts, nil)
		}
		if in.Cut > 0 && err == nil && t != nil {
			t.ResetGradContext(in.Cut == 1)
		}
		w.ts[g] = append(w.ts[g], t)
		tens(t, err)
		return
	}
	switch st.obs {
	case "At":
		v, err := a(0).At(st.ix...)
		if err != nil {
			o.E = "error"
		}
		o.V = []float64{v}
	case "Sum":
		o = *scal(a(0).Sum())
	case "Max":
		o = *scal(a(0).Max())
	case "Min":
		o = *scal(a(0).Min())
	case "Avg":
		o = *scal(a(0).Avg())
	case "Var":
		o = *scal(a(0).Var())
	case "Std":
		o = *scal(a(0).Std())
	case "Mean":
		o = *scal(a(0).Mean())
	case "NElems":
		o = *scal(float64(a(0).NElems()))
	case "Shape":
		s := a(0).Shape()
		o.S = append([]int{}, s...)
		o.V = make([]float64, ref.Prod(o.S))
		for i := range s { // the caller's own copy
			s[i] = -1 - g
		}
	case "Equals":
		b, err := a(0).Equals(a(1))
		if err != nil {
			o.E = "error"
		}
		o.V = []float64{0}
		if b {
			o.V[0] = 1
		}
	case "Read":
		tens(a(0), nil)
	case "ConcatShared": // the very slice of shared tensors other goroutines pass
		tens(tensor.Concat(w.base[:st.k], st.ix[0]))
	case "Acc":
		m := metrics.NewAccuracy()
		err := m.Accumulate(a(0), a(1))
		if err == nil {
			var v float64
			v, err = m.Result()
			o.V = []float64{v}
		}
		if err != nil {
			o.E = "error"
		}
	case "Input":
		l := &layers.Input{SeedFunc: func() tensor.Tensor { return a(0) }}
		tens(l.Forward())
	case "New":
		s := w.s
		switch st.k {
		case 0:
			tens(tensor.TensorOf(s.data2, s.conf))
		case 1:
			tens(tensor.TensorOf(s.data1, s.conf))
		case 2:
			tens(tensor.Full(s.dims, 1.5, s.conf))
		case 3:
			tens(tensor.Zeros(s.dims, s.conf))
		case 4:
			tens(tensor.Ones(s.dims, nil))
		case 5:
			tens(tensor.Eye(3, s.conf))
		case 6:
			in := initializers.NewFull(&initializers.FullConfig{Value: 2.5})
			tens(in.Init(s.dims))
		case 7:
			fc, err := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 3, Initializers: map[string]layers.Initializer{
				"Weight": initializers.NewFull(nil), "Bias": initializers.NewFull(&initializers.FullConfig{Value: 0.5})}})
			if err != nil {
				tens(nil, err)
				break
			}
			x, err := tensor.Ones([]int{2, 2}, nil)
			if err != nil {
				tens(nil, err)
				break
			}
			tens(fc.Forward(x))
		}
	case "Rand": // only the shape is comparable
		var t tensor.Tensor
		var err error
		var in layers.Initializer
		switch st.k {
		case 0:
			t, err = tensor.RandU(w.s.dims, 0, 1, w.s.conf)
		case 1:
			t, err = tensor.RandN(w.s.dims, 0, 1, w.s.conf)
		case 2:
			in, err = initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: 2, FanOut: 3})
		case 3:
			in, err = initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: 2})
		case 4:
			in, err = initializers.NewUniform(nil)
		case 5:
			in, err = initializers.NewNormal(nil)
		}
		if st.k > 1 && err == nil {
			t, err = in.Init(w.s.dims)
		}
		tens(t, err)
		o.V = nil
	case "Bad":
		switch st.k {
		case 0:
			tens(a(0).Reshape([]int{ref.Prod(a(0).Shape()) + 1}))
		case 1:
			tens(a(0).UnSqueeze(-1))
		case 2:
			tens(a(0).SumAlong(99))
		case 3:
			tens(a(0).Broadcast([]int{0}))
		case 4:
			_, err := a(0).At(1, 2, 3, 4, 5, 6, 7, 8, 9)
			tens(nil, err)
		case 5:
			tens(newLoss(0).Compute(a(0), nil))
		case 6:
			tens(tensor.TensorOf([][]float64{{1, 2}, {1}}, w.s.conf))
		case 7:
			tens((&layers.FC{Weight: a(0), Bias: a(0)}).Forward())
		case 8:
			_, err := layers.NewFC(&layers.FCConfig{Inputs: 0, Outputs: 3})
			tens(nil, err)
		case 9:
			tens(a(0).MatMul(nil))
		}
	case "BP":
		if err := tensor.BackPropagate(a(0)); err != nil {
			o.E = "error: " + err.Error()
		}
	case "Reset":
		a(0).ResetGradContext(st.k == 1)
	case "Grad":
		gr := a(0).Gradient()
		if gr == nil {
			o.E = "no gradient"
			return
		}
		tens(gr, nil)
	default:
		panic("harness: unknown observation " + st.obs)
	}
	return
}

// certify reports a deadlock: every goroutine but the caller is blocked on a synchronisation primitive.
func certify() (string, bool) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	blocked := []string{"semacquire", "sync.Mutex.Lock", "sync.RWMutex.Lock", "sync.RWMutex.RLock", "sync.Cond.Wait", "sync.WaitGroup.Wait", "chan receive", "chan send", "select"}
	var ids []string
	for i, blk := range strings.Split(string(buf), "\n\n") {
		if i == 0 { // the caller
			continue
		}
		head, _, _ := strings.Cut(blk, "\n")
		a, b := strings.Index(head, "["), strings.LastIndex(head, "]")
		if a < 0 || b < a {
			return "", false
		}
		state := head[a+1 : b]
		ok := false
		for _, s := range blocked {
			if strings.HasPrefix(state, s) {
				ok = true
			}
		}
		if !ok {
			return "", false
		}
		ids = append(ids, head[:a])
	}
	return strings.Join(ids, ","), true
}

// join waits for the goroutines; it reports a certified deadlock.
func join(wg *sync.WaitGroup) (dead string) {
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	prev := ""
	for n := 0; ; n++ {
		tm := time.NewTimer(4 * time.Second)
		select {
		case <-done:
			tm.Stop()
			return ""
		case <-tm.C:
		}
		if n < 2 {
			continue
		}
		ids, ok := certify()
		if ok && ids == prev && ids != "" {
			buf := make([]byte, 1<<16)
			return string(buf[:runtime.Stack(buf, true)])
		}
		prev = ""
		if ok {
			prev = ids
		}
	}
}

// run executes the goroutines of the scenario.
func (w *world) run(conc bool, seed uint64) (dead string) {
	s := w.s
	if !conc {
		for g := range s.gs {
			for k, st := range s.gs[g] {
				w.out[g] = append(w.out[g], w.do(g, k, st))
			}
		}
		return ""
	}
	old := runtime.GOMAXPROCS(s.procs)
	defer runtime.GOMAXPROCS(old)
	start := make(chan struct{})
	var wg sync.WaitGroup
	var bar *barrier
	if s.step {
		bar = newBarrier(len(s.gs))
	}
	t0 := time.Now()
	for g := range s.gs {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			r := core.NewR(core.Hash(seed, uint64(g)))
			out := make([]outc, 0, len(s.gs[g]))
			defer func() { w.out[g] = out }()
			<-start
			sink := 0
			for i, n := 0, r.Int(s.spin+1); i < n; i++ {
				sink += i
			}
			_ = sink
			for k, st := range s.gs[g] {
				if bar != nil {
					bar.wait()
				} else if s.yield > 0 && r.P(s.yield) {
					if r.P(8) {
						time.Sleep(time.Duration(r.Int(60)) * time.Microsecond)
					} else {
						runtime.Gosched()
					}
				}
				a := time.Since(t0)
				o := w.do(g, k, st)
				w.tm[g] = append(w.tm[g], [2]int64{int64(a), int64(time.Since(t0))})
				out = append(out, o)
			}
			if bar != nil {
				bar.leave()
			}
		}(g)
	}
	close(start)
	return join(&wg)
}

// barrier is a reusable barrier whose members may leave.
type barrier struct {
	mu  sync.Mutex
	c   *sync.Cond
	n   int
	at  int
	gen int
}

func newBarrier(n int) *barrier {
	b := &barrier{n: n}
	b.c = sync.NewCond(&b.mu)
	return b
}

func (b *barrier) wait() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.at++
	if b.at == b.n {
		b.at = 0
		b.gen++
		b.c.Broadcast()
		return
	}
	for g := b.gen; g == b.gen; {
		b.c.Wait()
	}
}

func (b *barrier) leave() {
	b.mu.Lock()
	defer b.mu.Unlock()
	b.n--
	if b.n > 0 && b.at == b.n {
		b.at = 0
		b.gen++
		b.c.Broadcast()
	}
}

// outcomes lists everything observed: the steps, a second reading of every tensor after the join, the shared
// tensors, and the gradients of graphs back-propagated after the join.
func (w *world) outcomes() (os []outc) {
	add := func(l string, t tensor.Tensor) {
		o := outc{L: l}
		if t == nil {
			o.E = "nil"
		} else if s, v, err := prog.Read(t); err != nil {
			o.E = "unreadable: " + err.Error()
		} else {
			o.S, o.V = s, v
		}
		os = append(os, o)
	}
	for g := range w.out {
		os = append(os, w.out[g]...)
	}
	nb := len(w.base)
	for g := range w.ts {
		for i := nb; i < len(w.ts[g]); i++ {
			add(fmt.Sprintf("after the join: goroutine %d t%d", g, i), w.ts[g][i])
		}
	}
	for i, t := range w.base {
		add(fmt.Sprintf("after the join: shared t%d", i), t)
		o := outc{L: fmt.Sprintf("after the join: gradient of shared t%d", i)}
		if g := t.Gradient(); g == nil {
			o.E = "nil"
		} else {
			o.S, o.V, _ = prog.Read(g)
		}
		os = append(os, o)
	}
	for _, p := range w.s.post {
		g, id := p[0], p[1]
		if id >= len(w.ts[g]) || w.ts[g][id] == nil {
			continue
		}
		o := outc{L: fmt.Sprintf("BackPropagate(goroutine %d t%d) after the join", g, id)}
		if err := tensor.BackPropagate(w.ts[g][id]); err != nil {
			o.E = "error"
		}
		os = append(os, o)
		for i, t := range w.ts[g] {
			if t == nil {
				continue
			}
			o := outc{L: fmt.Sprintf("gradient of t%d after BackPropagate(goroutine %d t%d)", i, g, id)}
			if gr := t.Gradient(); gr == nil {
				o.E = "nil"
			} else {
				o.S, o.V, _ = prog.Read(gr)
			}
			os = append(os, o)
		}
	}
	return os
}

// refMismatch compares the goroutines' values with the reference model; only used to decide whether a fresh
// sequential process has to be asked.
func (w *world) refMismatch() bool {
	for g, b := range w.s.ref {
		if b == nil {
			continue
		}
		for i := len(w.base); i < len(w.ts[g]) && i < len(b.T); i++ {
			t := w.ts[g][i]
			if t == nil {
				return true
			}
			_, v, err := prog.Read(t)
			x := b.T[i]
			if err != nil || len(v) != len(x.N) {
				return true
			}
			for j, n := range x.N {
				if !prog.Close(v[j], b.Tape.Val[n], b.Tape.Err[n]*4+1e-9*(1+math.Abs(b.Tape.Val[n]))) {
					return true
				}
			}
		}
	}
	return false
}

// overlaps measures how concurrent the run was.
func (w *world) overlaps(c *core.Ctx) (sig uint64) {
	type ev struct {
		a, b int64
		g, k int
	}
	var es []ev
	for g := range w.tm {
		for k, t := range w.tm[g] {
			es = append(es, ev{t[0], t[1], g, k})
		}
	}
	sort.Slice(es, func(i, j int) bool { return es[i].a < es[j].a })
	nb := len(w.base)
	pairs, same := 0, 0
	for i := range es {
		for j := i + 1; j < len(es) && es[j].a < es[i].b; j++ {
			if es[i].g == es[j].g {
				continue
			}
			pairs++
			x, y := w.s.gs[es[i].g][es[i].k].operands(), w.s.gs[es[j].g][es[j].k].operands()
		match:
			for _, p := range x {
				for _, q := range y {
					if p == q && p < nb {
						same++
						break match
					}
				}
			}
		}
		sig = core.Hash(sig, uint64(es[i].g), uint64(es[i].k))
	}
	c.Count("overlapping_steps", pairs)
	c.Count("same_operand_overlaps", same)
	return sig
}

// fresh runs one mode of the case in a fresh process and returns its outcomes.
func fresh(c *core.Ctx, mode string) (os_ []outc) {
	self, err := os.Executable()
	if err != nil {
		c.Violate("harness: %v", err)
	}
	cmd := osexec.Command(self, "-prop", c.Prop, "-tier", c.Tier, "-seed", fmt.Sprint(c.Seed), "-one", fmt.Sprintf("%s:%d", c.Family, c.Idx), "-mode", mode)
	var out, er bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &er
	err = cmd.Run()
	c.Count("cold_processes", 1)
	if strings.Contains(er.String(), "WARNING: DATA RACE") {
		s := er.String()
		s = s[strings.Index(s, "WARNING: DATA RACE"):]
		if len(s) > 5000 {
			s = s[:5000]
		}
		c.Detail(func() string { return s })
		c.Violate("data race reported by the Go race detector (first use in a fresh process)")
	}
	if err != nil {
		e := er.String()
		if len(e) > 3000 {
			e = e[:3000]
		}
		if strings.Contains(fmt.Sprint(err), "killed") {
			c.Count("killed_from_outside", 1)
			return nil
		}
		c.Violate("fresh process (%s) failed: %v: %s %s", mode, err, tail(out.String(), 1500), e)
	}
	if err := json.Unmarshal(out.Bytes(), &os_); err != nil {
		c.Violate("harness: fresh process output: %v", err)
	}
	for i := range os_ {
		os_[i].unpack()
	}
	return os_
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

func emit(os_ []outc) {
	for i := range os_ {
		os_[i].pack()
	}
	b, _ := json.Marshal(os_)
	_, _ = os.Stdout.Write(b)
}

func compare(c *core.Ctx, what string, got, want []outc) {
	if len(got) != len(want) {
		c.Violate("%s: %d outcomes instead of %d", what, len(got), len(want))
	}
	for i := range got {
		if d := sameOut(&got[i], &want[i]); d != "" {
			c.Violate("%s: %s", what, d)
		}
	}
}

// judge runs the scenario concurrently and sequentially.
func (s *scen) judge(c *core.Ctx) {
	for _, g := range s.gs {
		for _, st := range g {
			if st.obs == "" && (st.in.Op == "Slice" || st.in.Op == "Patch") && st.pre == nil && !st.in.RNil {
				st.pre = prog.Ranges(st.in.R, false)
			}
		}
	}
	c.Detail(func() string { return s.String() })
	seed := core.Hash(c.Seed, uint64(c.Idx), 20)
	if core.Mode != "" {
		w := newWorld(s)
		if w.err == "" {
			if dead := w.run(core.Mode == "conc", seed); dead != "" {
				c.Violate("the goroutines are deadlocked: %s", dead)
			}
			emit(w.outcomes())
		} else {
			emit([]outc{{L: "setup", E: w.err}})
		}
		return
	}
	w := newWorld(s)
	if w.err != "" {
		c.Count("dropped", 1)
		return
	}
	if dead := w.run(true, seed); dead != "" {
		c.Violate("the goroutines are deadlocked: %s", dead)
	}
	il := w.overlaps(c)
	mism := w.refMismatch()
	got := w.outcomes()
	q := newWorld(s)
	if q.err != "" {
		c.Violate("the sequential run failed: %s", q.err)
	}
	q.run(false, seed)
	compare(c, "concurrent run differs from the sequential run", got, q.outcomes())
	if mism {
		c.Count("reference_mismatches", 1)
		if f := fresh(c, "seq"); f != nil {
			compare(c, "concurrent run differs from a sequential run in a fresh process", got, f)
		}
	}
	steps := 0
	h := core.Hash(uint64(s.procs), uint64(len(s.gs)))
	for _, g := range s.gs {
		steps += len(g)
		for _, st := range g {
			h = core.HashS(h, st.obs+st.in.Op)
			c.Count("op."+st.obs+st.in.Op, 1)
			if st.obs == "BP" {
				c.Count("bp", 1)
			}
		}
	}
	c.Count("steps", steps)
	c.Count("goroutines", len(s.gs))
	c.Count("post_bp", len(s.post))
	c.Max("goroutines_max", float64(len(s.gs)))
	c.Distinct("distinct_interleavings", il)
	c.Eval(h)
	c.Sample(clipS(s.String(), 600))
}

func clipS(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (s *scen) String() string {
	var b strings.Builder
	fmt.Fprintf(&b, "GOMAXPROCS=%d lockstep=%v yield=%d; shared: %s", s.procs, s.step, s.yield, prog.Show(s.base))
	if len(s.spend) > 0 {
		fmt.Fprintf(&b, " spent roots %v;", s.spend)
	}
	for g, p := range s.gs {
		if g > 0 && len(p) > 0 && len(s.gs[g-1]) > 0 && p[0] == s.gs[g-1][0] {
			fmt.Fprintf(&b, " || g%d: same", g)
			continue
		}
		fmt.Fprintf(&b, " || g%d:", g)
		for _, st := range p {
			b.WriteString(" " + st.String() + ";")
		}
	}
	fmt.Fprintf(&b, " post-BP %v", s.post)
	return b.String()
}

/* ----- generation ----- */

func (s *scen) schedule(r *core.R) {
	s.procs = []int{1, 2, 2, 3, 4, 4, 8, 8, 8, 16}[r.Int(10)]
	s.step = r.P(4)
	s.yield = []int{0, 0, 2, 4, 10}[r.Int(5)]
	s.spin = []int{0, 0, 300, 3000}[r.Int(4)]
	s.shared = r.Int(4) > 0
	n := r.In(1, 4)
	s.data1 = prog.Vals(r, n)
	s.data2 = [][]float64{prog.Vals(r, n), prog.Vals(r, n)}
	s.dims = prog.RandShape(r, 3, 4, 24)
	s.conf = prog.Conf(r.Bool())
	if r.P(5) {
		s.conf = nil
	}
}

func rebuild(r *core.R, base *prog.Builder) *prog.Builder {
	b := prog.NewBuilder(r, base.C)
	for _, in := range base.P {
		b.Push(in)
	}
	return b
}

// compOp appends a random component application.
func compOp(b *prog.Builder, r *core.R, cands []int) (int, bool) {
	id := cands[r.Int(len(cands))]
	switch r.Int(4) {
	case 0, 1:
		return actPush(b, id)
	case 2: // FC: weight, bias, input
		for try := 0; try < 8; try++ {
			w, x, bi := cands[r.Int(len(cands))], cands[r.Int(len(cands))], cands[r.Int(len(cands))]
			in := prog.Ins{Op: "FC", A: []int{w, bi, x}}
			if !fcFits(b.T[w].Shape, b.T[bi].Shape, b.T[x].Shape) {
				continue
			}
			return b.Try(in)
		}
		return 0, false
	}
	k := r.Int(3)
	id = shapeTo(b, r, k, id)
	if id < 0 {
		return 0, false
	}
	for try := 0; try < 8; try++ {
		t := cands[r.Int(len(cands))]
		if prog.SameShape(b.T[t].Shape, b.T[id].Shape) {
			if k > 0 { // predictions and targets inside (0,1)
				p := b.Push(prog.Ins{Op: "Sigmoid", A: []int{id}})
				q := b.Push(prog.Ins{Op: "Sigmoid", A: []int{t}})
				return b.Try(prog.Ins{Op: lossNames[k], A: []int{p, q}})
			}
			return b.Try(prog.Ins{Op: lossNames[k], A: []int{id, t}})
		}
	}
	return 0, false
}

// fcFits: weight [o], bias [o], input [n, d].
func fcFits(w, b, x []int) bool {
	return len(w) == 1 && len(b) == 1 && len(x) == 2 && w[0] == b[0]
}

var obsNames = []string{"At", "Sum", "Max", "Min", "Avg", "Var", "Std", "Mean", "NElems", "Shape", "Equals", "Read", "Acc", "Input", "New", "New", "Bad", "ConcatShared", "Rand"}

// obsStep draws an observation of tensors among cands.
func obsStep(b *prog.Builder, r *core.R, cands []int, nb int) (*cstep, bool) {
	st := &cstep{obs: obsNames[r.Int(len(obsNames))]}
	id := cands[r.Int(len(cands))]
	st.ids = []int{id}
	s := b.T[id].Shape
	switch st.obs {
	case "At":
		for _, d := range s {
			st.ix = append(st.ix, r.Int(d))
		}
	case "Equals", "Acc":
		o := cands[r.Int(len(cands))]
		for try := 0; try < 8 && !prog.SameShape(b.T[o].Shape, s); try++ {
			o = cands[r.Int(len(cands))]
		}
		if st.obs == "Acc" && (len(s) != 1 || !prog.SameShape(b.T[o].Shape, s)) {
			return nil, false
		}
		st.ids = []int{id, o}
	case "New":
		st.k = r.Int(8)
	case "Rand":
		st.k = r.Int(6)
	case "Bad":
		st.k = r.Int(10)
	case "ConcatShared":
		if len(b.T[0].Shape) == 0 || nb < 2 {
			return nil, false
		}
		dim := r.Int(len(b.T[0].Shape))
		k := 1
		for k < nb && k < 4 && concatFits(b.T[0].Shape, b.T[k].Shape, dim) {
			k++
		}
		if k < 2 {
			return nil, false
		}
		st.k, st.ix = k, []int{dim}
		st.ids = nil
		for i := 0; i < k; i++ {
			st.ids = append(st.ids, i)
		}
	}
	return st, true
}

func concatFits(a, b []int, dim int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if i != dim && a[i] != b[i] {
			return false
		}
	}
	return true
}

func c20Conf(r *core.R) prog.GenConf {
	return prog.GenConf{MaxRank: 4, MaxDim: 4, MaxElems: []int{12, 40, 80}[r.Int(3)], Cmp: true, Explicit: true}
}

// baseProg draws the shared tensors. kind 0: any, 1: untracked only.
func baseProg(r *core.R, kind int) *prog.Builder {
	b := prog.NewBuilder(r, c20Conf(r))
	tr := func() bool { return kind == 0 && r.Int(3) > 0 }
	for i, n := 0, r.In(2, 4); i < n; i++ {
		b.Leaf(b.Shape(), tr())
	}
	if r.Bool() { // a layer's parameters, an input and a target
		i, o, n := r.In(1, 4), r.In(1, 4), r.In(1, 4)
		b.Leaf([]int{o}, tr())
		b.Leaf([]int{o}, tr())
		b.Leaf([]int{n, i}, tr())
		b.Leaf([]int{n, o}, false)
	}
	if r.Bool() { // same shapes
		s := b.T[0].Shape
		b.Leaf(s, tr())
	}
	var all []int
	for i := range b.P {
		all = append(all, i)
	}
	for i, n := 0, r.In(0, 5); i < n; i++ {
		if id, ok := b.RandOp(all); ok {
			all = append(all, id)
			if r.P(8) {
				b.Cut(id, r.In(1, 2)*(1-kind)+2*kind)
			}
		}
	}
	return b
}

// ownSteps extends goroutine program b (a rebuilt base of nb tensors) with n steps over cands.
func ownSteps(b *prog.Builder, r *core.R, nb, n int, cands []int, obs bool) (sts []*cstep, mine []int) {
	emitted := nb
	flush := func() {
		for ; emitted < len(b.P); emitted++ {
			sts = append(sts, &cstep{in: b.P[emitted]})
			mine = append(mine, emitted)
		}
	}
	flush2 := func() { flush() }
	flush2()
	for i := 0; i < n; i++ {
		pool := cands
		if len(mine) > 0 && r.Bool() {
			pool = append(append([]int{}, cands...), mine...)
		}
		switch {
		case obs && r.P(4):
			if st, ok := obsStep(b, r, pool, nb); ok {
				sts = append(sts, st)
			}
			continue
		case r.P(4):
			compOp(b, r, pool)
		default:
			b.RandOp(pool)
		}
		flush()
	}
	return sts, mine
}

func seqInts(a, b int) []int {
	o := make([]int, 0, b-a)
	for i := a; i < b; i++ {
		o = append(o, i)
	}
	return o
}

// spendRoot sometimes back-propagates a shared tensor before the goroutines start.
func (s *scen) spendRoot(r *core.R, b *prog.Builder) {
	if !r.P(4) {
		return
	}
	tr := trackedOf(b.P)
	if id := r.Int(len(b.P)); tr[id] {
		s.spend = append(s.spend, id)
	}
}

func nGor(r *core.R) int {
	switch r.Int(6) {
	case 0:
		return 2
	case 1:
		return r.In(2, 4)
	case 5:
		if r.P(20) {
			return r.In(70, 300)
		}
		return r.In(8, 48)
	}
	return r.In(3, 10)
}

func c20Forward(c *core.Ctx) {
	r := c.R
	s := &scen{}
	s.schedule(r)
	b := baseProg(r, 0)
	s.base = b.P
	nb := len(b.P)
	s.spendRoot(r, b)
	n := nGor(r)
	cands := seqInts(0, nb)
	one := r.P(3)
	for g := 0; g < n; g++ {
		if one && g > 0 {
			s.gs = append(s.gs, s.gs[0])
			s.ref = append(s.ref, s.ref[0])
			continue
		}
		own := rebuild(r, b)
		if r.P(3) {
			own.Leaf(own.Shape(), r.Bool())
		}
		sts, _ := ownSteps(own, r, nb, r.In(2, 12), cands, true)
		s.gs = append(s.gs, sts)
		s.ref = append(s.ref, own)
	}
	s.addPost(r, nb, 2)
	s.judge(c)
}

// addPost picks roots to back-propagate after the join.
func (s *scen) addPost(r *core.R, nb, n int) {
	for i := 0; i < n; i++ {
		g := r.Int(len(s.gs))
		cnt := 0
		for _, st := range s.gs[g] {
			if st.obs == "" {
				cnt++
			}
		}
		if cnt > 0 {
			s.post = append(s.post, [2]int{g, nb + cnt - 1 - r.Int((cnt+1)/2)})
		}
	}
}

// c20Hot: all goroutines hammer the same few operations on the same shared tensors.
func c20Hot(c *core.Ctx) {
	r := c.R
	s := &scen{}
	s.schedule(r)
	b := baseProg(r, 0)
	s.base = b.P
	nb := len(b.P)
	s.spendRoot(r, b)
	own := rebuild(r, b)
	sts, _ := ownSteps(own, r, nb, r.In(1, 3), seqInts(0, nb), true)
	var hot []*cstep
	for _, st := range sts {
		ok := true
		for _, id := range st.operands() {
			ok = ok && id < nb
		}
		if ok {
			hot = append(hot, st)
		}
	}
	if len(hot) == 0 {
		c.Count("dropped", 1)
		if core.Mode != "" {
			emit(nil)
		}
		return
	}
	n, rep := nGor(r), r.In(2, 8)
	for g := 0; g < n; g++ {
		var p []*cstep
		for k := 0; k < rep; k++ {
			if r.Bool() {
				p = append(p, hot...)
			} else {
				p = append(p, hot[r.Int(len(hot))])
			}
		}
		s.gs = append(s.gs, p)
		s.ref = append(s.ref, nil)
	}
	s.addPost(r, nb, 3)
	s.judge(c)
}

// graphSteps: build a graph over shared untracked tensors and own tracked leaves, back-propagate it, read the
// gradients, possibly several times.
func graphSteps(own *prog.Builder, r *core.R, nb int, shared []int) (sts []*cstep) {
	for round, rounds := 0, r.In(1, 3); round < rounds; round++ {
		lo := len(own.P)
		for i, n := 0, r.In(1, 3); i < n; i++ {
			sh := own.Shape()
			if r.Bool() {
				sh = own.T[shared[r.Int(len(shared))]].Shape
			}
			own.Leaf(sh, true)
		}
		mine := seqInts(lo, len(own.P))
		for i, n := 0, r.In(2, 9); i < n; i++ {
			pool := append(append([]int{}, shared...), mine...)
			if r.Bool() {
				pool = mine
			}
			x := len(own.P)
			if r.P(4) {
				compOp(own, r, pool)
			} else {
				own.RandOp(pool)
			}
			for ; x < len(own.P); x++ {
				mine = append(mine, x)
			}
		}
		for i := lo; i < len(own.P); i++ {
			sts = append(sts, &cstep{in: own.P[i]})
			if r.P(6) {
				if st, ok := obsStep(own, r, append(append([]int{}, shared...), i), nb); ok {
					sts = append(sts, st)
				}
			}
		}
		tr := trackedOf(own.P)
		root := -1
		for i := len(own.P) - 1; i >= lo; i-- {
			if tr[i] && (root < 0 || r.P(4)) {
				root = i
			}
		}
		sts = append(sts, &cstep{obs: "BP", ids: []int{root}})
		for i := lo; i < len(own.P); i++ {
			if own.P[i].Op == "leaf" || r.P(3) {
				sts = append(sts, &cstep{obs: "Grad", ids: []int{i}})
			}
		}
		if r.P(4) {
			sts = append(sts, &cstep{obs: "Reset", ids: []int{lo}, k: 1})
			sts = append(sts, &cstep{obs: "Grad", ids: []int{lo}})
		}
	}
	return sts
}

func c20Graphs(c *core.Ctx) {
	r := c.R
	s := &scen{}
	s.schedule(r)
	b := baseProg(r, 1)
	s.base = b.P
	nb := len(b.P)
	n := nGor(r)
	one := r.P(4)
	for g := 0; g < n; g++ {
		if one && g > 0 {
			s.gs = append(s.gs, s.gs[0])
			s.ref = append(s.ref, s.ref[0])
			continue
		}
		own := rebuild(r, b)
		s.gs = append(s.gs, graphSteps(own, r, nb, seqInts(0, nb)))
		s.ref = append(s.ref, own)
	}
	s.judge(c)
}

// c20Mixed: some goroutines run forward over shared tracked tensors while others build and back-propagate
// graphs that share only untracked ones.
func c20Mixed(c *core.Ctx) {
	r := c.R
	s := &scen{}
	s.schedule(r)
	b := baseProg(r, 0)
	s.base = b.P
	nb := len(b.P)
	tr := trackedOf(b.P)
	var un []int
	for i := range tr {
		if !tr[i] {
			un = append(un, i)
		}
	}
	if len(un) == 0 {
		un = append(un, b.Leaf(b.Shape(), false))
		s.base = b.P
		nb = len(b.P)
	}
	n := nGor(r)
	for g := 0; g < n; g++ {
		own := rebuild(r, b)
		if g%2 == 0 {
			sts, _ := ownSteps(own, r, nb, r.In(3, 14), seqInts(0, nb), true)
			s.gs = append(s.gs, sts)
		} else {
			s.gs = append(s.gs, graphSteps(own, r, nb, un))
		}
		s.ref = append(s.ref, own)
	}
	for i := 0; i < 2; i++ {
		g := 2 * r.Int((n+1)/2)
		cnt := 0
		for _, st := range s.gs[g] {
			if st.obs == "" {
				cnt++
			}
		}
		if cnt > 0 {
			s.post = append(s.post, [2]int{g, nb + cnt - 1})
		}
	}
	s.judge(c)
}

// c20Large: tensors big enough for any size-dependent strategy.
func c20Large(c *core.Ctx) {
	r := c.R
	s := &scen{}
	s.schedule(r)
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 4, MaxDim: 80, MaxElems: 5000, Cmp: true, Explicit: false})
	m := r.In(20, 48)
	b.Leaf([]int{m, m}, r.Bool())
	b.Leaf([]int{m, m}, r.Bool())
	b.Leaf([]int{m}, r.Bool())
	b.Leaf([]int{r.In(2, 6), m, r.In(2, 8)}, r.Bool())
	b.Leaf([]int{r.In(1000, 4500)}, r.Bool())
	s.base = b.P
	nb := len(b.P)
	n := r.In(2, 6)
	for g := 0; g < n; g++ {
		if g > 0 && r.Bool() {
			s.gs = append(s.gs, s.gs[0])
			s.ref = append(s.ref, s.ref[0])
			continue
		}
		own := rebuild(r, b)
		sts, _ := ownSteps(own, r, nb, r.In(2, 4), seqInts(0, nb), false)
		s.gs = append(s.gs, sts)
		s.ref = append(s.ref, own)
	}
	s.addPost(r, nb, 1)
	s.judge(c)
}

// c20Cold: the first use of everything is concurrent, in a fresh process.
func c20Cold(c *core.Ctx) {
	r := c.R
	s := &scen{}
	s.schedule(r)
	s.shared = false
	s.procs = 8
	s.step = r.Bool()
	b := prog.NewBuilder(r, c20Conf(r))
	kind := r.Int(3)
	if kind < 2 { // shared tensors come from TensorOf only
		for i, n := 0, r.In(2, 5); i < n; i++ {
			b.Leaf(b.Shape(), kind == 0 && r.Bool())
		}
	}
	s.base = b.P
	nb := len(b.P)
	n := r.In(2, 6)
	same := r.Bool()
	for g := 0; g < n; g++ {
		if same && g > 0 {
			s.gs = append(s.gs, s.gs[0])
			continue
		}
		own := rebuild(r, b)
		if kind == 0 {
			sts, _ := ownSteps(own, r, nb, 25, seqInts(0, nb), true)
			s.gs = append(s.gs, sts)
		} else {
			sh := seqInts(0, nb)
			if nb == 0 {
				own.Leaf(own.Shape(), false)
				sh = []int{0}
			}
			sts := graphSteps(own, r, nb, sh)
			if nb == 0 {
				sts = append([]*cstep{{in: own.P[0]}}, sts...)
			}
			s.gs = append(s.gs, sts)
		}
	}
	if kind == 0 {
		s.addPost(r, nb, 1)
	}
	if core.Mode != "" {
		s.judge(c)
		return
	}
	c.Detail(func() string { return s.String() })
	a := fresh(c, "conc")
	q := fresh(c, "seq")
	if a != nil && q != nil {
		compare(c, "concurrent run in a fresh process differs from a sequential run in a fresh process", a, q)
		c.Count("cold_compared", 1)
	}
	c.EvalS(s.String())
}

// c20Train: independent training loops over shared untracked data, with shared activation and loss objects.
func c20Train(c *core.Ctx) {
	r := c.R
	n := r.In(2, 12)
	rows, in, hid := r.In(1, 6), r.In(1, 5), r.In(1, 5)
	k := r.Int(3)
	outs := r.In(1, 3)
	if k < 2 {
		outs = 1
	}
	xv := prog.Vals(r, rows*in)
	yv := make([]float64, rows*outs)
	for i := range yv {
		yv[i] = r.F()
	}
	type par struct{ w1, b1, w2, b2 []float64 }
	ps := make([]par, n)
	for g := range ps {
		ps[g] = par{prog.Vals(r, hid), prog.Vals(r, hid), prog.Vals(r, outs), prog.Vals(r, outs)}
		if g > 0 && r.P(3) {
			ps[g] = ps[0]
		}
	}
	op := actOps[r.Int(5)]
	ai := actIns(r, op, 1)
	if op == "Softmax" {
		ai.RNil, ai.I = false, 1
	}
	epochs := r.In(1, 4)
	lr := r.Range(0.01, 0.2)
	procs := []int{1, 2, 4, 8, 16}[r.Int(5)]
	seed := r.U64()
	c.Detail(func() string {
		return fmt.Sprintf("%d goroutines train %d-%d-%d with %s and %s for %d epochs on shared %d rows, GOMAXPROCS %d", n, in, hid, outs, ai, lossNames[k], epochs, rows, procs)
	})
	run := func(conc bool) (res [][]outc) {
		x := mk(c, []int{rows, in}, xv, false)
		ys := []int{rows, outs}
		if k < 2 {
			ys = []int{rows}
		}
		y := mk(c, ys, yv, false)
		act, err := prog.Activation(ai)
		if err != nil {
			c.Violate("%s: %v", ai, err)
		}
		sig, err := prog.Activation(prog.Ins{Op: "Sigmoid"})
		if err != nil {
			c.Violate("Sigmoid: %v", err)
		}
		loss := newLoss(k)
		res = make([][]outc, n)
		body := func(g int, r *core.R) (os_ []outc) {
			fail := func(e any) { os_ = append(os_, outc{L: fmt.Sprintf("goroutine %d", g), E: fmt.Sprint(e)}) }
			defer func() {
				if p := recover(); p != nil {
					fail(p)
				}
			}()
			given := func(v []float64) layers.Initializer {
				return initFunc(func(s []int) (tensor.Tensor, error) { return prog.Make(s, v, true) })
			}
			l1, err := layers.NewFC(&layers.FCConfig{Inputs: in, Outputs: hid, Initializers: map[string]layers.Initializer{"Weight": given(ps[g].w1), "Bias": given(ps[g].b1)}})
			if err != nil {
				fail(err)
				return
			}
			l2, err := layers.NewFC(&layers.FCConfig{Inputs: hid, Outputs: outs, Initializers: map[string]layers.Initializer{"Weight": given(ps[g].w2), "Bias": given(ps[g].b2)}})
			if err != nil {
				fail(err)
				return
			}
			opt := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr})
			for e := 0; e < epochs; e++ {
				var ts []tensor.Tensor
				t := x
				ok := true
				do := func(f func() (tensor.Tensor, error)) {
					if !ok {
						return
					}
					if r.P(4) {
						runtime.Gosched()
					}
					y, err := f()
					if err != nil {
						fail(err)
						ok = false
						return
					}
					ts = append(ts, y)
					t = y
				}
				do(func() (tensor.Tensor, error) { return l1.Forward(t) })
				do(func() (tensor.Tensor, error) { return act.Forward(t) })
				do(func() (tensor.Tensor, error) { return l2.Forward(t) })
				if k > 0 {
					do(func() (tensor.Tensor, error) { return sig.Forward(t) })
				}
				if k < 2 {
					do(func() (tensor.Tensor, error) { return t.Reshape([]int{rows}) })
				}
				do(func() (tensor.Tensor, error) { return loss.Compute(t, y) })
				if !ok {
					return
				}
				if err := tensor.BackPropagate(t); err != nil {
					fail(err)
					return
				}
				for i, t := range ts {
					s, v, err := prog.Read(t)
					if err != nil {
						fail(err)
						return
					}
					os_ = append(os_, outc{L: fmt.Sprintf("goroutine %d epoch %d tensor %d", g, e, i), S: s, V: v})
				}
				for li, l := range []*layers.FC{l1, l2} {
					for wi, w := range l.Weights() {
						if err := opt.Update(w.Value); err != nil {
							fail(err)
							return
						}
						(*w.Value).ResetGradContext(true)
						s, v, err := prog.Read(*w.Value)
						if err != nil {
							fail(err)
							return
						}
						os_ = append(os_, outc{L: fmt.Sprintf("goroutine %d epoch %d layer %d weight %d", g, e, li, wi), S: s, V: v})
					}
				}
			}
			return
		}
		if !conc {
			for g := range res {
				res[g] = body(g, core.NewR(core.Hash(seed, uint64(g))))
			}
		} else {
			old := runtime.GOMAXPROCS(procs)
			defer runtime.GOMAXPROCS(old)
			start := make(chan struct{})
			var wg sync.WaitGroup
			for g := range res {
				wg.Add(1)
				go func(g int) {
					defer wg.Done()
					<-start
					res[g] = body(g, core.NewR(core.Hash(seed, uint64(g))))
				}(g)
			}
			close(start)
			if dead := join(&wg); dead != "" {
				c.Violate("the goroutines are deadlocked: %s", dead)
			}
		}
		return
	}
	a, q := run(true), run(false)
	for g := range a {
		compare(c, "concurrent training differs from sequential training", a[g], q[g])
		c.Count("bp", epochs)
	}
	c.Count("goroutines", n)
	c.Count("train_loops", n)
	c.Eval(core.Hash(uint64(n), uint64(rows), uint64(in), uint64(hid), uint64(outs), uint64(k), uint64(epochs)))
}

// c20Random: concurrent random constructors, initializers and layer constructors.
func c20Random(c *core.Ctx) {
	r := c.R
	n := nGor(r)
	procs := []int{1, 2, 4, 8, 16}[r.Int(5)]
	seed := r.U64()
	reps := r.In(2, 10)
	c.Detail(func() string { return fmt.Sprintf("%d goroutines draw %d times each, GOMAXPROCS %d", n, reps, procs) })
	type draw struct {
		what      string
		kind      int // 1 uniform in [a,b), 2 normal
		a, b      float64
		shape     []int
		got       []int
		v         []float64
		err       string
		untracked bool
		tr        int // 0 untracked expected, 1 tracked
		grad      bool
	}
	res := make([][]draw, n)
	body := func(g int) {
		r := core.NewR(core.Hash(seed, uint64(g)))
		for k := 0; k < reps; k++ {
			d := draw{shape: prog.RandShape(r, 3, 8, 200)}
			func() {
				defer func() {
					if p := recover(); p != nil {
						d.err = fmt.Sprint("panic: ", p)
					}
				}()
				var t tensor.Tensor
				var err error
				d.tr = r.Int(2)
				conf := prog.Conf(d.tr == 1)
				f1, f2 := r.In(1, 50), r.In(1, 50)
				switch r.Int(9) {
				case 0, 1:
					d.what, d.kind, d.a, d.b = "RandU", 1, r.Range(-2, 1), r.Range(1.5, 4)
					t, err = tensor.RandU(d.shape, d.a, d.b, conf)
				case 2, 3:
					d.what, d.kind, d.a, d.b = "RandN", 2, r.Range(-2, 2), r.Range(0.1, 4)
					t, err = tensor.RandN(d.shape, d.a, d.b, conf)
				case 4:
					d.what, d.kind, d.a, d.b, d.tr = "Uniform", 1, -0.05, 0.05, 1
					var in *initializers.Uniform
					in, err = initializers.NewUniform(nil)
					if err == nil {
						t, err = in.Init(d.shape)
					}
				case 5:
					d.what, d.kind, d.a, d.b, d.tr = "HeNormal", 2, 0, math.Sqrt(2/float64(f1)), 1
					var in *initializers.HeNormal
					in, err = initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: f1})
					if err == nil {
						t, err = in.Init(d.shape)
					}
				case 6:
					d.what, d.kind, d.tr = "XavierUniform", 1, 1
					d.b = math.Sqrt(6/float64(f1+f2)) * (1 + 1e-14)
					d.a = -d.b
					var in *initializers.XavierUniform
					in, err = initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: f1, FanOut: f2})
					if err == nil {
						t, err = in.Init(d.shape)
					}
				case 7:
					d.what, d.kind, d.b, d.tr = "Normal", 2, 0.05, 1
					var in *initializers.Normal
					in, err = initializers.NewNormal(nil)
					if err == nil {
						t, err = in.Init(d.shape)
					}
				case 8: // a layer with default initializers
					d.what = "NewFC"
					d.shape = []int{r.In(1, 20), r.In(1, 12)}
					var l *layers.FC
					l, err = layers.NewFC(&layers.FCConfig{Inputs: d.shape[1], Outputs: d.shape[0]})
					if err == nil {
						t = l.Weight
						d.shape = l.Weight.Shape()
						d.tr = 1
					}
				}
				if err != nil {
					d.err = err.Error()
					return
				}
				d.got, d.v, err = prog.Read(t)
				if err != nil {
					d.err = err.Error()
					return
				}
				if r.P(3) { // own tensor: use it
					y, err := t.Mul(t)
					if err == nil {
						err = tensor.BackPropagate(y)
					}
					if err != nil {
						d.err = err.Error()
					}
					d.grad = true
					d.untracked = t.Gradient() == nil
				}
			}()
			res[g] = append(res[g], d)
		}
	}
	old := runtime.GOMAXPROCS(procs)
	start := make(chan struct{})
	var wg sync.WaitGroup
	for g := range res {
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-start
			body(g)
		}(g)
	}
	close(start)
	dead := join(&wg)
	runtime.GOMAXPROCS(old)
	if dead != "" {
		c.Violate("the goroutines are deadlocked: %s", dead)
	}
	seen := map[uint64]int{}
	var u []float64
	id := 0
	for g := range res {
		for _, d := range res[g] {
			id++
			if d.err != "" {
				c.Violate("goroutine %d: %s failed: %s", g, d.what, d.err)
			}
			if !prog.SameShape(d.got, d.shape) {
				c.Violate("goroutine %d: %s has shape %v, want %v", g, d.what, d.got, d.shape)
			}
			if d.grad && d.untracked != (d.tr == 0) {
				c.Violate("goroutine %d: %s: tracked=%v, want %v", g, d.what, !d.untracked, d.tr == 1)
			}
			dup := map[int]int{}
			for _, x := range d.v {
				z := x
				switch d.kind {
				case 1:
					if !(x >= d.a && x < d.b) {
						c.Violate("goroutine %d: %s value %v outside [%v, %v)", g, d.what, x, d.a, d.b)
					}
					if d.what == "RandU" || d.what == "Uniform" {
						u = append(u, (x-d.a)/(d.b-d.a))
					}
				case 2:
					if !(math.Abs(x-d.a) <= 12*d.b) {
						c.Violate("goroutine %d: %s value %v is more than 12 sigma from %v", g, d.what, x, d.a)
					}
				default:
					continue
				}
				// the standardised draw, rounded: equal draws under different parameters agree to 1e-13
				z = (x - d.a) / (d.b - d.a)
				if d.kind == 2 {
					z = (x - d.a) / d.b
				}
				key := core.Hash(uint64(d.kind), uint64(int64(math.Round(z*1e11))))
				if o, ok := seen[key]; ok && o != id {
					dup[o]++
					if dup[o] >= 4 {
						c.Violate("goroutine %d: %s repeats the random values of another tensor", g, d.what)
					}
				}
				seen[key] = id
			}
			c.Count("random_tensors", 1)
			c.Count("random_values", len(d.v))
		}
	}
	if m := len(u); m > 2000 {
		sort.Float64s(u)
		ks := 0.
		for i, x := range u {
			ks = math.Max(ks, math.Max(math.Abs(x-float64(i)/float64(m)), math.Abs(x-float64(i+1)/float64(m))))
		}
		ks *= math.Sqrt(float64(m))
		c.Max("ks_statistic", ks)
		if ks > 4 {
			c.Violate("uniform values drawn concurrently are not uniform: Kolmogorov-Smirnov statistic %.2f over %d values", ks, m)
		}
		c.Count("ks_tests", 1)
	}
	c.Count("goroutines", n)
	c.Eval(core.Hash(uint64(n), uint64(reps), seed))
}
