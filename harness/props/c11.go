package props

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
)

func init() {
	core.Register(&core.Prop{
		ID: "C11",
		Families: []core.Family{
			{Name: "one", Quick: 60000, Thorough: 1000000, Run: func(c *core.Ctx) { c11Run(c, 1, 1, 6, 6) }},
			{Name: "deep", Quick: 20000, Thorough: 300000, Run: func(c *core.Ctx) { c11Run(c, 3, 1, 6, 5) }},
			{Name: "several", Quick: 8000, Thorough: 120000, Run: func(c *core.Ctx) { c11Run(c, 2, 3, 12, 4) }},
			{Name: "long", Quick: 400, Thorough: 8000, Run: func(c *core.Ctx) { c11Run(c, 2, 1, 150, 4) }},
			{Name: "many", Quick: 12, Thorough: 240, Run: func(c *core.Ctx) { c11Run(c, 1, 1, []int{132000, 1400, 1400, 1400, 1400, 1400}[c.Idx%6], 2) }},
			{Name: "wide", Quick: 1500, Thorough: 25000, Run: func(c *core.Ctx) { c11Run(c, 2, 1, 4, 24) }},
		},
		Rule: "training histories: one to three FC layers (shared layers, residual sums), every activation and slope, MSE / BCE / CE heads, widths and batch sizes 1..24, batch sizes changing from step to step, learning rates default, zero, negative, small and large, default and given initial weights, 1..150 (tiny models 1..132000) steps; data objects reused or fresh, tracked and reset inputs, Weights() pointers fetched once or every step, resets right after the update or at the start of the next step, frozen parameters, extra forward passes and dropped graphs in between, omitted resets (all or some parameters) followed by recovery, up to three interleaved models; " +
			"distinct = distinct (model structure, sizes, learning rates, step log)",
		Assumptions: []string{
			"every step is compared with the reference derivative at the weights the library actually reached",
			"steps at a kink of Relu or at a loss clip bound are executed but their derivative is not judged; a run ends when weights leave |w| < 1e4",
		},
		MinEvents: map[string]uint64{"weights_compared": 300000, "steps": 100000, "omitted_resets": 10000, "second_or_later_steps": 60000},
	})
}

type c11Block struct {
	fc   int // index into layers, -1: none
	act  *prog.Ins
	f    forwarder
	skip bool // residual sum with the block's input
}

type c11Param struct {
	ptr    *tensor.Tensor
	frozen bool
	n      int
	v      []float64
}

type c11Model struct {
	name   string
	ls     []*layers.FC
	blocks []c11Block
	loss   int
	lossf  losser
	opt    *optimizers.SGD
	lr     float64
	in     int
	out    int
	lazy   bool // reset at the start of the next step
	fetch  bool // fetch the pointers every step
	dirty  bool // updated but not reset
	par    [][2]*c11Param
	desc   string
	fixed  []tensor.Tensor // reused data
	fixedV [][]float64
	step   int
}

func c11New(c *core.Ctx, maxLayers, maxW int, name string) *c11Model {
	r := c.R
	m := &c11Model{name: name, loss: r.Int(3), in: r.In(1, maxW), lazy: r.Bool(), fetch: r.Bool()}
	m.lossf = newLoss(m.loss)
	switch r.Int(5) {
	case 0:
		m.opt, m.lr = optimizers.NewSGD(nil), 0.01
	case 1:
		m.lr = []float64{0, -0.05, 1, 5, 1e-6}[r.Int(5)]
	default:
		m.lr = r.Range(0.001, 0.5)
	}
	if m.opt == nil {
		m.opt = optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: m.lr})
	}
	n := r.In(1, maxLayers)
	w := m.in
	m.desc = fmt.Sprintf("in=%d lr=%v", w, m.lr)
	for i := 0; i < n; i++ {
		b := c11Block{}
		// FC sums its features, so a layer may be applied to any width: sharing is possible
		if i > 0 && r.P(5) {
			b.fc = r.Int(len(m.ls))
		} else {
			o := r.In(1, maxW)
			l := c11Layer(c, w, o)
			m.ls = append(m.ls, l)
			b.fc = len(m.ls) - 1
		}
		o := m.ls[b.fc].Weight.Shape()[0]
		b.skip = o == w && r.P(4)
		m.desc += fmt.Sprintf(" FC%d(%d)", b.fc, o)
		if b.skip {
			m.desc += "+res"
		}
		last := i == n-1
		if !last && r.Int(4) > 0 || last && r.Bool() {
			in := actIns(r, actOps[r.Int(5)], r.Int(2))
			for math.Abs(in.Slope()) > 3 {
				in = actIns(r, "LeakyRelu", 0)
			}
			b.act = &in
		}
		if last && m.loss > 0 && r.Int(5) > 0 {
			in := prog.Ins{Op: "Sigmoid", A: []int{0}}
			if m.loss == 2 && r.Int(4) > 0 {
				in = prog.Ins{Op: "Softmax", A: []int{0}, I: 1}
			}
			b.act = &in
		}
		if b.act != nil {
			m.desc += " " + b.act.Op
			f, err := prog.Activation(*b.act)
			if err != nil {
				c.Violate("activation: %v", err)
			}
			b.f = f
		}
		m.blocks = append(m.blocks, b)
		w = o
	}
	m.out = w
	m.desc += " " + lossNames[m.loss]
	for _, l := range m.ls {
		var pp [2]*c11Param
		ws := l.Weights()
		if len(ws) != 2 {
			c.Violate("Weights() lists %d parameters", len(ws))
		}
		for k := range ws {
			p := &c11Param{ptr: ws[k].Value, frozen: r.P(8)}
			_, p.v = read(c, *p.ptr, "parameter")
			p.n = len(p.v)
			pp[k] = p
		}
		m.par = append(m.par, pp)
	}
	return m
}

func c11Layer(c *core.Ctx, in, out int) *layers.FC {
	r := c.R
	conf := &layers.FCConfig{Inputs: in, Outputs: out}
	given := r.Bool()
	if given {
		conf.Initializers = map[string]layers.Initializer{}
		for _, k := range []string{"Weight", "Bias"} {
			v := make([]float64, out)
			for i := range v {
				v[i] = r.Range(-1, 1)
			}
			conf.Initializers[k] = initFunc(func(s []int) (tensor.Tensor, error) { return prog.Make(s, v, true) })
		}
	}
	l, err := layers.NewFC(conf)
	if err != nil || l == nil {
		c.Violate("NewFC failed: %v", err)
	}
	if !given && r.Bool() { // replace through the pointers
		for _, w := range l.Weights() {
			v := make([]float64, out)
			for i := range v {
				v[i] = r.Range(-1, 1)
			}
			*w.Value = mkVia(c, []int{out}, v, true)
		}
	}
	return l
}

// ptrs returns the parameter pointers, fetched now or kept from the beginning.
func (m *c11Model) ptrs(c *core.Ctx) [][2]*tensor.Tensor {
	var o [][2]*tensor.Tensor
	for i, l := range m.ls {
		p := [2]*tensor.Tensor{m.par[i][0].ptr, m.par[i][1].ptr}
		if m.fetch {
			ws := l.Weights()
			p[0], p[1] = ws[0].Value, ws[1].Value
		}
		o = append(o, p)
	}
	return o
}

// forward runs the real model; nil when some operation failed.
func (m *c11Model) forward(x, t tensor.Tensor) (tensor.Tensor, error) {
	y := x
	var err error
	for _, b := range m.blocks {
		z := y
		y, err = m.ls[b.fc].Forward(y)
		if err != nil {
			return nil, err
		}
		if b.skip {
			y, err = y.Add(z)
			if err != nil {
				return nil, err
			}
		}
		if b.f != nil {
			y, err = b.f.Forward(y)
			if err != nil {
				return nil, err
			}
		}
	}
	if m.loss < 2 {
		y, err = y.Flatten(0)
		if err != nil {
			return nil, err
		}
	}
	return m.lossf.Compute(y, t)
}

// ref evaluates the model on the tape; w holds the parameter leaves.
func (m *c11Model) ref(b *prog.Builder, x int, w [][2]int, tv []float64) int {
	y := x
	for _, bl := range m.blocks {
		z := y
		y = b.Push(prog.Ins{Op: "FC", A: []int{w[bl.fc][0], w[bl.fc][1], y}})
		if bl.skip {
			y = b.Push(prog.Ins{Op: "Add", A: []int{y, z}})
		}
		if bl.act != nil {
			in := *bl.act
			in.A = []int{y}
			y = b.Push(in)
		}
	}
	if m.loss < 2 {
		y = b.Push(prog.Ins{Op: "Flatten", A: []int{y}, I: 0})
	}
	t := b.LeafV(b.T[y].Shape, tv, false)
	return b.Push(prog.Ins{Op: lossNames[m.loss], A: []int{y, t}})
}

func (m *c11Model) reset(c *core.Ctx) {
	for i, p := range m.ptrs(c) {
		for k := range p {
			(*p[k]).ResetGradContext(true)
			if (*p[k]).Gradient() != nil {
				c.Violate("%s: a reset parameter still has a gradient", m.name)
			}
			checkBits(c, m.name+" parameter after the reset", *p[k], []int{m.par[i][k].n}, m.par[i][k].v)
		}
	}
	m.dirty = false
}

// data draws a mini-batch.
func (m *c11Model) data(c *core.Ctx, maxB int) (X, T tensor.Tensor, xs []int, x, t []float64, tracked bool) {
	r := c.R
	b := r.In(1, maxB)
	if len(m.fixed) > 0 && r.Int(3) > 0 {
		k := r.Int(len(m.fixed) / 2)
		X, T, x, t = m.fixed[2*k], m.fixed[2*k+1], m.fixedV[2*k], m.fixedV[2*k+1]
		return X, T, []int{len(x) / m.in, m.in}, x, t, false
	}
	x = make([]float64, b*m.in)
	for i := range x {
		x[i] = r.Range(-1, 1) / math.Sqrt(float64(m.in))
		if r.P(12) {
			x[i] = 0
		}
	}
	ts := []int{b * m.out}
	if m.loss == 2 {
		ts = []int{b, m.out}
	}
	t = lossTargets(r, m.loss, ts, []int{0, 1, 2, 2}[r.Int(4)])
	if m.loss == 0 {
		t = fcVals(r, b*m.out, 0)
	}
	tracked = r.P(6)
	X, T = mk(c, []int{b, m.in}, x, tracked), mk(c, ts, t, false)
	if r.P(3) && !tracked {
		m.fixed, m.fixedV = append(m.fixed, X, T), append(m.fixedV, x, t)
	}
	return X, T, []int{b, m.in}, x, t, tracked
}

func c11Run(c *core.Ctx, maxLayers, maxModels, maxSteps, maxW int) {
	r := c.R
	var ms []*c11Model
	for i, n := 0, r.In(1, maxModels); i < n; i++ {
		ms = append(ms, c11New(c, maxLayers, maxW, fmt.Sprintf("model %d", i)))
	}
	log := ""
	c.Detail(func() string {
		s := ""
		for _, m := range ms {
			s += m.name + ": " + m.desc + "; "
		}
		return s + "steps:" + log
	})
	steps := r.In(1, maxSteps)
	if maxSteps > 50 {
		steps = r.In(maxSteps/2, maxSteps)
	}
	maxB := maxW
	done := 0
	for i := 0; i < steps*len(ms); i++ {
		k := r.Int(len(ms))
		m := ms[k]
		if len(log) > 1<<16 {
			log = log[:100] + " ... " + log[len(log)-100:]
		}
		log += fmt.Sprintf(" %d", k)
		if !c11Step(c, m, maxB, &log) {
			break
		}
		done++
	}
	for _, m := range ms { // what other models did left this one alone
		for i, p := range m.ptrs(c) {
			for k := range p {
				checkBits(c, m.name+" parameter at the end", *p[k], []int{m.par[i][k].n}, m.par[i][k].v)
			}
		}
	}
	sig := log
	for _, m := range ms {
		sig += m.desc
	}
	if done > 0 {
		c.EvalS(sig)
	}
	if c.Idx%4999 == 0 {
		c.Sample(ms[0].desc + " steps:" + log)
	}
}

// c11Step performs one training step (possibly one with an omitted reset); false ends the run.
func c11Step(c *core.Ctx, m *c11Model, maxB int, log *string) bool {
	r := c.R
	if m.dirty {
		if r.P(4) {
			c11Omitted(c, m, maxB, log)
		}
		m.reset(c)
	}
	X, T, xs, x, t, xtr := m.data(c, maxB)
	// things that must leave no trace
	for j := r.Int(3); j > 0 && r.Bool(); j-- {
		l, err := m.forward(X, T)
		must(c, l, err)("an extra forward pass")
		if r.P(3) {
			_ = l.Scale(2)
		}
		*log += "f"
	}
	l, err := m.forward(X, T)
	l = must(c, l, err)("the forward pass")
	if err := tensor.BackPropagate(l); err != nil {
		c.Violate("%s step %d: BackPropagate failed: %v", m.name, m.step, err)
	}
	// reference
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 8, MaxDim: 1 << 20, MaxElems: 1 << 20})
	b.Tape.Floor = 1e-120
	var w [][2]int
	for i := range m.par {
		w = append(w, [2]int{
			b.LeafV([]int{m.par[i][0].n}, m.par[i][0].v, true),
			b.LeafV([]int{m.par[i][1].n}, m.par[i][1].v, true)})
	}
	root := m.ref(b, b.LeafV(xs, x, xtr), w, t)
	g, tol := b.Tape.Backward(b.T[root], false)
	judge := b.Tape.Bad == ""
	for _, v := range b.Tape.Val {
		if !(math.Abs(v) < 1e30) {
			judge = false
		}
	}
	if judge {
		e, le := b.Tape.Val[b.T[root].N[0]], b.Tape.Err[b.T[root].N[0]]
		checkVals(c, m.name+" loss", l, []int{}, []float64{e}, func(int) float64 { return 64*le + 1e-9*math.Abs(e) + 1e-12 })
	}
	// update
	ps := m.ptrs(c)
	order := r.Perm(2 * len(ps))
	big := false
	for _, o := range order {
		i, k := o/2, o%2
		p, ptr := m.par[i][k], ps[i][k]
		old := *ptr
		used := false
		for _, bl := range m.blocks {
			used = used || bl.fc == i
		}
		if p.frozen {
			continue
		}
		if err := m.opt.Update(ptr); err != nil {
			c.Violate("%s step %d: Update of layer %d parameter %d failed: %v", m.name, m.step, i, k, err)
		}
		s, v := read(c, *ptr, "updated parameter")
		if !prog.SameShape(s, []int{p.n}) {
			c.Violate("%s step %d: parameter %d of layer %d changed its shape from [%d] to %v", m.name, m.step, k, i, p.n, s)
		}
		checkBits(c, m.name+" previous parameter", old, []int{p.n}, p.v)
		for q := range v {
			n := b.T[w[i][k]].N[q]
			if judge {
				e := p.v[q] - m.lr*g[n]
				tl := math.Abs(m.lr)*tol[n] + 1e-14*(math.Abs(p.v[q])+math.Abs(m.lr*g[n])) + 1e-300
				if !prog.Close(v[q], e, tl) {
					c.Violate("%s step %d: parameter %d[%d] of layer %d moved from %v to %v, want %v (gradient %v)", m.name, m.step, k, q, i, p.v[q], v[q], e, g[n])
				}
				c.Count("weights_compared", 1)
			}
			if !(math.Abs(v[q]) < 1e4) {
				big = true
			}
		}
		p.v = v
	}
	if !judge {
		c.Count("steps_not_judged", 1)
	}
	c.Count("steps", 1)
	c.Count("loss."+lossNames[m.loss], 1)
	if m.step > 0 {
		c.Count("second_or_later_steps", 1)
	}
	c.Max("steps_of_one_model", float64(m.step+1))
	m.step++
	*log += fmt.Sprintf("s%d", xs[0])
	m.dirty = true
	if !m.lazy {
		if r.P(5) {
			c11Omitted(c, m, maxB, log)
		}
		m.reset(c)
	}
	return !big
}

// c11Omitted runs a step although (some) updated parameters were not reset: their next update must fail and
// nothing may change.
func c11Omitted(c *core.Ctx, m *c11Model, maxB int, log *string) {
	r := c.R
	var updated []*c11Param
	ps := m.ptrs(c)
	omit := map[*tensor.Tensor]bool{}
	for i := range ps {
		for k := range ps[i] {
			if !m.par[i][k].frozen {
				omit[ps[i][k]] = true
				updated = append(updated, m.par[i][k])
			}
		}
	}
	if len(updated) == 0 {
		return
	}
	if r.Bool() { // some are reset
		for i := range ps {
			for k := range ps[i] {
				if r.Bool() && len(omit) > 1 {
					(*ps[i][k]).ResetGradContext(true)
					delete(omit, ps[i][k])
				}
			}
		}
	}
	*log += "o"
	if r.Int(4) > 0 {
		X, T, _, _, _, tr := m.data(c, maxB)
		if !tr {
			if l, err := m.forward(X, T); err == nil && l != nil {
				_ = tensor.BackPropagate(l)
			}
		}
	}
	for i := range ps {
		for k := range ps[i] {
			ptr := ps[i][k]
			if !omit[ptr] {
				continue
			}
			before := *ptr
			if err := m.opt.Update(ptr); err == nil {
				c.Violate("%s step %d: parameter %d of layer %d was updated again although its gradient context was not reset", m.name, m.step, k, i)
			}
			if *ptr != before {
				c.Violate("%s step %d: a failed update replaced the parameter", m.name, m.step)
			}
			checkBits(c, m.name+" parameter after the failed update", *ptr, []int{m.par[i][k].n}, m.par[i][k].v)
			c.Count("omitted_resets", 1)
		}
	}
}
