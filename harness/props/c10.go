package props

import (
	"fmt"
	"math"
	"strings"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/layers/activations"
	"github.com/sahandsafizadeh/qeep/component/losses"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{
		ID: "C10",
		Families: []core.Family{
			{Name: "gradients", Quick: 25000, Thorough: 400000, Run: gradObjects},
			{Name: "single", Quick: len(c10Ops) * 2700, Thorough: len(c10Ops) * 15000, Run: c10Single},
			{Name: "histories", Quick: 72000, Thorough: 400000, Run: c10Histories},
			{Name: "components", Quick: 72000, Thorough: 400000, Run: c10Components},
			{Name: "construct", Quick: 90000, Thorough: 400000, Run: c10Construct},
			{Name: "large", Quick: 750, Thorough: 4000, Run: c10Large},
			sizesFamily(len(c10Ops), 1, c10Sizes),
		},
		Rule: "twin runs: one history executed twice, in one universe every slice that was passed in or handed out (dimension lists, nested data, ranges, index lists, tensor lists, Shape results, configurations) is overwritten right after its call; after every event all existing tensors (gradient tensors included) of the mutated universe are compared bit for bit with their snapshots, and values, gradients and tracking with the other universe; " +
			"events: all operations, back-propagation from any tensor, ResetGradContext, SGD updates, activations, losses, FC, accuracy; distinct = distinct event sequence",
		Assumptions: []string{"gradients of the two universes may differ by summation order (relative 1e-7 of the largest gradient)"},
		MinEvents:   map[string]uint64{"snapshots_compared": 1000000, "slices_mutated": 50000, "bp": 20000},
	})
}

var c10Ops = append(append([]string{}, prog.DiffOps...), prog.CmpOps...)

// scribble overwrites every captured argument slice.
func scribble(c *core.Ctx, a *prog.Args) {
	r := c.R
	for _, s := range a.Ints {
		for i := range s {
			s[i] = r.In(-3, 7)
		}
		c.Count("slices_mutated", 1)
	}
	for _, s := range a.Ranges {
		for i := range s {
			s[i] = tensor.Range{From: r.In(-1, 5), To: r.In(-1, 6)}
		}
		c.Count("slices_mutated", 1)
	}
	for _, s := range a.Ts {
		for i := range s {
			s[i] = nil
			if r.Bool() {
				s[i] = s[r.Int(len(s))]
			}
		}
		c.Count("slices_mutated", 1)
	}
}

// sameArgs tells whether the library itself left the caller's slices alone.
func sameArgs(a, b *prog.Args) bool {
	if len(a.Ints) != len(b.Ints) || len(a.Ranges) != len(b.Ranges) || len(a.Ts) != len(b.Ts) {
		return false
	}
	for i := range a.Ints {
		if !prog.SameShape(a.Ints[i], b.Ints[i]) {
			return false
		}
	}
	for i := range a.Ranges {
		for j := range a.Ranges[i] {
			if a.Ranges[i][j] != b.Ranges[i][j] {
				return false
			}
		}
	}
	for i := range a.Ts {
		for j := range a.Ts[i] {
			if a.Ts[i][j] != b.Ts[i][j] {
				return false
			}
		}
	}
	return true
}

// keepLeaf builds a leaf from nested data and returns a function overwriting that data.
func keepLeaf(c *core.Ctx, s []int, v []float64, tracked bool) (tensor.Tensor, func()) {
	conf := prog.Conf(tracked)
	bad := func() float64 { return c.R.Range(-1e6, 1e6) }
	one := func(s int, v []float64) []float64 { return append([]float64{}, v[:s]...) }
	two := func(s []int, v []float64) [][]float64 {
		d := make([][]float64, s[0])
		for i := range d {
			d[i] = one(s[1], v[i*s[1]:])
		}
		return d
	}
	three := func(s []int, v []float64) [][][]float64 {
		d := make([][][]float64, s[0])
		for i := range d {
			d[i] = two(s[1:], v[i*s[1]*s[2]:])
		}
		return d
	}
	m1 := func(d []float64) {
		for i := range d {
			d[i] = bad()
		}
	}
	m2 := func(d [][]float64) {
		for i := range d {
			m1(d[i])
			if c.R.P(3) {
				d[i] = nil
			}
		}
	}
	m3 := func(d [][][]float64) {
		for i := range d {
			m2(d[i])
			if c.R.P(3) {
				d[i] = nil
			}
		}
	}
	var t tensor.Tensor
	var err error
	var mut func()
	switch len(s) {
	case 1:
		d := one(s[0], v)
		t, err = tensor.TensorOf(d, conf)
		mut = func() { m1(d) }
	case 2:
		d := two(s, v)
		t, err = tensor.TensorOf(d, conf)
		mut = func() { m2(d) }
	case 3:
		d := three(s, v)
		t, err = tensor.TensorOf(d, conf)
		mut = func() { m3(d) }
	case 4:
		d := make([][][][]float64, s[0])
		for i := range d {
			d[i] = three(s[1:], v[i*s[1]*s[2]*s[3]:])
		}
		t, err = tensor.TensorOf(d, conf)
		mut = func() {
			for i := range d {
				m3(d[i])
			}
		}
	default:
		t, err = prog.Make(s, v, tracked)
		mut = func() {}
	}
	t = must(c, t, err)("leaf construction")
	return t, func() { mut(); conf.GradTrack, conf.Device = !conf.GradTrack, 7; c.Count("slices_mutated", 1) }
}

// universe holds the tensors of one run.
type universe struct {
	c   *core.Ctx
	ts  []tensor.Tensor // program tensors
	ex  []tensor.Tensor // other results (component outputs, updated weights, gradient tensors)
	sn  []snap          // snapshots of ts then ex
	sx  []snap
	gs  []gsnap // gradients of ts, gx: of ex
	gx  []gsnap
	mut bool
}

type snap struct {
	s []int
	v []float64
}

func (u *universe) take() {
	for len(u.sn) < len(u.ts) {
		s, v := read(u.c, u.ts[len(u.sn)], "tensor")
		u.sn = append(u.sn, snap{s, v})
		u.gs = append(u.gs, gsnap{})
		u.touch(u.ts[len(u.sn)-1])
	}
	for len(u.sx) < len(u.ex) {
		s, v := read(u.c, u.ex[len(u.sx)], "tensor")
		u.sx = append(u.sx, snap{s, v})
		u.gx = append(u.gx, gsnap{})
		u.touch(u.ex[len(u.sx)-1])
	}
}

// touch overwrites what Shape hands out.
func (u *universe) touch(t tensor.Tensor) {
	if !u.mut {
		return
	}
	s := t.Shape()
	for i := range s {
		s[i] = -5 - i
	}
	u.c.Count("slices_mutated", 1)
}

func gradOf(c *core.Ctx, t tensor.Tensor) gsnap {
	g := t.Gradient()
	if g == nil {
		return gsnap{}
	}
	s, v := read(c, g, "gradient")
	return gsnap{true, s, v}
}

func sameGrad(a, b gsnap) bool {
	if a.ok != b.ok || !prog.SameShape(a.s, b.s) {
		return false
	}
	for i := range a.v {
		if !prog.SameBits(a.v[i], b.v[i]) {
			return false
		}
	}
	return true
}

// audit compares every existing tensor with its snapshot. gradsMay: a back-propagation happened.
// reset is a tensor whose context was replaced (nil otherwise).
func (u *universe) audit(when string, gradsMay bool, reset tensor.Tensor) {
	c := u.c
	chk := func(kind string, i int, t tensor.Tensor, s snap, g *gsnap) {
		checkBits(c, fmt.Sprintf("after %s: existing tensor %s%d", when, kind, i), t, s.s, s.v)
		c.Count("snapshots_compared", 1)
		n := gradOf(c, t)
		if !gradsMay && t != reset && !sameGrad(n, *g) {
			c.Violate("after %s: the gradient of existing tensor %s%d changed (had %v, has %v)", when, kind, i, g.ok, n.ok)
		}
		*g = n
	}
	for i := range u.sn {
		chk("t", i, u.ts[i], u.sn[i], &u.gs[i])
	}
	for i := range u.sx {
		chk("x", i, u.ex[i], u.sx[i], &u.gx[i])
	}
	u.take()
	for i := range u.ts {
		u.gs[i] = gradOf(c, u.ts[i])
	}
	for i := range u.ex {
		u.gx[i] = gradOf(c, u.ex[i])
	}
}

// twins runs two universes side by side.
type twins struct {
	c    *core.Ctx
	a, b *universe
	log  []string
}

func newTwins(c *core.Ctx) *twins {
	t := &twins{c: c, a: &universe{c: c, mut: true}, b: &universe{c: c}}
	c.Detail(func() string { return strings.Join(t.log, "; ") })
	return t
}

func (w *twins) note(format string, args ...any) string {
	s := fmt.Sprintf(format, args...)
	w.log = append(w.log, s)
	return s
}

// agree compares the two universes completely.
func (w *twins) agree(when string) {
	c := w.c
	cmp := func(kind string, i int, x, y tensor.Tensor) {
		s, v := read(c, y, "tensor")
		checkBits(c, fmt.Sprintf("after %s: %s%d vs the same history without mutated slices", when, kind, i), x, s, v)
		g, h := gradOf(c, x), gradOf(c, y)
		if g.ok != h.ok || !prog.SameShape(g.s, h.s) {
			c.Violate("after %s: gradient of %s%d: present %v shape %v, without mutated slices: present %v shape %v", when, kind, i, g.ok, g.s, h.ok, h.s)
		}
		m := 1.
		for _, q := range h.v {
			if !math.IsInf(q, 0) && !math.IsNaN(q) {
				m = math.Max(m, math.Abs(q))
			}
		}
		for k := range g.v {
			if !prog.SameBits(g.v[k], h.v[k]) && !prog.Close(g.v[k], h.v[k], 1e-7*m) {
				c.Violate("after %s: gradient of %s%d: element %d is %v, without mutated slices %v", when, kind, i, k, g.v[k], h.v[k])
			}
		}
	}
	for i := range w.a.ts {
		cmp("t", i, w.a.ts[i], w.b.ts[i])
	}
	for i := range w.a.ex {
		cmp("x", i, w.a.ex[i], w.b.ex[i])
	}
}

func (w *twins) op(in prog.Ins) bool {
	c := w.c
	when := w.note("t%d=%s", len(w.a.ts), in)
	if in.Op == "leaf" {
		x, mut := keepLeaf(c, in.D, in.V, in.Tracked)
		mut()
		y, _ := keepLeaf(c, in.D, in.V, in.Tracked)
		w.a.ts, w.b.ts = append(w.a.ts, x), append(w.b.ts, y)
		checkBits(c, "leaf after its data was overwritten", x, in.D, in.V)
		w.a.audit(when, false, nil)
		return true
	}
	var args prog.Args
	x, ea := prog.Apply(in, w.a.ts, &args)
	var args2 prog.Args
	y, eb := prog.Apply(in, w.b.ts, &args2)
	if (ea == nil) != (eb == nil) {
		c.Violate("%s: error %v, without mutated slices %v", when, ea, eb)
	}
	if len(args2.Ts) == 0 && !sameArgs(&args, &args2) {
		c.Violate("%s changed the caller's slices", when)
	}
	if ea != nil {
		w.a.audit(when, false, nil)
		return false
	}
	// ResetGradContext inside a Cut is not used here
	scribble(c, &args)
	w.a.ts, w.b.ts = append(w.a.ts, x), append(w.b.ts, y)
	w.a.audit(when, false, nil)
	return true
}

func (w *twins) bp(ex bool, id int) {
	c := w.c
	a, b, k := w.a.ts, w.b.ts, "t"
	if ex {
		a, b, k = w.a.ex, w.b.ex, "x"
	}
	when := w.note("BP(%s%d)", k, id)
	ea, eb := tensor.BackPropagate(a[id]), tensor.BackPropagate(b[id])
	if (ea == nil) != (eb == nil) {
		c.Violate("%s: error %v, without mutated slices %v", when, ea, eb)
	}
	c.Count("bp", 1)
	w.a.audit(when, true, nil)
	w.agree(when)
	// gradient tensors become existing tensors of their own
	if c.R.P(2) {
		if i := c.R.Int(len(w.a.ts)); w.a.ts[i].Gradient() != nil {
			w.note("x%d=Gradient(t%d)", len(w.a.ex), i)
			w.a.ex, w.b.ex = append(w.a.ex, w.a.ts[i].Gradient()), append(w.b.ex, w.b.ts[i].Gradient())
			w.a.take()
		}
	}
}

func (w *twins) reset(id int, v bool) {
	when := w.note("Reset(t%d,%v)", id, v)
	w.a.ts[id].ResetGradContext(v)
	w.b.ts[id].ResetGradContext(v)
	w.a.audit(when, false, w.a.ts[id])
	if w.a.ts[id].Gradient() != nil {
		w.c.Violate("%s: gradient still present", when)
	}
}

// result adds a component result computed in both universes.
func (w *twins) result(when string, x, y tensor.Tensor, ea, eb error) {
	if (ea == nil) != (eb == nil) {
		w.c.Violate("%s: error %v, without mutated slices %v", when, ea, eb)
	}
	if ea == nil && x != nil && y != nil {
		w.a.ex, w.b.ex = append(w.a.ex, x), append(w.b.ex, y)
	}
	w.a.audit(when, false, nil)
}

func (w *twins) sgd(id int, lr float64) {
	when := w.note("x%d=SGD(%v).Update(t%d)", len(w.a.ex), lr, id)
	p, q := w.a.ts[id], w.b.ts[id]
	o := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr})
	ea, eb := o.Update(&p), o.Update(&q)
	w.result(when, p, q, ea, eb)
}

func (w *twins) component(r *core.R) {
	n := len(w.a.ts)
	i := r.Int(n)
	a, b := w.a.ts[i], w.b.ts[i]
	s := w.a.sn[i].s
	j := r.Int(n)
	switch r.Int(8) {
	case 0, 1, 2:
		var f func(xs ...tensor.Tensor) (tensor.Tensor, error)
		name := []string{"Relu", "LeakyRelu", "Sigmoid", "Tanh", "Softmax"}[r.Int(5)]
		switch name {
		case "Relu":
			f = activations.NewRelu().Forward
		case "LeakyRelu":
			f = activations.NewLeakyRelu(nil).Forward
		case "Sigmoid":
			f = activations.NewSigmoid().Forward
		case "Tanh":
			f = activations.NewTanh().Forward
		case "Softmax":
			if len(s) == 0 {
				return
			}
			m, err := activations.NewSoftmax(&activations.SoftmaxConfig{Dim: r.Int(len(s))})
			if err != nil {
				w.c.Violate("NewSoftmax: %v", err)
			}
			f = m.Forward
		}
		when := w.note("x%d=%s(t%d)", len(w.a.ex), name, i)
		xs := []tensor.Tensor{a}
		x, ea := f(xs...)
		xs[0] = nil
		w.c.Count("slices_mutated", 1)
		y, eb := f(b)
		w.result(when, x, y, ea, eb)
	case 3, 4:
		if !prog.SameShape(s, w.a.sn[j].s) {
			j = i
		}
		name := []string{"MSE", "BCE", "CE"}[r.Int(3)]
		f := losses.NewMSE().Compute
		switch name {
		case "BCE":
			f = losses.NewBCE().Compute
		case "CE":
			f = losses.NewCE().Compute
		}
		when := w.note("x%d=%s(t%d,t%d)", len(w.a.ex), name, i, j)
		x, ea := f(a, w.a.ts[j])
		y, eb := f(b, w.b.ts[j])
		w.result(when, x, y, ea, eb)
	case 5:
		when := w.note("Accuracy(t%d,t%d)", i, j)
		ea := metrics.NewAccuracy().Accumulate(a, w.a.ts[j])
		eb := metrics.NewAccuracy().Accumulate(b, w.b.ts[j])
		w.result(when, nil, nil, ea, eb)
	case 6: // FC with existing vectors as parameters
		var vec, mat []int
		for k := range w.a.sn {
			switch len(w.a.sn[k].s) {
			case 1:
				vec = append(vec, k)
			case 2:
				mat = append(mat, k)
			}
		}
		if len(vec) == 0 || len(mat) == 0 {
			return
		}
		p := vec[r.Int(len(vec))]
		q := p
		for _, k := range vec {
			if w.a.sn[k].s[0] == w.a.sn[p].s[0] && r.Bool() {
				q = k
			}
		}
		m := mat[r.Int(len(mat))]
		when := w.note("x%d=FC(W t%d, B t%d)(t%d)", len(w.a.ex), p, q, m)
		fa, fb := &layers.FC{Weight: w.a.ts[p], Bias: w.a.ts[q]}, &layers.FC{Weight: w.b.ts[p], Bias: w.b.ts[q]}
		xs := []tensor.Tensor{w.a.ts[m]}
		x, ea := fa.Forward(xs...)
		xs[0] = w.a.ts[r.Int(n)]
		w.c.Count("slices_mutated", 1)
		y, eb := fb.Forward(w.b.ts[m])
		w.result(when, x, y, ea, eb)
		if fa.Weight != w.a.ts[p] || fa.Bias != w.a.ts[q] {
			w.c.Violate("%s replaced the layer's parameters", when)
		}
	case 7: // readers
		when := w.note("readers of t%d", i)
		a.Sum()
		a.Max()
		a.Min()
		a.Avg()
		a.Var()
		a.Std()
		a.Mean()
		a.NElems()
		a.GradContext()
		_, _ = a.Equals(w.a.ts[j])
		ix := make([]int, len(s))
		_, _ = a.At(ix...)
		for k := range ix {
			if ix[k] != 0 {
				w.c.Violate("At changed the caller's index")
			}
			ix[k] = 99
		}
		w.a.audit(when, false, nil)
	}
}

func (w *twins) finish() {
	w.agree("the history")
	sig := core.HashS(3, strings.Join(w.log, ";"))
	w.c.Eval(core.HashS(sig, w.c.Family))
	w.c.Count("events", len(w.log))
	if w.c.Idx%2003 == 0 {
		w.c.Sample(strings.Join(w.log, "; "))
	}
}

// c10Single: one operation, arguments overwritten, then back-propagated.
func c10Single(c *core.Ctx) {
	r := c.R
	op := c10Ops[c.Idx%len(c10Ops)]
	rank, dim, el := 4, 4, 60
	if r.P(5) {
		rank, dim, el = 6, 3, 150
	}
	c10SingleOf(c, prog.GenSingle(r, op, rank, dim, el), true)
}

func c10SingleOf(c *core.Ctx, s prog.Single, alias bool) {
	r := c.R
	w := newTwins(c)
	for i, sh := range s.Shapes {
		w.op(prog.Ins{Op: "leaf", D: sh, V: prog.OpVals(r, s.In, i, ref.Prod(sh), []int{0, 1, 5}[r.Int(3)]), Tracked: r.Int(4) > 0})
	}
	if len(s.In.A) == 2 && alias && r.P(6) && prog.SameShape(s.Shapes[0], s.Shapes[1]) {
		s.In.A = []int{0, 0}
	}
	w.op(s.In)
	y := len(w.a.ts) - 1
	root := y
	if r.Bool() {
		sh := w.a.sn[y].s
		w.op(prog.Ins{Op: "leaf", D: sh, V: weights(r, ref.Prod(sh), 4)})
		w.op(prog.Ins{Op: "Mul", A: []int{y, y + 1}})
		root = y + 2
	}
	w.bp(false, root)
	w.finish()
}

func c10Run(c *core.Ctx, conf prog.GenConf, n int, comp int) {
	r := c.R
	w := newTwins(c)
	pb := prog.NewBuilder(r, conf)
	for i := r.In(1, 3); i > 0; i-- {
		id := pb.Leaf(pb.Shape(), r.Int(4) > 0)
		w.op(pb.P[id])
	}
	for k, tries := 0, 0; k < n && tries < n*8; tries++ {
		switch q := r.Int(100); {
		case q < 8:
			w.bp(false, r.Int(len(w.a.ts)))
		case q < 11:
			if len(w.a.ex) == 0 {
				continue
			}
			w.bp(true, r.Int(len(w.a.ex)))
		case q < 16:
			w.reset(r.Int(len(w.a.ts)), r.Bool())
		case q < 22:
			w.sgd(r.Int(len(w.a.ts)), []float64{0.01, 1, -0.5, 0}[r.Int(4)])
		case q < 22+comp:
			w.component(r)
		case q < 28+comp:
			id := pb.Leaf(pb.Shape(), r.Bool())
			w.op(pb.P[id])
		default:
			cands := make([]int, len(pb.P))
			for i := range cands {
				cands[i] = i
			}
			id, ok := pb.RandOp(cands)
			if !ok {
				continue
			}
			if !w.op(pb.P[id]) {
				c.Violate("%s was rejected", pb.P[id])
			}
		}
		k++
	}
	w.finish()
}

func c10Histories(c *core.Ctx) {
	c10Run(c, prog.GenConf{MaxRank: 3, MaxDim: 3, MaxElems: 18, Cmp: true, Explicit: true}, c.R.In(4, 22), 4)
}

func c10Components(c *core.Ctx) {
	c10Run(c, prog.GenConf{MaxRank: 2, MaxDim: 4, MaxElems: 16, Cmp: true, Explicit: true}, c.R.In(4, 18), 45)
}

func c10Large(c *core.Ctx) {
	c10Run(c, prog.GenConf{MaxRank: 4, MaxDim: 12, MaxElems: 600, Cmp: true, Explicit: true}, c.R.In(10, 40), 10)
}

// c10Construct: dimension lists and configurations given to constructors.
func c10Construct(c *core.Ctx) {
	r := c.R
	name := dimCtors[c.Idx%len(dimCtors)]
	s := prog.Dims(r, r.In(0, 5), 4, 100)
	conf := prog.Conf(r.Bool())
	tracked := conf.GradTrack
	arg := append([]int{}, s...)
	c.Detail(func() string {
		return fmt.Sprintf("%s(%v), then the list and the configuration are overwritten", name, s)
	})
	var t tensor.Tensor
	var err error
	if r.P(4) { // a custom initializer that keeps its argument
		name = "NewFC"
		var kept [][]int
		fc, e := layers.NewFC(&layers.FCConfig{Inputs: 2, Outputs: 3, Initializers: map[string]layers.Initializer{
			"Weight": initFunc(func(d []int) (tensor.Tensor, error) {
				kept = append(kept, d)
				return initializers.NewFull(nil).Init(d)
			}),
		}})
		if e != nil {
			c.Violate("NewFC: %v", e)
		}
		for _, d := range kept {
			for i := range d {
				d[i] = 0
			}
		}
		t, err, s, tracked = fc.Weight, nil, []int{3}, true
	} else {
		t, err = ctor(name, arg, conf)
		if len(name) > 5 {
			tracked = true
		}
	}
	t = must(c, t, err)(name)
	_, before := read(c, t, name)
	if !prog.SameShape(arg, s) && name != "NewFC" {
		c.Violate("%s changed the caller's dimension list", name)
	}
	for i := range arg {
		arg[i] = r.In(-2, 9)
	}
	conf.Device, conf.GradTrack = 9, !conf.GradTrack
	sh := t.Shape()
	for i := range sh {
		sh[i] = 77
	}
	checkBits(c, name+" after mutation", t, s, before)
	y := t.Scale(2)
	if err := tensor.BackPropagate(y); err != nil {
		c.Violate("BackPropagate failed: %v", err)
	}
	g := t.Gradient()
	if (g != nil) != tracked {
		c.Violate("%s: gradient present %v, want %v", name, g != nil, tracked)
	}
	if g != nil {
		sh := g.Shape()
		for i := range sh {
			sh[i] = 77
		}
		e := make([]float64, len(before))
		for i := range e {
			e[i] = 2
		}
		checkBits(c, "gradient", g, s, e)
	}
	checkBits(c, name+" after back-propagation", t, s, before)
	c.Count("slices_mutated", 3)
	c.Count("snapshots_compared", 2)
	c.EvalS(fmt.Sprint(name, s, tracked))
}
