package props

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

func init() {
	n := len(gradPreds) * len(gradTargets)
	core.Register(&core.Prop{
		ID: "C13",
		Families: []core.Family{
			{Name: "pairs", Quick: 3 * n, Thorough: 3 * n * 10, Run: c13Pairs},
			{Name: "leaf", Quick: 240000, Thorough: 4000000, Run: c13Leaf},
			{Name: "upstream", Quick: 90000, Thorough: 1500000, Run: c13Upstream},
			{Name: "several", Quick: 30000, Thorough: 500000, Run: c13Several},
			{Name: "large", Quick: 1500, Thorough: 30000, Run: c13Large},
			hugeFamily(6, c13Huge),
			sizesFamily(3, 4, c13Huge),
			{Name: "many", Quick: 6, Thorough: 90, Run: c13Many},
		},
		Rule: "loss back-propagations: every pair of a list of special predictions in [0,1] (0, 1, neighbours of the clip bounds, tiny, near one) and targets, alone and inside a batch; random leaf batches; predictions computed by random tracked graphs (squashed by Tanh, Sigmoid, Softmax, FC layers or shifted so that some are clipped), also used elsewhere in the graph; several losses of one prediction; batches of thousands; tracked and untracked targets; " +
			"distinct = distinct (loss, shape, regimes, upstream weighting) or program structure; a case counts when the prediction gradient was compared",
		Assumptions: []string{
			"predictions within rounding of the two clip bounds are not judged (the property excludes the bounds)",
			"the gradient a tracked target receives is not part of the property and is not judged",
		},
		MinEvents: map[string]uint64{"pred_grads": 200000, "clipped_zero": 20000, "upstream_preds": 20000, "untracked_none": 50000},
	})
}

var gradPreds = []float64{0, math.Copysign(0, -1), 1, 0.5, 0.25, 1. / 3, 0.1, 0.9, 1e-3, 1 - 1e-3, 1e-6, 1 - 1e-6, 1e-9, 1 - 1e-9, 1e-11, 1 - 1e-11, 1.01e-12, 1 - 1.01e-12, 2e-12, 1 - 2e-12, 0.99e-12, 1 - 0.99e-12,
	5e-13, 1 - 5e-13, 1e-13, 1 - 1e-13, 1e-20, 1e-100, 1e-300, 5e-324, math.Nextafter(1, 0), 0.7, 0.999, 0.001}
var gradTargets = []float64{0, 1, 0.5, 0.25, 1e-12, 1 - 1e-12, 1e-6, 0.9, 0.1, 1. / 3, 1e-300, math.Nextafter(1, 0)}

// predGrad is the property's formula; ok is false at (within rounding of) a clip bound.
func predGrad(k int, n float64, p, t float64) (g, tol float64, ok bool) {
	if k == 0 {
		g = 2 * (p - t) / n
		return g, 1e-11*math.Abs(g) + 1e-14*(math.Abs(p)+math.Abs(t))/n + 1e-290, true
	}
	if math.Abs(p-ref.Lo) < 1e-27 || math.Abs(p-ref.Hi) < 5e-16 {
		return 0, 0, false
	}
	if p < ref.Lo || p > ref.Hi {
		return 0, 0, true
	}
	a := t / p
	if k == 2 {
		return -a / n, 1e-11*math.Abs(a)/n + 1e-290, true
	}
	b := (1 - t) / (1 - p)
	return (b - a) / n, 1e-11*(math.Abs(a)+math.Abs(b))/n + 1e-290, true
}

// c13Run back-propagates one loss of a leaf prediction and judges the gradient.
func c13Run(c *core.Ctx, ls losser, k int, shape []int, p, t []float64) {
	r := c.R
	tt := r.P(3) // tracked target
	pt := !tt || r.Int(4) > 0
	scale := 1.
	mode := r.Int(5)
	lossDetail(c, k, shape, p, t)
	yp, yt := mkVia(c, shape, p, pt), mkVia(c, shape, t, tt)
	l, err := ls.Compute(yp, yt)
	root := must(c, l, err)(lossNames[k])
	switch mode {
	case 0:
		scale = []float64{-1, 0.5, 1e3, -1e-3, 7}[r.Int(5)]
		root = root.Scale(scale)
	case 1: // the same loss value used twice
		s, err := root.Add(root)
		root = must(c, s, err)("loss + loss")
		scale = 2
	}
	if err := tensor.BackPropagate(root); err != nil {
		c.Violate("BackPropagate of the loss failed: %v", err)
	}
	if !tt {
		c.Count("untracked_none", 1)
		if yt.Gradient() != nil {
			c.Violate("the untracked target received a gradient")
		}
	}
	if !pt {
		c.Count("untracked_none", 1)
		if yp.Gradient() != nil {
			c.Violate("the untracked prediction received a gradient")
		}
		return
	}
	gr := yp.Gradient()
	if gr == nil {
		c.Violate("the prediction received no gradient")
	}
	s, v := read(c, gr, "prediction gradient")
	if !prog.SameShape(s, shape) {
		c.Violate("prediction gradient has shape %v, prediction %v", s, shape)
	}
	for i := range v {
		g, tol, ok := predGrad(k, float64(shape[0]), p[i], t[i])
		if math.IsNaN(v[i]) || math.IsInf(v[i], 0) {
			c.Violate("prediction gradient %d is %v (p=%v t=%v)", i, v[i], p[i], t[i])
		}
		if !ok {
			c.Count("at_bound_not_judged", 1)
			continue
		}
		if k > 0 && (t[i] < 0 || t[i] > 1) {
			// the loss clips such a target: the formula is accepted with the clipped as with the given one
			if g2, tol2, _ := predGrad(k, float64(shape[0]), p[i], ref.Clip01(t[i])); prog.Close(v[i], g2*scale, tol2*math.Abs(scale)) {
				c.Count("outside_targets", 1)
				continue
			}
		}
		if !prog.Close(v[i], g*scale, tol*math.Abs(scale)) {
			c.Violate("prediction gradient %d is %v, want %v (p=%v t=%v, loss scaled by %v)", i, v[i], g*scale, p[i], t[i], scale)
		}
		if k > 0 && (p[i] < ref.Lo || p[i] > ref.Hi) {
			c.Count("clipped_zero", 1)
		}
		c.Count("pred_grads", 1)
	}
	c.Count("loss."+lossNames[k], 1)
	checkBits(c, "predictions after back-propagation", yp, shape, p)
}

func c13Pairs(c *core.Ctx) {
	n := len(gradPreds) * len(gradTargets)
	i := c.Idx % (3 * n)
	k := i % 3
	i /= 3
	pv, tv := gradPreds[i%len(gradPreds)], gradTargets[i/len(gradPreds)]
	shape := []int{1}
	if k == 2 {
		shape = []int{1, 1}
	}
	ls := newLoss(k)
	c13Run(c, ls, k, shape, []float64{pv}, []float64{tv})
	shape = lossShape(c.R, k, 12)
	m := ref.Prod(shape)
	p, t := c13Preds(c.R, m, 0), c13Targets(c.R, k, shape, 0)
	j := c.R.Int(m)
	p[j], t[j] = pv, tv
	c13Run(c, ls, k, shape, p, t)
	c.EvalS(fmt.Sprint(k, i))
}

func c13Preds(r *core.R, n, regime int) []float64 {
	v := make([]float64, n)
	top := []float64{10, 30, 145}[r.Int(3)]
	for i := range v {
		switch regime {
		case 0:
			v[i] = r.F()
		case 1:
			v[i] = gradPreds[r.Int(len(gradPreds))]
		case 2:
			v[i] = float64(r.Int(2))
		case 3:
			v[i] = math.Pow(10, r.Range(-15, 0))
			if r.Bool() {
				v[i] = 1 - v[i]
			}
		case 4:
			v[i] = []float64{0, 1, 0.5, r.F()}[r.Int(4)]
		case 5: // around and outside [0,1]
			v[i] = r.Range(-2, 3)
		case 7:
			v[i] = math.Pow(10, r.Range(-top, top)) * []float64{-1, 1}[r.Int(2)]
		case 6:
			v[i] = []float64{2, 2.5, -1, 1.5, -0.5, 10, -10, 1e3, -1e3, 1e8, -1e8, 1e300, -1e300, math.Nextafter(1, 2), -5e-324, -1e-300, -1e-13, 1 + 1e-12, 0.5, r.F(), 1, 0}[r.Int(22)]
		}
	}
	return v
}

const c13TargetRegimes = 6

func c13Targets(r *core.R, k int, shape []int, regime int) []float64 {
	switch regime {
	case 4: // outside [0,1]
		return lossTargets(r, k, shape, 3)
	case 5:
		return lossTargets(r, k, shape, 5)
	case 0:
		return lossTargets(r, 0, shape, 2)
	case 1:
		return lossTargets(r, 0, shape, 0)
	case 2:
		return lossTargets(r, 0, shape, 1)
	}
	v := make([]float64, ref.Prod(shape))
	for i := range v {
		v[i] = gradTargets[r.Int(len(gradTargets))]
	}
	return v
}

func c13Leaf(c *core.Ctx) {
	r := c.R
	k := c.Idx % 3
	shape := lossShape(r, k, []int{3, 6, 14, 40}[r.Int(4)])
	pr, tr := r.Int(8), r.Int(c13TargetRegimes)
	p, t := c13Preds(r, ref.Prod(shape), pr), c13Targets(r, k, shape, tr)
	nearTargets(r, k, p, t)
	c13Run(c, newLoss(k), k, shape, p, t)
	c.EvalS(fmt.Sprint(k, shape, pr, tr))
	if c.Idx%29989 == 0 {
		c.Sample(fmt.Sprintf("%s %v %s %s", lossNames[k], shape, prog.Fmt(p, 6), prog.Fmt(t, 6)))
	}
}

func c13Large(c *core.Ctx) {
	r := c.R
	k := c.Idx % 3
	n := []int{300, 1100, 4000}[r.Int(3)]
	shape := lossShape(r, k, n)
	if k < 2 {
		shape[0] = r.In(n/2, n)
	}
	pr, tr := r.Int(8), r.Int(c13TargetRegimes)
	p, t := c13Preds(r, ref.Prod(shape), pr), c13Targets(r, k, shape, tr)
	nearTargets(r, k, p, t)
	c13Run(c, newLoss(k), k, shape, p, t)
	c.Count("large", 1)
	c.EvalS(fmt.Sprint(k, shape, pr, tr))
}

// squash maps tensor id into the neighbourhood of [0,1] by one of several tracked computations.
func squash(b *prog.Builder, r *core.R, id int) int {
	s := b.T[id].Shape
	if r.P(6) { // not squashed at all: mostly clipped
		return id
	}
	one := func(op string, f float64, i int) int { return b.Push(prog.Ins{Op: op, A: []int{id}, F: f, I: i}) }
	switch r.Int(6) {
	case 0:
		return one("Sigmoid", 0, 0)
	case 1:
		return one("Softmax", 0, r.Int(len(s)))
	case 2: // (tanh+1)/2
		id = one("Tanh", 0, 0)
		id = one("Scale", 0.5, 0)
		h := b.LeafV([]int{}, []float64{0.5}, false)
		return b.Push(prog.Ins{Op: "Add", A: []int{h, id}})
	case 3: // min(relu(x), 1): exact zeros and ones
		id = one("Relu", 0, 0)
		ones := make([]float64, len(b.T[id].N))
		for i := range ones {
			ones[i] = 1
		}
		h := b.LeafV(s, ones, false)
		return b.Push(prog.Ins{Op: "ElMin", A: []int{id, h}})
	case 4: // x^2 / (x^2 + 1)
		id = one("Pow", 2, 0)
		h := b.LeafV([]int{}, []float64{1}, false)
		d := b.Push(prog.Ins{Op: "Add", A: []int{id, h}})
		return b.Push(prog.Ins{Op: "Div", A: []int{id, d}})
	}
	// sin^2
	id = one("Sin", 0, 0)
	return b.Push(prog.Ins{Op: "Mul", A: []int{id, id}})
}

// c13Pred grows a tracked graph ending in predictions for loss k.
func c13Pred(c *core.Ctx, b *prog.Builder, k int) int {
	r := c.R
	grow(b, r.In(1, 3), r.In(0, 8), 0)
	tr := trackedOf(b.P)
	var cands []int
	for i := range b.P {
		if tr[i] {
			cands = append(cands, i)
		}
	}
	if len(cands) == 0 {
		return -1
	}
	id := shapeTo(b, r, k, cands[r.Int(len(cands))])
	if id < 0 {
		return -1
	}
	if k == 2 && r.P(3) { // through a layer
		o := r.In(1, 4)
		w, bb := b.Leaf([]int{o}, true), b.Leaf([]int{o}, r.Bool())
		id = b.Push(prog.Ins{Op: "FC", A: []int{w, bb, id}})
	}
	return squash(b, r, id)
}

func c13Target(b *prog.Builder, r *core.R, k, p int) int {
	tr := r.Int(4)
	if k == 0 && r.P(4) {
		tr = 5
	}
	return b.LeafV(b.T[p].Shape, c13Targets(r, k, b.T[p].Shape, tr), false)
}

func c13Upstream(c *core.Ctx) {
	r := c.R
	k := c.Idx % 3
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 3, MaxDim: 4, MaxElems: 36})
	p := c13Pred(c, b, k)
	if p < 0 {
		c.Count("dropped", 1)
		return
	}
	t := c13Target(b, r, k, p)
	root := b.Push(prog.Ins{Op: lossNames[k], A: []int{p, t}})
	if r.P(3) {
		root = b.Push(prog.Ins{Op: "Scale", A: []int{root}, F: r.Range(-3, 3)})
	}
	if r.P(4) { // the prediction is used by another branch as well
		q := b.Push(prog.Ins{Op: "SumAlong", A: []int{p}, I: 0})
		root = b.Push(prog.Ins{Op: "Mul", A: []int{root, q}})
	}
	c13Judge(c, b, p, root)
}

func c13Judge(c *core.Ctx, b *prog.Builder, p, root int) {
	b.Tape.Floor = 1e-120
	if _, m, fin := b.Tape.MaxErr(b.T[root]); b.Tape.Bad != "" || !fin || m > 1e9 {
		c.Count("dropped", 1)
		return
	}
	bpCheck(c, b.P, b.Tape, b.T, root)
	c.Count("upstream_preds", 1)
	c.Count("pred_grads", len(b.T[p].N))
	clipped := 0
	for _, n := range b.T[p].N {
		if v := b.Tape.Val[n]; v < ref.Lo || v > ref.Hi {
			clipped++
		}
	}
	c.Count("clipped_upstream", clipped)
	c.Eval(structSig(b.P, root))
}

// c13Several combines two or three losses of the same or of dependent predictions.
func c13Several(c *core.Ctx) {
	r := c.R
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 2, MaxDim: 4, MaxElems: 16})
	k := r.Int(3)
	p := c13Pred(c, b, k)
	if p < 0 {
		c.Count("dropped", 1)
		return
	}
	root := -1
	for i, n := 0, r.In(2, 3); i < n; i++ {
		kk, q := k, p
		if k < 2 {
			kk = r.Int(2)
		}
		if r.P(3) {
			q = b.Push(prog.Ins{Op: "Scale", A: []int{p}, F: r.Range(0.1, 1)})
		}
		l := b.Push(prog.Ins{Op: lossNames[kk], A: []int{q, c13Target(b, r, kk, q)}})
		if root < 0 {
			root = l
		} else {
			root = b.Push(prog.Ins{Op: []string{"Add", "Sub", "Mul"}[r.Int(3)], A: []int{root, l}})
		}
	}
	c13Judge(c, b, p, root)
}
