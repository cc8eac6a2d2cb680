package props

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{
		ID: "C17",
		Families: []core.Family{
			{Name: "shapes", Quick: len(c14Shapes) * 400, Thorough: len(c14Shapes) * 4000, Run: c17Shapes},
			{Name: "random", Quick: 500000, Thorough: 4000000, Run: c17Random},
			{Name: "graph", Quick: 120000, Thorough: 1000000, Run: c17Graph},
			{Name: "errors", Quick: 80000, Thorough: 600000, Run: c17Errors},
			{Name: "history", Quick: 80000, Thorough: 600000, Run: c17History},
			{Name: "large", Quick: 2400, Thorough: 25000, Run: c17Large},
			hugeFamily(4, c17Huge),
			sizesFamily(1, 8, c17Huge),
			deepFamily(8000, c17Deep),
			{Name: "many", Quick: 6, Thorough: 90, Run: c17Many},
		},
		Rule: "updates: every shape of rank <= 3 with sizes 1..3, ranks to 7, sizes to thousands; weights and gradients ordinary, integers, zeros, pairwise different, magnitudes 1e-100..1e100; gradients produced by a weighted sum, by random graphs (leaves and intermediates) or by several paths; learning rates: default, zero of both signs, negative, one, tiny, huge; the old object updated again, several optimizers and tensors interleaved; every kind of tensor without gradient (nil, untracked, tracked but not back-propagated, reset, just updated); " +
			"distinct = distinct (shape, weight regime, gradient regime, learning rate kind), program structure or history",
		Assumptions: []string{"new elements compared within 4 rounding errors of |w|+|lr*g|; the old tensor and its gradient compared bit by bit"},
		MinEvents:   map[string]uint64{"updates": 300000, "rejected": 40000},
	})
}

// sgdConf draws an optimizer and its effective learning rate.
func sgdConf(r *core.R) (*optimizers.SGD, float64) {
	lrs := []float64{0, math.Copysign(0, -1), 0.01, -0.01, 1, -1, 0.5, 1e-9, 1e3, 1e-100, 1e60, -3.75, 0.1, 1e-300, 1e-320, math.Inf(1), math.Inf(-1), math.NaN()}
	switch r.Int(4) {
	case 0:
		return optimizers.NewSGD(nil), 0.01
	case 1:
		lr := r.Range(-2, 2)
		return optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr}), lr
	}
	lr := lrs[r.Int(len(lrs))]
	return optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr}), lr
}

// c17Update performs one update behind p and judges it.
func c17Update(c *core.Ctx, opt *optimizers.SGD, lr float64, p *tensor.Tensor) {
	old := *p
	gr := old.Gradient()
	if gr == nil {
		c.Violate("a back-propagated tensor has no gradient")
	}
	sw, w := read(c, old, "weight")
	sg, g := read(c, gr, "gradient")
	if !prog.SameShape(sw, sg) {
		c.Violate("gradient shape %v, weight shape %v", sg, sw)
	}
	if err := opt.Update(p); err != nil {
		c.Violate("Update failed: %v", err)
	}
	nw := *p
	if nw == nil {
		c.Violate("Update left nil behind the pointer")
	}
	s, v := read(c, nw, "updated weight")
	if !prog.SameShape(s, sw) {
		c.Violate("updated weight has shape %v, want %v", s, sw)
	}
	for i := range v {
		e := w[i] - lr*g[i]
		fin := func(x float64) bool { return !math.IsInf(x, 0) && !math.IsNaN(x) }
		if fin(w[i]) && fin(g[i]) && fin(lr) && !fin(e) { // overflow
			c.Count("not_judged", 1)
			continue
		}
		if !math.IsNaN(g[i]) && !math.IsNaN(lr) && math.IsNaN(lr*g[i]) { // zero times infinity
			c.Count("not_judged", 1)
			continue
		}
		if !fin(e) {
			c.Count("nonfinite", 1)
		}
		if !prog.Close(v[i], e, 1e-15*(math.Abs(w[i])+math.Abs(lr*g[i]))+1e-323) {
			c.Violate("element %v is %v, want %v - %v*%v = %v", ref.Unravel(i, s), v[i], w[i], lr, g[i], e)
		}
	}
	if nw == old {
		c.Violate("Update changed the tensor object in place")
	}
	checkBits(c, "previous tensor after Update", old, sw, w)
	if old.Gradient() == nil {
		c.Violate("the previous tensor lost its gradient")
	}
	checkBits(c, "previous gradient after Update", old.Gradient(), sw, g)
	checkBits(c, "gradient object after Update", gr, sw, g)
	c.Count("updates", 1)
}

func c17Vals(r *core.R, n, regime int) []float64 {
	v := fcVals(r, n, regime%fcRegimes)
	if regime == fcRegimes { // extreme and undefined values
		for i := range v {
			switch r.Int(5) {
			case 0:
				v[i] = hostile[r.Int(len(hostile))]
			case 1:
				v[i] = math.Pow(10, r.Range(-308, 308))
			}
		}
	}
	return v
}

// c17Leaf makes a leaf with values w whose gradient is (mathematically) g.
func c17Leaf(c *core.Ctx, shape []int, w, g []float64) tensor.Tensor {
	r := c.R
	t := mkVia(c, shape, w, true)
	y, err := t.Mul(mk(c, shape, g, false))
	y = must(c, y, err)("Mul")
	if r.P(4) { // several paths
		z := t.Scale(r.Range(-1, 1))
		y, err = y.Add(z)
		y = must(c, y, err)("Add")
	}
	if err := tensor.BackPropagate(y); err != nil {
		c.Violate("BackPropagate failed: %v", err)
	}
	return t
}

func c17One(c *core.Ctx, shape []int) {
	r := c.R
	n := ref.Prod(shape)
	kw, kg := r.Int(fcRegimes+1), r.Int(fcRegimes+1)
	w, g := c17Vals(r, n, kw), c17Vals(r, n, kg)
	opt, lr := sgdConf(r)
	c.Detail(func() string {
		return fmt.Sprintf("SGD lr=%v shape %v w=%s g=%s", lr, shape, prog.Fmt(w, 100), prog.Fmt(g, 100))
	})
	p := c17Leaf(c, shape, w, g)
	old := p
	c17Update(c, opt, lr, &p)
	if r.P(4) { // the old object again: no state may have built up
		q := old
		c17Update(c, opt, lr, &q)
		_, a := read(c, p, "first update")
		_, b := read(c, q, "second update")
		for i := range a {
			if !prog.SameBits(a[i], b[i]) {
				c.Violate("updating the same tensor twice gives %v, then %v", a[i], b[i])
			}
		}
	}
	if r.P(4) { // the updated tensor has no gradient until it is reset and back-propagated
		c17Reject(c, opt, &p, "a just updated tensor")
		p.ResetGradContext(true)
		c17Reject(c, opt, &p, "a just updated and reset tensor")
		if err := tensor.BackPropagate(p.Scale(1.5)); err != nil {
			c.Violate("BackPropagate failed: %v", err)
		}
		c17Update(c, opt, lr, &p)
	}
	c.EvalS(fmt.Sprint(shape, kw, kg, lr))
}

func c17Reject(c *core.Ctx, opt *optimizers.SGD, p *tensor.Tensor, what string) {
	var before tensor.Tensor
	var s []int
	var v []float64
	if p != nil {
		before = *p
		if before != nil {
			s, v = read(c, before, what)
		}
	}
	if err := opt.Update(p); err == nil {
		c.Violate("Update of %s was accepted", what)
	}
	if p != nil {
		if *p != before {
			c.Violate("Update of %s failed but replaced the tensor", what)
		}
		if before != nil {
			checkBits(c, what+" after the rejected Update", before, s, v)
		}
	}
	c.Count("rejected", 1)
}

func c17Shapes(c *core.Ctx) { c17One(c, c14Shapes[c.Idx%len(c14Shapes)]) }

func c17Random(c *core.Ctx) {
	r := c.R
	shape := prog.Dims(r, r.In(0, []int{2, 5, 5, 7}[r.Int(4)]), []int{3, 5, 9}[r.Int(3)], []int{8, 30, 120}[r.Int(3)])
	c17One(c, shape)
	if c.Idx%29989 == 0 {
		c.Sample(fmt.Sprintf("update of shape %v", shape))
	}
}

func c17Large(c *core.Ctx) {
	r := c.R
	var shape []int
	switch r.Int(4) {
	case 0:
		shape = []int{r.In(500, 4000)}
	case 1:
		shape = []int{r.In(20, 60), r.In(20, 60)}
	case 2:
		shape = []int{r.In(2, 9), r.In(2, 9), r.In(2, 40)}
	default:
		shape = prog.Dims(r, 5, 6, 3000)
	}
	c17One(c, shape)
	c.Count("large", 1)
}

// c17Graph updates every tracked tensor of a back-propagated random graph.
func c17Graph(c *core.Ctx) {
	r := c.R
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 5, MaxDim: 4, MaxElems: 60, FreshProb: 10})
	grow(b, r.In(1, 3), r.In(1, 10), 0)
	root, ok := pickRoot(r, b.P)
	if !ok {
		c.Count("dropped", 1)
		return
	}
	opt, lr := sgdConf(r)
	c.Detail(func() string { return fmt.Sprintf("SGD lr=%v after root t%d; %s", lr, root, prog.Show(b.P)) })
	ts := exec(c, b.P)
	if err := tensor.BackPropagate(ts[root]); err != nil {
		c.Violate("BackPropagate failed: %v", err)
	}
	tr := trackedOf(b.P)
	reach := reachOf(b.P, tr, root)
	for _, i := range r.Perm(len(b.P)) {
		p := ts[i]
		if reach[i] {
			c17Update(c, opt, lr, &p)
		} else {
			c17Reject(c, opt, &p, fmt.Sprintf("t%d, which the root does not depend on,", i))
		}
	}
	c.Eval(structSig(b.P, root))
}

func c17Errors(c *core.Ctx) {
	r := c.R
	opt, lr := sgdConf(r)
	shape := prog.Dims(r, r.In(0, 5), 4, 40)
	n := ref.Prod(shape)
	w := c17Vals(r, n, r.Int(fcRegimes+1))
	kind := r.Int(7)
	c.Detail(func() string { return fmt.Sprintf("rejected update kind %d, shape %v lr=%v", kind, shape, lr) })
	switch kind {
	case 0:
		c17Reject(c, opt, nil, "a nil pointer")
	case 1:
		var t tensor.Tensor
		c17Reject(c, opt, &t, "a nil tensor")
	case 2:
		t := mkVia(c, shape, w, false)
		c17Reject(c, opt, &t, "an untracked tensor")
	case 3:
		t := mkVia(c, shape, w, true)
		if r.Bool() {
			_ = t.Scale(2)
		}
		c17Reject(c, opt, &t, "a tracked tensor before back-propagation")
	case 4:
		t := c17Leaf(c, shape, w, c17Vals(r, n, 0))
		t.ResetGradContext(r.Bool())
		c17Reject(c, opt, &t, "a tensor after ResetGradContext")
	case 5: // used in a graph that another root back-propagated
		t := mk(c, shape, w, true)
		u := mk(c, shape, w, true)
		_ = t.Exp()
		if err := tensor.BackPropagate(u.Scale(3)); err != nil {
			c.Violate("BackPropagate failed: %v", err)
		}
		c17Reject(c, opt, &t, "a tensor outside the back-propagated graph")
		c17Update(c, opt, lr, &u)
	case 6: // result of an untracked operand mixed with a spent one
		t := c17Leaf(c, shape, w, c17Vals(r, n, 0))
		y := t.Scale(2)
		c17Reject(c, opt, &y, "a result of a spent tensor")
	}
	// the optimizer still works
	p := c17Leaf(c, shape, w, c17Vals(r, n, 5))
	c17Update(c, opt, lr, &p)
	c.EvalS(fmt.Sprint(kind, shape, lr))
}

// c17History interleaves several optimizers and tensors of different shapes over many steps.
func c17History(c *core.Ctx) {
	r := c.R
	type par struct {
		t     tensor.Tensor
		shape []int
		ready bool
	}
	var ps []*par
	for i, n := 0, r.In(1, 4); i < n; i++ {
		s := prog.Dims(r, r.In(0, 4), 3, 20)
		ps = append(ps, &par{t: mk(c, s, c17Vals(r, ref.Prod(s), 0), true), shape: s})
	}
	type o struct {
		s  *optimizers.SGD
		lr float64
	}
	var os []o
	for i, n := 0, r.In(1, 3); i < n; i++ {
		s, lr := sgdConf(r)
		for math.Abs(lr) > 3 {
			s, lr = sgdConf(r)
		}
		os = append(os, o{s, lr})
	}
	log := ""
	c.Detail(func() string { return "history:" + log })
	for i, n := 0, r.In(5, 25); i < n; i++ {
		k, j := r.Int(len(ps)), r.Int(len(os))
		p := ps[k]
		log += fmt.Sprintf(" p%d/o%d", k, j)
		if !p.ready && r.P(4) {
			c17Reject(c, os[j].s, &p.t, "a tensor that is not ready")
			continue
		}
		if !p.ready {
			p.t.ResetGradContext(true)
			g := mk(c, p.shape, c17Vals(r, ref.Prod(p.shape), []int{0, 1, 2, 5}[r.Int(4)]), false)
			y, err := p.t.Mul(g)
			y = must(c, y, err)("Mul")
			if err := tensor.BackPropagate(y); err != nil {
				c.Violate("BackPropagate failed: %v", err)
			}
			p.ready = true
			log += "b"
			continue
		}
		c17Update(c, os[j].s, os[j].lr, &p.t)
		p.ready = false
		log += "u"
	}
	c.EvalS(log)
}
