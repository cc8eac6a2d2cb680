package props

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{
		ID: "C15",
		Families: []core.Family{
			{Name: "special", Quick: 1500, Thorough: 30000, Run: c15Special},
			{Name: "shapes", Quick: len(c14Shapes) * 40, Thorough: len(c14Shapes) * 800, Run: c15Shapes},
			{Name: "leaf", Quick: 200000, Thorough: 4000000, Run: c15Leaf},
			{Name: "graph", Quick: 90000, Thorough: 1500000, Run: c15Graph},
			{Name: "chain", Quick: 20000, Thorough: 400000, Run: c15Chain},
			{Name: "large", Quick: 1200, Thorough: 25000, Run: c15Large},
			hugeFamily(5, c15Huge),
			sizesFamily(5, 4, c15Huge),
			deepFamily(8000, c15Deep),
			{Name: "many", Quick: 15, Thorough: 90, Run: c15Many},
		},
		Rule: "back-propagations through activations: every shape of rank <= 3 with sizes 1..3 and every Softmax dimension, ranks to 7 and sizes to thousands; inputs of the C14 regimes (every finite magnitude; Softmax to 700), exact zeros included; upstream gradients: ones (the output is the root), ordinary, zeros, position-dependent, magnitudes from 1e-6 to 1e200; slopes nil-default, 0, negative, above one; activation inputs that are leaves or intermediates of random graphs, used by other branches, several activations of one input, chains of activations; " +
			"distinct = distinct (activation, slope or dimension, shape, value regime, upstream kind) or program structure; a case counts when an input gradient was compared",
		Assumptions: []string{
			"at a Relu / LeakyRelu input of exactly 0 any value between the one-sided derivatives is accepted",
			"values compared within 1e-9 of the magnitudes of the summed terms plus 1e-100 of the upstream gradient",
		},
		MinEvents: map[string]uint64{"input_grads": 1000000, "at_zero": 20000, "intermediate_inputs": 30000},
	})
}

// upstream draws upstream gradients; kind < 0: all ones.
func upstream(r *core.R, n, kind int) []float64 {
	if kind < 5 {
		return weights(r, n, max(kind, 0)+map[bool]int{true: 1, false: 0}[kind < 0])
	}
	v := make([]float64, n)
	for i := range v {
		switch kind {
		case 5:
			v[i] = r.Range(-1e200, 1e200)
		case 6:
			v[i] = math.Pow(10, r.Range(-100, 100)) * []float64{-1, 1}[r.Int(2)]
		case 7:
			if r.P(n) {
				v[i] = 1e5
			}
		}
	}
	return v
}

// c15Judge compares the input gradient of one activation.
func c15Judge(c *core.Ctx, in prog.Ins, t tensor.Tensor, shape []int, x, g []float64) {
	gr := t.Gradient()
	if gr == nil {
		c.Violate("%s: the input received no gradient", in.Op)
	}
	s, v := read(c, gr, "input gradient")
	if !prog.SameShape(s, shape) {
		c.Violate("%s: the input gradient has shape %v, the input %v", in.Op, s, shape)
	}
	for i := range v {
		if math.IsNaN(v[i]) || math.IsInf(v[i], 0) {
			c.Violate("%s: gradient at input %v is %v (upstream %v)", in.Op, x[i], v[i], g[i])
		}
	}
	c.Count("input_grads", len(v))
	if in.Op == "Softmax" {
		for _, f := range ref.FibreSets(shape, in.I) {
			xs := make([]float64, len(f))
			for i, k := range f {
				xs[i] = x[k]
			}
			p := ref.SoftmaxOf(xs)
			dot, a := 0., 0.
			for i, k := range f {
				dot += p[i] * g[k]
				a += p[i] * math.Abs(g[k])
			}
			for i, k := range f {
				e := p[i] * (g[k] - dot)
				if !prog.Close(v[k], e, 1e-9*p[i]*(math.Abs(g[k])+a)+1e-100*a+1e-300) {
					c.Violate("Softmax along %d: gradient at %v is %v, want %v", in.I, ref.Unravel(k, shape), v[k], e)
				}
			}
		}
		return
	}
	for i := range v {
		var d, sat float64
		switch in.Op {
		case "Relu", "LeakyRelu":
			m := 0.
			if in.Op == "LeakyRelu" {
				m = in.Slope()
			}
			if x[i] == 0 {
				c.Count("at_zero", 1)
				lo, hi := math.Min(m*g[i], g[i]), math.Max(m*g[i], g[i])
				e := 1e-12*math.Max(math.Abs(lo), math.Abs(hi)) + 1e-300
				if !(v[i] >= lo-e && v[i] <= hi+e) {
					c.Violate("%s (m=%v): gradient at 0 is %v for upstream %v, not between the one-sided derivatives", in.Op, m, v[i], g[i])
				}
				continue
			}
			d = 1
			if x[i] < 0 {
				d = m
			}
		case "Sigmoid":
			d = ref.DSig(x[i])
			if x[i] > 0 {
				sat = ref.Sat
			}
		case "TanhAct":
			d = ref.DTanh(x[i])
			sat = ref.Sat
		}
		e := d * g[i]
		if !prog.Close(v[i], e, 1e-9*math.Abs(e)+(1e-100+sat)*math.Abs(g[i])+1e-300) {
			c.Violate("%s: gradient at input %v is %v, want %v * %v = %v", in, x[i], v[i], g[i], d, e)
		}
	}
}

func c15One(c *core.Ctx, in prog.Ins, shape []int, x []float64, kind int, sig string) {
	r := c.R
	g := upstream(r, len(x), kind)
	c.Detail(func() string {
		return fmt.Sprintf("%s on %v %s upstream %s", in, shape, prog.Fmt(x, 200), prog.Fmt(g, 200))
	})
	t := mkVia(c, shape, x, true)
	a, err := prog.Activation(in)
	if err != nil {
		c.Violate("constructing %s failed: %v", in, err)
	}
	y, err := a.Forward(t)
	root := must(c, y, err)(in.Op)
	if kind >= 0 {
		w := mk(c, shape, g, false)
		if r.Bool() {
			y, err = root.Mul(w)
		} else {
			y, err = w.Mul(root)
		}
		root = must(c, y, err)("weighting")
		if r.P(4) && len(shape) > 0 { // reduced by sums: same upstream
			for len(root.Shape()) > 0 {
				y, err = root.SumAlong(r.Int(len(root.Shape())))
				root = must(c, y, err)("SumAlong")
			}
		}
	}
	if r.P(8) { // an untracked input next to it stays without gradient
		u := mk(c, shape, x, false)
		if z, err := a.Forward(u); err != nil || z == nil {
			c.Violate("%s on an untracked input failed: %v", in.Op, err)
		} else if _ = tensor.BackPropagate(z); u.Gradient() != nil {
			c.Violate("%s: an untracked input received a gradient", in.Op)
		}
	}
	if err := tensor.BackPropagate(root); err != nil {
		c.Violate("BackPropagate through %s failed: %v", in.Op, err)
	}
	c15Judge(c, in, t, shape, x, g)
	checkBits(c, "input after back-propagation", t, shape, x)
	c.Count("act."+in.Op, 1)
	c.EvalS(fmt.Sprint(in.Op, in.I, in.Slope(), in.RNil, shape, sig, kind))
}

const upKinds = 8

func c15Special(c *core.Ctx) {
	r := c.R
	op := actOps[c.Idx%5]
	var x []float64
	for _, v := range actSpecials {
		if math.Abs(v) <= actLim(op) {
			x = append(x, v)
		}
	}
	p := r.Perm(len(x))
	y := make([]float64, len(x))
	for i, k := range p {
		y[i] = x[k]
	}
	shape := prog.RandFactor(r, len(x), 5)
	d := 0
	if op == "Softmax" {
		if len(shape) == 0 {
			shape = []int{len(x)}
		}
		d = r.Int(len(shape))
	}
	c15One(c, actIns(r, op, d), shape, y, r.In(-1, upKinds-1), "s")
}

func c15Vals(r *core.R, op string, n int) ([]float64, int) {
	reg := r.Int(actRegimes)
	x := actVals(r, n, reg, actLim(op))
	if r.P(4) {
		for i := range x {
			if r.P(3) {
				x[i] = []float64{0, math.Copysign(0, -1)}[r.Int(2)]
			}
		}
		reg += 100
	}
	return x, reg
}

func c15Shapes(c *core.Ctx) {
	r := c.R
	shape := c14Shapes[c.Idx%len(c14Shapes)]
	op := actOps[c.Idx/len(c14Shapes)%5]
	n := 1
	if op == "Softmax" {
		n = len(shape)
	}
	for d := 0; d < n; d++ {
		x, reg := c15Vals(r, op, ref.Prod(shape))
		c15One(c, actIns(r, op, d), shape, x, r.In(-1, upKinds-1), fmt.Sprint(reg))
	}
}

func c15Leaf(c *core.Ctx) {
	r := c.R
	op := actOps[[]int{0, 1, 2, 3, 4, 4, 4}[c.Idx%7]]
	shape, d := c14Draw(r, op, []int{2, 4, 5, 5, 7}[r.Int(5)], []int{3, 5, 9}[r.Int(3)], []int{8, 30, 120}[r.Int(3)])
	x, reg := c15Vals(r, op, ref.Prod(shape))
	c15One(c, actIns(r, op, d), shape, x, r.In(-1, upKinds-1), fmt.Sprint(reg))
	if c.Idx%29989 == 0 {
		c.Sample(fmt.Sprintf("%s dim=%d on %v %s", op, d, shape, prog.Fmt(x, 6)))
	}
}

func c15Large(c *core.Ctx) {
	r := c.R
	op := actOps[[]int{0, 1, 2, 3, 4, 4, 4}[c.Idx%7]]
	var shape []int
	switch r.Int(4) {
	case 0:
		shape = []int{r.In(300, 3000)}
	case 1:
		shape = []int{r.In(2, 200), r.In(2, 12)}
	case 2:
		shape = []int{r.In(2, 12), r.In(2, 200)}
	default:
		shape = prog.Dims(r, 5, 6, 2500)
	}
	d := 0
	if op == "Softmax" {
		d = r.Int(len(shape))
	}
	x, reg := c15Vals(r, op, ref.Prod(shape))
	c15One(c, actIns(r, op, d), shape, x, r.In(-1, upKinds-1), fmt.Sprint(reg))
	c.Count("large", 1)
}

// actPush applies a random activation to tensor id.
func actPush(b *prog.Builder, id int) (int, bool) {
	r := b.R
	op := actOps[r.Int(5)]
	d := 0
	if op == "Softmax" {
		if len(b.T[id].Shape) == 0 {
			op = "TanhAct"
		} else {
			d = r.Int(len(b.T[id].Shape))
		}
	}
	in := actIns(r, op, d)
	in.A = []int{id}
	return b.Try(in)
}

// c15Graph embeds activations in random graphs: inputs are intermediates, outputs are used further.
func c15Graph(c *core.Ctx) {
	r := c.R
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 4, MaxDim: 4, MaxElems: 40, Cmp: r.P(4), FreshProb: 12})
	grow(b, r.In(1, 3), r.In(1, 6), 8*r.Int(2))
	tr := trackedOf(b.P)
	var cands []int
	for i := range b.P {
		if tr[i] {
			cands = append(cands, i)
		}
	}
	if len(cands) == 0 {
		c.Count("dropped", 1)
		return
	}
	b.Tape.Floor = 1e-120
	root, acts := -1, 0
	for i, n := 0, r.In(1, 4); i < n; i++ {
		id := cands[r.Int(len(cands))]
		y, ok := actPush(b, id)
		if !ok {
			continue
		}
		acts++
		cands = append(cands, y)
		for j, m := 0, r.In(0, 3); j < m; j++ {
			if z, ok := b.RandOp(cands); ok && trackedOf(b.P)[z] {
				cands = append(cands, z)
			}
		}
	}
	if acts == 0 {
		c.Count("dropped", 1)
		return
	}
	root = cands[len(cands)-1]
	if b.P[root].Op == "leaf" {
		c.Count("dropped", 1)
		return
	}
	bpCheck(c, b.P, b.Tape, b.T, root)
	c.Count("intermediate_inputs", acts)
	c.Eval(structSig(b.P, root))
}

// c15Chain stacks activations, combining the result with its own input now and then.
func c15Chain(c *core.Ctx) {
	r := c.R
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 5, MaxDim: 4, MaxElems: 60})
	b.Tape.Floor = 1e-120
	id := b.Leaf(prog.RandShape(r, 5, 4, 48), true)
	acts := 0
	for i, n := 0, r.In(2, 12); i < n; i++ {
		y, ok := actPush(b, id)
		if !ok {
			continue
		}
		acts++
		if r.P(3) {
			op := []string{"Add", "Mul", "Sub"}[r.Int(3)]
			if z, ok := b.Try(prog.Ins{Op: op, A: []int{y, id}}); ok {
				y = z
			}
		}
		id = y
	}
	if acts == 0 {
		c.Count("dropped", 1)
		return
	}
	w := b.LeafV(b.T[id].Shape, weights(r, len(b.T[id].N), r.Int(5)), false)
	root := b.Push(prog.Ins{Op: "Mul", A: []int{id, w}})
	bpCheck(c, b.P, b.Tape, b.T, root)
	c.Count("intermediate_inputs", acts)
	c.Eval(structSig(b.P, root))
}
