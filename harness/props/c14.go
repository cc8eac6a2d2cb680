package props

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

type forwarder interface {
	Forward(xs ...tensor.Tensor) (y tensor.Tensor, err error)
}

var actOps = []string{"Relu", "LeakyRelu", "Sigmoid", "TanhAct", "Softmax"}

var c14Shapes = c03Enum(3, 3)

func init() {
	core.Register(&core.Prop{
		ID: "C14",
		Families: []core.Family{
			{Name: "special", Quick: 1200, Thorough: 12000, Run: c14Special},
			{Name: "shapes", Quick: len(c14Shapes) * 120, Thorough: len(c14Shapes) * 1000, Run: c14ShapesRun},
			{Name: "random", Quick: 440000, Thorough: 4000000, Run: c14Random},
			{Name: "large", Quick: 5000, Thorough: 50000, Run: c14Large},
			{Name: "history", Quick: 40000, Thorough: 400000, Run: c14History},
			{Name: "graph", Quick: 60000, Thorough: 500000, Run: c14Graph},
			hugeFamily(5, c14Huge),
			sizesFamily(5, 4, c14Huge),
			deepFamily(8000, c14Deep),
			{Name: "many", Quick: 15, Thorough: 90, Run: c14Many},
		},
		Rule: "activation calls: every shape of rank <= 3 with sizes 1..3 and, for Softmax, every dimension; ranks to 7, sizes to thousands; value regimes ordinary, zeros of both signs, +-700 and its neighbours, widely spread, clustered, subnormal to the largest finite number (not for Softmax); slopes nil-default, 0, negative, above one, tiny; inputs of nine construction routes, tracked or not, results of other operations; sequences of calls with different ranks on one activation object; " +
			"distinct = distinct (activation, slope or dimension, shape, regime)",
		Assumptions: []string{"values compared within 1e-11 relative (plus 1e-300); a zero result may have either sign"},
		MinEvents:   map[string]uint64{"elements": 1000000, "softmax_fibres": 100000},
	})
}

var actSpecials = []float64{0, math.Copysign(0, -1), 5e-324, -5e-324, 1e-300, -1e-300, 1e-17, -1e-17, 1e-8, -1e-8, 0.5, -0.5, 1, -1, 2, -2, 10, -10, 18.5, -18.5, 20, -20, 36, -36, 37.5, -37.5, 40, -40, 100, -100, 300, -300, 354, -354, 356, -356, 400, -400, 699, -699, 700, -700,
	708, -708, 709, -709, 709.5, -709.5, 709.79, -709.79, 710, -710, 745, -745, 746, -746, 1000, -1000, 1e6, -1e6, 1e15, -1e15, 1e100, -1e100, math.MaxFloat64, -math.MaxFloat64, math.MaxFloat64 / 2, math.Pi, 1. / 3}

const actRegimes = 9

// actVals draws inputs; lim bounds the magnitude.
func actVals(r *core.R, n, regime int, lim float64) []float64 {
	v := make([]float64, n)
	base := r.Range(-lim, lim)
	if lim > 700 {
		base = r.Range(-700, 700)
	}
	for i := range v {
		switch regime {
		case 0:
			v[i] = r.Range(-3, 3)
		case 1:
			v[i] = actSpecials[r.Int(len(actSpecials))]
		case 2:
			v[i] = float64(r.In(-3, 3))
		case 3:
			v[i] = r.Range(-700, 700)
		case 4: // clustered anywhere
			v[i] = base + r.Range(-2, 2)
		case 5:
			v[i] = []float64{-700, 700}[r.Int(2)]
			if r.Bool() {
				v[i] *= 1 - r.F()*1e-3
			}
		case 6:
			v[i] = math.Pow(10, r.Range(-20, 2.8)) * []float64{-1, 1}[r.Int(2)]
		case 7: // equal
			v[i] = base
		case 8:
			v[i] = math.Pow(10, r.Range(-320, 308)) * []float64{-1, 1}[r.Int(2)]
		}
		v[i] = math.Max(-lim, math.Min(lim, v[i]))
	}
	return v
}

var slopes = []float64{0.01, 0, math.Copysign(0, -1), 1, -1, 0.3, 2, -0.5, 1e-9, 100, 1e-300}

// actIns draws the configuration of an activation; sd is the Softmax dimension (negative: none).
func actIns(r *core.R, op string, sd int) prog.Ins {
	in := prog.Ins{Op: op, A: []int{0}}
	switch op {
	case "LeakyRelu":
		in.F = slopes[r.Int(len(slopes))]
		if r.P(4) {
			in.F = r.Range(-2, 2)
		}
		if r.P(4) {
			in.RNil, in.F = true, 0
		}
	case "Softmax":
		in.I = sd
		in.RNil = sd == 0 && r.P(2)
	}
	return in
}

func actLim(op string) float64 {
	if op == "Softmax" {
		return 700
	}
	return math.MaxFloat64
}

// c14Check compares the result of one forward call with the definition.
func c14Check(c *core.Ctx, in prog.Ins, y tensor.Tensor, shape []int, x []float64) {
	s, v := read(c, y, in.Op)
	if !prog.SameShape(s, shape) {
		c.Violate("%s: result has shape %v, input %v", in.Op, s, shape)
	}
	c.Count("elements", len(v))
	c.Count("act."+in.Op, 1)
	if in.Op == "Softmax" {
		for _, f := range ref.FibreSets(shape, in.I) {
			xs := make([]float64, len(f))
			for i, k := range f {
				xs[i] = x[k]
			}
			p := ref.SoftmaxOf(xs)
			sum := 0.
			for i, k := range f {
				if !(v[k] >= 0) {
					c.Violate("Softmax: element %v is %v, negative", ref.Unravel(k, shape), v[k])
				}
				if !prog.Close(v[k], p[i], 1e-11*p[i]+1e-290) {
					c.Violate("Softmax along %d: element %v is %v, want %v", in.I, ref.Unravel(k, shape), v[k], p[i])
				}
				sum += v[k]
			}
			if math.Abs(sum-1) > 1e-11 {
				c.Violate("Softmax along %d: fibre through %v sums to %v", in.I, ref.Unravel(f[0], shape), sum)
			}
			c.Count("softmax_fibres", 1)
		}
		return
	}
	m := 0.
	if in.Op == "LeakyRelu" {
		m = in.Slope()
	}
	for i := range v {
		var e float64
		switch in.Op {
		case "Relu":
			e = math.Max(0, x[i])
		case "LeakyRelu":
			e = math.Max(0, x[i]) + m*math.Min(0, x[i])
		case "Sigmoid":
			e = ref.Sig(x[i])
		case "TanhAct":
			e = math.Tanh(x[i])
		}
		tol := 1e-11*math.Abs(e) + 1e-300
		if in.Op == "Relu" {
			tol = 0
		}
		if !prog.Close(v[i], e, tol) {
			c.Violate("%s (m=%v): input %v gives %v, want %v", in.Op, m, x[i], v[i], e)
		}
	}
}

func c14Detail(c *core.Ctx, in prog.Ins, shape []int, x []float64) {
	c.Detail(func() string { return fmt.Sprintf("%s on %v %s", in, shape, prog.Fmt(x, 200)) })
}

func c14One(c *core.Ctx, in prog.Ins, shape []int, x []float64, regime int) {
	c14Detail(c, in, shape, x)
	tr := c.R.P(2)
	t := mkVal(c, shape, x, tr)
	a, err := prog.Activation(in)
	if err != nil {
		c.Violate("constructing %s failed: %v", in, err)
	}
	y, err := a.Forward(t)
	y = must(c, y, err)(in.Op)
	c14Check(c, in, y, shape, x)
	checkBits(c, "input after "+in.Op, t, shape, x)
	if c.R.P(4) { // once more with the same object, the other tracking
		y2, err := a.Forward(mk(c, shape, x, !tr))
		y2 = must(c, y2, err)(in.Op)
		c14Check(c, in, y2, shape, x)
	}
	c.EvalS(fmt.Sprint(in.Op, in.I, in.Slope(), in.RNil, shape, regime))
}

func c14Special(c *core.Ctx) {
	r := c.R
	op := actOps[c.Idx%5]
	x := append([]float64{}, actSpecials...)
	if op == "Softmax" {
		for i := range x {
			x[i] = math.Max(-700, math.Min(700, x[i]))
		}
	}
	p := r.Perm(len(x))
	y := make([]float64, len(x))
	for i, k := range p {
		y[i] = x[k]
	}
	shape := prog.RandFactor(r, len(x), 5)
	d := -1
	if op == "Softmax" {
		if len(shape) == 0 {
			shape = []int{len(x)}
		}
		d = r.Int(len(shape))
	}
	c14One(c, actIns(r, op, d), shape, y, -1)
}

func c14ShapesRun(c *core.Ctx) {
	r := c.R
	shape := c14Shapes[c.Idx%len(c14Shapes)]
	rep := c.Idx / len(c14Shapes)
	op := actOps[rep%5]
	if op == "Softmax" {
		if len(shape) == 0 {
			op = "Relu"
		} else {
			for d := range shape {
				reg := r.Int(actRegimes)
				c14One(c, actIns(r, op, d), shape, actVals(r, ref.Prod(shape), reg, 700), reg)
			}
			return
		}
	}
	reg := r.Int(actRegimes)
	c14One(c, actIns(r, op, 0), shape, actVals(r, ref.Prod(shape), reg, actLim(op)), reg)
}

func c14Draw(r *core.R, op string, maxRank, maxDim, maxEl int) (shape []int, d int) {
	lo := 0
	if op == "Softmax" {
		lo = 1
	}
	shape = prog.Dims(r, r.In(lo, maxRank), maxDim, maxEl)
	d = 0
	if op == "Softmax" {
		d = r.Int(len(shape))
	}
	return
}

func c14Random(c *core.Ctx) {
	r := c.R
	op := actOps[[]int{0, 1, 2, 3, 4, 4, 4}[c.Idx%7]]
	el := []int{8, 30, 120}[r.Int(3)]
	shape, d := c14Draw(r, op, []int{2, 4, 5, 5, 7}[r.Int(5)], []int{3, 5, 9}[r.Int(3)], el)
	reg := r.Int(actRegimes)
	c14One(c, actIns(r, op, d), shape, actVals(r, ref.Prod(shape), reg, actLim(op)), reg)
	if c.Idx%29989 == 0 {
		c.Sample(fmt.Sprintf("%s dim=%d on %v", op, d, shape))
	}
}

func c14Large(c *core.Ctx) {
	r := c.R
	op := actOps[[]int{0, 1, 2, 3, 4, 4, 4}[c.Idx%7]]
	var shape []int
	d := 0
	switch r.Int(5) {
	case 0:
		shape = []int{r.In(500, 4000)}
	case 1:
		shape = []int{r.In(2, 300), r.In(2, 12)}
	case 2:
		shape = []int{r.In(2, 12), r.In(2, 300)}
	case 3:
		shape = prog.Dims(r, 5, 6, 3000)
	default:
		shape = []int{r.In(2, 9), r.In(2, 9), r.In(2, 40)}
	}
	if op == "Softmax" {
		d = r.Int(len(shape))
	}
	reg := r.Int(actRegimes)
	c14One(c, actIns(r, op, d), shape, actVals(r, ref.Prod(shape), reg, actLim(op)), reg)
	c.Count("large", 1)
}

// c14History calls a few activation objects many times with different ranks and with rejected inputs in between.
func c14History(c *core.Ctx) {
	r := c.R
	type obj struct {
		in prog.Ins
		f  forwarder
	}
	var objs []obj
	for i, n := 0, r.In(1, 4); i < n; i++ {
		in := actIns(r, actOps[r.Int(5)], r.Int(4))
		var f forwarder
		f, err := prog.Activation(in)
		if err != nil {
			c.Violate("constructing %s failed: %v", in, err)
		}
		objs = append(objs, obj{in, f})
	}
	type input struct {
		t     tensor.Tensor
		shape []int
		x     []float64
	}
	var seen []input
	sig := ""
	for i, n := 0, r.In(3, 12); i < n; i++ {
		o := objs[r.Int(len(objs))]
		if len(seen) > 0 && r.P(4) { // a tensor that was an input before
			s := seen[r.Int(len(seen))]
			if o.in.Op != "Softmax" || o.in.I < len(s.shape) && maxAbs(s.x) <= 700 {
				c14Detail(c, o.in, s.shape, s.x)
				y, err := o.f.Forward(s.t)
				y = must(c, y, err)(o.in.Op)
				c14Check(c, o.in, y, s.shape, s.x)
				c.Count("same_input_again", 1)
				sig += "s"
				if r.P(3) {
					if err := tensor.BackPropagate(y); err != nil {
						c.Violate("back-propagating %s failed: %v", o.in, err)
					}
				}
				continue
			}
		}
		if r.P(7) {
			var err error
			switch {
			case o.in.Op == "Softmax" && r.Bool():
				sh := prog.Dims(r, r.In(0, o.in.I), 3, 9)
				_, err = o.f.Forward(mk(c, sh, prog.Vals(r, ref.Prod(sh)), r.Bool()))
			case r.Bool():
				_, err = o.f.Forward()
			default:
				_, err = o.f.Forward(nil)
			}
			if err == nil {
				c.Violate("%s accepted an invalid input", o.in)
			}
			sig += "e"
			continue
		}
		lo := 0
		if o.in.Op == "Softmax" {
			lo = o.in.I + 1
		}
		shape := prog.Dims(r, r.In(lo, 5), 4, 40)
		reg := r.Int(actRegimes)
		x := actVals(r, ref.Prod(shape), reg, actLim(o.in.Op))
		c14Detail(c, o.in, shape, x)
		t := mk(c, shape, x, r.Bool())
		y, err := o.f.Forward(t)
		y = must(c, y, err)(o.in.Op)
		c14Check(c, o.in, y, shape, x)
		seen = append(seen, input{t, shape, x})
		sig += fmt.Sprint(o.in.Op, o.in.I, shape)
	}
	c.EvalS(sig)
}

// c14Graph applies activations to results of other operations.
func c14Graph(c *core.Ctx) {
	r := c.R
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 4, MaxDim: 4, MaxElems: 60, Cmp: true})
	grow(b, r.In(1, 3), r.In(1, 8), 6)
	id := r.Int(len(b.P))
	op := actOps[c.Idx%5]
	if op == "Softmax" && len(b.T[id].Shape) == 0 {
		op = "Sigmoid"
	}
	d := 0
	if op == "Softmax" {
		d = r.Int(len(b.T[id].Shape))
	}
	in := actIns(r, op, d)
	c.Detail(func() string { return fmt.Sprintf("%s\n then %s on t%d", prog.Show(b.P), in, id) })
	ts := exec(c, b.P)
	s, x := read(c, ts[id], "input")
	for _, q := range x {
		if !(math.Abs(q) < 600) {
			c.Count("dropped", 1)
			return
		}
	}
	a, err := prog.Activation(in)
	if err != nil {
		c.Violate("constructing %s failed: %v", in, err)
	}
	y, err := a.Forward(ts[id])
	y = must(c, y, err)(op)
	c14Check(c, in, y, s, x)
	checkBits(c, "input after "+op, ts[id], s, x)
	c.Eval(structSig(b.P, id*10+c.Idx%5))
}

func maxAbs(v []float64) (m float64) {
	for _, x := range v {
		m = math.Max(m, math.Abs(x))
	}
	return m
}
