package props

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

// The huge families run each operation a few times with more than 2^16 (and 2^17, 2^18, 2^19) elements:
// block sizes, counters and buffers that only wrap or fill up there are out of reach of the small shapes. The sizes
// families run each operation with every size of prog.Sizes: the sizes code singles out (tiles, unrolled loops, pools,
// thresholds) are round numbers and powers of two, and their neighbours.

// quick cases per operation, by log2 of the factor
var hugeSteps = []int{0, 1, 0, 2}

func hugeFamily(n int, run func(c *core.Ctx)) core.Family {
	return core.Family{Name: "huge", Quick: n * len(hugeSteps), Thorough: n * 40, Run: func(c *core.Ctx) {
		k := c.Idx / n
		c.Size = -hugeSteps[k%len(hugeSteps)]
		if k >= len(hugeSteps) { // thorough
			c.Size = -(k % 4)
		}
		run(c)
		c.Count("huge", 1)
	}}
}

func sizesFamily(n int, quick float64, run func(c *core.Ctx)) core.Family {
	sizes := prog.Sizes
	return core.Family{Name: "sizes", Quick: int(quick * float64(n*len(sizes))), Thorough: 30 * n * len(sizes), Run: func(c *core.Ctx) {
		i := c.Idx / n % len(sizes)
		if c.Idx/n/len(sizes)%2 == 1 { // the second time, another operation meets another neighbour
			i = len(sizes) - 1 - i
		}
		c.Size = sizes[i]
		prog.SizePos = c.Idx / n / len(sizes) % 4
		if quick <= 1 {
			prog.SizePos = c.R.Int(4)
		}
		if quick <= 1 && c.Tier == "quick" && c.Size > 10000 && c.R.Int(3) > 0 {
			c.Size = sizes[c.R.Int(len(sizes)*3/4)]
		}
		run(c)
		c.Count("sizes", 1)
	}}
}

func sized(c *core.Ctx) []int {
	s := prog.SizedDims(c.R, c.Size, 1)
	c.Count("sized_elements", ref.Prod(s))
	return s
}

// plainVals are moderate values, distinct enough to expose displaced elements.
func plainVals(r *core.R, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = r.Range(0.3, 2)
		if r.Bool() {
			v[i] = -v[i]
		}
	}
	return v
}

func c02Huge(c *core.Ctx) {
	r := c.R
	s := prog.GenSized(r, prog.DiffOps[c.Idx%len(prog.DiffOps)], c.Size)
	vals := make([][]float64, len(s.Shapes))
	for i, sh := range s.Shapes {
		vals[i] = prog.OpVals(r, s.In, i, ref.Prod(sh), 0)
	}
	vjpCheck(c, s, vals, trackedSubset(r, len(s.Shapes)), r.In(-1, 4), "huge")
}

func c03Huge(c *core.Ctx) {
	r := c.R
	ops := []string{"Scale", "Pow", "Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh", "Eq", "Ne", "Gt", "Ge", "Lt", "Le", "ElMax", "ElMin", "Add", "Sub", "Mul", "Div", "Equals"}
	k := c.Idx % len(ops)
	if ops[k] == "Equals" {
		c03EqualsOf(c, sized(c))
		return
	}
	s := prog.GenSized(r, ops[k], c.Size)
	v := plainVals(r, ref.Prod(s.Shapes[0]))
	switch {
	case k < 10:
		c03CheckUnary(c, ops[k], s.Shapes[0], v, r.Range(-3, 3))
	case k < 18:
		c03CheckSame(c, ops[k], s.Shapes[0], v, related(r, v, false))
	default:
		c03Binary(c, ops[k], s.Shapes[0], s.Shapes[1], v, plainVals(r, ref.Prod(s.Shapes[1])))
	}
}

func c04Huge(c *core.Ctx) {
	r := c.R
	switch k := c.Idx % 3; k {
	case 0, 1:
		op := []string{"MatMul", "Dot"}[k]
		s := prog.GenSized(r, op, c.Size)
		c04Product(c, op, s.Shapes[0], s.Shapes[1], r.Int(4))
	case 2:
		s := prog.GenSized(r, "Transpose", c.Size).Shapes[0]
		c04CheckTranspose(c, s, seqVals(r, ref.Prod(s)))
	}
}

func c05Huge(c *core.Ctx) {
	r := c.R
	s := sized(c)
	kind := []int{0, 1, 2, 4, 7, 10}[c.Idx%6]
	c05Check(c, s, c05Vals(r, ref.Prod(s), kind), kind, []int{r.Int(len(s))})
}

func c06Huge(c *core.Ctx) {
	r := c.R
	n := len(moveOps)
	if k := c.Idx % (n + 4); k >= n {
		c06HugeConstruct(c, k-n)
		return
	}
	s := prog.GenSized(r, moveOps[c.Idx%(n+4)], c.Size)
	c06Move(c, moveCase{s.Shapes, s.In})
}

func c06HugeConstruct(c *core.Ctx, k int) {
	r := c.R
	s := sized(c)
	n := ref.Prod(s)
	e := make([]float64, n)
	var t tensor.Tensor
	var err error
	what := ""
	c.Detail(func() string { return fmt.Sprintf("%s %v", what, s) })
	switch k {
	case 0:
		what = "Eye"
		m := r.In(257, 330)
		if c.Size > 0 {
			m = min(c.Size, 1030)
		}
		s, e = []int{m, m}, make([]float64, m*m)
		for i := 0; i < m; i++ {
			e[i*m+i] = 1
		}
		t, err = tensor.Eye(m, prog.Conf(r.Bool()))
	case 1:
		what = "Full"
		v := r.Range(-9, 9)
		for i := range e {
			e[i] = v
		}
		t, err = tensor.Full(append([]int{}, s...), v, prog.Conf(r.Bool()))
	case 2:
		what = "Ones"
		for i := range e {
			e[i] = 1
		}
		t, err = tensor.Ones(append([]int{}, s...), prog.Conf(r.Bool()))
	case 3:
		what = "TensorOf"
		e = marks(r, n, 1)
		w := 1 + n%7
		for n%w != 0 {
			w--
		}
		if r.Bool() {
			s = []int{n}
			t, err = tensor.TensorOf(append([]float64{}, e...), prog.Conf(r.Bool()))
		} else {
			s = []int{n / w, w}
			d := make([][]float64, n/w)
			for i := range d {
				d[i] = append([]float64{}, e[i*w:(i+1)*w]...)
			}
			t, err = tensor.TensorOf(d, prog.Conf(r.Bool()))
		}
	}
	t = must(c, t, err)(what)
	checkBits(c, what, t, s, e)
	c.Count("constructed", 1)
	c.Count("elements", len(e))
	c.EvalS(fmt.Sprint(what, s))
}

func c07Huge(c *core.Ctx) {
	r := c.R
	op := append(castOps, "Broadcast")[c.Idx%7]
	s := prog.GenSized(r, op, c.Size)
	var sb []int
	if len(s.Shapes) > 1 {
		sb = s.Shapes[1]
	}
	c07One(c, op, s.Shapes[0], sb, s.In.D, r)
}

func hugeLossShape(c *core.Ctx, k int) []int {
	r := c.R
	if f := 1 << max(0, -c.Size); c.Size <= 0 {
		if k < 2 {
			return []int{r.In(65536, 67000) * f}
		}
		return [][]int{{r.In(257, 262) * f, r.In(256, 260)}, {2, r.In(32769, 33000) * f}, {r.In(32769, 33000) * f, 2}}[r.Int(3)]
	}
	if k < 2 {
		return []int{c.Size}
	}
	s := []int{c.Size, r.In(1, max(1, min(9, 20000/c.Size)))}
	if r.P(4) {
		s = prog.RandFactor(r, c.Size, 2)
		for len(s) < 2 {
			s = append(s, 1)
		}
	}
	if r.Bool() {
		s[0], s[1] = s[1], s[0]
	}
	return s
}

func c12Huge(c *core.Ctx) {
	r := c.R
	k := c.Idx % 3
	shape := hugeLossShape(c, k)
	pr, tr := r.Int(predRegimes), r.Int(targetRegimes)
	p, t := lossPreds(r, k, ref.Prod(shape), pr), lossTargets(r, k, shape, tr)
	nearTargets(r, k, p, t)
	lossDetail(c, k, shape, p, t)
	c12Check(c, newLoss(k), k, shape, p, t, false)
	c.EvalS(fmt.Sprint(k, shape, pr, tr))
}

func c13Huge(c *core.Ctx) {
	r := c.R
	k := c.Idx % 3
	shape := hugeLossShape(c, k)
	pr, tr := r.Int(8), r.Int(c13TargetRegimes)
	p, t := c13Preds(r, ref.Prod(shape), pr), c13Targets(r, k, shape, tr)
	nearTargets(r, k, p, t)
	c13Run(c, newLoss(k), k, shape, p, t)
	c.EvalS(fmt.Sprint(k, shape, pr, tr))
}

func c14Huge(c *core.Ctx) {
	r := c.R
	op := actOps[c.Idx%5]
	shape, d := sized(c), 0
	if op == "Softmax" {
		d = r.Int(len(shape))
	}
	reg := r.Int(actRegimes)
	c14One(c, actIns(r, op, d), shape, actVals(r, ref.Prod(shape), reg, actLim(op)), reg)
}

func c15Huge(c *core.Ctx) {
	r := c.R
	op := actOps[c.Idx%5]
	shape, d := sized(c), 0
	if op == "Softmax" {
		d = r.Int(len(shape))
	}
	x, reg := c15Vals(r, op, ref.Prod(shape))
	c15One(c, actIns(r, op, d), shape, x, r.In(-1, upKinds-1), fmt.Sprint(reg))
}

func c16Huge(c *core.Ctx) {
	r := c.R
	f := 1 << max(0, -c.Size)
	d := [][]int{{r.In(8200, 8300) * f, 2, 4}, {1, r.In(65536, 66000) * f, 1}, {1, 1, r.In(65536, 66000) * f}, {2 * f, 260, 130}}[c.Idx%4]
	if c.Size > 0 {
		d = []int{r.In(1, 3), r.In(1, 3), r.In(1, 3)}
		i := c.Idx % 4
		if i == 3 {
			i = r.Int(3)
			if c.Size <= 400 {
				d[(i+1)%3], d[(i+2)%3] = r.In(4, 12), r.In(4, 12)
			}
		}
		d[i] = c.Size
		if c.Size <= 64 && r.P(3) {
			d[r.Int(3)] = c.Size
		}
	}
	if r.P(3) || (c.Size > 0 && r.Bool()) {
		c16GradOne(c, d[0], d[1], d[2])
		return
	}
	c16One(c, d[0], d[1], d[2], false)
}

func c10Sizes(c *core.Ctx) {
	c10SingleOf(c, prog.GenSized(c.R, c10Ops[c.Idx%len(c10Ops)], c.Size), false)
}

// c18Huge draws from every initializer and generator.
func c18Huge(c *core.Ctx) {
	r := c.R
	d := mkDist(c, c.Idx%len(distNames), r.Bool())
	s := sized(c)
	d.detail(c, s, "")
	v := d.draw(c, s)
	for i := 1; len(v) < 4000 && i < 60; i++ {
		v = append(v, d.draw(c, s)...)
	}
	if d.kind > 0 && len(v) > 2000 {
		d.judge(c, v, nil)
	}
	c.EvalS(fmt.Sprint(d.name, d.params, s))
}

// c19Huge: batches of one size, several times in one metric.
func c19Huge(c *core.Ctx) {
	r := c.R
	n := c.Size
	if n <= 0 {
		n = (65530 + r.Int(2000)) << -c.Size
	}
	a := &accModel{m: metrics.NewAccuracy()}
	c.Detail(func() string { return fmt.Sprintf("batches of %d", n) })
	for i, m := 0, r.In(1, 3); i < m; i++ {
		p, t, hits, _ := labels(r, n)
		a.add(c, p, t, hits, false)
		a.check(c, fmt.Sprintf("after %d batches of %d", i+1, n))
		if i == 0 && r.P(3) {
			p, t, hits, _ = labels(r, r.In(1, 4))
			a.add(c, p, t, hits, false)
		}
		a.check(c, fmt.Sprintf("after %d batches of %d", i+1, n))
	}
	c.EvalS(fmt.Sprint("batches", n))
}

func c17Huge(c *core.Ctx) { c17One(c, sized(c)) }

var _ = math.Pi
