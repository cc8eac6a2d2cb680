package props

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

func init() {
	n := len(prog.DiffOps)
	core.Register(&core.Prop{
		ID: "C02",
		Families: []core.Family{
			{Name: "vjp", Quick: n * 24000, Thorough: n * 150000, Run: c02VJP},
			{Name: "large", Quick: n * 120, Thorough: n * 900, Run: c02Large},
			{Name: "inf", Quick: 30000, Thorough: 200000, Run: c02Inf},
			{Name: "args", Quick: 24000, Thorough: 200000, Run: c02Args},
			{Name: "accepted", Quick: 60000, Thorough: 400000, Run: c02Accepted},
			hugeFamily(len(prog.DiffOps), c02Huge),
			sizesFamily(len(prog.DiffOps), 2, c02Huge),
			deepFamily(8000, c02Deep),
		},
		Rule: "one application of one operation: shapes, argument, value regime (ordinary, small integers and zeros, tiny, large, clustered, mixed), tracked subset, upstream weighting; " +
			"distinct = distinct (op, shapes, argument, tracked subset, aliasing, regime, weighting kind); every counted case compared at least one operand gradient with the vector-Jacobian product",
		Assumptions: []string{
			"points where the operation is not differentiable (ties of extrema, standard deviation 0, division by 0) are executed and must not fail, but their gradient values are not judged",
			"gradients stay below 1e300; infinite operand elements occur only where the operation moves, selects or ignores elements",
		},
		MinEvents: map[string]uint64{"operand_grads": 100000, "accepted_bp": 5000},
	})
}

// weights draws an upstream weighting.
func weights(r *core.R, n int, kind int) []float64 {
	w := make([]float64, n)
	for i := range w {
		switch kind {
		case 0:
			w[i] = r.Range(-2, 2)
		case 1:
			w[i] = 1
		case 2:
			w[i] = 0
			if r.P(3) {
				w[i] = r.Range(-3, 3)
			}
		case 3:
			w[i] = math.Pow(10, r.Range(-6, 6)) * []float64{-1, 1}[r.Int(2)]
		case 4:
			w[i] = float64(i + 1)
		case 5: // tiny
			w[i] = math.Pow(10, r.Range(-250, -100)) * []float64{-1, 1}[r.Int(2)]
		case 6: // huge
			w[i] = math.Pow(10, r.Range(60, 160)) * []float64{-1, 1}[r.Int(2)]
		}
	}
	return w
}

// temper brings extreme operand values towards 1, keeping their order: with extreme upstream gradients as well, the
// order in which a rule multiplies would decide which intermediate value underflows.
func temper(vals [][]float64) [][]float64 {
	o := make([][]float64, len(vals))
	for i, v := range vals {
		o[i] = append([]float64(nil), v...)
		for j, x := range v {
			for _, lim := range []float64{1e-40, 1e40} {
				if a := math.Abs(x); a != 0 && !math.IsInf(a, 0) && (lim < 1) == (a < lim) && (lim > 1) == (a > lim) {
					o[i][j] = math.Copysign(lim*math.Pow(a/lim, 1./64), x)
				}
			}
		}
	}
	return o
}

// vjpCheck runs one application with the given operand values and compares all operand gradients.
func vjpCheck(c *core.Ctx, s prog.Single, vals [][]float64, tracked []bool, wkind int, tag string) {
	r := c.R
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 8, MaxDim: 1 << 20, MaxElems: 1 << 20})
	if wkind >= 5 {
		vals = temper(vals)
	}
	for i, sh := range s.Shapes {
		b.LeafV(sh, vals[i], tracked[i])
	}
	y := b.Push(s.In)
	root := y
	if wkind >= 0 {
		w := b.LeafV(b.T[y].Shape, weights(r, len(b.T[y].N), wkind), false)
		if r.Bool() {
			root = b.Push(prog.Ins{Op: "Mul", A: []int{y, w}})
		} else {
			root = b.Push(prog.Ins{Op: "Mul", A: []int{w, y}})
		}
	}
	c.Detail(func() string { return prog.Show(b.P) })
	g, tol := b.Tape.Backward(b.T[root], false)
	judge := b.Tape.Bad == ""
	for i := range b.T {
		if tag == "inf" && !b.P[i].Tracked && i != y {
			continue // values may be infinite there: only the derivatives at the operands count
		}
		for _, n := range b.T[i].N {
			if tag == "inf" && math.Abs(g[n]) < 1e300 {
				continue
			}
			if !(math.Abs(b.Tape.Val[n]) < 1e307) || !(math.Abs(g[n]) < 1e300) {
				judge = false
			}
		}
	}
	ts := exec(c, b.P)
	if err := tensor.BackPropagate(ts[root]); err != nil {
		c.Violate("BackPropagate failed although the forward call was accepted: %v", err)
	}
	tr := trackedOf(b.P)
	var gk, tolk []float64
	known := ""
	for i := range b.P {
		if !tr[i] {
			continue
		}
		if !judge {
			gr := ts[i].Gradient()
			if gr == nil || !prog.SameShape(gr.Shape(), b.T[i].Shape) {
				c.Violate("operand t%d: gradient missing or of the wrong shape", i)
			}
			c.Count("not_judged", 1)
			continue
		}
		c.Count("operand_grads", 1)
		m := gradMismatch(ts[i], b.T[i], g, tol)
		if m == "" {
			continue
		}
		if b.Tape.Find {
			if gk == nil {
				gk, tolk = b.Tape.Backward(b.T[root], true)
			}
			if gradMismatch(ts[i], b.T[i], gk, tolk) == "" {
				known = fmt.Sprintf("t%d: %s", i, m)
				continue
			}
		}
		c.Violate("%s: t%d: %s", s.In.Op, i, m)
	}
	if known != "" {
		c.Known(findBroadcast, "%s in %s", known, prog.Show(b.P))
	}
	if judge {
		h := structSig(b.P[:y+1], wkind)
		c.Eval(core.HashS(h, tag))
		c.Count("vjp."+s.In.Op, 1)
	}
	if c.Idx%9973 == 0 {
		c.Sample(prog.Show(b.P))
	}
}

func trackedSubset(r *core.R, n int) []bool {
	t := make([]bool, n)
	for i := range t {
		t[i] = r.Int(3) > 0
	}
	t[r.Int(n)] = true
	return t
}

func c02Run(c *core.Ctx, op string, maxRank, maxDim, maxElems int) {
	r := c.R
	s := prog.GenSingle(r, op, maxRank, maxDim, maxElems)
	regime := r.Int(prog.Regimes)
	if r.P(3) {
		regime = 0
	}
	tr := trackedSubset(r, len(s.Shapes))
	vals := make([][]float64, len(s.Shapes))
	for i, sh := range s.Shapes {
		vals[i] = prog.OpVals(r, s.In, i, ref.Prod(sh), regime)
	}
	if len(s.Shapes) == 2 && r.P(8) && prog.SameShape(s.Shapes[0], s.Shapes[1]) && (op != "Div" || regime == 0) {
		// the same tensor in both positions
		s.Shapes, vals, tr = s.Shapes[:1], vals[:1], []bool{true}
		s.In.A = []int{0, 0}
	}
	wk := r.In(-1, 4)
	if r.P(8) {
		wk = r.In(5, 6)
	}
	vjpCheck(c, s, vals, tr, wk, fmt.Sprint(regime))
}

func c02VJP(c *core.Ctx) {
	op := prog.DiffOps[c.Idx%len(prog.DiffOps)]
	switch r := c.R.Int(10); {
	case r < 5:
		c02Run(c, op, 3, 3, 18)
	case r < 8:
		c02Run(c, op, 4, 4, 64)
	default:
		c02Run(c, op, 6, 3, 96)
	}
}

func c02Large(c *core.Ctx) {
	op := prog.DiffOps[c.Idx%len(prog.DiffOps)]
	switch c.R.Int(4) {
	case 0:
		c02Run(c, op, 1, 700, 700)
	case 1:
		c02Run(c, op, 2, 45, 1200)
	case 2:
		c02Run(c, op, 3, 17, 1500)
	default:
		c02Run(c, op, 7, 4, 900)
	}
}

// c02Inf: linear operations and those that select or ignore elements have finite derivatives next to infinite (or NaN) ones.
func c02Inf(c *core.Ctx) {
	r := c.R
	ops := []string{"Slice", "Patch", "Transpose", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Concat", "MaxAlong", "MinAlong", "ElMax", "ElMin", "Slice", "Patch", "Pow",
		"Broadcast", "Scale", "Add", "Sub", "SumAlong", "AvgAlong", "MeanAlong"}
	s := prog.GenSingle(r, ops[r.Int(len(ops))], 4, 4, 64)
	vals := make([][]float64, len(s.Shapes))
	sign := r.In(-1, 1)
	nan := r.P(3)
	switch s.In.Op {
	case "MaxAlong", "MinAlong", "ElMax", "ElMin", "Pow":
		nan = false
	}
	for i, sh := range s.Shapes {
		vals[i] = prog.OpVals(r, s.In, i, ref.Prod(sh), []int{0, 5, 6}[r.Int(3)])
		for k := range vals[i] {
			if r.P(4) {
				vals[i][k] = math.Inf(sign)
				if sign == 0 && r.Bool() {
					vals[i][k] = math.Inf(-1)
				}
				if nan && r.Bool() {
					vals[i][k] = math.NaN()
				}
			}
		}
	}
	if s.In.Op == "Pow" {
		s.In.F = 0
	}
	vjpCheck(c, s, vals, trackedSubset(r, len(s.Shapes)), r.In(0, 4), "inf")
	c.Count("infinite", 1)
}

// c02Args sweeps exponents and factors, including at base zero where the power is differentiable there.
func c02Args(c *core.Ctx) {
	r := c.R
	op := []string{"Pow", "Scale"}[r.Int(2)]
	sh := prog.Dims(r, r.In(0, 3), 3, 12)
	in := prog.Ins{Op: op, A: []int{0}}
	exps := []float64{0, 1, 2, 3, 5, 10, 1.5, 2.5, 0.5, -0.5, -1, -2, -5, 1e-3, 1.0000001, math.E, 7.25, 1 - 1e-9}
	in.F = exps[r.Int(len(exps))]
	if op == "Scale" {
		in.F = []float64{0, math.Copysign(0, -1), 1, -1, 1e-200, 1e200, -1e-5, 12345.678}[r.Int(8)]
	}
	v := make([]float64, ref.Prod(sh))
	for i := range v {
		v[i] = []float64{0, 1, -1, 0.5, 2, -2, r.Range(0.1, 3), r.Range(-3, 3), math.Copysign(0, -1)}[r.Int(9)]
		if op == "Pow" && in.F != math.Trunc(in.F) {
			v[i] = math.Abs(v[i])
		}
		if op == "Pow" && v[i] == 0 && !(in.F == 0 || in.F >= 1) {
			v[i] = 1.25
		}
	}
	vjpCheck(c, prog.Single{Shapes: [][]int{sh}, In: in}, [][]float64{v}, []bool{true}, r.In(-1, 4), "args")
}

// c02Accepted throws random arguments at the operations: whatever is accepted must back-propagate, and the
// gradient must have the operand's shape.
func c02Accepted(c *core.Ctx) {
	r := c.R
	ops := []string{"Slice", "Patch", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast", "Concat", "SumAlong", "VarAlong", "StdAlong", "MaxAlong",
		"AvgAlong", "Add", "Mul", "Div", "Dot", "MatMul", "ElMax", "Transpose", "Pow"}
	op := ops[r.Int(len(ops))]
	n := 1
	switch op {
	case "Patch", "Add", "Mul", "Div", "Dot", "MatMul", "ElMax":
		n = 2
	case "Concat":
		n = r.In(1, 3)
	}
	in := prog.Ins{Op: op, I: r.In(-1, 4), F: float64(r.In(-2, 3))}
	var p []prog.Ins
	base := prog.Dims(r, r.In(0, 4), 3, 40)
	for i := 0; i < n; i++ {
		sh := append([]int{}, base...)
		for k := range sh {
			if r.P(4) {
				sh[k] = r.In(1, 3)
			}
		}
		if r.P(4) && len(sh) > 0 {
			sh = sh[1:]
		}
		if (op == "MatMul") && i == 1 && len(sh) > 1 && r.Bool() {
			sh[len(sh)-1], sh[len(sh)-2] = sh[len(sh)-2], sh[len(sh)-1]
		}
		p = append(p, prog.Ins{Op: "leaf", D: sh, V: prog.Vals(r, ref.Prod(sh)), Tracked: i == 0 || r.Bool()})
		in.A = append(in.A, i)
	}
	switch op {
	case "Reshape":
		in.D = prog.RandFactor(r, ref.Prod(p[0].D), 4)
		if r.P(4) {
			in.D = append(in.D, r.In(0, 2))
		}
	case "Broadcast":
		in.D = prog.RandTarget(r, p[0].D, 4, 3)
		if r.P(4) && len(in.D) > 0 {
			in.D[r.Int(len(in.D))] = r.In(0, 4)
		}
	case "Slice", "Patch":
		k := r.In(0, len(p[0].D)+1)
		for i := 0; i < k; i++ {
			q := ref.R{From: r.In(-1, 3), To: r.In(-1, 4)}
			if r.P(3) {
				q = ref.R{}
			} else if i < len(p[0].D) && r.Bool() {
				q.From = r.Int(p[0].D[i])
				q.To = r.In(q.From+1, p[0].D[i])
				if op == "Patch" && i < len(p[1].D) {
					q.To = q.From + p[1].D[i]
				}
			}
			in.R = append(in.R, q)
		}
	}
	p = append(p, in)
	c.Detail(func() string { return prog.Show(p) })
	ts := exec(c, p[:n])
	y, err := prog.Apply(in, ts, nil)
	if err != nil {
		c.Count("rejected", 1)
		return
	}
	if y == nil {
		c.Violate("neither result nor error")
	}
	var root tensor.Tensor = y
	if r.Bool() {
		root = y.Scale(r.Range(-2, 2))
	}
	if err := tensor.BackPropagate(root); err != nil {
		c.Violate("the forward call was accepted, its back-propagation failed: %v", err)
	}
	for i := 0; i < n; i++ {
		if !p[i].Tracked {
			continue
		}
		gr := ts[i].Gradient()
		if gr == nil {
			c.Violate("operand t%d has no gradient", i)
		}
		if !prog.SameShape(gr.Shape(), p[i].D) {
			c.Violate("operand t%d of shape %v has a gradient of shape %v", i, p[i].D, gr.Shape())
		}
	}
	c.Count("accepted_bp", 1)
	c.Eval(structSig(p, n))
}
