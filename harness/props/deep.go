package props

import (
	"fmt"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

// The deep families use ranks up to 24 (mostly sizes of 1) and Concat calls of hundreds of operands: position
// buffers and counters of a fixed size are out of reach of the ordinary shapes.

const deepRank = 24

func deepFamily(quick int, run func(c *core.Ctx)) core.Family {
	return core.Family{Name: "deep", Quick: quick, Thorough: quick * 8, Run: func(c *core.Ctx) {
		run(c)
		c.Count("deep", 1)
	}}
}

func deepDims(r *core.R) []int { return prog.Dims(r, r.In(0, deepRank), 4, 120) }

// deepSingle draws an application on operands of high rank, or a Concat of many operands.
func deepSingle(r *core.R, op string) prog.Single {
	if op == "Concat" && r.Bool() {
		base := prog.Dims(r, r.In(1, 3), 3, 6)
		s := prog.Single{In: prog.Ins{Op: op, I: r.Int(len(base))}}
		for k, n := 0, []int{r.In(13, 40), r.In(60, 140), r.In(250, 300)}[r.Int(3)]; k < n; k++ {
			sh := append([]int{}, base...)
			sh[s.In.I] = r.In(1, 2)
			s.Shapes = append(s.Shapes, sh)
			s.In.A = append(s.In.A, k)
		}
		return s
	}
	return prog.GenSingle(r, op, deepRank, 4, 96)
}

func c02Deep(c *core.Ctx) {
	r := c.R
	s := deepSingle(r, prog.DiffOps[c.Idx%len(prog.DiffOps)])
	vals := make([][]float64, len(s.Shapes))
	for i, sh := range s.Shapes {
		vals[i] = prog.OpVals(r, s.In, i, ref.Prod(sh), 0)
	}
	vjpCheck(c, s, vals, trackedSubset(r, len(s.Shapes)), r.In(-1, 4), "deep")
}

func c03Deep(c *core.Ctx) {
	r := c.R
	ops := []string{"Scale", "Pow", "Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh", "Eq", "Ne", "Gt", "Ge", "Lt", "Le", "ElMax", "ElMin", "Add", "Sub", "Mul", "Div"}
	k := c.Idx % len(ops)
	s := deepSingle(r, ops[k])
	v := plainVals(r, ref.Prod(s.Shapes[0]))
	switch {
	case k < 10:
		c03CheckUnary(c, ops[k], s.Shapes[0], v, r.Range(-3, 3))
	case k < 18:
		c03CheckSame(c, ops[k], s.Shapes[0], v, related(r, v, false))
	default:
		c03Binary(c, ops[k], s.Shapes[0], s.Shapes[1], v, plainVals(r, ref.Prod(s.Shapes[1])))
	}
}

func c04Deep(c *core.Ctx) {
	r := c.R
	switch k := c.Idx % 3; k {
	case 0, 1:
		op := []string{"MatMul", "Dot"}[k]
		s := deepSingle(r, op)
		c04Product(c, op, s.Shapes[0], s.Shapes[1], r.Int(8))
	case 2:
		s := deepSingle(r, "Transpose").Shapes[0]
		c04CheckTranspose(c, s, seqVals(r, ref.Prod(s)))
	}
}

func c05Deep(c *core.Ctx) {
	r := c.R
	s := deepDims(r)
	kind := r.Int(c05Kinds)
	var along []int
	if len(s) > 0 {
		along = []int{r.Int(len(s)), len(s) - 1}
		for i, d := range s {
			if d > 1 {
				along = append(along, i)
			}
		}
	}
	c05Check(c, s, c05Vals(r, ref.Prod(s), kind), kind, along)
}

func c06Deep(c *core.Ctx) {
	s := deepSingle(c.R, moveOps[c.Idx%len(moveOps)])
	c06Move(c, moveCase{s.Shapes, s.In})
}

func c07Deep(c *core.Ctx) {
	r := c.R
	op := append(castOps, "Broadcast")[c.Idx%7]
	s := deepSingle(r, op)
	var sb []int
	if len(s.Shapes) > 1 {
		sb = s.Shapes[1]
	}
	c07One(c, op, s.Shapes[0], sb, s.In.D, r)
}

func c14Deep(c *core.Ctx) {
	r := c.R
	op := actOps[c.Idx%5]
	shape, d := prog.Dims(r, r.In(1, deepRank), 4, 120), 0
	if op == "Softmax" {
		d = r.Int(len(shape))
	}
	reg := r.Int(actRegimes)
	c14One(c, actIns(r, op, d), shape, actVals(r, ref.Prod(shape), reg, actLim(op)), reg)
}

func c15Deep(c *core.Ctx) {
	r := c.R
	op := actOps[c.Idx%5]
	shape, d := prog.Dims(r, r.In(1, deepRank), 4, 120), 0
	if op == "Softmax" {
		d = r.Int(len(shape))
	}
	x, reg := c15Vals(r, op, ref.Prod(shape))
	c15One(c, actIns(r, op, d), shape, x, r.In(-1, upKinds-1), fmt.Sprint(reg))
}

func c17Deep(c *core.Ctx) { c17One(c, deepDims(c.R)) }
