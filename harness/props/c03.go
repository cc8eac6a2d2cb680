package props

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

var c03Shapes [][]int

func init() {
	// every shape of rank <= 3 with sizes 1..3
	c03Shapes = [][]int{{}}
	for from, rk := 0, 1; rk <= 3; rk++ {
		to := len(c03Shapes)
		for i := from; i < to; i++ {
			for d := 1; d <= 3; d++ {
				c03Shapes = append(c03Shapes, append([]int{d}, c03Shapes[i]...))
			}
		}
		from = to
	}
	n := len(c03Shapes)
	core.Register(&core.Prop{
		ID: "C03",
		Families: []core.Family{
			{Name: "unary", Quick: 480000, Thorough: 2000000, Run: c03Unary},
			{Name: "pairs", Quick: n * n, Thorough: n * n * 40, Run: c03Pairs},
			{Name: "broadcast", Quick: 320000, Thorough: 1200000, Run: c03Broadcast},
			{Name: "compare", Quick: 400000, Thorough: 1500000, Run: c03Compare},
			{Name: "equals", Quick: 240000, Thorough: 800000, Run: c03Equals},
			{Name: "large", Quick: 2400, Thorough: 10000, Run: c03Large},
			hugeFamily(23, c03Huge),
			sizesFamily(23, 4, c03Huge),
			deepFamily(8000, c03Deep),
		},
		Rule: "element-wise applications over shapes (all pairs of shapes of rank <= 3 and sizes <= 3 for broadcasting, random up to rank 6 and thousands of elements), operands built through several routes, " +
			"values from ordinary to hostile (0, -0, NaN, infinities, subnormal, huge, neighbouring floats); distinct = distinct (op, shapes, argument, route/tracking hash); every element of every result is compared",
		Assumptions: []string{
			"positions where Eq, Ne or Equals see two different values closer than 1e-239 are not judged (documented equality threshold 1e-240)",
			"ElMax and ElMin of a NaN are not judged",
		},
		MinEvents: map[string]uint64{"elements": 500000, "broadcast_pairs": 2000, "explicit_equal": 2000},
	})
}

var hostile = []float64{
	0, math.Copysign(0, -1), 1, -1, 0.5, 2, -2, 3, 10, -10, 100, 1e-5, -1e-5, 1e-12, -1e-12, 1e-13, 1e-16, 1e-30, -1e-30, 1e-100, 1e-200, -1e-200, 1e-230,
	5e-324, -5e-324, 2.2250738585072014e-308, math.MaxFloat64, -math.MaxFloat64, 1e300, -1e300, 1e154, 1e100, 1e16, 9007199254740993, 700, -700, 709.5, 710, -745, 750, -750,
	math.Pi, math.Pi / 2, -math.Pi / 2, math.E, 0.1, 0.2, 0.3, 1 + 2.220446049250313e-16, 1 - 1.1102230246251565e-16, 1e6, -1e6,
	math.Inf(1), math.Inf(-1), math.NaN(),
}

func hostileVals(r *core.R, n int, special bool) []float64 {
	v := make([]float64, n)
	for i := range v {
		switch r.Int(4) {
		case 0:
			v[i] = hostile[r.Int(len(hostile))]
		case 1:
			v[i] = float64(r.In(-4, 4))
		case 2:
			v[i] = r.Range(-5, 5)
		default:
			v[i] = math.Pow(10, r.Range(-20, 20)) * []float64{-1, 1}[r.Int(2)]
		}
		if !special && (math.IsNaN(v[i]) || math.IsInf(v[i], 0)) {
			v[i] = r.Range(-3, 3)
		}
	}
	return v
}

// related draws a partner vector whose elements are often equal or nearly equal to v's.
func related(r *core.R, v []float64, special bool) []float64 {
	w := hostileVals(r, len(v), special)
	for i := range w {
		switch r.Int(6) {
		case 0, 1:
			w[i] = v[i]
		case 2:
			w[i] = math.Nextafter(v[i], math.Inf(1))
		case 3:
			w[i] = math.Nextafter(v[i], math.Inf(-1))
		case 4:
			w[i] = v[i] + []float64{1e-9, 1e-12, -1e-13, 1e-15, 1e-230, -1e-6}[r.Int(6)]
		}
		if !special && (math.IsNaN(w[i]) || math.IsInf(w[i], 0)) {
			w[i] = 1
		}
	}
	return w
}

func relTol(rel float64) func(x float64) float64 {
	return func(x float64) float64 { return rel*math.Abs(x) + 5e-324 }
}

func unaryFn(op string, a float64) (func(float64) float64, float64) {
	switch op {
	case "Scale":
		return func(x float64) float64 { return a * x }, 4e-16
	case "Pow":
		return func(x float64) float64 { return math.Pow(x, a) }, 1e-12
	case "Exp":
		return math.Exp, 1e-12
	case "Log":
		return math.Log, 1e-12
	case "Sin":
		return math.Sin, 1e-11
	case "Cos":
		return math.Cos, 1e-11
	case "Tan":
		return math.Tan, 1e-11
	case "Sinh":
		return math.Sinh, 1e-12
	case "Cosh":
		return math.Cosh, 1e-12
	case "Tanh":
		return math.Tanh, 1e-12
	}
	panic(op)
}

func c03Shape(r *core.R) []int {
	if r.P(8) {
		return prog.Dims(r, r.In(0, 6), 3, 200)
	}
	return prog.Dims(r, r.In(0, 4), 4, 48)
}

func c03Unary(c *core.Ctx) {
	r := c.R
	ops := []string{"Scale", "Pow", "Exp", "Log", "Sin", "Cos", "Tan", "Sinh", "Cosh", "Tanh"}
	op := ops[c.Idx%len(ops)]
	sh := c03Shape(r)
	a := 0.
	switch op {
	case "Scale":
		a = hostile[r.Int(len(hostile))]
		if r.Bool() {
			a = r.Range(-3, 3)
		}
	case "Pow":
		a = []float64{0, 1, 2, 3, -1, -2, 0.5, -0.5, 1.5, 10, 1e-3, 0.3333333333333333, r.Range(-4, 4), hostile[r.Int(len(hostile))]}[r.Int(14)]
	}
	v := hostileVals(r, ref.Prod(sh), true)
	if op == "Sin" || op == "Cos" || op == "Tan" {
		for i := range v {
			if math.Abs(v[i]) > 1e6 {
				v[i] = r.Range(-1e3, 1e3)
			}
		}
	}
	c03CheckUnary(c, op, sh, v, a)
}

func c03CheckUnary(c *core.Ctx, op string, sh []int, v []float64, a float64) {
	in := prog.Ins{Op: op, A: []int{0}, F: a}
	tr := c.R.Bool()
	c.Detail(func() string { return fmt.Sprintf("%s of shape %v values %s tracked=%v", in, sh, prog.Fmt(v, 60), tr) })
	x := mkVal(c, sh, v, tr)
	y, err := prog.Apply(in, []tensor.Tensor{x}, nil)
	y = must(c, y, err)(op)
	f, rel := unaryFn(op, a)
	exp := make([]float64, len(v))
	for i := range v {
		exp[i] = f(v[i])
	}
	checkVals(c, op, y, sh, exp, func(i int) float64 { return relTol(rel)(exp[i]) })
	checkBits(c, "operand after "+op, x, sh, v)
	c.Count("elements", len(v))
	c.Count("op."+op, 1)
	c.EvalS(fmt.Sprint(op, sh, a, tr, c.R.Int(16)))
	if c.Idx%20011 == 0 {
		c.Sample(fmt.Sprintf("%s of shape %v values %s", in, sh, prog.Fmt(v, 12)))
	}
}

func arith(op string) func(x, y float64) float64 {
	switch op {
	case "Add":
		return func(x, y float64) float64 { return x + y }
	case "Sub":
		return func(x, y float64) float64 { return x - y }
	case "Mul":
		return func(x, y float64) float64 { return x * y }
	case "Div":
		return func(x, y float64) float64 { return x / y }
	case "ElMax":
		return math.Max
	case "ElMin":
		return math.Min
	}
	panic(op)
}

// c03Binary checks one arithmetic operation between two shapes, and against explicit broadcasting.
func c03Binary(c *core.Ctx, op string, sa, sb []int, va, vb []float64) {
	r := c.R
	out, ok := ref.BShape(sa, sb)
	if !ok {
		panic("shapes")
	}
	self := prog.SameShape(sa, sb) && r.P(6)
	if self {
		vb = va
	}
	ta, tb := r.Bool(), r.Bool()
	c.Detail(func() string {
		return fmt.Sprintf("%s: shape %v %s tracked=%v with shape %v %s tracked=%v", op, sa, prog.Fmt(va, 40), ta, sb, prog.Fmt(vb, 40), tb)
	})
	a, b := mkVal(c, sa, va, ta), mkVal(c, sb, vb, tb)
	if self {
		b = a
		c.Count("same_operand_twice", 1)
	}
	in := prog.Ins{Op: op, A: []int{0, 1}}
	y, err := prog.Apply(in, []tensor.Tensor{a, b}, nil)
	y = must(c, y, err)(op)
	f := arith(op)
	n := ref.Prod(out)
	exp := make([]float64, n)
	for i := range exp {
		ix := ref.Unravel(i, out)
		exp[i] = f(va[ref.BPos(ix, sa)], vb[ref.BPos(ix, sb)])
	}
	checkVals(c, op, y, out, exp, func(i int) float64 { return relTol(4e-16)(exp[i]) })
	checkBits(c, "left operand after "+op, a, sa, va)
	checkBits(c, "right operand after "+op, b, sb, vb)
	c.Count("elements", n)
	c.Count("op."+op, 1)
	if r.Int(3) == 0 || c.Family == "pairs" {
		ea, err := a.Broadcast(append([]int{}, out...))
		ea = must(c, ea, err)("explicit Broadcast of the left operand")
		eb, err := b.Broadcast(append([]int{}, out...))
		eb = must(c, eb, err)("explicit Broadcast of the right operand")
		ye, err := prog.Apply(in, []tensor.Tensor{ea, eb}, nil)
		ye = must(c, ye, err)(op + " of broadcast operands")
		_, vi := read(c, y, op)
		checkBits(c, op+" of explicitly broadcast operands vs implicit", ye, out, vi)
		c.Count("explicit_equal", 1)
	}
	if !prog.SameShape(sa, sb) {
		c.Count("broadcast_pairs", 1)
	}
	c.EvalS(fmt.Sprint(op, sa, sb, ta, tb))
	if c.Idx%20011 == 0 {
		c.Sample(fmt.Sprintf("%s: %v %s with %v %s", op, sa, prog.Fmt(va, 12), sb, prog.Fmt(vb, 12)))
	}
}

var arith4 = []string{"Add", "Sub", "Mul", "Div"}

func c03Pairs(c *core.Ctx) {
	n := len(c03Shapes)
	k := c.Idx % (n * n)
	sa, sb := c03Shapes[k/n], c03Shapes[k%n]
	if _, ok := ref.BShape(sa, sb); !ok {
		// incompatible shapes must be rejected by every operation
		a, b := mk(c, sa, make([]float64, ref.Prod(sa)), false), mk(c, sb, make([]float64, ref.Prod(sb)), false)
		c.Detail(func() string { return fmt.Sprintf("shapes %v and %v", sa, sb) })
		for _, op := range arith4 {
			if y, err := prog.Apply(prog.Ins{Op: op, A: []int{0, 1}}, []tensor.Tensor{a, b}, nil); err == nil {
				c.Violate("%s of incompatible shapes %v and %v was accepted with shape %v", op, sa, sb, y.Shape())
			}
		}
		c.Count("incompatible_pairs", 1)
		c.EvalS(fmt.Sprint("incompatible", sa, sb))
		return
	}
	for _, op := range arith4 {
		va := hostileVals(c.R, ref.Prod(sa), true)
		vb := hostileVals(c.R, ref.Prod(sb), true)
		c03Binary(c, op, sa, sb, va, vb)
	}
}

func c03Broadcast(c *core.Ctx) {
	r := c.R
	rank, dim, el := 4, 4, 60
	if r.P(6) {
		rank, dim, el = 6, 3, 200
	}
	sa, sb := prog.BPair(r, rank, dim, el)
	c03Binary(c, arith4[r.Int(4)], sa, sb, hostileVals(r, ref.Prod(sa), true), hostileVals(r, ref.Prod(sb), true))
}

func c03CheckSame(c *core.Ctx, op string, sh []int, va, vb []float64) {
	r := c.R
	ta, tb := r.Bool(), r.Bool()
	c.Detail(func() string {
		return fmt.Sprintf("%s of shape %v: %s tracked=%v with %s tracked=%v", op, sh, prog.Fmt(va, 60), ta, prog.Fmt(vb, 60), tb)
	})
	a, b := mkVal(c, sh, va, ta), mkVal(c, sh, vb, tb)
	if r.P(6) {
		vb, b = va, a
		c.Count("same_operand_twice", 1)
	}
	y, err := prog.Apply(prog.Ins{Op: op, A: []int{0, 1}}, []tensor.Tensor{a, b}, nil)
	y = must(c, y, err)(op)
	s, v := read(c, y, op)
	if !prog.SameShape(s, sh) {
		c.Violate("%s: shape %v, want %v", op, s, sh)
	}
	for i := range v {
		p, q := va[i], vb[i]
		exp := 0.
		switch op {
		case "ElMax", "ElMin":
			if math.IsNaN(p) || math.IsNaN(q) {
				continue
			}
			if exp = arith(op)(p, q); v[i] != exp {
				c.Violate("%s(%v, %v) = %v at %v", op, p, q, v[i], ref.Unravel(i, sh))
			}
			continue
		}
		if d := math.Abs(p - q); d > 0 && d < 1e-239 && (op == "Eq" || op == "Ne") {
			continue
		}
		if cmpFn(op)(p, q) {
			exp = 1
		}
		if math.Float64bits(v[i]) != math.Float64bits(exp) {
			c.Violate("%s(%v, %v) = %v at %v, want %v", op, p, q, v[i], ref.Unravel(i, sh), exp)
		}
	}
	checkBits(c, "left operand after "+op, a, sh, va)
	checkBits(c, "right operand after "+op, b, sh, vb)
	c.Count("elements", len(v))
	c.Count("op."+op, 1)
	c.EvalS(fmt.Sprint(op, sh, ta, tb, r.Int(8)))
}

func cmpFn(op string) func(x, y float64) bool {
	switch op {
	case "Eq":
		return func(x, y float64) bool { return x == y }
	case "Ne":
		return func(x, y float64) bool { return x != y }
	case "Gt":
		return func(x, y float64) bool { return x > y }
	case "Ge":
		return func(x, y float64) bool { return x >= y }
	case "Lt":
		return func(x, y float64) bool { return x < y }
	case "Le":
		return func(x, y float64) bool { return x <= y }
	}
	panic(op)
}

func c03Compare(c *core.Ctx) {
	ops := append(append([]string{}, prog.CmpOps...), "ElMax", "ElMin")
	op := ops[c.Idx%len(ops)]
	sh := c03Shape(c.R)
	va := hostileVals(c.R, ref.Prod(sh), true)
	c03CheckSame(c, op, sh, va, related(c.R, va, true))
}

// c03Equals: true exactly when every position compares equal.
func c03Equals(c *core.Ctx) {
	r := c.R
	sh := c03Shape(r)
	if r.P(20) {
		sh = prog.Dims(r, r.In(1, 3), 30, 1500)
	}
	c03EqualsOf(c, sh)
}

func c03EqualsOf(c *core.Ctx, sh []int) {
	r := c.R
	n := ref.Prod(sh)
	va := hostileVals(r, n, r.P(3))
	vb := append([]float64{}, va...)
	switch r.Int(8) {
	case 0: // one position differs
		i := []int{0, n - 1, r.Int(n)}[r.Int(3)]
		vb[i] = []float64{va[i] + 1, -va[i], va[i] * (1 + 1e-12), math.Nextafter(va[i], 1e308), va[i] + 1e-200, va[i] + 1e-9}[r.Int(6)]
	case 1: // all differ
		vb = hostileVals(r, n, false)
	case 2: // one equal, others opposite differences
		for i := range vb {
			if i != 0 {
				vb[i] = va[i] + float64(1-2*(i%2))
			}
		}
	case 3: // the same values, in another order
		i, j := r.Int(n), r.Int(n)
		vb[i], vb[j] = va[j], va[i]
		if r.Bool() {
			for k, m := range r.Perm(n) {
				vb[k] = va[m]
			}
		}
		if r.P(3) {
			for k := range vb {
				vb[k] = va[n-1-k]
			}
		}
	case 4: // totals and squares coincide
		for i := range vb {
			vb[i] = -va[i]
		}
	}
	self := r.P(8)
	if self {
		copy(vb, va)
		if r.P(4) {
			k := r.Int(len(va))
			va[k], vb[k] = math.NaN(), math.NaN()
		}
	}
	c.Detail(func() string {
		return fmt.Sprintf("Equals of shape %v: %s with %s", sh, prog.Fmt(va, 60), prog.Fmt(vb, 60))
	})
	exp := true
	for i := range va {
		if d := math.Abs(va[i] - vb[i]); d > 0 && d < 1e-239 {
			return
		}
		exp = exp && va[i] == vb[i]
	}
	a, b := mkVal(c, sh, va, r.Bool()), mkVal(c, sh, vb, r.Bool())
	if self {
		b = a
		c.Count("same_operand_twice", 1)
	}
	got, err := a.Equals(b)
	if err != nil {
		c.Violate("Equals failed: %v", err)
	}
	if got != exp {
		c.Violate("Equals is %v, want %v", got, exp)
	}
	if g2, err := b.Equals(a); err != nil || g2 != exp {
		c.Violate("Equals with exchanged operands is %v (%v), want %v", g2, err, exp)
	}
	c.Count("elements", n)
	c.Count(fmt.Sprintf("equals_%v", exp), 1)
	c.EvalS(fmt.Sprint(sh, exp, r.Int(8)))
}

func c03Large(c *core.Ctx) {
	r := c.R
	sh := [][]int{{r.In(500, 4000)}, {r.In(20, 70), r.In(20, 70)}, {r.In(5, 20), r.In(5, 20), r.In(5, 20)}, {r.In(3, 7), r.In(3, 7), r.In(3, 7), r.In(3, 7)},
		{2, 3, 2, 3, 2, 3, 2}, {1, 1, 1, 1, 1, r.In(1, 5), 1, 2}, {65, 33}, {1025}, {257, 9}}[c.Idx%9]
	n := ref.Prod(sh)
	switch r.Int(3) {
	case 0:
		op := []string{"Scale", "Pow", "Exp", "Log", "Sin", "Cos", "Tanh"}[r.Int(7)]
		v := make([]float64, n)
		for i := range v {
			v[i] = r.Range(-4, 4)
		}
		c03CheckUnary(c, op, sh, v, r.Range(-3, 3))
	case 1:
		va := hostileVals(r, n, false)
		ops := append(append([]string{}, prog.CmpOps...), "ElMax", "ElMin")
		c03CheckSame(c, ops[r.Int(8)], sh, va, related(r, va, false))
	case 2:
		sb := append([]int{}, sh...)
		for i := range sb {
			if r.P(3) {
				sb[i] = 1
			}
		}
		sb = sb[r.In(0, len(sb)):]
		op := arith4[r.Int(4)]
		if r.Bool() {
			c03Binary(c, op, sh, sb, hostileVals(r, n, false), hostileVals(r, ref.Prod(sb), false))
		} else {
			c03Binary(c, op, sb, sh, hostileVals(r, ref.Prod(sb), false), hostileVals(r, n, false))
		}
	}
}
