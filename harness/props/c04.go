package props

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

var c04Batch [][]int  // every batch shape of rank <= 2 with sizes 1..3
var c04Pairs [][2]int // compatible pairs of those
var c04Trans [][]int  // every shape of rank 2..6 with sizes 1..3 (1..2 for rank 6)

func init() {
	for _, s := range c03Enum(2, 3) {
		c04Batch = append(c04Batch, s)
	}
	for i := range c04Batch {
		for j := range c04Batch {
			if _, ok := ref.BShape(c04Batch[i], c04Batch[j]); ok {
				c04Pairs = append(c04Pairs, [2]int{i, j})
			}
		}
	}
	for _, s := range append(c03Enum(5, 3), c03Enum(6, 2)...) {
		if len(s) >= 2 {
			c04Trans = append(c04Trans, s)
		}
	}
	np := len(c04Pairs)
	core.Register(&core.Prop{
		ID: "C04",
		Families: []core.Family{
			{Name: "matmul-small", Quick: np * 27, Thorough: np * 27 * 20, Run: c04MatMulSmall},
			{Name: "matmul", Quick: 300000, Thorough: 1200000, Run: c04MatMul},
			{Name: "dot-small", Quick: np * 3, Thorough: np * 3 * 40, Run: c04DotSmall},
			{Name: "dot", Quick: 300000, Thorough: 1200000, Run: c04Dot},
			{Name: "transpose", Quick: len(c04Trans) * 4, Thorough: len(c04Trans) * 60, Run: c04Transpose},
			{Name: "identities", Quick: 100000, Thorough: 400000, Run: c04Identities},
			{Name: "large", Quick: 2500, Thorough: 8000, Run: c04Large},
			hugeFamily(6, c04Huge),
			sizesFamily(3, 8, c04Huge),
			deepFamily(8000, c04Deep),
		},
		Rule: "products and transposes: every batch-shape pair of rank <= 2 with sizes 1..3 and every m,k,n in 1..3 (plus all transposable shapes of rank 2..5 with sizes 1..3 and rank 6 with sizes 1..2) enumerated, " +
			"larger ranks (to 6), sizes (to about 100) and values (exact integers, unequal per element; floats; hostile magnitudes; cancelling; infinite and undefined) drawn; distinct = distinct (op, operand shapes, value kind, tracked subset); every element of every result is compared with the defined sum of products",
		Assumptions: []string{"elements whose finite products sum to more than 1e300 in absolute value are not judged", "sums may be formed in any order: tolerance (k+4)*4.4e-16*sum|p*q|; integer-valued operands are compared exactly"},
		MinEvents:   map[string]uint64{"elements": 500000, "batched": 10000, "identity": 10000},
	})
}

// c03Enum lists every shape of rank <= maxRank with sizes 1..maxDim.
func c03Enum(maxRank, maxDim int) [][]int {
	o := [][]int{{}}
	for from, rk := 0, 1; rk <= maxRank; rk++ {
		to := len(o)
		for i := from; i < to; i++ {
			for d := 1; d <= maxDim; d++ {
				o = append(o, append([]int{d}, o[i]...))
			}
		}
		from = to
	}
	return o
}

// c04Vals draws operand values; exact reports integer values whose products sum exactly.
func c04Vals(r *core.R, n, kind int, base float64) []float64 {
	v := make([]float64, n)
	ext := []float64{-290, -150, 0, 150, 290}[r.Int(5)]
	for i := range v {
		switch kind {
		case 0: // distinct integers
			v[i] = base + float64(i)
			if r.Bool() {
				v[i] = -v[i]
			}
		case 1:
			v[i] = float64(r.In(-9, 9))
		case 2:
			v[i] = r.Range(-3, 3)
		case 3:
			v[i] = math.Pow(10, r.Range(-60, 60)) * []float64{-1, 1}[r.Int(2)]
		case 4:
			v[i] = []float64{0, 1, -1, 1e16, -1e16, 1e-16, 3, 0.1}[r.Int(8)]
		case 6: // infinite and undefined elements
			v[i] = float64(r.In(-2, 2))
			if r.P(12) {
				v[i] = []float64{math.Inf(1), math.Inf(1), math.Inf(-1), math.NaN()}[r.Int(4)]
			}
		case 5: // hot element
			v[i] = 0
			if r.P(4) {
				v[i] = r.Range(-5, 5)
			}
		case 7: // extreme, the product representable or not
			v[i] = math.Pow(10, ext+r.Range(-9, 9)) * []float64{-1, 1}[r.Int(2)]
			if r.P(9) {
				v[i] = float64(r.In(-3, 3)) * 5e-324
			}
		}
		if v[i] == 0 && kind != 0 && r.P(3) {
			v[i] = math.Copysign(0, -1)
		}
	}
	return v
}

type c04exp struct {
	shape  []int
	v, tol []float64
	judge  []bool
}

func newExp(s []int) *c04exp {
	n := ref.Prod(s)
	return &c04exp{shape: s, v: make([]float64, n), tol: make([]float64, n), judge: make([]bool, n)}
}

func (e *c04exp) set(i, k int, p, q func(j int) float64) {
	v, m := 0., 0.
	inf, over := false, false
	for j := 0; j < k; j++ {
		x := p(j) * q(j)
		if math.IsInf(x, 0) && !math.IsInf(p(j), 0) && !math.IsInf(q(j), 0) {
			over = true
		}
		inf = inf || math.IsInf(x, 0)
		v += x
		m += math.Abs(x)
	}
	e.v[i], e.judge[i] = v, m < 1e300
	if math.IsNaN(v) || (inf && !over) { // infinite and undefined factors: the same in every order
		e.judge[i] = !over
	}
	e.tol[i] = float64(k+4)*4.5e-16*m + 1e-320
}

func c04RefMatMul(sa, sb []int, va, vb []float64) *c04exp {
	la, lb := len(sa), len(sb)
	m, k, n := sa[la-2], sa[la-1], sb[lb-1]
	bs, ok := ref.BShape(sa[:la-2], sb[:lb-2])
	if !ok {
		panic("shapes")
	}
	e := newExp(append(append([]int{}, bs...), m, n))
	for i := range e.v {
		bi := ref.Unravel(i/(m*n), bs)
		row, col := i/n%m, i%n
		pa, pb := ref.BPos(bi, sa[:la-2])*m*k+row*k, ref.BPos(bi, sb[:lb-2])*k*n+col
		e.set(i, k, func(j int) float64 { return va[pa+j] }, func(j int) float64 { return vb[pb+j*n] })
	}
	return e
}

func c04RefDot(sa, sb []int, va, vb []float64) *c04exp {
	la, lb := len(sa), len(sb)
	k := sa[la-1]
	bs, ok := ref.BShape(sa[:la-1], sb[:lb-1])
	if !ok {
		panic("shapes")
	}
	e := newExp(bs)
	for i := range e.v {
		bi := ref.Unravel(i, bs)
		pa, pb := ref.BPos(bi, sa[:la-1])*k, ref.BPos(bi, sb[:lb-1])*k
		e.set(i, k, func(j int) float64 { return va[pa+j] }, func(j int) float64 { return vb[pb+j] })
	}
	return e
}

func (e *c04exp) check(c *core.Ctx, what string, y tensor.Tensor, exact bool) {
	s, v := read(c, y, what)
	if !prog.SameShape(s, e.shape) {
		c.Violate("%s: shape %v, want %v", what, s, e.shape)
	}
	for i := range v {
		if !e.judge[i] {
			c.Count("not_judged", 1)
			continue
		}
		tol := e.tol[i]
		if exact {
			tol = 0
		}
		if !prog.Close(v[i], e.v[i], tol) {
			c.Violate("%s: element %v is %v, want %v (tolerance %.3g)", what, ref.Unravel(i, s), v[i], e.v[i], tol)
		}
	}
	c.Count("elements", len(v))
}

func c04Product(c *core.Ctx, op string, sa, sb []int, kind int) {
	r := c.R
	va, vb := c04Vals(r, ref.Prod(sa), kind, 1), c04Vals(r, ref.Prod(sb), kind, 1000)
	ta, tb := r.P(3), r.P(3)
	self := prog.SameShape(sa, sb) && r.P(3)
	if self {
		vb = va
	}
	c.Detail(func() string {
		return fmt.Sprintf("%s: %v %s tracked=%v with %v %s tracked=%v", op, sa, prog.Fmt(va, 60), ta, sb, prog.Fmt(vb, 60), tb)
	})
	var e *c04exp
	if op == "MatMul" {
		e = c04RefMatMul(sa, sb, va, vb)
	} else {
		e = c04RefDot(sa, sb, va, vb)
	}
	a, b := mkVal(c, sa, va, ta), mkVal(c, sb, vb, tb)
	if self {
		b = a
		c.Count("same_operand_twice", 1)
	}
	y, err := prog.Apply(prog.Ins{Op: op, A: []int{0, 1}}, []tensor.Tensor{a, b}, nil)
	y = must(c, y, err)(op)
	e.check(c, op, y, kind < 2)
	checkBits(c, "left operand after "+op, a, sa, va)
	checkBits(c, "right operand after "+op, b, sb, vb)
	c.Count("op."+op, 1)
	if len(e.shape) > 2 {
		c.Count("batched", 1)
	}
	c.EvalS(fmt.Sprint(op, sa, sb, kind, ta, tb))
	if c.Idx%10007 == 0 {
		c.Sample(fmt.Sprintf("%s: %v %s with %v %s", op, sa, prog.Fmt(va, 8), sb, prog.Fmt(vb, 8)))
	}
}

func cat(s []int, t ...int) []int { return append(append([]int{}, s...), t...) }

func c04MatMulSmall(c *core.Ctx) {
	i := c.Idx
	m, k, n := i%3+1, i/3%3+1, i/9%3+1
	p := c04Pairs[i/27%len(c04Pairs)]
	rep := i / 27 / len(c04Pairs)
	c04Product(c, "MatMul", cat(c04Batch[p[0]], m, k), cat(c04Batch[p[1]], k, n), rep%3)
}

func c04MatMul(c *core.Ctx) {
	r := c.R
	rank, dim := 4, 3
	if r.Bool() {
		rank, dim = 2, 5
	}
	sa, sb := prog.BPair(r, rank, dim, 60)
	d := []int{5, 3, 9}[r.Int(3)]
	m, k, n := r.In(1, d), r.In(1, d), r.In(1, d)
	c04Product(c, "MatMul", cat(sa, m, k), cat(sb, k, n), r.Int(8))
}

func c04DotSmall(c *core.Ctx) {
	i := c.Idx
	p := c04Pairs[i/3%len(c04Pairs)]
	rep := i / 3 / len(c04Pairs)
	k := i%3 + 1
	c04Product(c, "Dot", cat(c04Batch[p[0]], k), cat(c04Batch[p[1]], k), rep%3)
}

func c04Dot(c *core.Ctx) {
	r := c.R
	rank, dim := 5, 3
	if r.Bool() {
		rank, dim = 2, 6
	}
	sa, sb := prog.BPair(r, rank, dim, 120)
	k := r.In(1, []int{4, 9, 2}[r.Int(3)])
	c04Product(c, "Dot", cat(sa, k), cat(sb, k), r.Int(8))
}

func c04CheckTranspose(c *core.Ctx, s []int, v []float64) {
	tr := c.R.P(3)
	c.Detail(func() string { return fmt.Sprintf("Transpose of %v %s tracked=%v", s, prog.Fmt(v, 60), tr) })
	x := mkVal(c, s, v, tr)
	y, err := x.Transpose()
	y = must(c, y, err)("Transpose")
	n := len(s)
	es := append([]int{}, s...)
	es[n-1], es[n-2] = s[n-2], s[n-1]
	exp := make([]float64, len(v))
	for i := range v {
		ix := ref.Unravel(i, s)
		ix[n-1], ix[n-2] = ix[n-2], ix[n-1]
		exp[ref.Ravel(ix, es)] = v[i]
	}
	checkBits(c, "Transpose", y, es, exp)
	z, err := y.Transpose()
	z = must(c, z, err)("second Transpose")
	checkBits(c, "transpose of the transpose", z, s, v)
	c.Count("elements", len(v))
	c.Count("op.Transpose", 1)
	c.EvalS(fmt.Sprint("T", s, tr))
}

func seqVals(r *core.R, n int) []float64 {
	v := make([]float64, n)
	for i := range v {
		v[i] = float64(i) + 0.5
	}
	return v
}

func c04Transpose(c *core.Ctx) {
	r := c.R
	s := c04Trans[c.Idx%len(c04Trans)]
	if c.Idx >= 2*len(c04Trans) {
		s = prog.Dims(r, r.In(2, 6), 6, 800)
		if r.P(3) {
			c04CheckTranspose(c, s, hostileVals(r, ref.Prod(s), true))
			return
		}
	}
	c04CheckTranspose(c, s, seqVals(r, ref.Prod(s)))
}

func c04Identities(c *core.Ctx) {
	r := c.R
	ok := func(t tensor.Tensor, err error) func(string) tensor.Tensor { return must(c, t, err) }
	switch c.Idx % 4 {
	case 0: // A.I = A, I.A = A
		s := prog.Dims(r, r.In(2, 5), 4, 200)
		v := c04Vals(r, ref.Prod(s), r.Int(5), 1)
		c.Detail(func() string { return fmt.Sprintf("A.I with A %v %s", s, prog.Fmt(v, 40)) })
		a := mkVal(c, s, v, r.Bool())
		m, n := s[len(s)-2], s[len(s)-1]
		in, err := tensor.Eye(n, prog.Conf(r.Bool()))
		in = ok(in, err)("Eye")
		im, err := tensor.Eye(m, prog.Conf(r.Bool()))
		im = ok(im, err)("Eye")
		y, err := a.MatMul(in)
		y = ok(y, err)("A.I")
		z, err := im.MatMul(a)
		z = ok(z, err)("I.A")
		checkVals(c, "A.I", y, s, v, func(int) float64 { return 0 })
		checkVals(c, "I.A", z, s, v, func(int) float64 { return 0 })
		c.EvalS(fmt.Sprint("AI", s))
	case 1: // (A.B)^T = B^T.A^T
		ba, bb := prog.BPair(r, 3, 3, 30)
		m, k, n := r.In(1, 5), r.In(1, 5), r.In(1, 5)
		sa, sb := cat(ba, m, k), cat(bb, k, n)
		va, vb := c04Vals(r, ref.Prod(sa), r.Int(2), 1), c04Vals(r, ref.Prod(sb), r.Int(2), 50)
		c.Detail(func() string {
			return fmt.Sprintf("(A.B)^T with %v %s and %v %s", sa, prog.Fmt(va, 40), sb, prog.Fmt(vb, 40))
		})
		a, b := mkVal(c, sa, va, r.Bool()), mkVal(c, sb, vb, r.Bool())
		y, err := a.MatMul(b)
		y = ok(y, err)("A.B")
		yt, err := y.Transpose()
		yt = ok(yt, err)("(A.B)^T")
		at, err := a.Transpose()
		at = ok(at, err)("A^T")
		bt, err := b.Transpose()
		bt = ok(bt, err)("B^T")
		z, err := bt.MatMul(at)
		z = ok(z, err)("B^T.A^T")
		s, v := read(c, yt, "(A.B)^T")
		checkVals(c, "B^T.A^T vs (A.B)^T", z, s, v, func(int) float64 { return 0 })
		c.EvalS(fmt.Sprint("ABT", sa, sb))
	case 2: // (A.B).C = A.(B.C) on integers
		b := prog.Dims(r, r.In(0, 2), 3, 9)
		m, k, n, p := r.In(1, 4), r.In(1, 4), r.In(1, 4), r.In(1, 4)
		sa, sb, sc := cat(b, m, k), []int{k, n}, cat(b, n, p)
		x := mkVal(c, sa, c04Vals(r, ref.Prod(sa), 1, 0), r.Bool())
		y := mkVal(c, sb, c04Vals(r, ref.Prod(sb), 1, 0), r.Bool())
		z := mkVal(c, sc, c04Vals(r, ref.Prod(sc), 1, 0), r.Bool())
		c.Detail(func() string { return fmt.Sprintf("associativity over %v %v %v", sa, sb, sc) })
		xy, err := x.MatMul(y)
		xy = ok(xy, err)("A.B")
		l, err := xy.MatMul(z)
		l = ok(l, err)("(A.B).C")
		yz, err := y.MatMul(z)
		yz = ok(yz, err)("B.C")
		q, err := x.MatMul(yz)
		q = ok(q, err)("A.(B.C)")
		s, v := read(c, l, "(A.B).C")
		checkVals(c, "A.(B.C) vs (A.B).C", q, s, v, func(int) float64 { return 0 })
		c.EvalS(fmt.Sprint("ABC", sa, sb, sc))
	case 3: // Dot(a,b) = Dot(b,a) = row times column
		la, lb := prog.BPair(r, 3, 3, 30)
		k := r.In(1, 6)
		sa, sb := cat(la, k), cat(lb, k)
		va, vb := c04Vals(r, ref.Prod(sa), 1, 0), c04Vals(r, ref.Prod(sb), 1, 0)
		c.Detail(func() string {
			return fmt.Sprintf("Dot symmetry with %v %s and %v %s", sa, prog.Fmt(va, 40), sb, prog.Fmt(vb, 40))
		})
		a, b := mkVal(c, sa, va, r.Bool()), mkVal(c, sb, vb, r.Bool())
		y, err := a.Dot(b)
		y = ok(y, err)("a.b")
		z, err := b.Dot(a)
		z = ok(z, err)("b.a")
		s, v := read(c, y, "a.b")
		checkVals(c, "b.a vs a.b", z, s, v, func(int) float64 { return 0 })
		ra := mkVal(c, cat(la, 1, k), va, false)
		cb := mkVal(c, cat(lb, k, 1), vb, false)
		p, err := ra.MatMul(cb)
		p = ok(p, err)("row.column")
		checkVals(c, "row.column vs a.b", p, cat(s, 1, 1), v, func(int) float64 { return 0 })
		c.EvalS(fmt.Sprint("DD", sa, sb))
	}
	c.Count("identity", 1)
}

func c04Large(c *core.Ctx) {
	r := c.R
	switch c.Idx % 6 {
	case 0:
		m, k, n := r.In(1, 90), r.In(1, 90), r.In(1, 90)
		c04Product(c, "MatMul", []int{m, k}, []int{k, n}, r.Int(4))
	case 1:
		k := []int{r.In(100, 3000), 255, 256, 257, 1024, 1025, 63, 64, 65, 127, 128, 129}[r.Int(12)]
		c04Product(c, "MatMul", []int{r.In(1, 3), k}, []int{k, r.In(1, 3)}, r.Int(4))
	case 2:
		b := r.In(10, 150)
		sa, sb := []int{b}, []int{b}
		switch r.Int(4) {
		case 0:
			sa = []int{}
		case 1:
			sb = []int{1}
		}
		m, k, n := r.In(1, 8), r.In(1, 8), r.In(1, 8)
		c04Product(c, "MatMul", cat(sa, m, k), cat(sb, k, n), r.Int(4))
	case 3:
		k := []int{r.In(100, 3000), 255, 256, 257, 1024, 1025, 63, 64, 65, 127, 128, 129}[r.Int(12)]
		c04Product(c, "Dot", []int{r.In(1, 4), k}, []int{k}, r.Int(4))
	case 4:
		sa, sb := prog.BPair(r, 5, 8, 2000)
		k := r.In(1, 12)
		c04Product(c, "Dot", cat(sa, k), cat(sb, k), r.Int(4))
	case 5:
		s := []int{r.In(1, 120), r.In(1, 120)}
		if r.Bool() {
			s = []int{r.In(1, 20), r.In(1, 5), r.In(1, 30), r.In(1, 30)}
		}
		c04CheckTranspose(c, s, seqVals(r, ref.Prod(s)))
	}
}
