package props

import (
	"fmt"
	"math"
	"math/big"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

const c05Kinds = 12

var c05Shapes [][]int // every shape of rank 0..5 with sizes 1..3 and of rank 6 with sizes 1..2

func init() {
	c05Shapes = append(c03Enum(5, 3), c03Enum(6, 2)[1+2+4+8+16+32:]...)
	n := len(c05Shapes)
	core.Register(&core.Prop{
		ID: "C05",
		Families: []core.Family{
			{Name: "fibres-small", Quick: n * c05Kinds, Thorough: n * 132, Run: c05Small},
			{Name: "fibres", Quick: 60000, Thorough: 1200000, Run: c05Random},
			{Name: "whole", Quick: 60000, Thorough: 1200000, Run: c05Whole},
			{Name: "large", Quick: 900, Thorough: 15000, Run: c05Large},
			hugeFamily(8, c05Huge),
			sizesFamily(6, 1, c05Huge),
			deepFamily(8000, c05Deep),
		},
		Rule: "reductions of whole tensors and along every dimension: every shape of rank 0..5 with sizes 1..3 (rank 6 with sizes 1..2) enumerated, larger drawn, values from 12 regimes (distinct integers, all negative, all positive, constant, huge offset with small spread, mixed magnitudes, extreme, zeros, infinities, a few NaN); " +
			"distinct = distinct (shape, regime, tracked); each case compares all seven statistics of the whole tensor and of every fibre along every dimension against exact rational sums (math/big)",
		Assumptions: []string{
			"sums in any order, one- or two-pass mean-then-deviation variance: tolerance 4*(n+8)*2.3e-16 relative to sum|x| (variance: to var+std*max|x|, plus the square of the mean's own rounding)",
			"sums are not judged when sum|x| exceeds 1e300, variances when |x| exceeds 1e140; with infinite elements extrema and sums are judged always (both signs: NaN), variances never; with NaN elements sums and variances must be NaN, extrema are not judged",
		},
		MinEvents: map[string]uint64{"fibres": 200000, "whole": 50000},
	})
}

type stats struct {
	n                        int
	sum, max, min, avg, v, s float64
	sumTol, avgTol, vTol     float64
	sTol                     float64
	judgeSum, judgeVar       bool
	nan                      bool
}

// statsOf computes the exact statistics of a list.
func statsOf(x []float64) stats {
	n := len(x)
	st := stats{n: n, max: x[0], min: x[0]}
	for _, e := range x {
		if math.IsNaN(e) { // every order of summation gives NaN; extrema and a single variance are not defined
			nan := math.NaN()
			return stats{n: n, nan: true, judgeSum: true, judgeVar: true, sum: nan, avg: nan, v: nan, s: nan}
		}
	}
	acc := new(big.Float).SetPrec(2400)
	abs, mx := 0., 0.
	for _, e := range x {
		if !math.IsInf(e, 0) {
			acc.Add(acc, new(big.Float).SetFloat64(e))
		}
		abs += math.Abs(e)
		mx = math.Max(mx, math.Abs(e))
		st.max = math.Max(st.max, e)
		st.min = math.Min(st.min, e)
	}
	if math.IsInf(abs, 0) && mx == math.Inf(1) {
		// infinite elements of one sign make the sum and the mean infinite, of both signs NaN; the variance is not defined
		st.judgeSum, st.judgeVar = true, false
		st.sum = st.max
		if st.max == math.Inf(1) && st.min == math.Inf(-1) {
			st.sum, st.avg = math.NaN(), math.NaN()
			return st
		}
		if st.min == math.Inf(-1) {
			st.sum = st.min
		}
		st.avg = st.sum
		return st
	}
	const eps = 2.3e-16
	k := 4 * float64(n+8) * eps
	st.sum, _ = acc.Float64()
	st.sumTol = k * abs
	st.judgeSum = abs < 1e300
	nb := new(big.Float).SetPrec(2400).SetInt64(int64(n))
	mean := new(big.Float).SetPrec(2400).Quo(acc, nb)
	st.avg, _ = mean.Float64()
	st.avgTol = st.sumTol/float64(n) + 1e-323
	st.judgeVar = mx < 1e140
	if n > 1 && st.judgeVar {
		dev := new(big.Float).SetPrec(2400)
		for _, e := range x {
			d := new(big.Float).SetPrec(2400).Sub(new(big.Float).SetFloat64(e), mean)
			dev.Add(dev, d.Mul(d, d))
		}
		st.v, _ = dev.Quo(dev, new(big.Float).SetInt64(int64(n-1))).Float64()
		st.s = math.Sqrt(st.v)
		st.vTol = k*(st.v+st.s*mx) + math.Pow(k*mx, 2) + 1e-320
		// std: error of sqrt over [v-tol, v+tol]
		st.sTol = math.Max(math.Sqrt(st.v+st.vTol)-st.s, st.s-math.Sqrt(math.Max(0, st.v-st.vTol))) + 4*eps*st.s
	}
	return st
}

func (st stats) check(c *core.Ctx, what, name string, got float64) {
	exp, tol := 0., 0.
	switch name {
	case "Sum":
		exp, tol = st.sum, st.sumTol
	case "Max":
		exp = st.max
	case "Min":
		exp = st.min
	case "Avg", "Mean":
		exp, tol = st.avg, st.avgTol
	case "Var":
		exp, tol = st.v, st.vTol
	case "Std":
		exp, tol = st.s, st.sTol
	}
	if st.nan && (name == "Max" || name == "Min" || (st.n == 1 && (name == "Var" || name == "Std"))) {
		c.Count("not_judged", 1)
		return
	}
	if (!st.judgeSum && (name == "Sum" || name == "Avg" || name == "Mean")) || (!st.judgeVar && st.n > 1 && (name == "Var" || name == "Std")) {
		c.Count("not_judged", 1)
		return
	}
	if !prog.Close(got, exp, tol) {
		c.Violate("%s%s is %v, want %v (tolerance %.3g)", what, name, got, exp, tol)
	}
}

var statNames = []string{"Sum", "Max", "Min", "Avg", "Var", "Std", "Mean"}

func wholeStat(t tensor.Tensor, name string) float64 {
	switch name {
	case "Sum":
		return t.Sum()
	case "Max":
		return t.Max()
	case "Min":
		return t.Min()
	case "Avg":
		return t.Avg()
	case "Var":
		return t.Var()
	case "Std":
		return t.Std()
	}
	return t.Mean()
}

func c05Vals(r *core.R, n, kind int) []float64 {
	v := make([]float64, n)
	off := math.Pow(10, float64(r.In(2, 9))) * []float64{-1, 1}[r.Int(2)]
	k := r.Range(-5, 5)
	p := r.Perm(n)
	inf := math.Inf([]int{-1, 1}[r.Int(2)])
	inftop := []int{3, 3, 4, 6}[r.Int(4)]
	for i := range v {
		switch kind {
		case 0:
			v[i] = float64(p[i]+1) * []float64{-1, 1}[r.Int(2)]
		case 1:
			v[i] = -1 - float64(p[i]) - r.F()
		case 2:
			v[i] = 1 + float64(p[i]) + r.F()
		case 3:
			v[i] = k
		case 4:
			v[i] = off + r.Range(-1, 1)
		case 5:
			v[i] = math.Pow(10, r.Range(-12, 12)) * []float64{-1, 1}[r.Int(2)]
		case 6:
			v[i] = math.Pow(10, r.Range(-300, 300)) * []float64{-1, 1}[r.Int(2)]
		case 7:
			v[i] = float64(r.In(-2, 2))
		case 8:
			v[i] = []float64{math.MaxFloat64, -math.MaxFloat64, 5e-324, -5e-324, 0, 1e130, -1e130, 1}[r.Int(8)]
		case 9:
			v[i] = r.Norm() * 1e-9
		case 10: // whole runs of infinities
			v[i] = []float64{inf, inf, inf, -inf, 1, -3}[r.Int(inftop)]
		case 11: // a few undefined elements
			v[i] = r.Range(-3, 3)
			if r.P(6) {
				v[i] = math.NaN()
			}
		}
	}
	return v
}

func c05Check(c *core.Ctx, s []int, v []float64, kind int, alongs []int) {
	tr := c.R.P(3)
	c.Detail(func() string { return fmt.Sprintf("reductions of %v %s tracked=%v", s, prog.Fmt(v, 80), tr) })
	x := mkVal(c, s, v, tr)
	st := statsOf(v)
	for _, nm := range statNames {
		st.check(c, "", nm, wholeStat(x, nm))
	}
	c.Count("whole", 1)
	for _, d := range alongs {
		outer, inner := ref.Prod(s[:d]), ref.Prod(s[d+1:])
		k := s[d]
		os := append(append([]int{}, s[:d]...), s[d+1:]...)
		fst := make([]stats, outer*inner)
		fb := make([]float64, k)
		for o := 0; o < outer; o++ {
			for i := 0; i < inner; i++ {
				for j := range fb {
					fb[j] = v[(o*k+j)*inner+i]
				}
				fst[o*inner+i] = statsOf(fb)
			}
		}
		for _, nm := range statNames {
			y, err := prog.Apply(prog.Ins{Op: nm + "Along", A: []int{0}, I: d}, []tensor.Tensor{x}, nil)
			y = must(c, y, err)(nm + "Along")
			ys, yv := read(c, y, nm+"Along")
			if !prog.SameShape(ys, os) {
				c.Violate("%sAlong(%d) of shape %v: shape %v, want %v", nm, d, s, ys, os)
			}
			for i := range yv {
				fst[i].check(c, fmt.Sprintf("fibre %v along %d: ", ref.Unravel(i, os), d), nm, yv[i])
			}
		}
		c.Count("fibres", len(fst))
	}
	checkBits(c, "operand after the reductions", x, s, v)
	c.EvalS(fmt.Sprint(s, kind, tr))
	if c.Idx%10007 == 0 {
		c.Sample(fmt.Sprintf("reductions of %v %s", s, prog.Fmt(v, 16)))
	}
}

func allDims(s []int) []int {
	o := make([]int, len(s))
	for i := range o {
		o[i] = i
	}
	return o
}

func c05Small(c *core.Ctx) {
	s := c05Shapes[c.Idx%len(c05Shapes)]
	kind := c.Idx / len(c05Shapes) % c05Kinds
	c05Check(c, s, c05Vals(c.R, ref.Prod(s), kind), kind, allDims(s))
}

func c05Random(c *core.Ctx) {
	r := c.R
	s := prog.Dims(r, r.In(1, 6), []int{3, 5, 8}[r.Int(3)], 120)
	kind := r.Int(c05Kinds)
	c05Check(c, s, c05Vals(r, ref.Prod(s), kind), kind, allDims(s))
}

func c05Whole(c *core.Ctx) {
	r := c.R
	s := prog.Dims(r, r.In(0, 6), []int{3, 5, 8}[r.Int(3)], 200)
	kind := r.Int(c05Kinds)
	c05Check(c, s, c05Vals(r, ref.Prod(s), kind), kind, nil)
}

func c05Large(c *core.Ctx) {
	r := c.R
	s := [][]int{{r.In(300, 3000)}, {r.In(10, 60), r.In(10, 60)}, {r.In(3, 12), r.In(3, 12), r.In(3, 12)}, {2, r.In(200, 1200)}, {r.In(200, 1200), 2},
		{1024}, {1025}, {256}, {257}, {64, 17}, {17, 65}, {3, 4, 3, 4, 3, 4}}[c.Idx%12]
	kind := r.Int(c05Kinds)
	c05Check(c, s, c05Vals(r, ref.Prod(s), kind), kind, allDims(s))
}
