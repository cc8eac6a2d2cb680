package props

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

type castPair struct{ src, dst []int }

var c07Explicit []castPair
var c07Implicit [][2][]int

func init() {
	for _, s := range c03Enum(3, 3) {
		for _, t := range c03Enum(4, 3) {
			if ref.CanBroadcast(s, t) {
				c07Explicit = append(c07Explicit, castPair{s, t})
			}
		}
	}
	all := c03Enum(3, 3)
	for _, a := range all {
		for _, b := range all {
			if _, ok := ref.BShape(a, b); ok {
				c07Implicit = append(c07Implicit, [2][]int{a, b})
			}
		}
	}
	ne, ni := len(c07Explicit), len(c07Implicit)*len(castOps)
	core.Register(&core.Prop{
		ID: "C07",
		Families: []core.Family{
			{Name: "explicit", Quick: ne * 2, Thorough: ne * 40, Run: c07RunExplicit},
			{Name: "implicit", Quick: ni * 4, Thorough: ni * 60, Run: c07RunImplicit},
			{Name: "random", Quick: 360000, Thorough: 2000000, Run: c07Random},
			{Name: "twin", Quick: 180000, Thorough: 1000000, Run: c07Twin},
			{Name: "graphs", Quick: 90000, Thorough: 500000, Run: c07Graphs},
			{Name: "large", Quick: 4500, Thorough: 25000, Run: c07Large},
			hugeFamily(14, c07Huge),
			sizesFamily(7, 2, c07Huge),
			deepFamily(8000, c07Deep),
		},
		Rule: "expansions: every source of rank <= 3 and target of rank <= 4 with sizes 1..3 for Broadcast, every compatible (batch-)shape pair of rank <= 3 with sizes 1..3 for Add, Sub, Mul, Div, Dot and MatMul, enumerated with several tracked subsets and upstream weightings; higher ranks (to 7), larger factors, and graphs with chained, nested and shared expansions drawn; " +
			"distinct = distinct (op, shapes, tracked subset, weighting kind) or program structure; each case compares the gradient of every tracked operand with the sum over its copies",
		Assumptions: []string{
			"the gradient of an expanding explicit Tensor.Broadcast is a known finding: there exactly sum/(number of copies) is reported as KNOWN-FINDING, the sum is accepted and everything else is a violation",
		},
		MinEvents: map[string]uint64{"operand_grads": 200000, "twins": 20000},
	})
}

var castOps = []string{"Add", "Sub", "Mul", "Div", "Dot", "MatMul"}

func castVals(r *core.R, op string, operand, n int) []float64 {
	v := prog.Vals(r, n)
	if r.P(4) && !(op == "Div" && operand == 1) {
		for i := range v {
			v[i] = float64(r.In(-3, 3))
		}
	}
	return v
}

func c07RunExplicit(c *core.Ctx) {
	r := c.R
	p := c07Explicit[c.Idx%len(c07Explicit)]
	c07One(c, "Broadcast", p.src, nil, p.dst, r)
}

func c07One(c *core.Ctx, op string, sa, sb, dst []int, r *core.R) {
	s := prog.Single{Shapes: [][]int{sa}, In: prog.Ins{Op: op, A: []int{0}, D: dst}}
	vals := [][]float64{castVals(r, op, 0, ref.Prod(sa))}
	if sb != nil {
		s.Shapes = append(s.Shapes, sb)
		s.In.A = []int{0, 1}
		vals = append(vals, castVals(r, op, 1, ref.Prod(sb)))
	}
	k := []int{0, 0, 3, 4, 2, -1}[r.Int(6)]
	vjpCheck(c, s, vals, trackedSubset(r, len(s.Shapes)), k, "c07")
}

func c07RunImplicit(c *core.Ctx) {
	r := c.R
	i := c.Idx % (len(c07Implicit) * len(castOps))
	op := castOps[i%len(castOps)]
	p := c07Implicit[i/len(castOps)]
	a, b := p[0], p[1]
	switch op {
	case "Dot":
		k := r.In(1, 3)
		a, b = cat(a, k), cat(b, k)
	case "MatMul":
		m, k, n := r.In(1, 3), r.In(1, 3), r.In(1, 3)
		a, b = cat(a, m, k), cat(b, k, n)
	}
	c07One(c, op, a, b, nil, r)
}

func c07Random(c *core.Ctx) {
	r := c.R
	op := append(castOps, "Broadcast")[c.Idx%7]
	rank, dim, el := 4, 4, 64
	if r.P(3) {
		rank, dim, el = 7, 3, 200
	}
	s := prog.GenSingle(r, op, rank, dim, el)
	var sb []int
	if len(s.Shapes) > 1 {
		sb = s.Shapes[1]
	}
	c07One(c, op, s.Shapes[0], sb, s.In.D, r)
}

func c07Large(c *core.Ctx) {
	r := c.R
	op := append(castOps, "Broadcast")[c.Idx%7]
	var s prog.Single
	switch r.Int(4) {
	case 0:
		s = prog.GenSingle(r, op, 2, 60, 1500)
	case 1:
		s = prog.GenSingle(r, op, 4, 9, 1500)
	case 2:
		s = prog.GenSingle(r, op, 9, 2, 512)
	default: // one operand with a single element, expanded many times
		n := r.In(50, 1200)
		full := [][]int{{n}, {n / 10, 10}, {2, n / 10, 3}}[r.Int(3)]
		one := [][]int{{}, {1}, {1, 1}}[r.Int(3)]
		one = one[:min(len(one), len(full))]
		s = prog.Single{Shapes: [][]int{full, one}, In: prog.Ins{Op: op, A: []int{0, 1}}}
		if r.Bool() {
			s.Shapes = [][]int{one, full}
		}
		switch op {
		case "Broadcast":
			s = prog.Single{Shapes: [][]int{one}, In: prog.Ins{Op: op, A: []int{0}, D: full}}
		case "Dot":
			k := r.In(1, 3)
			s.Shapes = [][]int{cat(s.Shapes[0], k), cat(s.Shapes[1], k)}
		case "MatMul":
			m, k, q := r.In(1, 2), r.In(1, 2), r.In(1, 2)
			s.Shapes = [][]int{cat(s.Shapes[0], m, k), cat(s.Shapes[1], k, q)}
		}
	}
	var sb []int
	if len(s.Shapes) > 1 {
		sb = s.Shapes[1]
	}
	c07One(c, op, s.Shapes[0], sb, s.In.D, r)
}

// c07Twin compares the gradient of an implicitly expanded operand with the gradient the library itself
// gives to an operand that was expanded by hand, summed over the copies.
func c07Twin(c *core.Ctx) {
	r := c.R
	op := castOps[c.Idx%len(castOps)]
	sa, sb := prog.BPair(r, 4, 3, 60)
	full, _ := ref.BShape(sa, sb)
	ea, eb := full, full
	switch op {
	case "Dot":
		k := r.In(1, 3)
		sa, sb, ea, eb = cat(sa, k), cat(sb, k), cat(full, k), cat(full, k)
	case "MatMul":
		m, k, n := r.In(1, 3), r.In(1, 3), r.In(1, 3)
		sa, sb, ea, eb = cat(sa, m, k), cat(sb, k, n), cat(full, m, k), cat(full, k, n)
	}
	shapes, ext := [2][]int{sa, sb}, [2][]int{ea, eb}
	var vals, evals [2][]float64
	c.Detail(func() string {
		return fmt.Sprintf("%s: %v %s with %v %s vs operands expanded by hand", op, sa, prog.Fmt(vals[0], 30), sb, prog.Fmt(vals[1], 30))
	})
	var w []float64
	run := func(sh [2][]int, v [2][]float64) [2]tensor.Tensor {
		t := [2]tensor.Tensor{mkVia(c, sh[0], v[0], true), mkVia(c, sh[1], v[1], true)}
		y, err := prog.Apply(prog.Ins{Op: op, A: []int{0, 1}}, t[:], nil)
		y = must(c, y, err)(op)
		if w == nil {
			w = weights(r, y.NElems(), []int{0, 4}[r.Int(2)])
		}
		z, err := y.Mul(mk(c, y.Shape(), w, false))
		z = must(c, z, err)("Mul")
		if err := tensor.BackPropagate(z); err != nil {
			c.Violate("BackPropagate failed: %v", err)
		}
		return t
	}
	for i := range shapes {
		vals[i] = castVals(r, op, i, ref.Prod(shapes[i]))
		evals[i] = make([]float64, ref.Prod(ext[i]))
		for j := range evals[i] {
			evals[i][j] = vals[i][ref.BPos(ref.Unravel(j, ext[i]), shapes[i])]
		}
	}
	t, e := run(shapes, vals), run(ext, evals)
	for i := range shapes {
		ge, gt := e[i].Gradient(), t[i].Gradient()
		if ge == nil || gt == nil {
			c.Violate("operand %d has no gradient", i)
		}
		es, ev := read(c, ge, "gradient of the hand-expanded operand")
		if !prog.SameShape(es, ext[i]) {
			c.Violate("gradient of the hand-expanded operand %d has shape %v, want %v", i, es, ext[i])
		}
		exp := make([]float64, len(vals[i]))
		abs := make([]float64, len(vals[i]))
		cnt := float64(len(ev)) / float64(len(exp))
		for j, x := range ev {
			k := ref.BPos(ref.Unravel(j, es), shapes[i])
			exp[k] += x
			abs[k] += math.Abs(x)
		}
		checkVals(c, fmt.Sprintf("gradient of operand %d vs sum over its hand-made copies", i), gt, shapes[i], exp,
			func(j int) float64 { return 4e-15 * (cnt + 8) * abs[j] })
		c.Count("operand_grads", 1)
	}
	c.Count("twins", 1)
	c.EvalS(fmt.Sprint(op, sa, sb))
}

// c07Graphs: several expansions of shared, nested and chained operands.
func c07Graphs(c *core.Ctx) {
	r := c.R
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 5, MaxDim: 3, MaxElems: 81})
	nl := r.In(1, 3)
	for i := 0; i < nl; i++ {
		s := prog.Dims(r, r.In(0, 3), 3, 27)
		b.LeafV(s, prog.Vals(r, ref.Prod(s)), i == 0 || r.Int(3) > 0)
	}
	explicit := r.P(3)
	for k, tries := r.In(2, 7), 0; k > 0 && tries < 60; tries++ {
		a := r.Int(len(b.P))
		in := prog.Ins{A: []int{a, r.Int(len(b.P))}}
		switch q := r.Int(10); {
		case q < 5:
			in.Op = []string{"Add", "Sub", "Mul"}[r.Int(3)]
		case q == 5:
			in.Op = "Div"
		case q == 6:
			in.Op = "Dot"
		case q == 7:
			in.Op = "MatMul"
		case q == 8:
			if explicit {
				in = prog.Ins{Op: "Broadcast", A: []int{a}, D: prog.RandTarget(r, b.T[a].Shape, 4, 3)}
				break
			}
			in = prog.Ins{Op: "UnSqueeze", A: []int{a}, I: r.In(0, len(b.T[a].Shape))}
		default:
			if len(b.T[a].Shape) == 0 {
				continue
			}
			in = prog.Ins{Op: []string{"SumAlong", "AvgAlong"}[r.Int(2)], A: []int{a}, I: r.Int(len(b.T[a].Shape))}
		}
		if len(in.A) == 2 {
			sa, sb := b.T[in.A[0]].Shape, b.T[in.A[1]].Shape
			ok := false
			switch in.Op {
			case "Dot":
				ok = prog.DotOK(sa, sb)
			case "MatMul":
				ok = prog.MatMulOK(sa, sb)
			default:
				var o []int
				o, ok = ref.BShape(sa, sb)
				ok = ok && ref.Prod(o) <= 200 && len(o) <= 5
			}
			if !ok {
				continue
			}
			if in.Op == "Div" {
				_, mag, _ := b.Tape.MaxErr(b.T[in.A[1]])
				small := mag > 1e6
				for _, n := range b.T[in.A[1]].N {
					small = small || math.Abs(b.Tape.Val[n]) < 0.05
				}
				if small {
					continue
				}
			}
		}
		if _, ok := b.Try(in); ok {
			k--
		}
	}
	root, ok := pickRoot(r, b.P)
	if !ok {
		return
	}
	// unequal upstream weights
	w := b.LeafV(b.T[root].Shape, weights(r, len(b.T[root].N), 0), false)
	root = b.Push(prog.Ins{Op: "Mul", A: []int{root, w}})
	bpCheck(c, b.P, b.Tape, b.T, root)
	c.Count("graphs", 1)
}
