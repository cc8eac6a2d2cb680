package props

import (
	"fmt"
	"math"
	"math/big"
	"slices"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

// losser is the common shape of the three losses.
type losser interface {
	Compute(yp tensor.Tensor, yt tensor.Tensor) (l tensor.Tensor, err error)
}

var lossNames = []string{"MSE", "BCE", "CE"}

func newLoss(k int) losser {
	return prog.Loss(lossNames[k])
}

func lossShape(r *core.R, k, maxN int) []int {
	n := r.In(1, maxN)
	if k < 2 {
		return []int{n}
	}
	if r.P(4) {
		return []int{1, n}
	}
	if r.P(4) {
		return []int{n, 1}
	}
	a := r.In(1, max(1, int(math.Sqrt(float64(maxN)))))
	return []int{a, r.In(1, max(1, maxN/a))}
}

func init() {
	core.Register(&core.Prop{
		ID: "C12",
		Families: []core.Family{
			{Name: "pairs", Quick: 3 * len(lossVals) * len(lossVals), Thorough: 3 * len(lossVals) * len(lossVals), Run: c12Pairs},
			{Name: "random", Quick: 500000, Thorough: 8000000, Run: c12Random},
			{Name: "large", Quick: 3000, Thorough: 60000, Run: c12Large},
			{Name: "history", Quick: 30000, Thorough: 500000, Run: c12History},
			{Name: "graph", Quick: 40000, Thorough: 600000, Run: c12Graph},
			hugeFamily(6, c12Huge),
			sizesFamily(3, 4, c12Huge),
			{Name: "many", Quick: 6, Thorough: 36, Run: c12Many},
		},
		Rule: "loss computations: every ordered pair of a list of special predictions and targets (0, 1, the clip bounds and their neighbours, outside [0,1], to the largest finite number (MSE: 1e150) and its negative, subnormal) at batch size 1 and inside a batch; random batches of several value regimes, one-hot and soft targets, batch and class counts from 1 to thousands; inputs built by nine construction routes or computed by other operations; all four tracked combinations; sequences of calls on one loss object; " +
			"distinct = distinct (loss, shape, prediction regime, target regime)",
		Assumptions: []string{
			"the upper clip bound is a rounded number: for predictions clipped to it, log(1-p) is accepted within 3e-4, everything else is compared with a 400-bit evaluation within 1e-11 of the sum of magnitudes",
		},
		MinEvents: map[string]uint64{"values": 400000, "clipped_predictions": 50000, "outside_targets": 20000},
	})
}

var lossVals = []float64{0, math.Copysign(0, -1), 1, 0.5, 1e-12, math.Nextafter(1e-12, 0), math.Nextafter(1e-12, 1), 5e-13, 2e-12, 1.5e-12, 1 - 1e-12, math.Nextafter(1-1e-12, 0), math.Nextafter(1-1e-12, 1),
	1 - 5e-13, 1 - 2e-12, 1 - 1.5e-12, math.Nextafter(1, 0), math.Nextafter(1, 2), 1 + 1e-12, -1e-12, -1e-13, 5e-324, -5e-324, 1e-300, 0.1, 0.9, 1. / 3, 0.25, 1e-6, 1 - 1e-6, 1e-9, 1 - 1e-9, 2, -1, 1.5, -0.5, 1e6, -1e6, 123456.789, -999.5, 1e3,
	1e16, -1e16, 1e100, -1e100, 1e200, -1e200, math.MaxFloat64, -math.MaxFloat64}

// lossVal limits a value to the magnitudes whose square is finite where the loss is MSE.
func lossVal(k int, v float64) float64 {
	if k == 0 {
		return math.Max(-1e150, math.Min(1e150, v))
	}
	return v
}

// lossExpect evaluates the definition; tol is an absolute tolerance.
func lossExpect(k int, shape []int, p, t []float64) (exp, tol float64) {
	n := float64(shape[0])
	s, a, slack := 0., 0., 0.
	bs := new(big.Float).SetPrec(400)
	for i := range p {
		if k == 0 {
			d := new(big.Float).SetPrec(400).Sub(new(big.Float).SetFloat64(p[i]), new(big.Float).SetFloat64(t[i]))
			d.Mul(d, d)
			bs.Add(bs, d)
			f, _ := d.Float64()
			a += f
			continue
		}
		tv := ref.Clip01(t[i])
		v := math.Min(math.Max(p[i], ref.Lo), ref.Hi)
		x := -tv * math.Log(v)
		if k == 1 && tv != 1 {
			x2 := -(1 - tv) * math.Log1p(-v)
			if v >= 1-2e-12 {
				x2 = -(1 - tv) * math.Log(1-v)
				slack += 3e-4 * (1 - tv)
			}
			slack += 2e-15 * (1 - tv)
			x += x2
			a += math.Abs(x2)
		}
		if v < 2e-12 {
			slack += 1e-12
		}
		s += x
		a += math.Abs(tv * math.Log(v))
	}
	if k == 0 {
		s, _ = bs.Float64()
	}
	return s / n, (1e-11*a+slack)/n + 1e-300
}

func lossValue(c *core.Ctx, what string, l tensor.Tensor) float64 {
	s, v := read(c, l, what)
	if len(s) != 0 {
		c.Violate("%s has shape %v, want a scalar", what, s)
	}
	if math.IsNaN(v[0]) || math.IsInf(v[0], 0) {
		c.Violate("%s is %v, not finite", what, v[0])
	}
	if v[0] < 0 {
		c.Violate("%s is %v, negative", what, v[0])
	}
	return v[0]
}

// c12Check computes one loss on fresh operands in all tracked combinations.
func c12Check(c *core.Ctx, ls losser, k int, shape []int, p, t []float64, via bool) float64 {
	exp, tol := lossExpect(k, shape, p, t)
	first := 0.
	start := c.R.Int(4)
	n := 4
	if !via {
		n = 2
	}
	for j := 0; j < n; j++ {
		m := (start + j) % 4
		var yp, yt tensor.Tensor
		if via && j == 0 {
			yp, yt = mkVal(c, shape, p, m&1 > 0), mkVal(c, shape, t, m&2 > 0)
		} else {
			yp, yt = mk(c, shape, p, m&1 > 0), mk(c, shape, t, m&2 > 0)
		}
		if j == n-1 && slices.Equal(p, t) {
			yt = yp
			c.Count("same_operand_twice", 1)
		}
		l, err := ls.Compute(yp, yt)
		l = must(c, l, err)(lossNames[k])
		v := lossValue(c, lossNames[k], l)
		if !prog.Close(v, exp, tol) {
			c.Violate("%s is %v, want %v (tolerance %.3g; tracked prediction=%v target=%v)", lossNames[k], v, exp, tol, m&1 > 0, m&2 > 0)
		}
		if j == 0 {
			first = v
		} else if !prog.SameBits(v, first) {
			c.Violate("%s depends on tracking or construction: %v and %v", lossNames[k], first, v)
		}
		if j == 0 {
			checkBits(c, "predictions after the loss", yp, shape, p)
			checkBits(c, "targets after the loss", yt, shape, t)
		}
		c.Count("values", 1)
	}
	if k > 0 {
		for i := range p {
			if p[i] < ref.Lo || p[i] > ref.Hi {
				c.Count("clipped_predictions", 1)
			}
			if t[i] < 0 || t[i] > 1 {
				c.Count("outside_targets", 1)
			}
		}
	}
	c.Count("loss."+lossNames[k], 1)
	return first
}

func lossDetail(c *core.Ctx, k int, shape []int, p, t []float64) {
	c.Detail(func() string {
		return fmt.Sprintf("%s of %v predictions %s targets %s", lossNames[k], shape, prog.Fmt(p, 200), prog.Fmt(t, 200))
	})
}

func c12Pairs(c *core.Ctx) {
	k := c.Idx % 3
	i := c.Idx / 3
	pv, tv := lossVal(k, lossVals[i%len(lossVals)]), lossVal(k, lossVals[i/len(lossVals)])
	ls := newLoss(k)
	shape := []int{1}
	if k == 2 {
		shape = []int{1, 1}
	}
	p, t := []float64{pv}, []float64{tv}
	lossDetail(c, k, shape, p, t)
	c12Check(c, ls, k, shape, p, t, true)
	// the same pair at a random place of a larger batch
	shape = lossShape(c.R, k, 12)
	n := ref.Prod(shape)
	p2, t2 := make([]float64, n), make([]float64, n)
	for j := range p2 {
		p2[j], t2[j] = c.R.F(), float64(c.R.Int(2))
	}
	j := c.R.Int(n)
	p2[j], t2[j] = pv, tv
	lossDetail(c, k, shape, p2, t2)
	c12Check(c, ls, k, shape, p2, t2, true)
	c.EvalS(fmt.Sprint(k, i))
}

const predRegimes, targetRegimes = 8, 7

func lossPreds(r *core.R, k, n, regime int) []float64 {
	v := make([]float64, n)
	top := []float64{6, 10, 30, 300}[r.Int(4)]
	for i := range v {
		switch regime {
		case 0:
			v[i] = r.F()
		case 1:
			v[i] = lossVal(k, lossVals[r.Int(len(lossVals))])
		case 2:
			v[i] = float64(r.Int(2))
		case 3: // within 1e-12 of the bounds
			v[i] = []float64{1e-12, 1 - 1e-12, 0, 1}[r.Int(4)] + r.Range(-1e-12, 1e-12)
		case 4:
			v[i] = r.Range(-1e6, 1e6)
		case 5:
			v[i] = math.Pow(10, r.Range(-14, 0))
			if r.Bool() {
				v[i] = 1 - v[i]
			}
		case 6:
			v[i] = lossVal(k, math.Pow(10, r.Range(-20, top))*[]float64{-1, 1}[r.Int(2)])
		case 7:
			v[i] = r.Range(-0.5, 1.5)
		}
	}
	return v
}

func lossTargets(r *core.R, k int, shape []int, regime int) []float64 {
	n := ref.Prod(shape)
	v := make([]float64, n)
	one := -1
	for i := range v {
		switch regime {
		case 0:
			v[i] = float64(r.Int(2))
		case 1: // one-hot rows
			w := shape[len(shape)-1]
			if i%w == 0 {
				one = r.Int(w)
			}
			if i%w == one {
				v[i] = 1
			}
		case 2:
			v[i] = r.F()
		case 3:
			v[i] = lossVal(k, lossVals[r.Int(len(lossVals))])
		case 4:
			v[i] = r.Range(-1e6, 1e6)
		case 5:
			v[i] = r.Range(-1, 2)
		case 6:
			v[i] = 0
		}
	}
	return v
}

// nearTargets sometimes moves the targets of MSE close to the predictions, whatever their magnitude.
func nearTargets(r *core.R, k int, p, t []float64) {
	if r.P(12) {
		copy(t, p)
		return
	}
	if k != 0 || !r.P(4) {
		return
	}
	e := r.Range(-15, 0)
	for i := range t {
		t[i] = p[i] * (1 + math.Pow(10, e)*r.Range(-1, 1))
	}
}

func c12Random(c *core.Ctx) {
	r := c.R
	k := c.Idx % 3
	shape := lossShape(r, k, []int{3, 6, 14, 40}[r.Int(4)])
	pr, tr := r.Int(predRegimes), r.Int(targetRegimes)
	p, t := lossPreds(r, k, ref.Prod(shape), pr), lossTargets(r, k, shape, tr)
	nearTargets(r, k, p, t)
	lossDetail(c, k, shape, p, t)
	c12Check(c, newLoss(k), k, shape, p, t, r.P(3))
	c.EvalS(fmt.Sprint(k, shape, pr, tr))
	if c.Idx%29989 == 0 {
		c.Sample(fmt.Sprintf("%s %v %s %s", lossNames[k], shape, prog.Fmt(p, 6), prog.Fmt(t, 6)))
	}
}

func c12Large(c *core.Ctx) {
	r := c.R
	k := c.Idx % 3
	n := []int{300, 1100, 5000}[r.Int(3)]
	shape := lossShape(r, k, n)
	if k < 2 {
		shape[0] = r.In(n/2, n)
	}
	pr, tr := r.Int(predRegimes), r.Int(targetRegimes)
	p, t := lossPreds(r, k, ref.Prod(shape), pr), lossTargets(r, k, shape, tr)
	nearTargets(r, k, p, t)
	lossDetail(c, k, shape, p, t)
	c12Check(c, newLoss(k), k, shape, p, t, false)
	c.Count("large", 1)
	c.EvalS(fmt.Sprint(k, shape, pr, tr))
}

// c12History calls the same loss objects many times, with rejected calls in between; a repeated batch must give
// the same value again.
func c12History(c *core.Ctx) {
	r := c.R
	type batch struct {
		k     int
		shape []int
		p, t  []float64
		v     float64

		tp, tt tensor.Tensor
	}
	ls := []losser{newLoss(0), newLoss(1), newLoss(2)}
	var seen []batch
	n := r.In(3, 14)
	sig := ""
	for i := 0; i < n; i++ {
		if len(seen) > 0 && r.P(3) {
			b := &seen[r.Int(len(seen))]
			lossDetail(c, b.k, b.shape, b.p, b.t)
			if b.tp == nil || r.P(3) { // otherwise the very same tensor again
				b.tp = mk(c, b.shape, b.p, r.Bool())
			}
			if b.tt == nil || r.P(3) {
				b.tt = mk(c, b.shape, b.t, r.Bool())
			}
			l, err := ls[b.k].Compute(b.tp, b.tt)
			l = must(c, l, err)(lossNames[b.k])
			if v := lossValue(c, lossNames[b.k], l); !prog.SameBits(v, b.v) {
				c.Violate("%s of the same batch was %v and is %v after other calls", lossNames[b.k], b.v, v)
			}
			if r.P(4) {
				if err := tensor.BackPropagate(l); err != nil {
					c.Violate("back-propagating %s failed: %v", lossNames[b.k], err)
				}
			}
			sig += "r"
			continue
		}
		k := r.Int(3)
		if r.P(6) { // a rejected call
			_, err := ls[k].Compute(mk(c, []int{2}, []float64{1, 2}, r.Bool()), mk(c, []int{3, 1, 1}, []float64{1, 2, 3}, false))
			if err == nil {
				c.Violate("%s accepted shapes [2] and [3 1 1]", lossNames[k])
			}
			sig += "e"
			continue
		}
		shape := lossShape(r, k, 9)
		p, t := lossPreds(r, k, ref.Prod(shape), r.Int(predRegimes)), lossTargets(r, k, shape, r.Int(targetRegimes))
		nearTargets(r, k, p, t)
		lossDetail(c, k, shape, p, t)
		v := c12Check(c, ls[k], k, shape, p, t, false)
		seen = append(seen, batch{k: k, shape: shape, p: p, t: t, v: v})
		sig += fmt.Sprint(k, shape)
	}
	c.EvalS(sig)
}

// c12Graph feeds results of other operations, tracked or not, spent or not yet, into the losses.
func c12Graph(c *core.Ctx) {
	r := c.R
	k := c.Idx % 3
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 3, MaxDim: 4, MaxElems: 40})
	grow(b, r.In(1, 3), r.In(0, 7), 0)
	var p, t int
	if p = shapeTo(b, r, k, r.Int(len(b.P))); p < 0 {
		c.Count("dropped", 1)
		return
	}
	if r.P(4) {
		t = p
	} else {
		t = b.Leaf(b.T[p].Shape, r.P(3))
	}
	shape := b.T[p].Shape
	c.Detail(func() string { return fmt.Sprintf("%s\n %s(t%d, t%d)", prog.Show(b.P), lossNames[k], p, t) })
	ts := exec(c, b.P)
	_, pv := read(c, ts[p], "prediction")
	_, tv := read(c, ts[t], "target")
	for i := range pv {
		if !(math.Abs(pv[i]) < 1e6) || !(math.Abs(tv[i]) < 1e6) {
			c.Count("dropped", 1)
			return
		}
	}
	exp, tol := lossExpect(k, shape, pv, tv)
	l, err := newLoss(k).Compute(ts[p], ts[t])
	l = must(c, l, err)(lossNames[k])
	if v := lossValue(c, lossNames[k], l); !prog.Close(v, exp, tol) {
		c.Violate("%s is %v, want %v (tolerance %.3g)", lossNames[k], v, exp, tol)
	}
	checkBits(c, "predictions after the loss", ts[p], shape, pv)
	c.Count("values", 1)
	c.Count("graph_inputs", 1)
	c.Eval(structSig(b.P, k*1000+p))
}

// shapeTo turns tensor id into the rank loss k wants; -1 when that is not possible.
func shapeTo(b *prog.Builder, r *core.R, k, id int) int {
	s := b.T[id].Shape
	want := 1
	if k == 2 {
		want = 2
	}
	if len(s) == want {
		return id
	}
	n := ref.Prod(s)
	var in prog.Ins
	switch {
	case len(s) > want && r.Bool():
		in = prog.Ins{Op: "Flatten", A: []int{id}, I: want - 1}
	case want == 1:
		in = prog.Ins{Op: "Reshape", A: []int{id}, D: []int{n}}
	default:
		d := 1
		for _, q := range []int{5, 3, 2} {
			if n%q == 0 && r.Bool() {
				d = q
				break
			}
		}
		in = prog.Ins{Op: "Reshape", A: []int{id}, D: []int{d, n / d}}
	}
	o, ok := b.Try(in)
	if !ok {
		return -1
	}
	return o
}
