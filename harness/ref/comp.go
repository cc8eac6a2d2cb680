package ref

import "math"

// ---- components, as their defining formulas ----

// Sig is 1/(1+e^-v).
func Sig(v float64) float64 {
	if v >= 0 {
		return 1 / (1 + math.Exp(-v))
	}
	e := math.Exp(v)
	return e / (1 + e)
}

// DSig is s(1-s) without cancellation.
func DSig(v float64) float64 {
	e := math.Exp(-math.Abs(v))
	return e / (1 + e) / (1 + e)
}

// DTanh is 1-tanh^2 without cancellation.
func DTanh(v float64) float64 {
	c := math.Cosh(v)
	return 1 / c / c
}

// Sat is the absolute error granted to the derivatives 1-tanh^2 and s(1-s) where they are evaluated from a
// value next to 1 (the formulas as the definitions write them cancel there).
const Sat = 4 * eps

// slack is the derivative error granted where e^x leaves the normal range on the way.
const slack = 1e-100

func (t *Tape) Sigmoid(x *T) *T {
	k := len(t.we)
	y := t.Unary(x, Sig, DSig)
	for ; k < len(t.we); k++ {
		t.we[k] += slack
		if t.Val[t.par[k]] > 0 {
			t.we[k] += Sat
		}
	}
	return y
}

// Relu is max(0,x) + m*min(0,x).
func (t *Tape) Relu(x *T, m float64) *T {
	for _, p := range x.N {
		if math.Abs(t.Val[p]) <= 10*t.Err[p] {
			t.bad("relu at its kink")
		}
	}
	return t.Unary(x, func(v float64) float64 {
		if v > 0 {
			return v
		}
		return m * v
	}, func(v float64) float64 {
		if v > 0 {
			return 1
		}
		return m
	})
}

// SoftmaxOf computes e^x / sum e^x of one fibre.
func SoftmaxOf(x []float64) []float64 {
	m := x[0]
	for _, v := range x {
		m = math.Max(m, v)
	}
	y, s := make([]float64, len(x)), 0.
	for i, v := range x {
		y[i] = math.Exp(v - m)
		s += y[i]
	}
	for i := range y {
		y[i] /= s
	}
	return y
}

// FibreSets lists the node positions of every fibre along dim, fibres in row-major order of the rest.
func FibreSets(shape []int, dim int) [][]int {
	n, in := shape[dim], Prod(shape[dim+1:])
	out := make([][]int, 0, Prod(shape)/n)
	for o := 0; o < Prod(shape[:dim]); o++ {
		for i := 0; i < in; i++ {
			f := make([]int, n)
			for k := range f {
				f[k] = (o*n+k)*in + i
			}
			out = append(out, f)
		}
	}
	return out
}

func (t *Tape) Softmax(x *T, dim int) *T {
	o := &T{Shape: cp(x.Shape), N: make([]int32, len(x.N))}
	for _, f := range FibreSets(x.Shape, dim) {
		v := make([]float64, len(f))
		ex := 0.
		for i, k := range f {
			v[i] = t.Val[x.N[k]]
			ex = math.Max(ex, t.Err[x.N[k]])
		}
		p := SoftmaxOf(v)
		// a relative error bound of every probability
		re := 4*ex + float64(len(f)+1000)*eps
		for i, k := range f {
			n := t.node(p[i], p[i]*re)
			for j, l := range f {
				w, we := -p[i]*p[j], 4*re*p[i]*p[j]
				if i == j {
					w, we = p[i]*(1-p[i]), 4*re*p[i]
				}
				t.edge(x.N[l], w, we+slack)
			}
			o.N[k] = n
		}
	}
	return o
}

// Clip bounds of the losses.
const Lo, Hi = 1e-12, 1 - 1e-12

// Clip01 clips a target.
func Clip01(v float64) float64 { return math.Min(math.Max(v, 0), 1) }

// clipped reports the clipped prediction and whether it is inside the interval.
func (t *Tape) clipped(p int32) (v float64, inside bool) {
	v = t.Val[p]
	e := 16*t.Err[p] + 4e-28
	if math.Abs(v-Lo) <= e || math.Abs(v-Hi) <= 16*t.Err[p]+4e-16 {
		t.bad("prediction at a clip bound")
	}
	return math.Min(math.Max(v, Lo), Hi), v > Lo && v < Hi
}

// MSE is the mean of squared differences.
func (t *Tape) MSE(p, y *T) *T {
	n := float64(len(p.N))
	s := 0.
	type edge struct {
		w, we float64
	}
	es := make([]edge, len(p.N))
	ev := 0.
	for i, q := range p.N {
		d := t.Val[q] - t.Val[y.N[i]]
		s += d * d
		de := t.Err[q] + eps*(math.Abs(t.Val[q])+math.Abs(t.Val[y.N[i]]))
		es[i] = edge{2 * d / n, 2 * de / n}
		ev += (2*math.Abs(d) + de) * de
	}
	k := t.node(s/n, ev/n+n*eps*s/n)
	for i, q := range p.N {
		t.edge(q, es[i].w, es[i].we)
	}
	return &T{Shape: []int{}, N: []int32{k}}
}

// Xent is BCE over a vector (bin) or CE over [batch, class] rows.
func (t *Tape) Xent(p, y *T, bin bool) *T {
	n := float64(p.Shape[0])
	s, a, ev := 0., 0., 0.
	w, we := make([]float64, len(p.N)), make([]float64, len(p.N))
	for i, q := range p.N {
		v, in := t.clipped(q)
		tv := Clip01(t.Val[y.N[i]])
		e := t.Err[q]
		if !in {
			e = 0
		}
		r := e/v + 4*eps
		s -= tv * math.Log(v)
		a += math.Abs(tv * math.Log(v))
		ev += tv * r
		g, ge := -tv/v, tv/v*r
		if bin {
			u := 1 - v
			r := e/u + 4*eps
			s -= (1 - tv) * math.Log(u)
			a += math.Abs((1 - tv) * math.Log(u))
			ev += (1 - tv) * r
			if !in {
				ev += (1 - tv) * 1e-3
			}
			g += (1 - tv) / u
			ge += (1 - tv) / u * r
		}
		if in {
			w[i], we[i] = g/n, 4*ge/n
		}
	}
	k := t.node(s/n, (4*ev+float64(len(p.N)+8)*eps*a)/n)
	for i, q := range p.N {
		t.edge(q, w[i], we[i])
	}
	return &T{Shape: []int{}, N: []int32{k}}
}

// FC is y[b][o] = W[o] * sum_d x[b][d] + B[o].
func (t *Tape) FC(w, b, x *T) *T {
	bs, f, o := x.Shape[0], x.Shape[1], w.Shape[0]
	y := &T{Shape: []int{bs, o}, N: make([]int32, bs*o)}
	for i := 0; i < bs; i++ {
		s, a, ev := 0., 0., 0.
		for d := 0; d < f; d++ {
			v := t.Val[x.N[i*f+d]]
			s += v
			a += math.Abs(v)
			ev += t.Err[x.N[i*f+d]]
		}
		es := ev + float64(f+4)*eps*a
		for k := 0; k < o; k++ {
			wv, bv := t.Val[w.N[k]], t.Val[b.N[k]]
			wE, bE := t.Err[w.N[k]], t.Err[b.N[k]]
			n := t.node(wv*s+bv, math.Abs(wv)*es+wE*(math.Abs(s)+es)+bE+8*eps*(math.Abs(wv)*a+math.Abs(bv)))
			t.edge(w.N[k], s, es)
			t.edge(b.N[k], 1, 0)
			for d := 0; d < f; d++ {
				t.edge(x.N[i*f+d], wv, wE)
			}
			y.N[i*o+k] = n
		}
	}
	return y
}
