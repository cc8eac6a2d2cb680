// Package ref is the independent model of qeep's tensor semantics: a scalar tape with one node per
// tensor element. Broadcasting, fan-out, indexing and reductions are index maps over scalar nodes, and
// derivatives come from scalar reverse accumulation, so the model shares no structure with the library.
package ref

import (
	"fmt"
	"math"
)

const eps = 2.3e-16

// Tape records scalar nodes in topological order.
type Tape struct {
	Val   []float64
	Err   []float64 // absolute forward error bound of any sane evaluation of the node
	Fac   []float64 // factor of the explicit-broadcast finding model (1 elsewhere)
	st    []int32
	par   []int32
	w     []float64
	we    []float64 // error bound of each weight
	Bad   string    // non-empty: an op was evaluated too close to a point where it is not differentiable
	Floor float64   // absolute gradient tolerance (underflow on the way); at least 1e-300
	Find  bool      // some node has Fac != 1
}

// T is a tensor: shape and the scalar nodes of its elements, row-major.
type T struct {
	Shape []int
	N     []int32
}

func NewTape() *Tape { return &Tape{st: []int32{0}} }

func (t *Tape) node(val, err float64) int32 {
	t.Val = append(t.Val, val)
	t.Err = append(t.Err, err)
	t.Fac = append(t.Fac, 1)
	t.st = append(t.st, int32(len(t.par)))
	return int32(len(t.Val) - 1)
}

// edge adds d(node)/d(p) = w, known up to we.
func (t *Tape) edge(p int32, w, we float64) {
	t.par = append(t.par, p)
	t.w = append(t.w, w)
	t.we = append(t.we, we)
	t.st[len(t.st)-1] = int32(len(t.par))
}

func (t *Tape) bad(s string) {
	if t.Bad == "" {
		t.Bad = s
	}
}

// Len is the number of nodes.
func (t *Tape) Len() int { return len(t.Val) }

// Backward seeds every node of root with 1 and accumulates d(sum root)/d(node), with a tolerance that any
// sane floating point evaluation of the same sum stays within. With finding set, Fac is applied.
func (t *Tape) Backward(root *T, finding bool) (g, tol []float64) {
	seed := make([]float64, len(root.N))
	for i := range seed {
		seed[i] = 1
	}
	return t.BackwardSeed(root, seed, finding)
}

func (t *Tape) BackwardSeed(root *T, seed []float64, finding bool) (g, tol []float64) {
	g = make([]float64, len(t.Val))
	abs := make([]float64, len(t.Val))
	ge := make([]float64, len(t.Val))
	max := int32(-1)
	for i, n := range root.N {
		g[n] += seed[i]
		abs[n] += math.Abs(seed[i])
		if n > max {
			max = n
		}
	}
	for n := max; n >= 0; n-- {
		if abs[n] == 0 && ge[n] == 0 {
			continue
		}
		f := 1.
		if finding {
			f = t.Fac[n]
		}
		gn, an, en := g[n]*f, abs[n]*f, ge[n]*f
		for e := t.st[n]; e < t.st[n+1]; e++ {
			w, we, p := t.w[e], t.we[e], t.par[e]
			aw := math.Abs(w)
			g[p] += gn * w
			abs[p] += an * aw
			ge[p] += en*(aw+we) + an*we
		}
	}
	for i := range ge {
		ge[i] = 1e-8*abs[i] + 64*ge[i] + math.Max(t.Floor, 1e-300)
	}
	return g, ge
}

// ---- shapes ----

func Prod(s []int) int {
	n := 1
	for _, d := range s {
		n *= d
	}
	return n
}

func Strides(s []int) []int {
	st := make([]int, len(s))
	k := 1
	for i := len(s) - 1; i >= 0; i-- {
		st[i] = k
		k *= s[i]
	}
	return st
}

// Unravel turns a row-major position into a multi-index.
func Unravel(p int, s []int) []int {
	ix := make([]int, len(s))
	for i := len(s) - 1; i >= 0; i-- {
		ix[i] = p % s[i]
		p /= s[i]
	}
	return ix
}

func Ravel(ix, s []int) int {
	p := 0
	for i := range s {
		p = p*s[i] + ix[i]
	}
	return p
}

// BShape is the right-aligned broadcast shape of a and b.
func BShape(a, b []int) ([]int, bool) {
	n := len(a)
	if len(b) > n {
		n = len(b)
	}
	o := make([]int, n)
	for k := 1; k <= n; k++ {
		da, db := 1, 1
		if k <= len(a) {
			da = a[len(a)-k]
		}
		if k <= len(b) {
			db = b[len(b)-k]
		}
		switch {
		case da == db:
			o[n-k] = da
		case da == 1:
			o[n-k] = db
		case db == 1:
			o[n-k] = da
		default:
			return nil, false
		}
	}
	return o, true
}

// CanBroadcast tells whether src may be broadcast to dst.
func CanBroadcast(src, dst []int) bool {
	if len(src) > len(dst) {
		return false
	}
	for k := 1; k <= len(src); k++ {
		s, d := src[len(src)-k], dst[len(dst)-k]
		if s != d && s != 1 {
			return false
		}
	}
	return true
}

// BPos is the position in a tensor of shape src that the multi-index ix of a larger shape maps to.
func BPos(ix, src []int) int {
	off := len(ix) - len(src)
	p := 0
	for i, d := range src {
		x := ix[off+i]
		if d == 1 {
			x = 0
		}
		p = p*d + x
	}
	return p
}

func cp(s []int) []int { return append([]int{}, s...) }

// ---- construction ----

func (t *Tape) Leaf(shape []int, vals []float64) *T {
	if Prod(shape) != len(vals) {
		panic(fmt.Sprintf("ref: leaf %v with %d values", shape, len(vals)))
	}
	o := &T{Shape: cp(shape), N: make([]int32, len(vals))}
	for i, v := range vals {
		o.N[i] = t.node(v, 0)
	}
	return o
}

// Cut is a copy of x without edges (a constant).
func (t *Tape) Cut(x *T) *T {
	o := &T{Shape: cp(x.Shape), N: make([]int32, len(x.N))}
	for i, n := range x.N {
		o.N[i] = t.node(t.Val[n], t.Err[n])
	}
	return o
}

func (t *Tape) Vals(x *T) []float64 {
	o := make([]float64, len(x.N))
	for i, n := range x.N {
		o[i] = t.Val[n]
	}
	return o
}

func (t *Tape) copyOf(p int32) int32 {
	n := t.node(t.Val[p], t.Err[p])
	t.edge(p, 1, 0)
	return n
}

// Move builds a tensor whose element i is a copy of node src[i].
func (t *Tape) Move(shape []int, src []int32) *T {
	o := &T{Shape: cp(shape), N: make([]int32, len(src))}
	for i, s := range src {
		o.N[i] = t.copyOf(s)
	}
	return o
}

// ---- element-wise ----

func (t *Tape) un(p int32, v, d, de float64) int32 {
	n := t.node(v, math.Abs(d)*t.Err[p]+4*eps*math.Abs(v))
	t.edge(p, d, de)
	return n
}

func (t *Tape) Unary(x *T, f, d func(float64) float64) *T {
	o := &T{Shape: cp(x.Shape), N: make([]int32, len(x.N))}
	for i, p := range x.N {
		v, e := t.Val[p], t.Err[p]
		dv := d(v)
		de := 8 * eps * math.Abs(dv)
		if e > 0 {
			de += math.Max(math.Abs(d(v+e)-dv), math.Abs(d(v-e)-dv))
		}
		o.N[i] = t.un(p, f(v), dv, de)
	}
	return o
}

func (t *Tape) bin(p, q int32, v, dp, dq, ep, eq float64) int32 {
	n := t.node(v, math.Abs(dp)*t.Err[p]+math.Abs(dq)*t.Err[q]+4*eps*(math.Abs(v)))
	t.edge(p, dp, ep)
	t.edge(q, dq, eq)
	return n
}

// Binary applies a scalar function with right-aligned broadcasting.
func (t *Tape) Binary(a, b *T, f func(t *Tape, p, q int32) int32) *T {
	s, ok := BShape(a.Shape, b.Shape)
	if !ok {
		panic("ref: incompatible shapes")
	}
	o := &T{Shape: s, N: make([]int32, Prod(s))}
	for i := range o.N {
		ix := Unravel(i, s)
		o.N[i] = f(t, a.N[BPos(ix, a.Shape)], b.N[BPos(ix, b.Shape)])
	}
	return o
}

func (t *Tape) Add(a, b *T) *T {
	return t.Binary(a, b, func(t *Tape, p, q int32) int32 {
		n := t.bin(p, q, t.Val[p]+t.Val[q], 1, 1, 0, 0)
		return n
	})
}
func (t *Tape) Sub(a, b *T) *T {
	return t.Binary(a, b, func(t *Tape, p, q int32) int32 { return t.bin(p, q, t.Val[p]-t.Val[q], 1, -1, 0, 0) })
}
func (t *Tape) Mul(a, b *T) *T {
	return t.Binary(a, b, func(t *Tape, p, q int32) int32 {
		return t.bin(p, q, t.Val[p]*t.Val[q], t.Val[q], t.Val[p], t.Err[q], t.Err[p])
	})
}
func (t *Tape) Div(a, b *T) *T {
	return t.Binary(a, b, func(t *Tape, p, q int32) int32 {
		x, y := t.Val[p], t.Val[q]
		if math.Abs(y) < 10*t.Err[q] || y == 0 {
			t.bad("div by ~0")
		}
		ay := math.Abs(y)
		ry := t.Err[q]/ay + 4*eps
		return t.bin(p, q, x/y, 1/y, -(x/y)/y, 2*ry/ay, (math.Abs(x/y)*4*ry+t.Err[p]/ay)/ay)
	})
}

// gap tells whether two values are separated well beyond their evaluation error.
func (t *Tape) gap(p, q int32) bool {
	d := math.Abs(t.Val[p] - t.Val[q])
	return d > 100*(t.Err[p]+t.Err[q])
}

func (t *Tape) exactPair(p, q int32) bool { return t.Err[p] == 0 && t.Err[q] == 0 }

// TieHalf: at an exact tie of leaf values each side receives half (tie-aware rule of the library).
func (t *Tape) elsel(a, b *T, max bool) *T {
	return t.Binary(a, b, func(t *Tape, p, q int32) int32 {
		x, y := t.Val[p], t.Val[q]
		if p != q && (x == y && t.exactPair(p, q)) {
			// an exact tie: not differentiable (unless both sides are one node)
			t.bad("tie")
		} else if p != q && !t.gap(p, q) {
			t.bad("near tie")
		}
		if p == q {
			n := t.node(x, t.Err[p])
			t.edge(p, 1, 0)
			return n
		}
		if (x >= y) == max {
			return t.bin(p, q, x, 1, 0, 0, 0)
		}
		return t.bin(p, q, y, 0, 1, 0, 0)
	})
}
func (t *Tape) ElMax(a, b *T) *T { return t.elsel(a, b, true) }
func (t *Tape) ElMin(a, b *T) *T { return t.elsel(a, b, false) }

// Cmp is a comparison: a constant of 0s and 1s.
func (t *Tape) Cmp(a, b *T, f func(x, y float64) bool) *T {
	return t.Binary(a, b, func(t *Tape, p, q int32) int32 {
		if p != q && !t.gap(p, q) && !t.exactPair(p, q) {
			t.bad("near tie in comparison")
		}
		v := 0.
		if f(t.Val[p], t.Val[q]) {
			v = 1
		}
		return t.node(v, 0)
	})
}

func (t *Tape) Scale(x *T, a float64) *T {
	return t.Unary(x, func(v float64) float64 { return a * v }, func(float64) float64 { return a })
}

func (t *Tape) Pow(x *T, a float64) *T {
	o := &T{Shape: cp(x.Shape), N: make([]int32, len(x.N))}
	for i, p := range x.N {
		v := t.Val[p]
		d := 0.
		switch {
		case a == 0:
			d = 0
		case a == 1:
			d = 1
		case v == 0 && a > 1:
			d = 0
		case v == 0:
			t.bad("pow at 0")
		default:
			d = a * math.Pow(v, a-1)
		}
		if a != 0 && a != 1 && a != 2 && a != 3 && math.Abs(v) < 100*t.Err[p] {
			t.bad("pow near 0")
		}
		r := math.Pow(v, a)
		e := math.Abs(d)*t.Err[p] + 8*eps*math.Abs(r)
		if a > 1 && math.Abs(v) < 10*t.Err[p] {
			e += math.Pow(11*t.Err[p], a)
		}
		n := t.node(r, e)
		de := 16 * eps * math.Abs(d)
		if pe := t.Err[p]; pe > 0 && a != 0 && a != 1 {
			de += math.Abs(a*(a-1)) * math.Max(math.Pow(math.Abs(v)+pe, a-2), math.Pow(math.Max(math.Abs(v)-pe, pe/10), a-2)) * pe
		}
		t.edge(p, d, de)
		o.N[i] = n
	}
	return o
}

func (t *Tape) Exp(x *T) *T { return t.Unary(x, math.Exp, math.Exp) }
func (t *Tape) Log(x *T) *T {
	for _, p := range x.N {
		if t.Val[p] < 10*t.Err[p] {
			t.bad("log near 0")
		}
	}
	return t.Unary(x, math.Log, func(v float64) float64 { return 1 / v })
}
func (t *Tape) Sin(x *T) *T { return t.Unary(x, math.Sin, math.Cos) }
func (t *Tape) Cos(x *T) *T {
	return t.Unary(x, math.Cos, func(v float64) float64 { return -math.Sin(v) })
}
func (t *Tape) Tan(x *T) *T {
	return t.Unary(x, math.Tan, func(v float64) float64 { w := math.Tan(v); return 1 + w*w })
}
func (t *Tape) Sinh(x *T) *T { return t.Unary(x, math.Sinh, math.Cosh) }
func (t *Tape) Cosh(x *T) *T { return t.Unary(x, math.Cosh, math.Sinh) }
func (t *Tape) Tanh(x *T) *T {
	k := len(t.we)
	y := t.Unary(x, math.Tanh, DTanh)
	for ; k < len(t.we); k++ {
		t.we[k] += Sat
	}
	return y
}

// ---- moves ----

// R is a resolved half-open range.
type R struct{ From, To int }

// Resolve completes a possibly partial index with whole-dimension ranges.
func Resolve(index []R, dims []int) []R {
	o := make([]R, len(dims))
	for i, d := range dims {
		if i < len(index) && !(index[i].From == 0 && index[i].To == 0) {
			o[i] = index[i]
		} else {
			o[i] = R{0, d}
		}
	}
	return o
}

func (t *Tape) Slice(x *T, index []R) *T {
	r := Resolve(index, x.Shape)
	s := make([]int, len(r))
	for i := range r {
		s[i] = r[i].To - r[i].From
	}
	src := make([]int32, Prod(s))
	for i := range src {
		ix := Unravel(i, s)
		for k := range ix {
			ix[k] += r[k].From
		}
		src[i] = x.N[Ravel(ix, x.Shape)]
	}
	return t.Move(s, src)
}

// Patch writes u into x at the indexed position (offset 0 where the range is omitted).
func (t *Tape) Patch(x, u *T, index []R) *T {
	src := append([]int32{}, x.N...)
	off := make([]int, len(x.Shape))
	for i := range off {
		if i < len(index) {
			off[i] = index[i].From
		}
	}
	for i, n := range u.N {
		ix := Unravel(i, u.Shape)
		for k := range ix {
			ix[k] += off[k]
		}
		src[Ravel(ix, x.Shape)] = n
	}
	return t.Move(x.Shape, src)
}

func (t *Tape) Transpose(x *T) *T {
	n := len(x.Shape)
	s := cp(x.Shape)
	s[n-1], s[n-2] = s[n-2], s[n-1]
	src := make([]int32, len(x.N))
	for i := range src {
		ix := Unravel(i, s)
		ix[n-1], ix[n-2] = ix[n-2], ix[n-1]
		src[i] = x.N[Ravel(ix, x.Shape)]
	}
	return t.Move(s, src)
}

func (t *Tape) Reshape(x *T, s []int) *T { return t.Move(s, x.N) }

func UnSqueezeShape(s []int, d int) []int {
	o := cp(s[:d])
	o = append(o, 1)
	return append(o, s[d:]...)
}

func DropDim(s []int, d int) []int {
	o := cp(s[:d])
	return append(o, s[d+1:]...)
}

func FlattenShape(s []int, d int) []int { return append(cp(s[:d]), Prod(s[d:])) }

// Broadcast is an explicit expansion; its nodes carry the factor of the known finding.
func (t *Tape) Broadcast(x *T, s []int) *T {
	src := make([]int32, Prod(s))
	for i := range src {
		src[i] = x.N[BPos(Unravel(i, s), x.Shape)]
	}
	o := t.Move(s, src)
	if k := len(src) / len(x.N); k > 1 {
		t.Find = true
		for _, n := range o.N {
			t.Fac[n] = 1 / float64(k)
		}
	}
	return o
}

func (t *Tape) Concat(xs []*T, dim int) *T {
	s := cp(xs[0].Shape)
	s[dim] = 0
	for _, x := range xs {
		s[dim] += x.Shape[dim]
	}
	src := make([]int32, Prod(s))
	for i := range src {
		ix := Unravel(i, s)
		k := 0
		for ix[dim] >= xs[k].Shape[dim] {
			ix[dim] -= xs[k].Shape[dim]
			k++
		}
		src[i] = xs[k].N[Ravel(ix, xs[k].Shape)]
	}
	return t.Move(s, src)
}

// ---- reductions ----

// Fibres lists, per output element, the nodes of the fibre along dim.
func Fibres(x *T, dim int) (shape []int, fib [][]int32) {
	shape = DropDim(x.Shape, dim)
	fib = make([][]int32, Prod(shape))
	st := Strides(x.Shape)
	for i := range fib {
		ix := Unravel(i, shape)
		full := append(append(cp(ix[:dim]), 0), ix[dim:]...)
		base := Ravel(full, x.Shape)
		f := make([]int32, x.Shape[dim])
		for k := range f {
			f[k] = x.N[base+k*st[dim]]
		}
		fib[i] = f
	}
	return shape, fib
}

func (t *Tape) along(x *T, dim int, f func(fb []int32) int32) *T {
	s, fib := Fibres(x, dim)
	o := &T{Shape: s, N: make([]int32, len(fib))}
	for i, fb := range fib {
		o.N[i] = f(fb)
	}
	return o
}

func (t *Tape) lin(fb []int32, w []float64) int32 {
	v, e, m := 0., 0., 0.
	for i, p := range fb {
		v += w[i] * t.Val[p]
		e += math.Abs(w[i]) * t.Err[p]
		m += math.Abs(w[i] * t.Val[p])
	}
	n := t.node(v, e+float64(len(fb)+2)*eps*m)
	for i, p := range fb {
		t.edge(p, w[i], 2*eps*math.Abs(w[i]))
	}
	return n
}

func (t *Tape) SumAlong(x *T, dim int) *T {
	return t.along(x, dim, func(fb []int32) int32 {
		w := make([]float64, len(fb))
		for i := range w {
			w[i] = 1
		}
		return t.lin(fb, w)
	})
}

func (t *Tape) AvgAlong(x *T, dim int) *T {
	return t.along(x, dim, func(fb []int32) int32 {
		w := make([]float64, len(fb))
		for i := range w {
			w[i] = 1 / float64(len(fb))
		}
		return t.lin(fb, w)
	})
}

func (t *Tape) extAlong(x *T, dim int, sign float64) *T {
	return t.along(x, dim, func(fb []int32) int32 {
		b := 0
		for i := range fb {
			if sign*t.Val[fb[i]] > sign*t.Val[fb[b]] {
				b = i
			}
		}
		for i := range fb {
			if i != b && !t.gap(fb[i], fb[b]) {
				t.bad("extremum not unique")
			}
		}
		n := t.node(t.Val[fb[b]], t.Err[fb[b]])
		t.edge(fb[b], 1, 0)
		return n
	})
}
func (t *Tape) MaxAlong(x *T, dim int) *T { return t.extAlong(x, dim, 1) }
func (t *Tape) MinAlong(x *T, dim int) *T { return t.extAlong(x, dim, -1) }

func (t *Tape) varOf(fb []int32) (v, m, e, me float64) {
	n := float64(len(fb))
	mag, pe := 0., 0.
	for _, p := range fb {
		m += t.Val[p]
		mag += math.Abs(t.Val[p])
		pe += t.Err[p]
	}
	m /= n
	if len(fb) == 1 {
		return 0, m, 0, 0
	}
	me = (n+2)*eps*mag/n + pe/n
	for _, p := range fb {
		d := t.Val[p] - m
		v += d * d
		e += 2 * math.Abs(d) * (t.Err[p] + me + eps*math.Abs(t.Val[p]))
		e += (t.Err[p] + me) * (t.Err[p] + me)
	}
	v /= n - 1
	e = e/(n-1) + (n+4)*eps*v
	return v, m, e, me
}

func (t *Tape) VarAlong(x *T, dim int) *T {
	return t.along(x, dim, func(fb []int32) int32 {
		v, m, e, me := t.varOf(fb)
		n := t.node(v, e)
		for _, p := range fb {
			w, we := 0., 0.
			if len(fb) > 1 {
				w = 2 * (t.Val[p] - m) / float64(len(fb)-1)
				we = 2*(t.Err[p]+me+eps*math.Abs(t.Val[p]))/float64(len(fb)-1) + 4*eps*math.Abs(w)
			}
			t.edge(p, w, we)
		}
		return n
	})
}

func (t *Tape) StdAlong(x *T, dim int) *T {
	return t.along(x, dim, func(fb []int32) int32 {
		v, m, e, me := t.varOf(fb)
		s := math.Sqrt(v)
		if len(fb) > 1 && v <= 1e4*e {
			t.bad("std near 0")
		}
		se := 0.
		if s > 0 {
			se = e/(2*s) + eps*s
		}
		n := t.node(s, se)
		for _, p := range fb {
			w, we := 0., 0.
			if len(fb) > 1 {
				w = (t.Val[p] - m) / (float64(len(fb)-1) * s)
				we = (t.Err[p]+me+eps*math.Abs(t.Val[p]))/(float64(len(fb)-1)*s) + math.Abs(w)*(2*se/s+4*eps)
			}
			t.edge(p, w, we)
		}
		return n
	})
}

// ---- products ----

func (t *Tape) prodSum(ps, qs []int32) int32 {
	v, e, m := 0., 0., 0.
	for i := range ps {
		x, y := t.Val[ps[i]], t.Val[qs[i]]
		v += x * y
		e += math.Abs(x)*t.Err[qs[i]] + math.Abs(y)*t.Err[ps[i]]
		m += math.Abs(x * y)
	}
	n := t.node(v, e+float64(len(ps)+2)*eps*m)
	for i := range ps {
		t.edge(ps[i], t.Val[qs[i]], t.Err[qs[i]])
		t.edge(qs[i], t.Val[ps[i]], t.Err[ps[i]])
	}
	return n
}

// Dot contracts the last dimension; the leading ones are broadcast.
func (t *Tape) Dot(a, b *T) *T {
	la, lb := len(a.Shape), len(b.Shape)
	k := a.Shape[la-1]
	s, ok := BShape(a.Shape[:la-1], b.Shape[:lb-1])
	if !ok {
		panic("ref: dot shapes")
	}
	o := &T{Shape: s, N: make([]int32, Prod(s))}
	ps, qs := make([]int32, k), make([]int32, k)
	for i := range o.N {
		ix := Unravel(i, s)
		pa, pb := BPos(ix, a.Shape[:la-1])*k, BPos(ix, b.Shape[:lb-1])*k
		for j := 0; j < k; j++ {
			ps[j], qs[j] = a.N[pa+j], b.N[pb+j]
		}
		o.N[i] = t.prodSum(ps, qs)
	}
	return o
}

// MatMul multiplies the trailing matrices; batch dimensions are broadcast.
func (t *Tape) MatMul(a, b *T) *T {
	la, lb := len(a.Shape), len(b.Shape)
	m, k, n := a.Shape[la-2], a.Shape[la-1], b.Shape[lb-1]
	bs, ok := BShape(a.Shape[:la-2], b.Shape[:lb-2])
	if !ok {
		panic("ref: matmul shapes")
	}
	s := append(cp(bs), m, n)
	o := &T{Shape: s, N: make([]int32, Prod(s))}
	ps, qs := make([]int32, k), make([]int32, k)
	for i := range o.N {
		ix := Unravel(i, s)
		bi := ix[:len(bs)]
		r, c := ix[len(bs)], ix[len(bs)+1]
		pa, pb := BPos(bi, a.Shape[:la-2])*m*k, BPos(bi, b.Shape[:lb-2])*k*n
		for j := 0; j < k; j++ {
			ps[j], qs[j] = a.N[pa+r*k+j], b.N[pb+j*n+c]
		}
		o.N[i] = t.prodSum(ps, qs)
	}
	return o
}

// MaxErr is the largest error bound and magnitude of a tensor's elements.
func (t *Tape) MaxErr(x *T) (e, mag float64, finite bool) {
	finite = true
	for _, n := range x.N {
		v := t.Val[n]
		if math.IsNaN(v) || math.IsInf(v, 0) {
			finite = false
		}
		e = math.Max(e, t.Err[n])
		mag = math.Max(mag, math.Abs(v))
	}
	return
}
