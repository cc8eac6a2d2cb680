package props

import (
	"fmt"
	"math"
	"sort"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{
		ID: "C18",
		Families: []core.Family{
			{Name: "support", Quick: 300000, Thorough: 3000000, Run: c18Support},
			{Name: "defaults", Quick: 6000, Thorough: 40000, Run: c18Defaults},
			{Name: "dist", Quick: 1800, Thorough: 14000, Run: c18Dist},
			{Name: "calls", Quick: 320, Thorough: 2500, Run: c18Calls},
			{Name: "fresh", Quick: 40000, Thorough: 300000, Run: c18Fresh},
			{Name: "exact", Quick: 80000, Thorough: 600000, Run: c18Exact},
			{Name: "many", Quick: 9, Thorough: 90, Run: c18Many},
			{Name: "fine", Quick: 8, Thorough: 80, Run: c18Fine},
			hugeFamily(len(distNames), c18Huge),
			sizesFamily(len(distNames), 2, c18Huge),
		},
		Rule: "initializer calls: every initializer, RandU and RandN with every kind of parameter (fans 1 to the largest int, intervals from one representable number to the whole range, sigmas 1e-300..1e300, nil configurations), ranks 0..12, sizes to tens of thousands, interleaved with other draws; exact shape, tracking and support for each; for samples of 20000-60000 elements in one tensor and for the pooled elements of thousands of small tensors: Kolmogorov-Smirnov distance, mean, variance, extremes, fourth moment, correlations at lags 1, 2, every dimension stride, half length, mirrored, and between calls, repeated values; " +
			"distinct = distinct (initializer, parameters, shape)",
		Assumptions: []string{
			"statistical thresholds are set for a false alarm probability below 1e-11 per test",
			"deviations of a distribution below these thresholds (about 1.7% of probability mass, 5% of variance for normal draws; 0.1% of the interval for uniform draws) are not seen",
		},
		MinEvents: map[string]uint64{"elements": 10000000, "dist_tests": 5000, "tracked_checked": 30000},
	})
}

// dist is one configured initializer with its specified distribution.
type dist struct {
	name   string
	kind   int // 0: constant a, 1: uniform [a,b), 2: normal (a, b)
	a, b   float64
	free   bool // a tensor constructor, not an initializer
	params string
	in     layers.Initializer
}

var distNames = []string{"Full", "Uniform", "Normal", "HeUniform", "HeNormal", "XavierUniform", "XavierNormal", "RandU", "RandN"}

func fan(r *core.R) int {
	switch r.Int(6) {
	case 0:
		return r.In(1, 3)
	case 1:
		return r.In(1, 12)
	case 2:
		return r.In(1, 2000)
	case 3:
		return []int{math.MaxInt, math.MaxInt - 1, math.MaxInt / 2, 1 << 62, 1 << 53, 1<<53 + 1, 1 << 31, 1<<31 - 1, 1 << 32}[r.Int(9)]
	case 4:
		return 1
	}
	return r.In(1, 1000000)
}

// mkDist configures an initializer; wild allows extreme parameters.
func mkDist(c *core.Ctx, k int, wild bool) dist {
	r := c.R
	d := dist{name: distNames[k]}
	var err error
	f1, f2 := fan(r), fan(r)
	l := r.Range(-5, 5)
	u := l + math.Pow(10, r.Range(-3, 3))
	mu, sg := r.Range(-5, 5), math.Pow(10, r.Range(-3, 3))
	if r.P(3) {
		mu = 0
	}
	if wild {
		switch r.Int(7) {
		case 0: // one representable number
			u = math.Nextafter(l, math.Inf(1))
		case 1: // a few
			u = l
			for i := r.In(2, 9); i > 0; i-- {
				u = math.Nextafter(u, math.Inf(1))
			}
		case 2:
			l, u = -math.MaxFloat64, math.MaxFloat64
		case 3:
			l, u = -1e308, 1.5e308
		case 4:
			l, u = 0, math.Pow(10, r.Range(-320, 300))
			if u == 0 {
				u = 5e-324
			}
		case 5:
			u = math.Copysign(0, -1)
			l = -math.Pow(10, r.Range(-300, 300))
		case 6:
			l, u = 1e16, 1e16+float64(2*r.In(1, 5))
		}
		if r.Bool() {
			sg = math.Pow(10, r.Range(-300, 300))
		}
		if r.P(3) {
			mu = math.Pow(10, r.Range(-10, 10))
		}
	}
	switch d.name {
	case "Full":
		d.kind, d.a = 0, hostile[r.Int(len(hostile))]
		if r.Bool() {
			d.a = r.Range(-9, 9)
		}
		d.in = initializers.NewFull(&initializers.FullConfig{Value: d.a})
	case "Uniform":
		d.kind, d.a, d.b = 1, l, u
		d.in, err = initializers.NewUniform(&initializers.UniformConfig{Lower: l, Upper: u})
	case "Normal":
		d.kind, d.a, d.b = 2, mu, sg
		d.in, err = initializers.NewNormal(&initializers.NormalConfig{Mean: mu, StdDev: sg})
	case "HeUniform":
		b := math.Sqrt(6 / float64(f1))
		d.kind, d.a, d.b = 1, -b, b
		d.in, err = initializers.NewHeUniform(&initializers.HeUniformConfig{FanIn: f1})
	case "HeNormal":
		d.kind, d.b = 2, math.Sqrt(2/float64(f1))
		d.in, err = initializers.NewHeNormal(&initializers.HeNormalConfig{FanIn: f1})
	case "XavierUniform":
		b := math.Sqrt(6 / (float64(f1) + float64(f2)))
		d.kind, d.a, d.b = 1, -b, b
		d.in, err = initializers.NewXavierUniform(&initializers.XavierUniformConfig{FanIn: f1, FanOut: f2})
	case "XavierNormal":
		d.kind, d.b = 2, math.Sqrt(2/(float64(f1)+float64(f2)))
		d.in, err = initializers.NewXavierNormal(&initializers.XavierNormalConfig{FanIn: f1, FanOut: f2})
	case "RandU":
		d.kind, d.a, d.b, d.free = 1, l, u, true
		d.in = initFunc(func(s []int) (tensor.Tensor, error) { return tensor.RandU(s, l, u, prog.Conf(true)) })
	case "RandN":
		d.kind, d.a, d.b, d.free = 2, mu, sg, true
		d.in = initFunc(func(s []int) (tensor.Tensor, error) { return tensor.RandN(s, mu, sg, prog.Conf(true)) })
	}
	d.params = fmt.Sprintf("fans %d %d, a=%v b=%v", f1, f2, d.a, d.b)
	if err != nil {
		c.Violate("%s with valid parameters (%s) was rejected: %v", d.name, d.params, err)
	}
	return d
}

// draw calls the initializer once and checks shape and support.
func (d *dist) draw(c *core.Ctx, shape []int) []float64 {
	if c.R.P(12) { // a rejected call, not judged here
		bad := append(append([]int{}, shape...), -c.R.Int(3))
		if t, err := d.in.Init(bad); err == nil && t == nil {
			c.Violate("%s.Init(%v) returned neither a tensor nor an error", d.name, bad)
		}
	}
	t, err := d.in.Init(append([]int{}, shape...))
	t = must(c, t, err)(d.name)
	s, v := read(c, t, d.name)
	if !prog.SameShape(s, shape) {
		c.Violate("%s: shape %v, want %v", d.name, s, shape)
	}
	lo, hi := d.a, d.b
	strict := d.name == "Uniform" || d.name == "RandU"
	if d.kind == 1 && !strict { // the bound is itself rounded
		lo, hi = lo*(1+1e-15), hi*(1+1e-15)
	}
	for i, x := range v {
		switch d.kind {
		case 0:
			if !prog.SameBits(x, d.a) {
				c.Violate("%s: element %v is %v, want %v", d.name, ref.Unravel(i, s), x, d.a)
			}
		case 1:
			if !(x >= lo && x < hi) {
				c.Violate("%s (%s): element %v is %v, outside [%v, %v)", d.name, d.params, ref.Unravel(i, s), x, d.a, d.b)
			}
		case 2: // 12 sigma: 1e-32
			if !(math.Abs(x-d.a) <= 12*d.b+1e-15*math.Abs(d.a)) {
				c.Violate("%s (%s): element %v is %v, more than 12 sigma off", d.name, d.params, ref.Unravel(i, s), x)
			}
		}
	}
	c.Count("elements", len(v))
	c.Count("init."+d.name, 1)
	if c.R.P(4) || d.kind == 0 {
		if err := tensor.BackPropagate(t.Scale(2)); err != nil {
			c.Violate("BackPropagate failed: %v", err)
		}
		g := t.Gradient()
		if g == nil {
			c.Violate("%s: the tensor is not tracked", d.name)
		}
		two := make([]float64, len(v))
		for i := range two {
			two[i] = 2
		}
		checkBits(c, d.name+" gradient", g, shape, two)
		c.Count("tracked_checked", 1)
	}
	return v
}

// burn moves the random stream by an unpredictable amount.
func burn(c *core.Ctx) {
	n := c.R.In(1, 300)
	t, err := tensor.RandU([]int{n}, 0, 1, nil)
	must(c, t, err)("RandU")
	if c.R.Bool() {
		t, err = tensor.RandN([]int{c.R.In(1, 9)}, 0, 1, nil)
		must(c, t, err)("RandN")
	}
}

func (d *dist) detail(c *core.Ctx, shape []int, what string) {
	c.Detail(func() string { return fmt.Sprintf("%s (%s) shape %v %s", d.name, d.params, shape, what) })
}

func c18Support(c *core.Ctx) {
	r := c.R
	d := mkDist(c, c.Idx%len(distNames), r.Bool())
	for i, n := 0, r.In(1, 3); i < n; i++ {
		shape := prog.Dims(r, r.In(0, []int{3, 5, 7, 12}[r.Int(4)]), []int{2, 4, 9}[r.Int(3)], 150)
		d.detail(c, shape, "")
		d.draw(c, shape)
		c.EvalS(fmt.Sprint(d.name, d.params, shape))
	}
	if c.Idx%19997 == 0 {
		c.Sample(d.name + " " + d.params)
	}
}

func c18Exact(c *core.Ctx) {
	// tiny supports: every representable value of the interval, only those, and roughly evenly
	r := c.R
	d := mkDist(c, []int{1, 7, 0}[r.Int(3)], true)
	if d.kind != 1 {
		d.draw(c, prog.Dims(r, r.In(0, 5), 4, 60))
		c.EvalS(fmt.Sprint(d.name, d.params))
		return
	}
	shape := []int{r.In(1, 400)}
	if r.P(8) {
		shape[0] = r.In(3000, 6000)
	}
	d.detail(c, shape, "")
	if v := d.draw(c, shape); len(v) > 2000 {
		d.judge(c, v, nil)
	}
	c.EvalS(fmt.Sprint(d.name, d.params, shape))
}

func c18Defaults(c *core.Ctx) {
	r := c.R
	shape := prog.Dims(r, r.In(0, 4), 6, 400)
	var d dist
	switch r.Int(3) {
	case 0:
		d = dist{name: "Full", kind: 0, a: 0, in: initializers.NewFull(nil)}
	case 1:
		u, err := initializers.NewUniform(nil)
		if err != nil {
			c.Violate("NewUniform(nil) failed: %v", err)
		}
		d = dist{name: "Uniform", kind: 1, a: -0.05, b: 0.05, in: u}
	case 2:
		u, err := initializers.NewNormal(nil)
		if err != nil {
			c.Violate("NewNormal(nil) failed: %v", err)
		}
		d = dist{name: "Normal", kind: 2, a: 0, b: 0.05, in: u}
	}
	d.params = "default"
	if r.P(8) && d.kind > 0 {
		shape = c18Shape(r, 20000)
		d.detail(c, shape, "")
		burn(c)
		d.judge(c, d.draw(c, shape), strides(shape))
	} else {
		d.detail(c, shape, "")
		d.draw(c, shape)
	}
	c.EvalS(fmt.Sprint("default", d.name, shape))
}

// c18Shape draws a shape with about n elements.
func c18Shape(r *core.R, n int) []int {
	switch r.Int(6) {
	case 0:
		return []int{n}
	case 1:
		k := r.In(2, 300)
		return []int{k, n / k}
	case 2:
		k := r.In(2, 12)
		return []int{n / k, k}
	case 3:
		k, l := r.In(2, 20), r.In(2, 20)
		return []int{k, n / k / l, l}
	case 4:
		return []int{2, 5, n / 60, 3, 2}
	}
	k := r.In(2, 30)
	return []int{k, 1, k, max(1, n/k/k)}
}

func strides(shape []int) []int {
	var l []int
	s := 1
	for i := len(shape) - 1; i > 0; i-- {
		s *= shape[i]
		l = append(l, s)
	}
	return l
}

// std maps a draw to mean 0 and variance 1.
func (d *dist) std(v []float64) []float64 {
	o := make([]float64, len(v))
	h := 1. // the width of an interval may exceed the largest number
	if math.IsInf(d.b-d.a, 0) {
		h = 0.25
	}
	for i, x := range v {
		if d.kind == 1 {
			o[i] = ((h*x-h*d.a)/(h*d.b-h*d.a) - 0.5) * math.Sqrt(12)
		} else {
			o[i] = (x - d.a) / d.b
		}
	}
	return o
}

// res is the largest distance of neighbouring numbers in the range of d, in units of its width.
func (d *dist) res() float64 {
	m, w := math.Abs(d.a), d.b
	if d.kind == 1 {
		m, w = math.Max(m, math.Abs(d.b)), d.b-d.a
	} else {
		m = math.Min(m+10*d.b, math.MaxFloat64)
	}
	if math.IsInf(w, 0) {
		return 0x1p-52
	}
	return (m - math.Nextafter(m, 0)) / w
}

func (d *dist) fail(c *core.Ctx, n int, format string, args ...any) {
	c.Violate("%s (%s), %d draws: %s", d.name, d.params, n, fmt.Sprintf(format, args...))
}

// judge compares a sample with the specified distribution; lags are extra correlation lags.
func (d *dist) judge(c *core.Ctx, v []float64, lags []int) {
	n := len(v)
	fn := float64(n)
	z := d.std(v)
	res := d.res() // granularity of the numbers in the range
	// moments: 7.5 standard errors
	m1, m2, m4 := 0., 0., 0.
	for _, x := range z {
		m1 += x
		m2 += x * x
		m4 += x * x * x * x
	}
	m1, m2, m4 = m1/fn, m2/fn, m4/fn
	k4, v4 := 1.8, 144./9-3.24
	if d.kind == 2 {
		k4, v4 = 3, 96
	}
	c.Count("dist_tests", 3)
	if math.Abs(m1) > 7.5/math.Sqrt(fn)+4*res {
		d.fail(c, n, "mean is off by %.4g standard deviations (limit %.4g)", m1, 7.5/math.Sqrt(fn))
	}
	if e := 9*math.Sqrt((k4-1)/fn) + 16*res; math.Abs(m2-1) > e {
		d.fail(c, n, "variance is %.5g times the configured one (limit +-%.4g)", m2, e)
	}
	m3 := 0.
	for _, x := range z {
		m3 += x * x * x / fn
	}
	if e := 16*math.Sqrt(15/fn) + 99*res; math.Abs(m3) > e {
		d.fail(c, n, "third moment is %.5g, want 0 +-%.4g", m3, e)
	}
	if e := 16*math.Sqrt(v4/fn) + 99*res; math.Abs(m4-k4) > e {
		d.fail(c, n, "fourth moment is %.5g, want %.3g +-%.4g", m4, k4, e)
	}
	// distribution function: Dvoretzky-Kiefer-Wolfowitz at 1e-12
	s := append([]float64{}, z...)
	sort.Float64s(s)
	D := 0.
	dup := 0
	for i, x := range s {
		var f float64
		if d.kind == 1 {
			f = x/math.Sqrt(12) + 0.5
		} else {
			f = 0.5 * math.Erfc(-x/math.Sqrt2)
		}
		D = math.Max(D, math.Max(math.Abs(f-float64(i)/fn), math.Abs(f-float64(i+1)/fn)))
		if i > 0 && s[i] == s[i-1] {
			dup++
		}
	}
	lim := math.Sqrt(math.Log(2e12)/(2*fn)) + 2*res
	c.Count("dist_tests", 1)
	c.Max("ks_distance_over_limit", D/lim)
	if D > lim {
		d.fail(c, n, "Kolmogorov-Smirnov distance %.4g exceeds %.4g", D, lim)
	}
	if res > 1e-5 { // few representable numbers: only the distribution function is judged
		c.Count("coarse_ranges", 1)
		return
	}
	if res < 1e-12 && dup > 20+n/1000 {
		d.fail(c, n, "%d repeated values", dup)
	}
	if d.kind == 1 { // extremes: the outermost 30/n of the interval is hit
		e := 30 / fn * math.Sqrt(12)
		if s[0] > -math.Sqrt(3)+e || s[n-1] < math.Sqrt(3)-e {
			d.fail(c, n, "the draws span only [%v, %v] of the standardised interval", s[0], s[n-1])
		}
		c.Count("dist_tests", 1)
	} else { // tails: P(|z|>3) = 0.0027
		for i, e := range []float64{0.0026998 * fn, 6.33425e-5 * fn, 5.73303e-7 * fn} {
			k := 0
			for _, x := range z {
				if math.Abs(x) > float64(3+i) {
					k++
				}
			}
			if f := float64(k); f < e-8*math.Sqrt(e) || f > e+8*math.Sqrt(e)+8 {
				d.fail(c, n, "%d draws beyond %d sigma, want about %.3g", k, 3+i, e)
			}
		}
		c.Count("dist_tests", 1)
	}
	// correlations
	corr := func(what string, n int, f func(i int) float64) {
		t, q := 0., 0.
		for i := 0; i < n; i++ {
			p := f(i)
			t += p
			q += p * p
		}
		c.Count("dist_tests", 1)
		if math.Abs(t) > 9*math.Sqrt(float64(n)) {
			d.fail(c, n, "correlation %s is %.4g", what, t/float64(n))
		}
	}
	for _, l := range append([]int{1, 2, 3, 4, 8, n / 2, n / 3}, lags...) {
		if l > 0 && n-l > 1000 {
			corr(fmt.Sprintf("at lag %d", l), n-l, func(i int) float64 { return z[i] * z[i+l] })
		}
	}
	corr("of mirrored positions", n/2, func(i int) float64 { return z[i] * z[n-1-i] })
	// the squares as well: dependent but uncorrelated streams
	sd := math.Sqrt(k4 - 1)
	for _, l := range []int{1, n / 2} {
		corr(fmt.Sprintf("of squares at lag %d", l), n-l, func(i int) float64 {
			return math.Max(-6, math.Min(6, (z[i]*z[i]-1)/sd)) * math.Max(-6, math.Min(6, (z[i+l]*z[i+l]-1)/sd))
		})
	}
}

// c18Fine judges millions of draws: tails, small distortions, lattices.
func c18Fine(c *core.Ctx) {
	r := c.R
	d := mkDist(c, 1+c.Idx%8, false)
	var v []float64
	for len(v) < 4000000 {
		v = append(v, d.draw(c, c18Shape(r, r.In(300000, 500000)))...)
	}
	d.detail(c, nil, "(millions of draws)")
	d.judge(c, v, []int{64, 100, 128, 256, 1000, 1024, 4096, 65536})
	c.EvalS(fmt.Sprint("fine", d.name, d.params))
}

func c18Dist(c *core.Ctx) {
	r := c.R
	d := mkDist(c, 1+c.Idx%8, r.P(3))
	shape := c18Shape(r, r.In(20000, 60000))
	d.detail(c, shape, "")
	burn(c)
	v := d.draw(c, shape)
	d.judge(c, v, strides(shape))
	if r.P(3) && d.res() < 1e-5 { // the next call is independent of this one
		burn(c)
		w := d.draw(c, shape)
		z, y := d.std(v), d.std(w)
		for _, q := range []struct {
			what string
			f    func(i int) float64
		}{
			{"between two calls", func(i int) float64 { return z[i] * y[i] }},
			{"between two calls, mirrored", func(i int) float64 { return z[i] * y[len(y)-1-i] }},
		} {
			t := 0.
			for i := range z {
				t += q.f(i)
			}
			if math.Abs(t) > 9*math.Sqrt(float64(len(z))) {
				d.fail(c, len(z), "correlation %s is %.4g", q.what, t/float64(len(z)))
			}
			c.Count("dist_tests", 1)
		}
	}
	c.EvalS(fmt.Sprint(d.name, d.params, shape))
	if c.Idx%97 == 0 {
		c.Sample(fmt.Sprintf("%s %s %v", d.name, d.params, shape))
	}
}

// c18Calls pools thousands of small draws: every position has the distribution over the calls, positions are
// uncorrelated, successive calls are uncorrelated; other initializers and operations run in between.
func c18Calls(c *core.Ctx) {
	r := c.R
	d := mkDist(c, 1+c.Idx%8, r.P(5))
	other := mkDist(c, r.Int(9), r.P(5))
	shape := prog.Dims(r, r.In(0, 5), 3, 12)
	n := ref.Prod(shape)
	calls := r.In(5000, 9000)
	mix := r.Int(3)
	d.detail(c, shape, fmt.Sprintf("%d calls, mix %d with %s", calls, mix, other.name))
	pos := make([][]float64, n)
	var all []float64
	for i := 0; i < calls; i++ {
		v := d.draw(c, shape)
		for j, x := range v {
			pos[j] = append(pos[j], x)
		}
		all = append(all, v...)
		if mix > 0 && r.Int(3) < mix {
			other.draw(c, prog.Dims(r, r.In(0, 2), 3, 6))
		}
	}
	for j := range pos {
		d.judge(c, pos[j], nil)
	}
	if n > 1 {
		d.judge(c, all, []int{n, 2 * n})
	}
	z := make([][]float64, n)
	for j := range z {
		z[j] = d.std(pos[j])
	}
	for j := range z {
		if d.res() > 1e-5 {
			break
		}
		for k := 0; k < j; k++ {
			t := 0.
			for i := range z[j] {
				t += z[j][i] * z[k][i]
			}
			c.Count("dist_tests", 1)
			if math.Abs(t) > 9*math.Sqrt(float64(calls)) {
				d.fail(c, calls, "positions %v and %v are correlated: %.4g", ref.Unravel(j, shape), ref.Unravel(k, shape), t/float64(calls))
			}
		}
	}
	c.EvalS(fmt.Sprint(d.name, d.params, shape, calls))
}

// c18Fresh: no call repeats the values of an earlier one, in whatever order initializers are called.
func c18Fresh(c *core.Ctx) {
	r := c.R
	var ds []dist
	for i, n := 0, r.In(1, 4); i < n; i++ {
		ds = append(ds, mkDist(c, 1+r.Int(8), false))
	}
	seen := map[float64]string{}
	log := ""
	c.Detail(func() string { return "calls:" + log })
	rep := 0
	for i, n := 0, r.In(2, 12); i < n; i++ {
		k := r.Int(len(ds))
		shape := prog.Dims(r, r.In(0, 4), 4, 30)
		log += fmt.Sprintf(" %s%v", ds[k].name, shape)
		for _, x := range ds[k].std(ds[k].draw(c, shape)) {
			if w, ok := seen[x]; ok {
				rep++
				if rep > 3 {
					c.Violate("the draws of different calls coincide (%v, first drawn by %s)", x, w)
				}
			}
			seen[x] = ds[k].name
		}
	}
	c.EvalS(log)
}
