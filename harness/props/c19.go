package props

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

func init() {
	core.Register(&core.Prop{
		ID: "C19",
		Families: []core.Family{
			{Name: "history", Quick: 300000, Thorough: 3000000, Run: c19History},
			{Name: "partition", Quick: 120000, Thorough: 1200000, Run: c19Partition},
			{Name: "rejected", Quick: 80000, Thorough: 600000, Run: c19Rejected},
			{Name: "labels", Quick: 40000, Thorough: 400000, Run: c19Labels},
			{Name: "long", Quick: 320, Thorough: 4000, Run: c19Long},
			{Name: "totals", Quick: 64, Thorough: 640, Run: c19Totals},
			{Name: "many", Quick: 6, Thorough: 90, Run: c19Many},
			hugeFamily(1, c19Huge),
			sizesFamily(1, 8, c19Huge),
		},
		Rule: "Accumulate / Result histories of several interleaved metrics: batches of 1 to thousands of rows, classes, probabilities, nearly equal, huge, subnormal, signed-zero and infinite labels, hit rates from none to all, inputs of nine construction routes, tracked, spent or computed; rejected calls (nil, rank 0, 2, 3, mismatched lengths) anywhere; the same data re-partitioned at random; up to thousands of batches; " +
			"distinct = distinct history shape (batch sizes, hits, rejected calls)",
		Assumptions: []string{"NaN labels and labels closer than 1e-200 are not used"},
		MinEvents:   map[string]uint64{"results": 400000, "rejected": 80000, "repartitions": 50000},
	})
}

// accModel is the shadow of one metric.
type accModel struct {
	m     *metrics.Accuracy
	ok, n int
}

func (a *accModel) check(c *core.Ctx, what string) {
	v, err := a.m.Result()
	if err != nil {
		c.Violate("%s: Result failed: %v", what, err)
	}
	e := 0.
	if a.n > 0 {
		e = float64(a.ok) / float64(a.n)
	}
	if !(v >= 0 && v <= 1) {
		c.Violate("%s: Result is %v, outside [0,1]", what, v)
	}
	if !prog.Close(v, e, 1e-13) {
		c.Violate("%s: Result is %v after %d hits in %d positions, want %v", what, v, a.ok, a.n, e)
	}
	c.Count("results", 1)
}

const labelRegimes = 8

// labels draws predictions and targets.
func labels(r *core.R, n int) (p, t []float64, hits, kind int) {
	kind = r.Int(labelRegimes)
	cls := r.In(1, 6)
	base := r.Range(-5, 5)
	var tiny []float64
	one := func() float64 {
		switch kind {
		case 0, 1:
			return float64(r.Int(cls))
		case 2:
			return float64(r.In(-cls, cls)) / 3
		case 3: // neighbours
			v := base
			for k := r.Int(3); k > 0; k-- {
				v = math.Nextafter(v, 100)
			}
			return v
		case 4:
			return tiny[r.Int(len(tiny))]
		case 5:
			return []float64{1e300, -1e300, math.MaxFloat64, math.Inf(1), math.Inf(-1), 1e16, 1e16 + 2}[r.Int(7)]
		case 6:
			return r.Range(0, 1)
		}
		return float64(r.Int(2)) + 1e-9*float64(r.Int(2))
	}
	bias := r.Int(4)
	tiny = []float64{0, math.Copysign(0, -1), 1e-190, -1e-190, 1e-100}
	if r.P(3) { // one subnormal label among ordinary ones
		tiny = []float64{[]float64{5e-324, -5e-324, 1e-310, 2.2250738585072014e-308}[r.Int(4)], 1e-100, 1, -2}
	}
	p, t = make([]float64, n), make([]float64, n)
	for i := range p {
		p[i], t[i] = one(), one()
		if bias == 0 || bias == 1 && r.Bool() {
			p[i] = t[i]
		}
		if p[i] == t[i] {
			hits++
		}
	}
	return
}

// accTensor builds a label tensor in various states.
func accTensor(c *core.Ctx, v []float64, plain bool) tensor.Tensor {
	r := c.R
	s := []int{len(v)}
	if plain || r.Bool() {
		return mk(c, s, v, r.Bool())
	}
	t := mkVal(c, s, v, r.Bool())
	if r.P(4) {
		finite := true
		for _, x := range v {
			finite = finite && !math.IsInf(x, 0)
		}
		if finite {
			t.ResetGradContext(true)
			if err := tensor.BackPropagate(t.Scale(0.5)); err != nil {
				c.Violate("BackPropagate failed: %v", err)
			}
		}
	}
	return t
}

func (a *accModel) add(c *core.Ctx, p, t []float64, hits int, plain bool) {
	P, T := accTensor(c, p, plain), accTensor(c, t, plain)
	if err := a.m.Accumulate(P, T); err != nil {
		c.Violate("Accumulate of a valid batch of %d failed: %v", len(p), err)
	}
	a.ok += hits
	a.n += len(p)
	c.Count("accepted", 1)
	c.Count("positions", len(p))
}

// reject makes one invalid call.
func (a *accModel) reject(c *core.Ctx) string {
	r := c.R
	n := r.In(1, 5)
	vec := func(n int) tensor.Tensor { return mk(c, []int{n}, make([]float64, n), r.Bool()) }
	of := func(s ...int) tensor.Tensor { return mk(c, s, make([]float64, ref.Prod(s)), r.Bool()) }
	var p, t tensor.Tensor
	kind := r.Int(9)
	switch kind {
	case 0:
		t = vec(n)
	case 1:
		p = vec(n)
	case 2:
	case 3:
		p, t = vec(n), vec(n+r.In(1, 3))
	case 4:
		p, t = vec(n+r.In(1, 3)), vec(n)
	case 5:
		p, t = of(), of()
	case 6:
		p, t = of(n, r.In(1, 3)), vec(n)
	case 7:
		p, t = vec(n), of(n, 1)
	case 8:
		p, t = of(1, n, 2), of(1, n, 2)
	}
	if err := a.m.Accumulate(p, t); err == nil {
		c.Violate("Accumulate accepted an invalid call (kind %d)", kind)
	}
	c.Count("rejected", 1)
	return fmt.Sprint("!", kind)
}

func c19History(c *core.Ctx) {
	r := c.R
	var ms []*accModel
	for i, n := 0, r.In(1, 3); i < n; i++ {
		ms = append(ms, &accModel{m: metrics.NewAccuracy()})
	}
	log := ""
	c.Detail(func() string { return "history:" + log })
	for i, n := 0, r.In(1, 14); i < n; i++ {
		k := r.Int(len(ms))
		a := ms[k]
		log += fmt.Sprintf(" m%d", k)
		if r.P(4) {
			log += a.reject(c)
		} else {
			n := r.In(1, []int{2, 6, 30}[r.Int(3)])
			p, t, hits, kind := labels(r, n)
			a.add(c, p, t, hits, false)
			log += fmt.Sprintf("+%d/%d(%d)", hits, n, kind)
		}
		if r.Int(3) > 0 {
			a.check(c, "in between")
		}
		if r.P(5) {
			for _, q := range ms {
				q.check(c, "other metric")
			}
		}
	}
	for _, q := range ms {
		q.check(c, "at the end")
		q.check(c, "asked again")
	}
	c.EvalS(log)
	if c.Idx%19997 == 0 {
		c.Sample(log)
	}
}

func c19Partition(c *core.Ctx) {
	r := c.R
	n := r.In(1, []int{8, 40, 200}[r.Int(3)])
	p, t, hits, kind := labels(r, n)
	log := fmt.Sprintf("%d/%d kind %d", hits, n, kind)
	c.Detail(func() string {
		return log + " predictions " + prog.Fmt(p, 200) + " targets " + prog.Fmt(t, 200)
	})
	var first float64
	for k, m := 0, r.In(2, 4); k < m; k++ {
		a := &accModel{m: metrics.NewAccuracy()}
		perm := r.Perm(n)
		q := []int{1, 3, n, n + 1}[r.Int(4)]
		log += " |"
		for i := 0; i < n; {
			l := min(n-i, r.In(1, q))
			bp, bt, h := make([]float64, l), make([]float64, l), 0
			for j := range bp {
				x := i + j
				if k > 1 { // order of positions does not matter either
					x = perm[i+j]
				}
				bp[j], bt[j] = p[x], t[x]
				if bp[j] == bt[j] {
					h++
				}
			}
			a.add(c, bp, bt, h, true)
			if r.P(9) {
				log += a.reject(c)
			}
			log += fmt.Sprint(" ", l)
			i += l
		}
		a.check(c, "re-partitioned")
		v, _ := a.m.Result()
		if k == 0 {
			first = v
		} else if !prog.Close(v, first, 1e-13) {
			c.Violate("Result depends on the partition: %v and %v", first, v)
		}
		c.Count("repartitions", 1)
	}
	c.EvalS(log)
}

// c19Rejected surrounds every kind of rejected call with results.
func c19Rejected(c *core.Ctx) {
	r := c.R
	a := &accModel{m: metrics.NewAccuracy()}
	log := ""
	c.Detail(func() string { return "history:" + log })
	a.check(c, "before any call")
	for i, n := 0, r.In(1, 3); i < n; i++ {
		log += a.reject(c)
		a.check(c, "after only rejected calls")
	}
	for i, n := 0, r.In(1, 4); i < n; i++ {
		p, t, h, _ := labels(r, r.In(1, 9))
		a.add(c, p, t, h, false)
		log += fmt.Sprintf(" +%d/%d", h, len(p))
		for j, m := 0, r.In(1, 3); j < m; j++ {
			log += a.reject(c)
			a.check(c, "after a rejected call")
		}
	}
	c.EvalS(log)
}

// c19Labels feeds labels computed by other operations.
func c19Labels(c *core.Ctx) {
	r := c.R
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 3, MaxDim: 4, MaxElems: 40, Cmp: true})
	grow(b, r.In(1, 3), r.In(1, 8), 8)
	x := shapeTo(b, r, 0, r.Int(len(b.P)))
	if x < 0 {
		c.Count("dropped", 1)
		return
	}
	c.Detail(func() string { return prog.Show(b.P) })
	ts := exec(c, b.P)
	_, p := read(c, ts[x], "prediction")
	t := append([]float64{}, p...)
	h := len(p)
	for i := range t {
		if r.P(3) {
			t[i] = p[i] + 1
			if t[i] != p[i] {
				h--
			}
		}
	}
	a := &accModel{m: metrics.NewAccuracy()}
	T := mk(c, []int{len(t)}, t, r.Bool())
	var err error
	if r.Bool() {
		err = a.m.Accumulate(ts[x], T)
	} else {
		err = a.m.Accumulate(T, ts[x])
	}
	if err != nil {
		c.Violate("Accumulate failed: %v", err)
	}
	a.ok, a.n = h, len(t)
	a.check(c, "computed labels")
	if err := a.m.Accumulate(ts[x], ts[x]); err != nil {
		c.Violate("Accumulate failed: %v", err)
	}
	a.ok, a.n = h+len(t), 2*len(t)
	a.check(c, "a tensor with itself")
	checkBits(c, "prediction", ts[x], []int{len(p)}, p)
	c.Eval(structSig(b.P, x))
}

// c19Long: big batches and very many of them.
func c19Long(c *core.Ctx) {
	r := c.R
	a := &accModel{m: metrics.NewAccuracy()}
	n, m := r.In(1, 4), r.In(500, 1500)
	if r.Bool() {
		n, m = r.In(500, 6000), r.In(2, 12)
	}
	c.Detail(func() string { return fmt.Sprintf("%d batches of about %d", m, n) })
	for i := 0; i < m; i++ {
		p, t, h, _ := labels(r, r.In(max(1, n/2), n))
		a.add(c, p, t, h, true)
		if r.P(20) {
			a.reject(c)
		}
		if r.P(10) {
			a.check(c, fmt.Sprintf("after %d batches", i+1))
		}
	}
	a.check(c, "at the end")
	c.Max("positions_in_one_metric", float64(a.n))
	c.EvalS(fmt.Sprint(n, m))
}

// c19Totals: the same few batches accumulated again and again, to millions of positions (counts beyond 16, 20 and 24
// bits), every call checked.
func c19Totals(c *core.Ctx) {
	r := c.R
	a := &accModel{m: metrics.NewAccuracy()}
	n := r.In(300, 3000)
	total := []int{70000, 140000, 1200000}[r.Int(3)]
	if c.Idx%16 == 0 && c.Round == 0 {
		n, total = 400000, 20000000
	}
	type batch struct {
		p, t tensor.Tensor
		hits int
		n    int
	}
	var bs []batch
	for i := 0; i < 4; i++ {
		m := r.In(max(1, n/2), n)
		p, t, h, _ := labels(r, m)
		bs = append(bs, batch{accTensor(c, p, true), accTensor(c, t, true), h, m})
		if i == 0 || r.Bool() { // all hits
			bs = append(bs, batch{bs[len(bs)-1].p, bs[len(bs)-1].p, m, m})
		}
	}
	most := r.Bool()
	c.Detail(func() string {
		return fmt.Sprintf("%d positions in batches of about %d, mostly hits %v", total, n, most)
	})
	for k := 0; a.n < total; k++ {
		b := bs[r.Int(len(bs))]
		if most && r.Int(8) > 0 {
			b = bs[1]
		}
		if err := a.m.Accumulate(b.p, b.t); err != nil {
			c.Violate("Accumulate of a valid batch of %d failed: %v", b.n, err)
		}
		a.ok += b.hits
		a.n += b.n
		c.Count("accepted", 1)
		c.Count("positions", b.n)
		if r.P(50) {
			a.reject(c)
		}
		a.check(c, fmt.Sprintf("after %d calls", k+1))
	}
	c.Max("positions_in_one_metric", float64(a.n))
	c.EvalS(fmt.Sprint("totals", n, total, most))
}
