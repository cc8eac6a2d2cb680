package props

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/initializers"
	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/optimizers"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
)

func init() {
	core.Register(&core.Prop{
		ID: "C16",
		Families: []core.Family{
			{Name: "small", Quick: 5 * 5 * 5 * 40, Thorough: 5 * 5 * 5 * 800, Run: c16Small},
			{Name: "forward", Quick: 150000, Thorough: 3000000, Run: c16Forward},
			{Name: "grad", Quick: 120000, Thorough: 2000000, Run: c16Grad},
			{Name: "graph", Quick: 40000, Thorough: 800000, Run: c16Graph},
			{Name: "history", Quick: 60000, Thorough: 1000000, Run: c16History},
			{Name: "live", Quick: 40000, Thorough: 800000, Run: c16Live},
			{Name: "create", Quick: 30000, Thorough: 500000, Run: c16Create},
			{Name: "large", Quick: 1000, Thorough: 20000, Run: c16Large},
			hugeFamily(4, c16Huge),
			sizesFamily(4, 2, c16Huge),
			{Name: "many", Quick: 6, Thorough: 90, Run: c16Many},
		},
		Rule: "fully connected layers: batch, feature and output counts 1..5 enumerated, to hundreds drawn; pairwise different parameters and inputs (ordinary, integers, zeros, cancelling, magnitudes 1e-100..1e100), operands of nine construction routes; back-propagation with every tracked subset of W, B, x and several upstream weightings; layers inside graphs and stacks; histories of forward calls, parameter replacements through old and fresh Weights() pointers, optimizer updates, resets, rejected calls and edits of returned slices over several layers; default and custom initializers; " +
			"distinct = distinct (batch, features, outputs, regimes, tracked subset, weighting), program structure or history",
		Assumptions: []string{"values compared within rounding error bounds of the sums of magnitudes", "custom initializers return tensors of the requested shape"},
		MinEvents:   map[string]uint64{"forwards": 200000, "grads_compared": 300000, "replacements": 50000, "row_independence": 20000},
	})
}

const fcRegimes = 6

func fcVals(r *core.R, n, regime int) []float64 {
	v := make([]float64, n)
	for i := range v {
		switch regime {
		case 0:
			v[i] = r.Range(-2, 2)
		case 1:
			v[i] = float64(r.In(-9, 9))
		case 2:
			v[i] = 0
			if r.P(3) {
				v[i] = r.Range(-1, 1)
			}
		case 3:
			v[i] = math.Pow(10, r.Range(-100, 100)) * []float64{-1, 1}[r.Int(2)]
		case 4: // almost cancelling
			v[i] = 1e6 + r.F()
			if i%2 == 1 {
				v[i] = -v[i]
			}
		case 5:
			v[i] = float64(i + 1)
		}
	}
	return v
}

// fcExpect evaluates the formula.
func fcExpect(w, b, x []float64, bs, f int) (y, tol []float64) {
	o := len(w)
	y, tol = make([]float64, bs*o), make([]float64, bs*o)
	for i := 0; i < bs; i++ {
		s, a := 0., 0.
		for _, v := range x[i*f : (i+1)*f] {
			s += v
			a += math.Abs(v)
		}
		for k := range w {
			y[i*o+k] = w[k]*s + b[k]
			tol[i*o+k] = float64(4*f+16)*2.3e-16*(math.Abs(w[k])*a+math.Abs(b[k])) + 1e-300
		}
	}
	return
}

func fcCheck(c *core.Ctx, what string, y tensor.Tensor, w, b, x []float64, bs, f int) {
	e, tol := fcExpect(w, b, x, bs, f)
	checkVals(c, what, y, []int{bs, len(w)}, e, func(i int) float64 { return tol[i] })
	c.Count("forwards", 1)
}

func fcDetail(c *core.Ctx, w, b, x []float64, bs, f int) {
	c.Detail(func() string {
		return fmt.Sprintf("FC batch=%d features=%d outputs=%d W=%s B=%s x=%s", bs, f, len(w), prog.Fmt(w, 60), prog.Fmt(b, 60), prog.Fmt(x, 120))
	})
}

func c16One(c *core.Ctx, bs, f, o int, via bool) {
	r := c.R
	kw, kb, kx := r.Int(fcRegimes), r.Int(fcRegimes), r.Int(fcRegimes)
	w, b, x := fcVals(r, o, kw), fcVals(r, o, kb), fcVals(r, bs*f, kx)
	fcDetail(c, w, b, x, bs, f)
	build := func(s []int, v []float64) tensor.Tensor {
		if via {
			return mkVal(c, s, v, r.Bool())
		}
		return mk(c, s, v, r.Bool())
	}
	wt, bt, xt := build([]int{o}, w), build([]int{o}, b), build([]int{bs, f}, x)
	l := &layers.FC{Weight: wt, Bias: bt}
	y, err := l.Forward(xt)
	y = must(c, y, err)("FC.Forward")
	fcCheck(c, "FC.Forward", y, w, b, x, bs, f)
	if r.P(3) { // other rows must not matter
		x2 := fcVals(r, bs*f, r.Int(fcRegimes))
		row := r.Int(bs)
		copy(x2[row*f:(row+1)*f], x[row*f:(row+1)*f])
		y2, err := l.Forward(mk(c, []int{bs, f}, x2, r.Bool()))
		y2 = must(c, y2, err)("FC.Forward")
		_, v := read(c, y, "y")
		_, v2 := read(c, y2, "y")
		for k := 0; k < o; k++ {
			if !prog.SameBits(v[row*o+k], v2[row*o+k]) {
				c.Violate("output row %d changed from %v to %v when only other input rows changed", row, v[row*o+k], v2[row*o+k])
			}
		}
		// and neither must the batch size
		y3, err := l.Forward(mk(c, []int{1, f}, x[row*f:(row+1)*f], r.Bool()))
		y3 = must(c, y3, err)("FC.Forward")
		fcCheck(c, "FC.Forward of a single row", y3, w, b, x[row*f:(row+1)*f], 1, f)
		c.Count("row_independence", 1)
	}
	checkBits(c, "input after Forward", xt, []int{bs, f}, x)
	checkBits(c, "weight after Forward", wt, []int{o}, w)
	checkBits(c, "bias after Forward", bt, []int{o}, b)
	c.EvalS(fmt.Sprint(bs, f, o, kw, kb, kx))
}

func c16Small(c *core.Ctx) {
	i := c.Idx
	c16One(c, i%5+1, i/5%5+1, i/25%5+1, c.R.Bool())
}

func c16Forward(c *core.Ctx) {
	r := c.R
	m := []int{4, 9, 17}[r.Int(3)]
	c16One(c, r.In(1, m), r.In(1, m), r.In(1, m), r.P(3))
}

func c16Large(c *core.Ctx) {
	r := c.R
	d := []int{r.In(1, 6), r.In(1, 6), r.In(40, 300)}
	if r.Bool() {
		d = []int{r.In(10, 40), r.In(10, 40), r.In(10, 40)}
	}
	p := r.Perm(3)
	c16One(c, d[p[0]], d[p[1]], d[p[2]], false)
	c.Count("large", 1)
}

func c16Grad(c *core.Ctx) {
	r := c.R
	m := []int{3, 5, 12}[r.Int(3)]
	c16GradOne(c, r.In(1, m), r.In(1, m), r.In(1, m))
}

func c16GradOne(c *core.Ctx, bs, f, o int) {
	r := c.R
	reg := func() int { return []int{0, 1, 2, 4, 5}[r.Int(5)] }
	kw, kb, kx := reg(), reg(), reg()
	s := prog.Single{Shapes: [][]int{{o}, {o}, {bs, f}}, In: prog.Ins{Op: "FC", A: []int{0, 1, 2}}}
	vals := [][]float64{fcVals(r, o, kw), fcVals(r, o, kb), fcVals(r, bs*f, kx)}
	vjpCheck(c, s, vals, trackedSubset(r, 3), r.In(-1, 4), fmt.Sprint(kw, kb, kx))
	c.Count("grads_compared", 1)
}

// c16Graph puts layers inside random graphs: inputs and parameters may be intermediates and are shared.
func c16Graph(c *core.Ctx) {
	r := c.R
	b := prog.NewBuilder(r, prog.GenConf{MaxRank: 3, MaxDim: 4, MaxElems: 40})
	b.Tape.Floor = 1e-120
	grow(b, r.In(1, 2), r.In(0, 5), 0)
	x := shapeTo(b, r, 2, r.Int(len(b.P)))
	if x < 0 {
		c.Count("dropped", 1)
		return
	}
	var ws []int
	n := 0
	for i, m := 0, r.In(1, 4); i < m; i++ {
		var w, bb int
		if len(ws) >= 2 && r.P(3) { // shared parameters
			w, bb = ws[len(ws)-2], ws[len(ws)-1]
		} else {
			o := r.In(1, 5)
			w, bb = b.Leaf([]int{o}, r.Int(4) > 0), b.Leaf([]int{o}, r.Int(4) > 0)
			if r.P(4) { // computed parameters
				w = b.Push(prog.Ins{Op: "Scale", A: []int{w}, F: r.Range(-2, 2)})
			}
			if r.P(5) {
				bb = w
			}
			ws = append(ws, w, bb)
		}
		y, ok := b.Try(prog.Ins{Op: "FC", A: []int{w, bb, x}})
		if !ok {
			continue
		}
		n++
		if r.Bool() {
			if z, ok := actPush(b, y); ok {
				y = z
			}
		}
		if r.P(3) && prog.SameShape(b.T[x].Shape, b.T[y].Shape) { // residual connection
			if z, ok := b.Try(prog.Ins{Op: "Add", A: []int{x, y}}); ok {
				y = z
			}
		}
		x = y
	}
	root := x
	if n == 0 || !trackedOf(b.P)[root] {
		c.Count("dropped", 1)
		return
	}
	if r.Bool() {
		w := b.LeafV(b.T[x].Shape, weights(r, len(b.T[x].N), r.Int(5)), false)
		root = b.Push(prog.Ins{Op: "Mul", A: []int{x, w}})
	}
	bpCheck(c, b.P, b.Tape, b.T, root)
	c.Count("layers_in_graphs", n)
	c.Eval(structSig(b.P, root))
}

// fcState is a real layer with its shadow parameters.
type fcState struct {
	l    *layers.FC
	w, b []float64
	f, o int
	ptrs [][]layers.Weight
}

func fcPtr(c *core.Ctx, s *fcState, i int) *tensor.Tensor {
	ws := s.l.Weights()
	if len(s.ptrs) > 0 && c.R.Bool() {
		ws = s.ptrs[c.R.Int(len(s.ptrs))]
	} else if c.R.P(3) {
		s.ptrs = append(s.ptrs, ws)
	}
	if len(ws) != 2 {
		c.Violate("Weights() lists %d parameters, want 2", len(ws))
	}
	for k := range ws {
		if ws[k].Value == nil || *ws[k].Value == nil {
			c.Violate("Weights() has a nil parameter")
		}
		if !ws[k].Trainable {
			c.Violate("Weights()[%d] is not trainable", k)
		}
	}
	return ws[i].Value
}

// newFCState builds a layer, with default or custom initializers.
func newFCState(c *core.Ctx, f, o int) *fcState {
	r := c.R
	conf := &layers.FCConfig{Inputs: f, Outputs: o}
	if k := r.Int(4); k > 0 {
		conf.Initializers = map[string]layers.Initializer{}
		cust := func(key string) {
			switch r.Int(4) {
			case 0:
				conf.Initializers[key] = initializers.NewFull(&initializers.FullConfig{Value: r.Range(-2, 2)})
			case 1:
				u, err := initializers.NewUniform(&initializers.UniformConfig{Lower: -1, Upper: 1})
				if err != nil {
					c.Violate("NewUniform failed: %v", err)
				}
				conf.Initializers[key] = u
			default:
				v := fcVals(r, o, r.Int(3))
				conf.Initializers[key] = initFunc(func(shape []int) (tensor.Tensor, error) {
					if !prog.SameShape(shape, []int{o}) {
						c.Violate("the %s initializer of a layer with %d outputs is asked for shape %v", key, o, shape)
					}
					return prog.Make(shape, v, true)
				})
			}
		}
		if k != 2 {
			cust("Weight")
		}
		if k != 3 {
			cust("Bias")
		}
	}
	l, err := layers.NewFC(conf)
	if err != nil || l == nil {
		c.Violate("NewFC failed: %v", err)
	}
	s := &fcState{l: l, f: f, o: o}
	sh, v := read(c, l.Weight, "Weight")
	sh2, v2 := read(c, l.Bias, "Bias")
	if !prog.SameShape(sh, []int{o}) || !prog.SameShape(sh2, []int{o}) {
		c.Violate("a layer with %d outputs has parameters of shapes %v and %v", o, sh, sh2)
	}
	s.w, s.b = v, v2
	return s
}

// c16Create checks what NewFC creates.
func c16Create(c *core.Ctx) {
	r := c.R
	f, o := r.In(1, 40), r.In(1, 20)
	c.Detail(func() string { return fmt.Sprintf("NewFC with %d inputs and %d outputs", f, o) })
	conf := &layers.FCConfig{Inputs: f, Outputs: o}
	given := map[string][]float64{}
	calls := map[string]int{}
	for _, key := range []string{"Weight", "Bias"} {
		if r.Bool() {
			continue
		}
		key := key
		given[key] = fcVals(r, o, r.Int(fcRegimes))
		if conf.Initializers == nil {
			conf.Initializers = map[string]layers.Initializer{}
		}
		conf.Initializers[key] = initFunc(func(shape []int) (tensor.Tensor, error) {
			calls[key]++
			if !prog.SameShape(shape, []int{o}) {
				c.Violate("the %s initializer is asked for shape %v, want [%d]", key, shape, o)
			}
			return prog.Make([]int{o}, given[key], true)
		})
	}
	l, err := layers.NewFC(conf)
	if err != nil || l == nil {
		c.Violate("NewFC failed: %v", err)
	}
	for key := range given {
		if calls[key] == 0 {
			c.Violate("the %s initializer was not called", key)
		}
	}
	par := map[string]tensor.Tensor{"Weight": l.Weight, "Bias": l.Bias}
	for key, t := range par {
		s, v := read(c, t, key)
		if !prog.SameShape(s, []int{o}) {
			c.Violate("%s has shape %v, want [%d]", key, s, o)
		}
		if g := given[key]; g != nil {
			checkBits(c, key+" from its custom initializer", t, []int{o}, g)
			continue
		}
		for i := range v {
			if math.IsNaN(v[i]) || math.IsInf(v[i], 0) {
				c.Violate("default %s[%d] is %v", key, i, v[i])
			}
		}
	}
	// default parameters are trainable leaves
	x := fcVals(r, 2*f, 0)
	y, err := l.Forward(mk(c, []int{2, f}, x, false))
	y = must(c, y, err)("FC.Forward")
	_, w := read(c, l.Weight, "Weight")
	_, b := read(c, l.Bias, "Bias")
	fcCheck(c, "FC.Forward", y, w, b, x, 2, f)
	if err := tensor.BackPropagate(y); err != nil {
		c.Violate("BackPropagate failed: %v", err)
	}
	for key, t := range par {
		if t.Gradient() == nil {
			c.Violate("%s is not tracked after NewFC", key)
		}
	}
	c.Count("created", 1)
	c.EvalS(fmt.Sprint(f, o, len(given), given["Weight"] != nil))
}

// c16History drives several layers through forwards, parameter replacements, updates and rejected calls.
func c16History(c *core.Ctx) {
	r := c.R
	var ls []*fcState
	for i, n := 0, r.In(1, 3); i < n; i++ {
		ls = append(ls, newFCState(c, r.In(1, 5), r.In(1, 5)))
	}
	log := ""
	c.Detail(func() string { return "history:" + log })
	for i, n := 0, r.In(3, 18); i < n; i++ {
		k := r.Int(len(ls))
		s := ls[k]
		switch r.Int(8) {
		case 0, 1: // replace one parameter
			j := r.Int(2)
			p := fcPtr(c, s, j)
			v := fcVals(r, s.o, []int{0, 1, 2, 4, 5}[r.Int(5)])
			*p = mkVia(c, []int{s.o}, v, r.Bool())
			if j == 0 {
				s.w = v
			} else {
				s.b = v
			}
			log += fmt.Sprintf(" L%d.par%d=", k, j)
			c.Count("replacements", 1)
		case 2: // forward, back-propagation, update, reset
			bs := r.In(1, 4)
			x := fcVals(r, bs*s.f, []int{0, 1, 2, 5}[r.Int(4)])
			xt := r.Bool()
			X := mk(c, []int{bs, s.f}, x, xt)
			pw, pb := fcPtr(c, s, 0), fcPtr(c, s, 1)
			(*pw).ResetGradContext(true)
			(*pb).ResetGradContext(true)
			y, err := s.l.Forward(X)
			y = must(c, y, err)("FC.Forward")
			fcCheck(c, "FC.Forward", y, s.w, s.b, x, bs, s.f)
			g := weights(r, bs*s.o, r.Int(5))
			z, err := y.Mul(mk(c, []int{bs, s.o}, g, false))
			z = must(c, z, err)("Mul")
			if err := tensor.BackPropagate(z); err != nil {
				c.Violate("BackPropagate failed: %v", err)
			}
			gw, gb, gx := make([]float64, s.o), make([]float64, s.o), make([]float64, bs*s.f)
			aw, ab, ax := make([]float64, s.o), make([]float64, s.o), make([]float64, bs*s.f)
			for i := 0; i < bs; i++ {
				for o := 0; o < s.o; o++ {
					q := g[i*s.o+o]
					gb[o] += q
					ab[o] += math.Abs(q)
					for d := 0; d < s.f; d++ {
						gw[o] += q * x[i*s.f+d]
						aw[o] += math.Abs(q * x[i*s.f+d])
						gx[i*s.f+d] += q * s.w[o]
						ax[i*s.f+d] += math.Abs(q * s.w[o])
					}
				}
			}
			cmp := func(what string, t tensor.Tensor, sh []int, e, a []float64) {
				if t.Gradient() == nil {
					c.Violate("%s received no gradient", what)
				}
				checkVals(c, what+" gradient", t.Gradient(), sh, e, func(i int) float64 { return 1e-12*a[i] + 1e-300 })
				c.Count("grads_compared", 1)
			}
			cmp("W", s.l.Weight, []int{s.o}, gw, aw)
			cmp("B", s.l.Bias, []int{s.o}, gb, ab)
			if xt {
				cmp("x", X, []int{bs, s.f}, gx, ax)
			} else if X.Gradient() != nil {
				c.Violate("the untracked input received a gradient")
			}
			lr := []float64{0.01, 0.1, -0.5, 0}[r.Int(4)]
			opt := optimizers.NewSGD(&optimizers.SGDConfig{LearningRate: lr})
			nw, nb := make([]float64, s.o), make([]float64, s.o)
			for j, ws := range s.l.Weights() {
				if err := opt.Update(ws.Value); err != nil {
					c.Violate("Update failed: %v", err)
				}
				(*ws.Value).ResetGradContext(true)
				old, gr, a, dst := s.w, gw, aw, nw
				if j == 1 {
					old, gr, a, dst = s.b, gb, ab, nb
				}
				_, v := read(c, *ws.Value, "updated parameter")
				if len(v) != s.o {
					c.Violate("updated parameter has %d elements, want %d", len(v), s.o)
				}
				for o := range v {
					e := old[o] - lr*gr[o]
					if !prog.Close(v[o], e, 1e-11*(math.Abs(old[o])+math.Abs(lr)*a[o])+1e-300) {
						c.Violate("updated parameter %d[%d] is %v, want %v", j, o, v[o], e)
					}
					dst[o] = v[o]
				}
			}
			s.w, s.b = nw, nb
			log += fmt.Sprintf(" L%d.step", k)
			c.Count("replacements", 2)
		case 3: // rejected calls
			var err error
			switch r.Int(4) {
			case 0:
				_, err = s.l.Forward()
			case 1:
				_, err = s.l.Forward(nil)
			case 2:
				_, err = s.l.Forward(mk(c, []int{s.f}, fcVals(r, s.f, 0), r.Bool()))
			case 3:
				_, err = s.l.Forward(mk(c, []int{1, s.f}, fcVals(r, s.f, 0), r.Bool()), mk(c, []int{1, s.f}, fcVals(r, s.f, 0), false))
			}
			if err == nil {
				c.Violate("an invalid Forward call was accepted")
			}
			log += fmt.Sprintf(" L%d.bad", k)
		case 4: // edit the returned slice (not through its pointers)
			ws := s.l.Weights()
			var other tensor.Tensor = mk(c, []int{s.o}, fcVals(r, s.o, 0), true)
			for j := range ws {
				ws[j].Value = &other
				ws[j].Trainable = false
			}
			log += fmt.Sprintf(" L%d.slice", k)
		default:
			bs := r.In(1, 5)
			x := fcVals(r, bs*s.f, r.Int(fcRegimes))
			(*fcPtr(c, s, 0)).ResetGradContext(r.Bool())
			(*fcPtr(c, s, 1)).ResetGradContext(r.Bool())
			X := mkVia(c, []int{bs, s.f}, x, r.Bool())
			if r.P(4) {
				in := layers.NewInput()
				in.SeedFunc = func() tensor.Tensor { return X }
				t, err := in.Forward()
				X = must(c, t, err)("Input.Forward")
			}
			y, err := s.l.Forward(X)
			y = must(c, y, err)("FC.Forward")
			fcCheck(c, fmt.Sprintf("FC.Forward of layer %d", k), y, s.w, s.b, x, bs, s.f)
			log += fmt.Sprintf(" L%d.fwd%d", k, bs)
		}
	}
	for k, s := range ls {
		checkBits(c, fmt.Sprintf("weight of layer %d at the end", k), s.l.Weight, []int{s.o}, s.w)
		checkBits(c, fmt.Sprintf("bias of layer %d at the end", k), s.l.Bias, []int{s.o}, s.b)
		checkBits(c, fmt.Sprintf("weight of layer %d through Weights()", k), *fcPtr(c, s, 0), []int{s.o}, s.w)
		checkBits(c, fmt.Sprintf("bias of layer %d through Weights()", k), *fcPtr(c, s, 1), []int{s.o}, s.b)
	}
	c.EvalS(log)
}
