package props

import (
	"fmt"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"

	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/component/metrics"
	"github.com/sahandsafizadeh/qeep/tensor"
)

// The "many" families: one component object and tens of thousands of small checked calls. Everything an object counts,
// caches or collects between calls (counters of 8 or 16 bits, caches of any capacity, eviction) goes through its limits.

func manyCalls(c *core.Ctx) int { return 66000 + c.R.Int(6000) }

func c12Many(c *core.Ctx) {
	r := c.R
	k := c.Idx % 3
	ls := newLoss(k)
	for i, n := 0, manyCalls(c); i < n; i++ {
		shape := lossShape(r, k, 2)
		p, t := lossPreds(r, k, ref.Prod(shape), r.Int(predRegimes)), lossTargets(r, k, shape, r.Int(targetRegimes))
		nearTargets(r, k, p, t)
		c12Check(c, ls, k, shape, p, t, false)
	}
	c.EvalS(fmt.Sprint("many", k))
}

func c13Many(c *core.Ctx) {
	r := c.R
	k := c.Idx % 3
	ls := newLoss(k)
	for i, n := 0, manyCalls(c); i < n; i++ {
		shape := lossShape(r, k, 2)
		m := ref.Prod(shape)
		c13Run(c, ls, k, shape, c13Preds(r, m, r.Int(predRegimes)), c13Targets(r, k, shape, r.Int(targetRegimes)))
	}
	c.EvalS(fmt.Sprint("many", k))
}

func c14Many(c *core.Ctx) {
	r := c.R
	op := actOps[c.Idx%5]
	in := actIns(r, op, r.Int(2))
	f, err := prog.Activation(in)
	if err != nil {
		c.Violate("constructing %s failed: %v", in, err)
	}
	lo := 0
	if op == "Softmax" {
		lo = in.I + 1
	}
	for i, n := 0, manyCalls(c); i < n; i++ {
		shape := prog.Dims(r, r.In(lo, 3), 3, 6)
		x := actVals(r, ref.Prod(shape), r.Int(actRegimes), actLim(op))
		c14Detail(c, in, shape, x)
		y, err := f.Forward(mk(c, shape, x, r.Bool()))
		y = must(c, y, err)(op)
		c14Check(c, in, y, shape, x)
	}
	c.EvalS(fmt.Sprint("many", in))
}

func c15Many(c *core.Ctx) {
	r := c.R
	prog.ShareObjects(true)
	op := actOps[c.Idx%5]
	in := actIns(r, op, r.Int(2))
	lo := 0
	if op == "Softmax" {
		lo = in.I + 1
	}
	for i, n := 0, manyCalls(c); i < n; i++ {
		shape := prog.Dims(r, r.In(lo, 3), 3, 6)
		x, k := c15Vals(r, op, ref.Prod(shape))
		c15One(c, in, shape, x, r.In(-1, upKinds-1), fmt.Sprint("many", k))
	}
}

func c16Many(c *core.Ctx) {
	r := c.R
	o := r.In(1, 3)
	w, b := fcVals(r, o, 0), fcVals(r, o, 0)
	l := &layers.FC{Weight: mk(c, []int{o}, w, true), Bias: mk(c, []int{o}, b, true)}
	var ws []layers.Weight
	for i, n := 0, manyCalls(c); i < n; i++ {
		bs, f := r.In(1, 3), r.In(1, 3)
		x := fcVals(r, bs*f, r.Int(fcRegimes))
		fcDetail(c, w, b, x, bs, f)
		y, err := l.Forward(mk(c, []int{bs, f}, x, r.Bool()))
		y = must(c, y, err)("FC.Forward")
		fcCheck(c, "FC.Forward", y, w, b, x, bs, f)
		if len(ws) == 0 || r.P(3) {
			ws = l.Weights()
			if len(ws) != 2 {
				c.Violate("Weights() has %d members", len(ws))
			}
		}
		if r.P(4) {
			*ws[0].Value = nil
			w = fcVals(r, o, r.Int(fcRegimes))
			*ws[0].Value = mk(c, []int{o}, w, r.Bool())
		}
		if r.P(4) {
			b = fcVals(r, o, r.Int(fcRegimes))
			*ws[1].Value = mk(c, []int{o}, b, r.Bool())
		}
	}
	c.EvalS(fmt.Sprint("many", o))
}

func c17Many(c *core.Ctx) {
	r := c.R
	opt, lr := sgdConf(r)
	for i, n := 0, manyCalls(c); i < n; i++ {
		shape := prog.Dims(r, r.In(0, 2), 3, 4)
		m := ref.Prod(shape)
		p := c17Leaf(c, shape, c17Vals(r, m, 0), c17Vals(r, m, 0))
		c17Update(c, opt, lr, &p)
	}
	c.EvalS(fmt.Sprint("many", lr))
}

func c18Many(c *core.Ctx) {
	r := c.R
	d := mkDist(c, c.Idx%9, false)
	n := manyCalls(c)
	d.detail(c, nil, fmt.Sprintf("%d calls of one object", n))
	var all []float64
	for i := 0; i < n; i++ {
		all = append(all, d.draw(c, []int{r.In(1, 2)})...)
	}
	if c.Idx%9 > 0 {
		d.judge(c, all, []int{1, 2, 3, 256, 1024, 65536})
	}
	c.EvalS(fmt.Sprint("many", d.name, d.params))
}

func c19Many(c *core.Ctx) {
	r := c.R
	a := &accModel{m: metrics.NewAccuracy()}
	var bs [][2]tensor.Tensor
	var hits, ns []int
	for i := 0; i < 40; i++ {
		n := r.In(1, 3)
		p, t, h, _ := labels(r, n)
		bs = append(bs, [2]tensor.Tensor{accTensor(c, p, true), accTensor(c, t, true)})
		hits, ns = append(hits, h), append(ns, n)
	}
	for i, n := 0, manyCalls(c); i < n; i++ {
		k := r.Int(len(bs))
		if err := a.m.Accumulate(bs[k][0], bs[k][1]); err != nil {
			c.Violate("Accumulate failed: %v", err)
		}
		a.ok += hits[k]
		a.n += ns[k]
		a.check(c, fmt.Sprintf("after %d calls", i+1))
	}
	c.EvalS(fmt.Sprint("many", a.n))
}
