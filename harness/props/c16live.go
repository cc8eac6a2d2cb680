package props

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/component/layers"
	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
)

// fcVar shadows one tensor object that parameterizes or feeds layers.
type fcVar struct {
	name    string
	t       tensor.Tensor
	s       []int
	v       []float64
	tracked bool
	spent   bool
	g, ga   []float64 // expected gradient and the sum of the magnitudes of its terms, nil: none
}

func (x *fcVar) add(i int, d float64) {
	x.g[i] += d
	x.ga[i] += math.Abs(d)
}

// fcOut is the pending result of a Forward call.
type fcOut struct {
	y       tensor.Tensor
	w, b, x *fcVar
	tracked bool
}

// c16Live: forwards, replacements, resets and back-propagations of single results or of sums of results in any order
// over layers that share parameters and inputs; the gradients and the tracking of every object are predicted.
func c16Live(c *core.Ctx) {
	r := c.R
	f, o := r.In(1, 4), r.In(1, 4)
	log := ""
	c.Detail(func() string { return fmt.Sprintf("features %d outputs %d:%s", f, o, log) })
	var vars []*fcVar
	mkVar := func(s []int, reg int) *fcVar {
		n := s[0]
		if len(s) == 2 {
			n *= s[1]
		}
		x := &fcVar{name: fmt.Sprintf("v%d", len(vars)), s: s, v: fcVals(r, n, reg), tracked: r.Int(4) > 0}
		if r.P(5) {
			for i := range x.v {
				x.v[i] = 0
			}
		}
		x.t = mk(c, s, x.v, x.tracked)
		vars = append(vars, x)
		return x
	}
	reg := func() int { return []int{0, 1, 2, 4, 5}[r.Int(5)] }
	type lay struct {
		l    *layers.FC
		w, b *fcVar
	}
	var ls []*lay
	for i, n := 0, r.In(1, 2); i < n; i++ {
		q := &lay{w: mkVar([]int{o}, reg()), b: mkVar([]int{o}, reg())}
		if i > 0 && r.Bool() {
			q.w = ls[0].w
		}
		q.l = &layers.FC{Weight: q.w.t, Bias: q.b.t}
		ls = append(ls, q)
	}
	bs := r.In(1, 3)
	var xs []*fcVar
	var outs []*fcOut
	xs = append(xs, mkVar([]int{bs, f}, reg()))
	bp := func(os []*fcOut) {
		var root tensor.Tensor
		tracked, spent := false, false
		gs := make([][]float64, len(os))
		for k, q := range os {
			gs[k] = weights(r, bs*o, r.Int(5))
			z, err := q.y.Mul(mk(c, []int{bs, o}, gs[k], false))
			z = must(c, z, err)("Mul")
			tracked = tracked || q.tracked
			// a result computed from a spent tensor spoils every sum it enters
			spent = spent || q.w.spent && !q.tracked || q.b.spent && !q.tracked || q.x.spent && !q.tracked
			if root == nil {
				root = z
			} else {
				z, err = root.Add(z)
				root = must(c, z, err)("Add")
			}
		}
		if spent && len(os) > 1 {
			return // results of spent and of fresh tensors in one sum are C08's subject
		}
		if err := tensor.BackPropagate(root); err != nil {
			c.Violate("BackPropagate failed: %v", err)
		}
		log += " BP"
		c.Count("live_backprops", 1)
		for k, q := range os {
			if !q.tracked {
				continue
			}
			q.y = nil
			for _, x := range []*fcVar{q.w, q.b, q.x} {
				if !x.tracked {
					continue
				}
				x.spent = true
				if x.g == nil {
					x.g, x.ga = make([]float64, len(x.v)), make([]float64, len(x.v))
				}
			}
			for i := 0; i < bs; i++ {
				for j := 0; j < o; j++ {
					g := gs[k][i*o+j]
					if q.b.tracked {
						q.b.add(j, g)
					}
					for d := 0; d < f; d++ {
						if q.w.tracked {
							q.w.add(j, g*q.x.v[i*f+d])
						}
						if q.x.tracked {
							q.x.add(i*f+d, g*q.w.v[j])
						}
					}
				}
			}
		}
		for _, x := range vars {
			gr := x.t.Gradient()
			if (gr != nil) != (x.g != nil) {
				c.Violate("%s (tracked %v, spent %v) has a gradient: %v, want %v", x.name, x.tracked, x.spent, gr != nil, x.g != nil)
			}
			if gr != nil {
				checkVals(c, x.name+" gradient", gr, x.s, x.g, func(i int) float64 { return 1e-12*x.ga[i] + 1e-300 })
				c.Count("grads_compared", 1)
			}
			checkBits(c, x.name, x.t, x.s, x.v)
		}
	}
	drop := func(x *fcVar) {
		k := 0
		for _, q := range outs {
			if q.w != x && q.b != x && q.x != x {
				outs[k] = q
				k++
			}
		}
		outs = outs[:k]
	}
	for i, n := 0, r.In(4, 16); i < n; i++ {
		k := r.Int(len(ls))
		q := ls[k]
		switch r.Int(10) {
		case 0: // replace a parameter
			j := r.Int(2)
			x := vars[r.Int(len(vars))]
			if len(x.s) != 1 || r.Bool() {
				x = mkVar([]int{o}, reg())
			}
			p := &q.l.Weight
			if j == 1 {
				p = &q.l.Bias
			}
			if ws := q.l.Weights(); r.Bool() && len(ws) == 2 {
				for m := range ws {
					if *ws[m].Value == *p && ws[1-m].Value != ws[m].Value && q.w != q.b {
						p = ws[m].Value
						break
					}
				}
			}
			*p = x.t
			if j == 0 {
				q.w = x
			} else {
				q.b = x
			}
			log += fmt.Sprintf(" L%d.%d=%s", k, j, x.name)
			c.Count("replacements", 1)
		case 1: // reset
			x := vars[r.Int(len(vars))]
			drop(x)
			v := r.Int(4) > 0
			x.t.ResetGradContext(v)
			x.tracked, x.spent, x.g, x.ga = v, false, nil, nil
			log += fmt.Sprintf(" %s.reset(%v)", x.name, v)
		case 2: // a parameter or an input is spent on its own
			x := vars[r.Int(len(vars))]
			if !x.tracked || x.spent {
				continue
			}
			u := r.Range(-2, 2)
			if err := tensor.BackPropagate(x.t.Scale(u)); err != nil {
				c.Violate("BackPropagate failed: %v", err)
			}
			x.spent = true
			if x.g == nil {
				x.g, x.ga = make([]float64, len(x.v)), make([]float64, len(x.v))
			}
			for i := range x.g {
				x.add(i, u)
			}
			log += fmt.Sprintf(" BP(%s*%v)", x.name, u)
		case 3, 4, 5, 6:
			x := xs[r.Int(len(xs))]
			if r.P(4) {
				x = mkVar([]int{bs, f}, reg())
				xs = append(xs, x)
			}
			y, err := q.l.Forward(x.t)
			y = must(c, y, err)("FC.Forward")
			fcCheck(c, "FC.Forward", y, q.w.v, q.b.v, x.v, bs, f)
			s := q.w.spent || q.b.spent || x.spent
			out := &fcOut{y: y, w: q.w, b: q.b, x: x, tracked: !s && (q.w.tracked || q.b.tracked || x.tracked)}
			log += fmt.Sprintf(" L%d(%s,%s;%s)", k, q.w.name, q.b.name, x.name)
			if s {
				c.Count("forwards_of_spent", 1)
			}
			outs = append(outs, out)
		default:
			if len(outs) == 0 {
				continue
			}
			m := r.Int(len(outs))
			os := []*fcOut{outs[m]}
			outs = append(outs[:m:m], outs[m+1:]...)
			if len(outs) > 0 && r.P(3) {
				m = r.Int(len(outs))
				os = append(os, outs[m])
				outs = append(outs[:m:m], outs[m+1:]...)
			}
			bp(os)
		}
	}
	for len(outs) > 0 {
		os := outs[:1]
		outs = outs[1:]
		bp(os)
	}
	c.EvalS(log)
}
