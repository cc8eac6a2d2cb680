package props

import (
	"fmt"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
)

// gobj shadows one tensor object of the gradient-object histories: all its elements are k.
type gobj struct {
	name    string
	t       tensor.Tensor
	s       []int
	k       float64
	tracked bool
	spent   bool
	dirty   bool  // computed from a spent tensor: what is computed from it is untracked as well
	op      *gobj // operand, nil for a leaf
	u       float64
	g       *gobj // gradient
}

// gradObjects: several unrelated chains of one-operand operations from constant leaves to results of any rank (often
// scalars), where gradient tensors are themselves reset, used as leaves and back-propagated. Every gradient has equal
// elements, so values, presence and tracking of the gradients of all objects are predicted exactly.
func gradObjects(c *core.Ctx) {
	r := c.R
	log := ""
	c.Detail(func() string { return "history:" + log })
	var all []*gobj
	byPtr := map[tensor.Tensor]*gobj{}
	put := func(o *gobj) *gobj {
		o.name = fmt.Sprintf("t%d", len(all))
		all = append(all, o)
		byPtr[o.t] = o
		return o
	}
	scal := func() float64 {
		return []float64{1, 1, 2, -1, 0.5, -3, 0}[r.Int(7)]
	}
	audit := func() {
		for i := 0; i < len(all); i++ {
			o := all[i]
			g := o.t.Gradient()
			if (g != nil) != (o.g != nil) {
				c.Violate("%s has a gradient: %v, want %v", o.name, g != nil, o.g != nil)
			}
			if g != nil && g != o.g.t {
				c.Violate("the gradient object of %s was exchanged", o.name)
			}
			sh, v := read(c, o.t, o.name)
			if !prog.SameShape(sh, o.s) {
				c.Violate("%s has shape %v, want %v", o.name, sh, o.s)
			}
			for _, e := range v {
				if e != o.k {
					for _, x := range all {
						if x.g == o {
							c.Violate("%s, the gradient of %s, holds %v, want %v", o.name, x.name, e, o.k)
						}
					}
					c.Violate("%s holds %v, want %v", o.name, e, o.k)
				}
			}
		}
	}
	// bp back-propagates from o and predicts what follows.
	bp := func(o *gobj) {
		if err := tensor.BackPropagate(o.t); err != nil {
			c.Violate("BackPropagate failed: %v", err)
		}
		c.Count("gradobj_backprops", 1)
		if !o.tracked {
			return
		}
		k := 1.
		for x := o; x != nil && x.tracked; x = x.op {
			x.spent = true
			v := k
			if x.g != nil {
				v += x.g.k
			}
			t := x.t.Gradient()
			if t == nil {
				c.Violate("%s received no gradient", x.name)
			}
			if g, ok := byPtr[t]; ok {
				// the same object as another gradient of this back-propagation (or an unknown one: then its
				// tracking and values are judged by what is predicted here)
				if g.k != v && g == x.g {
					c.Violate("the gradient tensor of %s was not replaced: its elements are %v, want %v", x.name, g.k, v)
				}
				x.g = g
				g.tracked, g.spent, g.dirty, g.op, g.g, g.k = false, false, false, nil, nil, v
			} else {
				x.g = put(&gobj{t: t, s: x.s, k: v})
			}
			k *= x.u
		}
	}
	for i, n := 0, r.In(6, 26); i < n; i++ {
		var o *gobj
		if len(all) > 0 {
			o = all[r.Int(len(all))]
			if r.Bool() {
				o = all[len(all)-1-r.Int(min(3, len(all)))]
			}
		}
		switch w := r.Int(12); {
		case o == nil || w == 0: // a leaf
			s := prog.Dims(r, r.Int(3), 3, 6)
			k := scal()
			tr := r.Int(5) > 0
			t, err := tensor.Full(s, k, &tensor.Config{Device: tensor.CPU, GradTrack: tr})
			t = must(c, t, err)("Full")
			x := put(&gobj{t: t, s: s, k: k, tracked: tr})
			log += fmt.Sprintf(" %s=Full(%v,%v,%v)", x.name, s, k, tr)
		case w <= 5: // a result
			if o.g == nil && isGrad(all, o) && !o.tracked {
				// gradients are untracked; whether a result of theirs is spent is left open
				continue
			}
			x := &gobj{op: o, u: 1, s: o.s, k: o.k}
			var err error
			var t tensor.Tensor
			switch q := r.Int(5); {
			case q == 0:
				x.u = scal()
				x.k = o.k * x.u
				t = o.t.Scale(x.u)
			case q == 1 && len(o.s) > 0:
				d := r.Int(len(o.s))
				x.s = append(append([]int{}, o.s[:d]...), o.s[d+1:]...)
				x.k = o.k * float64(o.s[d])
				t, err = o.t.SumAlong(d)
			case q == 2:
				d := r.Int(len(o.s) + 1)
				x.s = append(append(append([]int{}, o.s[:d]...), 1), o.s[d:]...)
				t, err = o.t.UnSqueeze(d)
			case q == 3 && len(o.s) > 1:
				x.s = append([]int{}, o.s...)
				l := len(x.s)
				x.s[l-1], x.s[l-2] = x.s[l-2], x.s[l-1]
				t, err = o.t.Transpose()
			case q == 4 && len(o.s) > 0:
				t, err = o.t.Slice(nil)
			default:
				t, err = o.t.Reshape(append([]int{}, o.s...))
			}
			x.t = must(c, t, err)("operation")
			x.dirty = o.spent || o.dirty
			x.tracked = o.tracked && !x.dirty
			if x.k != x.k || len(x.s) > 5 {
				continue
			}
			put(x)
			log += fmt.Sprintf(" %s=f(%s)*%v%v", x.name, o.name, x.u, x.s)
		case w <= 8: // back-propagation
			if pending(o) {
				log += fmt.Sprintf(" BP(%s)", o.name)
				bp(o)
			}
		default: // reset, mostly of gradients
			if len(all) > 1 && r.P(2) {
				for _, x := range all {
					if isGrad(all, x) && r.P(2) {
						o = x
					}
				}
			}
			if used(all, o) {
				continue
			}
			v := r.Int(3) > 0
			o.t.ResetGradContext(v)
			o.tracked, o.spent, o.dirty, o.op, o.g = v, false, false, nil, nil
			log += fmt.Sprintf(" %s.reset(%v)", o.name, v)
			c.Count("gradobj_resets", 1)
		}
		audit()
	}
	// the tracking of every object, by what a result of it does
	for _, o := range append([]*gobj{}, all...) {
		if isGrad(all, o) && o.spent || !pending(o) && !o.spent {
			continue
		}
		u := []float64{1, 2, -0.5}[r.Int(3)]
		x := put(&gobj{t: o.t.Scale(u), s: o.s, op: o, u: u, k: o.k * u})
		x.dirty = o.spent || o.dirty
		x.tracked = o.tracked && !x.dirty
		log += fmt.Sprintf(" probe(%s)", o.name)
		bp(x)
		audit()
		c.Count("gradobj_probes", 1)
	}
	c.EvalS(log)
}

// pending: no tensor of o's graph has been reset or spent since.
func pending(o *gobj) bool {
	for x := o; x != nil; x = x.op {
		if x.spent && x.op != nil {
			return false
		}
	}
	return true
}

func isGrad(all []*gobj, o *gobj) bool {
	for _, x := range all {
		if x.g == o {
			return true
		}
	}
	return false
}

// used: o is an operand of a tracked result that has not been back-propagated, or shared by several tensors as gradient.
func used(all []*gobj, o *gobj) bool {
	for _, x := range all {
		if x.op == o && x.tracked {
			return true
		}
	}
	return false
}
