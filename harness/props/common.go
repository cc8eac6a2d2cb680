// Package props registers the monitors, one file per property.
package props

import (
	"fmt"
	"math"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

// must aborts with a violation when a call that has to succeed fails.
func must(c *core.Ctx, t tensor.Tensor, err error) func(string) tensor.Tensor {
	return func(what string) tensor.Tensor {
		if err != nil {
			c.Violate("%s failed: %v", what, err)
		}
		if t == nil {
			c.Violate("%s returned neither result nor error", what)
		}
		return t
	}
}

// read returns shape and values or aborts.
func read(c *core.Ctx, t tensor.Tensor, what string) ([]int, []float64) {
	s, v, err := prog.Read(t)
	if err != nil {
		c.Violate("%s: cannot read tensor: %v", what, err)
	}
	return s, v
}

// mk builds a real tensor or aborts.
func mk(c *core.Ctx, shape []int, v []float64, tracked bool) tensor.Tensor {
	t, err := prog.Make(shape, v, tracked)
	if err != nil {
		c.Violate("constructing a tensor of shape %v failed: %v", shape, err)
	}
	return t
}

// checkVals compares a real tensor with expected shape and values; tol(i) is absolute.
func checkVals(c *core.Ctx, what string, t tensor.Tensor, shape []int, exp []float64, tol func(i int) float64) {
	s, v := read(c, t, what)
	if !prog.SameShape(s, shape) {
		c.Violate("%s: shape %v, want %v", what, s, shape)
	}
	for i := range v {
		if !prog.Close(v[i], exp[i], tol(i)) {
			c.Violate("%s: element %v is %v, want %v (tolerance %.3g)", what, ref.Unravel(i, s), v[i], exp[i], tol(i))
		}
	}
}

func checkBits(c *core.Ctx, what string, t tensor.Tensor, shape []int, exp []float64) {
	s, v := read(c, t, what)
	if !prog.SameShape(s, shape) {
		c.Violate("%s: shape %v, want %v", what, s, shape)
	}
	for i := range v {
		if !prog.SameBits(v[i], exp[i]) {
			c.Violate("%s: element %v is %v, want exactly %v", what, ref.Unravel(i, s), v[i], exp[i])
		}
	}
}

// exec runs a program on the real library, aborting on any error.
func exec(c *core.Ctx, p []prog.Ins) []tensor.Tensor {
	ts := make([]tensor.Tensor, 0, len(p))
	for i, in := range p {
		t, err := prog.Apply(in, ts, nil)
		if err != nil {
			c.Violate("t%d=%s failed: %v", i, in, err)
		}
		if t == nil {
			c.Violate("t%d=%s returned neither result nor error", i, in)
		}
		ts = append(ts, t)
		c.Count("op."+in.Op, 1)
	}
	return ts
}

// trackedOf computes the tracking model of a program without back-propagation: an instruction is tracked
// when it is a tracked leaf or (not a comparison) has a tracked operand.
func trackedOf(p []prog.Ins) []bool {
	tr := make([]bool, len(p))
	for i, in := range p {
		switch {
		case in.Cut > 0:
			tr[i] = in.Cut == 1
		case in.Op == "leaf":
			tr[i] = in.Tracked
		case prog.IsCmp(in.Op):
		default:
			for _, a := range in.A {
				tr[i] = tr[i] || tr[a]
			}
		}
	}
	return tr
}

// reachOf marks the tracked tensors a tracked root was computed from (root included).
func reachOf(p []prog.Ins, tr []bool, root int) []bool {
	m := make([]bool, len(p))
	if !tr[root] {
		return m
	}
	m[root] = true
	for i := root; i >= 0; i-- {
		if !m[i] || p[i].Op == "leaf" || p[i].Cut > 0 {
			continue
		}
		for _, a := range p[i].A {
			if tr[a] {
				m[a] = true
			}
		}
	}
	return m
}

const findBroadcast = "explicit-broadcast-average"

// gradMismatch compares one gradient tensor with expected nodes.
func gradMismatch(t tensor.Tensor, x *ref.T, g, tol []float64) string {
	gr := t.Gradient()
	if gr == nil {
		return "gradient is nil"
	}
	s, v, err := prog.Read(gr)
	if err != nil {
		return "gradient unreadable: " + err.Error()
	}
	if !prog.SameShape(s, x.Shape) {
		return fmt.Sprintf("gradient has shape %v, tensor has shape %v", s, x.Shape)
	}
	for i, n := range x.N {
		if math.IsNaN(v[i]) || math.IsInf(v[i], 0) {
			return fmt.Sprintf("gradient element %v is %v, want %v", ref.Unravel(i, s), v[i], g[n])
		}
		if !prog.Close(v[i], g[n], tol[n]) {
			return fmt.Sprintf("gradient element %v is %v, want %v (tolerance %.3g)", ref.Unravel(i, s), v[i], g[n], tol[n])
		}
	}
	return ""
}

func init() {
	core.BeforeCase = func(c *core.Ctx) {
		prog.ShareObjects(c.Prop != "C20" && c.Idx%8 < 6)
		prog.Noise = core.NewR(core.HashS(c.Seed+uint64(c.Idx), c.Family))
	}
}
