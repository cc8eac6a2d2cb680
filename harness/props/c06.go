package props

import (
	"fmt"

	"github.com/sahandsafizadeh/qeep/tensor"

	"verif/harness/core"
	"verif/harness/prog"
	"verif/harness/ref"
)

var moveOps = []string{"Slice", "Patch", "Reshape", "UnSqueeze", "Squeeze", "Flatten", "Broadcast", "Concat"}

type moveCase struct {
	shapes [][]int
	in     prog.Ins
}

var c06Slices, c06Patches, c06Casts, c06Shapes []moveCase

func init() {
	c06Slices, c06Patches, c06Casts, c06Shapes = c06EnumSlices(), c06EnumPatches(), c06EnumCasts(), c06EnumShapes()
	core.Register(&core.Prop{
		ID: "C06",
		Families: []core.Family{
			{Name: "slice-small", Quick: len(c06Slices) * 2, Thorough: len(c06Slices) * 20, Run: func(c *core.Ctx) { c06Enum(c, c06Slices) }},
			{Name: "patch-small", Quick: len(c06Patches) * 2, Thorough: len(c06Patches) * 20, Run: func(c *core.Ctx) { c06Enum(c, c06Patches) }},
			{Name: "broadcast-small", Quick: len(c06Casts) * 2, Thorough: len(c06Casts) * 20, Run: func(c *core.Ctx) { c06Enum(c, c06Casts) }},
			{Name: "reshape-small", Quick: len(c06Shapes) * 2, Thorough: len(c06Shapes) * 20, Run: func(c *core.Ctx) { c06Enum(c, c06Shapes) }},
			{Name: "random", Quick: 320000, Thorough: 3000000, Run: c06Random},
			{Name: "chains", Quick: 20000, Thorough: 200000, Run: c06Chain},
			{Name: "roundtrip", Quick: 100000, Thorough: 900000, Run: c06Round},
			{Name: "construct", Quick: 100000, Thorough: 900000, Run: c06Construct},
			{Name: "large", Quick: 2400, Thorough: 20000, Run: c06Large},
			hugeFamily(len(moveOps)+4, c06Huge),
			sizesFamily(len(moveOps)+4, 4, c06Huge),
			deepFamily(8000, c06Deep),
		},
		Rule: "element-moving operations and constructors: every index tuple (explicit, {0,0}, omitted) of every shape of rank <= 3 with sizes <= 3 for Slice, every source block and position for Patch, every target of rank <= 4 with sizes <= 3 for Broadcast, every factorisation, dim and squeezable dim of every shape of rank <= 4 enumerated; " +
			"larger ranks (to 8), sizes, operand counts and chains drawn; values are distinct per element, some hostile (NaN, -0, infinities, subnormal); distinct = distinct (op, shapes, argument, tracked); every element of every result is compared bit for bit",
		Assumptions: nil,
		MinEvents:   map[string]uint64{"elements": 1000000, "roundtrips": 20000, "constructed": 20000},
	})
}

func idxOptions(d int) []ref.R {
	o := []ref.R{{}}
	for f := 0; f < d; f++ {
		for t := f + 1; t <= d; t++ {
			o = append(o, ref.R{From: f, To: t})
		}
	}
	return o
}

func c06EnumSlices() (o []moveCase) {
	for _, s := range c03Enum(3, 3) {
		o = append(o, moveCase{[][]int{s}, prog.Ins{Op: "Slice", A: []int{0}, RNil: true}})
		var rec func(ix []ref.R)
		rec = func(ix []ref.R) {
			o = append(o, moveCase{[][]int{s}, prog.Ins{Op: "Slice", A: []int{0}, R: append([]ref.R{}, ix...)}})
			if len(ix) < len(s) {
				for _, e := range idxOptions(s[len(ix)]) {
					rec(append(ix, e))
				}
			}
		}
		rec(nil)
	}
	return
}

func c06EnumPatches() (o []moveCase) {
	for _, s := range c03Enum(3, 3) {
		for _, u := range c03Enum(3, 3) {
			if !(len(u) == len(s)) {
				continue
			}
			ok := true
			for i := range u {
				ok = ok && u[i] <= s[i]
			}
			if !ok {
				continue
			}
			sh := [][]int{s, u}
			o = append(o, moveCase{sh, prog.Ins{Op: "Patch", A: []int{0, 1}, RNil: true}})
			var rec func(ix []ref.R)
			rec = func(ix []ref.R) {
				o = append(o, moveCase{sh, prog.Ins{Op: "Patch", A: []int{0, 1}, R: append([]ref.R{}, ix...)}})
				if k := len(ix); k < len(s) {
					rec(append(ix, ref.R{}))
					for f := 0; f+u[k] <= s[k]; f++ {
						rec(append(ix, ref.R{From: f, To: f + u[k]}))
					}
				}
			}
			rec(nil)
		}
	}
	return
}

func c06EnumCasts() (o []moveCase) {
	for _, s := range c03Enum(3, 3) {
		for _, t := range c03Enum(4, 3) {
			if ref.CanBroadcast(s, t) {
				o = append(o, moveCase{[][]int{s}, prog.Ins{Op: "Broadcast", A: []int{0}, D: t}})
			}
		}
	}
	return
}

func c06EnumShapes() (o []moveCase) {
	all := c03Enum(4, 4)
	byN := map[int][][]int{}
	for _, s := range all {
		byN[ref.Prod(s)] = append(byN[ref.Prod(s)], s)
	}
	for k, s := range c03Enum(4, 3) {
		ts := byN[ref.Prod(s)]
		for i := 0; i < len(ts); i++ {
			if len(ts) > 12 && (i+k)%3 != 0 {
				continue
			}
			o = append(o, moveCase{[][]int{s}, prog.Ins{Op: "Reshape", A: []int{0}, D: ts[i]}})
		}
		for d := 0; d <= len(s); d++ {
			o = append(o, moveCase{[][]int{s}, prog.Ins{Op: "UnSqueeze", A: []int{0}, I: d}})
			if d < len(s) {
				o = append(o, moveCase{[][]int{s}, prog.Ins{Op: "Flatten", A: []int{0}, I: d}})
				if s[d] == 1 {
					o = append(o, moveCase{[][]int{s}, prog.Ins{Op: "Squeeze", A: []int{0}, I: d}})
				}
			}
		}
	}
	return
}

// marks draws distinct values, some replaced by special bit patterns.
func marks(r *core.R, n int, base float64) []float64 {
	v := make([]float64, n)
	special := r.P(4)
	for i := range v {
		v[i] = base + float64(i)
		if special && r.P(3) {
			v[i] = hostile[r.Int(len(hostile))]
		}
	}
	return v
}

func c06Move(c *core.Ctx, m moveCase) {
	r := c.R
	tp := ref.NewTape()
	vals := make([][]float64, len(m.shapes))
	tr := make([]bool, len(m.shapes))
	rts := make([]*ref.T, len(m.shapes))
	for i, s := range m.shapes {
		vals[i] = marks(r, ref.Prod(s), float64(1+1000000*i))
		tr[i] = r.P(4)
		rts[i] = tp.Leaf(s, vals[i])
	}
	c.Detail(func() string {
		o := m.in.String()
		for i, s := range m.shapes {
			o += fmt.Sprintf(" t%d: %v %s tracked=%v", i, s, prog.Fmt(vals[i], 40), tr[i])
		}
		return o
	})
	ts := make([]tensor.Tensor, len(m.shapes))
	for i, s := range m.shapes {
		ts[i] = mkVal(c, s, vals[i], tr[i])
	}
	e := prog.Ref(m.in, tp, rts)
	y, err := prog.Apply(m.in, ts, nil)
	y = must(c, y, err)(m.in.String())
	checkBits(c, m.in.String(), y, e.Shape, tp.Vals(e))
	for i, s := range m.shapes {
		checkBits(c, fmt.Sprintf("operand %d after %s", i, m.in.Op), ts[i], s, vals[i])
	}
	if n := y.NElems(); n != ref.Prod(e.Shape) {
		c.Violate("NElems is %d for shape %v", n, e.Shape)
	}
	c.Count("elements", len(e.N))
	c.Count("op."+m.in.Op, 1)
	c.EvalS(fmt.Sprint(m.in, m.shapes, tr))
	if c.Idx%10007 == 0 {
		c.Sample(fmt.Sprint(m.in, " of shapes ", m.shapes))
	}
}

func c06Enum(c *core.Ctx, l []moveCase) { c06Move(c, l[c.Idx%len(l)]) }

func c06Random(c *core.Ctx) {
	r := c.R
	op := moveOps[c.Idx%len(moveOps)]
	rank, dim, el := 5, 4, 120
	switch r.Int(4) {
	case 0:
		rank, dim, el = 8, 3, 300
	case 1:
		rank, dim, el = 3, 9, 300
	}
	s := prog.GenSingle(r, op, rank, dim, el)
	if op == "Concat" {
		switch r.Int(4) {
		case 0: // many operands
			n := r.In(5, 12)
			base := s.Shapes[0]
			if ref.Prod(base)*n < 1500 {
				s.Shapes, s.In.A = nil, nil
				for k := 0; k < n; k++ {
					sh := append([]int{}, base...)
					sh[s.In.I] = r.In(1, 4)
					s.Shapes = append(s.Shapes, sh)
					s.In.A = append(s.In.A, k)
				}
			}
		case 1: // repeated operands
			for k := range s.In.A {
				s.In.A[k] = r.Int(len(s.Shapes))
			}
		}
	}
	c06Move(c, moveCase{s.Shapes, s.In})
}

// c06Chain applies a sequence of element-moving operations, feeding results into each other.
func c06Chain(c *core.Ctx) {
	r := c.R
	tp := ref.NewTape()
	var p []prog.Ins
	var rts []*ref.T
	var ts []tensor.Tensor
	c.Detail(func() string { return prog.Show(p) })
	push := func(in prog.Ins) {
		p = append(p, in)
		rts = append(rts, prog.Ref(in, tp, rts))
		y, err := prog.Apply(in, ts, nil)
		ts = append(ts, must(c, y, err)(in.String()))
	}
	for i, n := 0, r.In(1, 2); i < n; i++ {
		s := prog.Dims(r, r.In(0, 4), 4, 48)
		push(prog.Ins{Op: "leaf", D: s, V: marks(r, ref.Prod(s), float64(1+100000*i)), Tracked: r.P(3)})
	}
	steps := r.In(3, 14)
	if c.Thorough() && r.P(10) {
		steps = 40
	}
	for k := 0; k < steps; k++ {
		a := r.Int(len(rts))
		if r.Bool() {
			a = len(rts) - 1
		}
		s := rts[a].Shape
		in := prog.Ins{Op: moveOps[r.Int(len(moveOps))], A: []int{a}}
		switch in.Op {
		case "Slice":
			in.R, in.RNil = prog.RandIndex(r, s)
		case "Patch":
			var cand []int
			for j := range rts {
				ok := len(rts[j].Shape) == len(s)
				for d := range s {
					ok = ok && rts[j].Shape[d] <= s[d]
				}
				if ok {
					cand = append(cand, j)
				}
			}
			b := cand[r.Int(len(cand))]
			in.A = []int{a, b}
			in.R, in.RNil = prog.RandPatchIndex(r, s, rts[b].Shape)
		case "Reshape":
			in.D = prog.RandFactor(r, ref.Prod(s), 5)
		case "UnSqueeze":
			if len(s) > 6 {
				continue
			}
			in.I = r.In(0, len(s))
		case "Squeeze":
			var cand []int
			for d := range s {
				if s[d] == 1 {
					cand = append(cand, d)
				}
			}
			if cand == nil {
				continue
			}
			in.I = cand[r.Int(len(cand))]
		case "Flatten":
			if len(s) == 0 {
				continue
			}
			in.I = r.Int(len(s))
		case "Broadcast":
			in.D = prog.RandTarget(r, s, 6, 3)
			if ref.Prod(in.D) > 300 {
				continue
			}
		case "Concat":
			if len(s) == 0 {
				continue
			}
			in.I = r.Int(len(s))
			var cand []int
			for j := range rts {
				ok := len(rts[j].Shape) == len(s)
				for d := range s {
					ok = ok && (d == in.I || rts[j].Shape[d] == s[d])
				}
				if ok {
					cand = append(cand, j)
				}
			}
			tot := s[in.I]
			for q := r.In(1, 3); q > 0; q-- {
				b := cand[r.Int(len(cand))]
				in.A = append(in.A, b)
				tot += rts[b].Shape[in.I]
			}
			if ref.Prod(s)/s[in.I]*tot > 400 {
				continue
			}
		}
		push(in)
	}
	for i := range ts {
		checkBits(c, fmt.Sprintf("t%d=%s", i, p[i]), ts[i], rts[i].Shape, tp.Vals(rts[i]))
		c.Count("elements", len(rts[i].N))
	}
	c.Count("chains", 1)
	c.Eval(structSig(p, 0))
	if c.Idx%4001 == 0 {
		c.Sample(prog.Show(p))
	}
}

func c06Round(c *core.Ctx) {
	r := c.R
	ok := func(t tensor.Tensor, err error) func(string) tensor.Tensor { return must(c, t, err) }
	switch c.Idx % 5 {
	case 0: // slicing what was patched
		sg := prog.GenSingle(r, "Patch", 5, 4, 150)
		s, u := sg.Shapes[0], sg.Shapes[1]
		v, w := marks(r, ref.Prod(s), 1), marks(r, ref.Prod(u), 1e6)
		c.Detail(func() string {
			return fmt.Sprintf("patch then slice: %v %s patched by %v %s at %v", s, prog.Fmt(v, 30), u, prog.Fmt(w, 30), sg.In.R)
		})
		t, x := mkVal(c, s, v, r.Bool()), mkVal(c, u, w, r.Bool())
		y, err := t.Patch(prog.Ranges(sg.In.R, sg.In.RNil), x)
		y = ok(y, err)("Patch")
		ix := make([]tensor.Range, len(s))
		for d := range s {
			f := 0
			if d < len(sg.In.R) {
				f = sg.In.R[d].From
			}
			ix[d] = tensor.Range{From: f, To: f + u[d]}
		}
		z, err := y.Slice(ix)
		z = ok(z, err)("Slice")
		checkBits(c, "slice of the patched block", z, u, w)
		z, err = t.Slice(ix)
		z = ok(z, err)("Slice")
		b, err := y.Patch(ix, z)
		b = ok(b, err)("Patch back")
		checkBits(c, "patched back", b, s, v)
		c.EvalS(fmt.Sprint("P", s, u, sg.In.R))
	case 1: // slicing what was concatenated
		sg := prog.GenSingle(r, "Concat", 5, 4, 60)
		d := sg.In.I
		vals := make([][]float64, len(sg.Shapes))
		ts := make([]tensor.Tensor, len(sg.Shapes))
		c.Detail(func() string { return fmt.Sprintf("concat then slice: %v along %d", sg.Shapes, d) })
		for i, s := range sg.Shapes {
			vals[i] = marks(r, ref.Prod(s), float64(1+1000*i))
			ts[i] = mkVal(c, s, vals[i], r.Bool())
		}
		y, err := tensor.Concat(ts, d)
		y = ok(y, err)("Concat")
		at := 0
		for i, s := range sg.Shapes {
			ix := make([]tensor.Range, d+1)
			ix[d] = tensor.Range{From: at, To: at + s[d]}
			at += s[d]
			z, err := y.Slice(ix)
			z = ok(z, err)("Slice")
			checkBits(c, fmt.Sprintf("piece %d of the concatenation", i), z, s, vals[i])
		}
		c.EvalS(fmt.Sprint("C", sg.Shapes, d))
	case 2: // reshape there and back, flatten, unsqueeze/squeeze
		s := prog.Dims(r, r.In(0, 6), 4, 200)
		v := marks(r, ref.Prod(s), 1)
		c.Detail(func() string { return fmt.Sprintf("reshapes of %v %s", s, prog.Fmt(v, 30)) })
		x := mkVal(c, s, v, r.Bool())
		y, err := x.Reshape(prog.RandFactor(r, len(v), 6))
		y = ok(y, err)("Reshape")
		z, err := y.Reshape(append([]int{}, s...))
		z = ok(z, err)("Reshape back")
		checkBits(c, "reshaped back", z, s, v)
		d := r.In(0, len(s))
		y, err = x.UnSqueeze(d)
		y = ok(y, err)("UnSqueeze")
		z, err = y.Squeeze(d)
		z = ok(z, err)("Squeeze")
		checkBits(c, "squeezed back", z, s, v)
		c.EvalS(fmt.Sprint("R", s, d))
	case 3: // every copy of a broadcast is the original
		s := prog.Dims(r, r.In(0, 4), 4, 60)
		t := prog.RandTarget(r, s, 6, 3)
		if ref.Prod(t) > 3000 {
			return
		}
		v := marks(r, ref.Prod(s), 1)
		c.Detail(func() string { return fmt.Sprintf("broadcast %v to %v then slice", s, t) })
		x := mkVal(c, s, v, r.Bool())
		y, err := x.Broadcast(append([]int{}, t...))
		y = ok(y, err)("Broadcast")
		for k := 0; k < 3; k++ {
			ix := make([]tensor.Range, len(t))
			for d := range t {
				e := d - (len(t) - len(s))
				if e < 0 || (s[e] == 1 && t[d] != 1) {
					f := r.Int(t[d])
					ix[d] = tensor.Range{From: f, To: f + 1}
				}
			}
			z, err := y.Slice(ix)
			z = ok(z, err)("Slice")
			z, err = z.Reshape(append([]int{}, s...))
			z = ok(z, err)("Reshape")
			checkBits(c, "copy of the broadcast operand", z, s, v)
		}
		c.EvalS(fmt.Sprint("B", s, t))
	case 4: // tiles: cut along a dimension, put together again
		s := prog.Dims(r, r.In(1, 5), 5, 200)
		d := r.Int(len(s))
		if s[d] < 2 {
			s[d] = 2
		}
		v := marks(r, ref.Prod(s), 1)
		x := mkVal(c, s, v, r.Bool())
		var ts []tensor.Tensor
		var cuts []int
		for at := 0; at < s[d]; {
			to := r.In(at+1, s[d])
			if at == 0 && to == s[d] {
				to--
			}
			cuts = append(cuts, to)
			ix := make([]tensor.Range, d+1)
			ix[d] = tensor.Range{From: at, To: to}
			z, err := x.Slice(ix)
			ts = append(ts, ok(z, err)("Slice"))
			at = to
		}
		c.Detail(func() string { return fmt.Sprintf("cut %v along %d at %v and concatenate", s, d, cuts) })
		y, err := tensor.Concat(ts, d)
		y = ok(y, err)("Concat")
		checkBits(c, "concatenated slices", y, s, v)
		c.EvalS(fmt.Sprint("T", s, d, cuts))
	}
	c.Count("roundtrips", 1)
}

func c06Construct(c *core.Ctx) {
	r := c.R
	conf := prog.Conf(r.Bool())
	if r.P(4) {
		conf = nil
	}
	s := prog.Dims(r, r.In(0, 7), []int{2, 4, 9}[r.Int(3)], 300)
	same := func(t tensor.Tensor, err error, what string, sh []int, f func(i int) float64) {
		c.Detail(func() string { return fmt.Sprintf("%s of %v, config %+v", what, sh, conf) })
		t = must(c, t, err)(what)
		e := make([]float64, ref.Prod(sh))
		for i := range e {
			e[i] = f(i)
		}
		checkBits(c, what, t, sh, e)
	}
	k := c.Idx % 9
	switch k {
	case 0:
		v := hostile[r.Int(len(hostile))]
		t, err := tensor.Full(append([]int{}, s...), v, conf)
		same(t, err, fmt.Sprintf("Full(%v)", v), s, func(int) float64 { return v })
	case 1:
		t, err := tensor.Zeros(append([]int{}, s...), conf)
		same(t, err, "Zeros", s, func(int) float64 { return 0 })
	case 2:
		t, err := tensor.Ones(append([]int{}, s...), conf)
		same(t, err, "Ones", s, func(int) float64 { return 1 })
	case 3:
		n := r.In(1, 12)
		s = []int{n, n}
		t, err := tensor.Eye(n, conf)
		same(t, err, "Eye", s, func(i int) float64 {
			if i/n == i%n {
				return 1
			}
			return 0
		})
	default: // TensorOf depth 0..4
		s = prog.Dims(r, k-4, []int{2, 4, 7}[r.Int(3)], 400)
		v := marks(r, ref.Prod(s), 1)
		var t tensor.Tensor
		var err error
		switch k - 4 {
		case 0:
			t, err = tensor.TensorOf(v[0], conf)
		case 1:
			t, err = tensor.TensorOf(append([]float64{}, v...), conf)
		case 2:
			d := make([][]float64, s[0])
			for i := range d {
				for j := 0; j < s[1]; j++ {
					d[i] = append(d[i], v[ref.Ravel([]int{i, j}, s)])
				}
			}
			t, err = tensor.TensorOf(d, conf)
		case 3:
			d := make([][][]float64, s[0])
			for i := range d {
				d[i] = make([][]float64, s[1])
				for j := range d[i] {
					for q := 0; q < s[2]; q++ {
						d[i][j] = append(d[i][j], v[ref.Ravel([]int{i, j, q}, s)])
					}
				}
			}
			t, err = tensor.TensorOf(d, conf)
		case 4:
			d := make([][][][]float64, s[0])
			for i := range d {
				d[i] = make([][][]float64, s[1])
				for j := range d[i] {
					d[i][j] = make([][]float64, s[2])
					for q := range d[i][j] {
						for p := 0; p < s[3]; p++ {
							d[i][j][q] = append(d[i][j][q], v[ref.Ravel([]int{i, j, q, p}, s)])
						}
					}
				}
			}
			t, err = tensor.TensorOf(d, conf)
		}
		same(t, err, "TensorOf "+prog.Fmt(v, 30), s, func(i int) float64 { return v[i] })
	}
	c.Count("constructed", 1)
	c.Count("elements", ref.Prod(s))
	c.EvalS(fmt.Sprint(k, s, conf != nil && conf.GradTrack, conf == nil))
}

func c06Large(c *core.Ctx) {
	r := c.R
	op := moveOps[c.Idx%len(moveOps)]
	rank, dim, el := 2, 70, 4000
	switch r.Int(4) {
	case 0:
		rank, dim, el = 1, 2500, 3000
	case 1:
		rank, dim, el = 4, 12, 4000
	case 2:
		rank, dim, el = 10, 2, 2000
	}
	if op == "Broadcast" {
		el, dim = el/4, dim/2+1
	}
	s := prog.GenSingle(r, op, rank, dim, el)
	if op == "Broadcast" && r.Bool() {
		s.Shapes[0] = []int{r.In(1, 40), 1}
		s.In.D = []int{r.In(1, 9), s.Shapes[0][0], r.In(1, 40)}
	}
	if op == "Concat" && r.P(3) {
		s.Shapes, s.In.A = nil, nil
		n := r.In(20, 90)
		w := r.In(1, 4)
		for k := 0; k < n; k++ {
			sh := []int{w, w}
			sh[s.In.I%2] = r.In(1, 3)
			s.Shapes = append(s.Shapes, sh)
			s.In.A = append(s.In.A, k)
		}
		s.In.I %= 2
	}
	c06Move(c, moveCase{s.Shapes, s.In})
}
