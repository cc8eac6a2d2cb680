package core

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
)

// Family is a deterministic list of cases of one property.
type Family struct {
	Name     string
	Quick    int // number of cases at the quick tier
	Thorough int
	Run      func(c *Ctx)
}

// Prop is a property with its case families.
type Prop struct {
	ID          string
	Families    []Family
	Rule        string
	Assumptions []string
	Serial      bool              // one child process only
	Race        bool              // needs the -race build
	MinEvents   map[string]uint64 // counters that must reach these values or the run is inconclusive
	Cover       func(counters map[string]uint64) map[string]any
}

var props = map[string]*Prop{}

func Register(p *Prop)    { props[p.ID] = p }
func Get(id string) *Prop { return props[id] }

// Ctx is what a case sees.
type Ctx struct {
	R      *R
	Prop   string
	Family string
	Idx    int
	N      int
	Tier   string
	Seed   uint64
	Size   int // of the sizes and huge families: see prog.SizedDims
	Round  int // 1: the case is run again with the component objects of round 0

	st     *childState
	detail func() string
}

type violation struct {
	msg string
}

type childState struct {
	known    map[string]bool
	counters map[string]uint64
	sigs     map[uint64]struct{}
	sigCap   int
	evals    uint64
	samples  []string
	knowns   map[string]knownHit
	maxes    map[string]float64
	seen     map[uint64]struct{}
}

type knownHit struct {
	Count  int
	Sample string
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Detail installs a describer of the current case (used in replays and samples).
func (c *Ctx) Detail(f func() string) { c.detail = f }

// Violate aborts the case with a violation.
func (c *Ctx) Violate(format string, args ...any) {
	panic(violation{fmt.Sprintf(format, args...)})
}

// Known reports a mismatch that is exactly the listed finding id; unlisted ids are violations.
func (c *Ctx) Known(id string, format string, args ...any) {
	msg := fmt.Sprintf(format, args...)
	if !c.st.known[c.Prop+"/"+id] {
		c.Violate("%s (matches finding %q, which is not listed for this property)", msg, id)
	}
	k := c.st.knowns[id]
	k.Count++
	if k.Sample == "" {
		k.Sample = msg
	}
	c.st.knowns[id] = k
}

// Count adds to an event counter.
func (c *Ctx) Count(name string, n int) { c.st.counters[name] += uint64(n) }

// Max keeps the maximum of a measured quantity.
func (c *Ctx) Max(name string, v float64) {
	if o, ok := c.st.maxes[name]; !ok || v > o {
		c.st.maxes[name] = v
	}
}

// Distinct counts sig under name once per process.
func (c *Ctx) Distinct(name string, sig uint64) {
	k := HashS(sig, name)
	if c.st.seen == nil {
		c.st.seen = map[uint64]struct{}{}
	}
	if _, ok := c.st.seen[k]; !ok && len(c.st.seen) < 1<<21 {
		c.st.seen[k] = struct{}{}
		c.st.counters[name]++
	}
}

// Mode is set when a single case is run on behalf of another process ("seq" or "conc").
var Mode string

// RunOne runs one case in the given mode; the case writes its outcomes to standard output.
func RunOne(p *Prop, fam string, idx int, tier string, seed uint64, mode string, known map[string]bool) int {
	Mode = mode
	for fi := range p.Families {
		f := &p.Families[fi]
		if f.Name != fam {
			continue
		}
		if v := runCase(p, f, idx, famCount(f, tier), tier, seed, newChildState(known)); v != nil {
			fmt.Println(v.Msg)
			fmt.Println(v.Stack)
			return 1
		}
		return 0
	}
	return 2
}

// Eval counts one evaluated case with its signature.
func (c *Ctx) Eval(sig uint64) {
	c.st.evals++
	if len(c.st.sigs) < c.st.sigCap {
		c.st.sigs[sig] = struct{}{}
	}
}

// EvalS is Eval with a string signature.
func (c *Ctx) EvalS(sig string) { c.Eval(HashS(HashS(7, c.Family), sig)) }

// Sample keeps a few written-out cases.
func (c *Ctx) Sample(s string) {
	if len(c.st.samples) < 6 {
		if len(s) > 1500 {
			s = s[:1500] + "..."
		}
		c.st.samples = append(c.st.samples, c.Family+": "+s)
	}
}

// ---- child ----

type childMsg struct {
	Family string `json:"family"`
	Idx    int    `json:"idx"`
	Msg    string `json:"msg"`
	Detail string `json:"detail"`
	Stack  string `json:"stack,omitempty"`
}

type childEnd struct {
	Evals    uint64              `json:"evals"`
	Counters map[string]uint64   `json:"counters"`
	Sigs     []uint64            `json:"sigs"`
	Samples  []string            `json:"samples"`
	Knowns   map[string]knownHit `json:"knowns"`
	Maxes    map[string]float64  `json:"maxes"`
	Cases    uint64              `json:"cases"`
}

func caseSeed(seed uint64, prop, fam string, idx int) uint64 {
	return Hash(HashS(HashS(seed*0x9e3779b97f4a7c15+1, prop), fam), uint64(idx))
}

// runCase runs one case and returns its violation message, if any.
func runCase(p *Prop, f *Family, idx, n int, tier string, seed uint64, st *childState) (vio *childMsg) {
	c := &Ctx{
		R: NewR(caseSeed(seed, p.ID, f.Name, idx)), Prop: p.ID, Family: f.Name, Idx: idx, N: n,
		Tier: tier, Seed: seed, st: st,
	}
	defer func() {
		if e := recover(); e != nil {
			m := &childMsg{Family: f.Name, Idx: idx}
			if v, ok := e.(violation); ok {
				m.Msg = v.msg
			} else {
				m.Msg = fmt.Sprintf("panic: %v", e)
				m.Stack = string(debug.Stack())
			}
			if c.detail != nil {
				func() {
					defer func() { _ = recover() }()
					m.Detail = c.detail()
				}()
			}
			vio = m
		}
	}()
	if BeforeCase != nil {
		BeforeCase(c)
	}
	f.Run(c)
	// component objects are shared within a case: what one round leaves behind meets the next
	again := idx % 8
	if p.ID == "C20" { // its cases count on a single run per process, and build their own objects
		again = 0
	}
	switch again {
	case 2: // the same inputs once more
		c.R = NewR(caseSeed(seed, p.ID, f.Name, idx))
		c.Round = 1
		f.Run(c)
	case 5: // others
		c.Round = 1
		f.Run(c)
	}
	return nil
}

// BeforeCase, if set, runs before every case.
var BeforeCase func(*Ctx)

func newChildState(known map[string]bool) *childState {
	return &childState{
		known: known, counters: map[string]uint64{}, sigs: map[uint64]struct{}{}, sigCap: 400000,
		knowns: map[string]knownHit{}, maxes: map[string]float64{},
	}
}

func famCount(f *Family, tier string) int {
	if tier == "thorough" {
		return f.Thorough
	}
	return f.Quick
}

// RunChild runs this shard's cases, reporting on stdout.
func RunChild(p *Prop, tier string, seed uint64, shard, nshards int, known map[string]bool, only string) int {
	out := bufio.NewWriter(os.Stdout)
	st := newChildState(known)
	var cases uint64
	for fi := range p.Families {
		f := &p.Families[fi]
		if only != "" && f.Name != only {
			continue
		}
		n := famCount(f, tier)
		for i := 0; i < n; i++ {
			if (i+fi*3)%nshards != shard {
				continue
			}
			fmt.Fprintf(out, "S %s %d\n", f.Name, i)
			out.Flush()
			cases++
			if v := runCase(p, f, i, n, tier, seed, st); v != nil {
				b, _ := json.Marshal(v)
				fmt.Fprintf(out, "V %s\n", b)
				out.Flush()
				return 0
			}
		}
	}
	end := childEnd{Evals: st.evals, Counters: st.counters, Samples: st.samples, Knowns: st.knowns, Maxes: st.maxes, Cases: cases}
	for s := range st.sigs {
		end.Sigs = append(end.Sigs, s)
	}
	sort.Slice(end.Sigs, func(i, j int) bool { return end.Sigs[i] < end.Sigs[j] })
	b, err := json.Marshal(end)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	fmt.Fprintf(out, "E %s\n", b)
	out.Flush()
	return 0
}

// Replay re-runs one recorded case in this process.
func Replay(path string, known map[string]bool) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var rf ReplayFile
	if err := json.Unmarshal(b, &rf); err != nil {
		fmt.Println(err)
		return 2
	}
	p := Get(rf.Property)
	if p == nil {
		fmt.Println("unknown property")
		return 2
	}
	for fi := range p.Families {
		f := &p.Families[fi]
		if f.Name != rf.Family {
			continue
		}
		st := newChildState(known)
		v := runCase(p, f, rf.Index, famCount(f, rf.Tier), rf.Tier, rf.Seed, st)
		if v == nil {
			fmt.Println("replay: no violation")
			for _, s := range st.samples {
				fmt.Println(s)
			}
			return 0
		}
		fmt.Println("replay: VIOLATION", v.Msg)
		fmt.Println(v.Detail)
		fmt.Println(v.Stack)
		return 1
	}
	return 2
}

// ReplayFile identifies a case exactly.
type ReplayFile struct {
	Property string `json:"property"`
	Family   string `json:"family"`
	Index    int    `json:"index"`
	Tier     string `json:"tier"`
	Seed     uint64 `json:"seed"`
	Msg      string `json:"msg"`
	Detail   string `json:"detail"`
	Stack    string `json:"stack,omitempty"`
	How      string `json:"how"`
}

func clip(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " | ")
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}
