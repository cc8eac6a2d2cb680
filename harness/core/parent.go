package core

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

const (
	caseCPULimit  = 100 * time.Second // CPU one case may burn; the slowest case on the unchanged tree needs < 3 s
	caseWallLimit = 400 * time.Second // nothing heard, little CPU used: inconclusive
	rssLimit      = int64(6) << 30
)

// KnownFinding is one entry of known_findings.json.
type KnownFinding struct {
	Property string `json:"property"`
	ID       string `json:"id"`
	What     string `json:"what"`
	Where    string `json:"where"`
}

type knownFile struct {
	Findings []KnownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

// LoadKnown reads the committed known-findings file.
func LoadKnown(path string) ([]KnownFinding, map[string]bool, error) {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil, nil, err
	}
	var kf knownFile
	if err := json.Unmarshal(b, &kf); err != nil {
		return nil, nil, err
	}
	m := map[string]bool{}
	for _, k := range kf.Findings {
		m[k.Property+"/"+k.ID] = true
	}
	return kf.Findings, m, nil
}

type shardRun struct {
	cmd     *exec.Cmd
	mu      sync.Mutex
	fam     string
	idx     int
	started bool
	since   time.Time
	cpu0    time.Duration
	stderr  bytes.Buffer
	ended   bool
	reaped  bool
	hung    bool
	timeout bool
	mem     bool
}

func procCPU(pid int) (time.Duration, int64, bool) {
	b, err := os.ReadFile(fmt.Sprintf("/proc/%d/stat", pid))
	if err != nil {
		return 0, 0, false
	}
	s := string(b)
	k := strings.LastIndex(s, ")")
	if k < 0 {
		return 0, 0, false
	}
	f := strings.Fields(s[k+1:])
	if len(f) < 22 {
		return 0, 0, false
	}
	ut, _ := strconv.ParseInt(f[11], 10, 64)
	stt, _ := strconv.ParseInt(f[12], 10, 64)
	rss, _ := strconv.ParseInt(f[21], 10, 64)
	return time.Duration(ut+stt) * 10 * time.Millisecond, rss * 4096, true
}

// Options of a parent run.
type Options struct {
	Root   string // /verif
	Tier   string
	Seed   uint64
	Shards int
	Only   string
	Self   string // binary of the children, this one by default
	Keep   bool
}

// RunParent runs all shards of a property, merges, writes evidence and prints the verdict.
func RunParent(p *Prop, o Options) int {
	t0 := time.Now()
	findings, _, err := LoadKnown(filepath.Join(o.Root, "known_findings.json"))
	if err != nil {
		fmt.Println("cannot read known findings:", err)
		return 2
	}
	n := o.Shards
	if p.Serial {
		n = 1
	}
	self := o.Self
	if self == "" {
		self, err = os.Executable()
	}
	if err != nil {
		fmt.Println(err)
		return 2
	}
	var (
		mu    sync.Mutex
		vios  []childMsg
		ends  []childEnd
		incon []string
		runs  = make([]*shardRun, n)
		wg    sync.WaitGroup
	)
	var started sync.Mutex // guards runs and killed
	killed := false
	killAll := func() {
		started.Lock()
		defer started.Unlock()
		killed = true
		for _, r := range runs {
			if r != nil && !r.reaped {
				_ = syscall.Kill(-r.cmd.Process.Pid, syscall.SIGKILL)
			}
		}
	}
	stop := false
	for i := 0; i < n; i++ {
		r := &shardRun{since: time.Now()}
		args := []string{"-child", "-prop", p.ID, "-tier", o.Tier, "-seed", fmt.Sprint(o.Seed), "-shard", fmt.Sprint(i), "-nshards", fmt.Sprint(n), "-root", o.Root}
		if o.Only != "" {
			args = append(args, "-only", o.Only)
		}
		r.cmd = exec.Command(self, args...)
		r.cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true}
		env := os.Environ()
		if !p.Race {
			env = append(env, "GOMAXPROCS=2", "GOGC=200")
		}
		r.cmd.Env = env
		pipe, err := r.cmd.StdoutPipe()
		if err != nil {
			fmt.Println(err)
			return 2
		}
		r.cmd.Stderr = &capWriter{b: &r.stderr, max: 1 << 20}
		started.Lock()
		if killed {
			started.Unlock()
			break
		}
		err = r.cmd.Start()
		if err == nil {
			runs[i] = r
		}
		started.Unlock()
		if err != nil {
			fmt.Println(err)
			killAll()
			return 2
		}
		wg.Add(1)
		go func(r *shardRun) {
			defer wg.Done()
			sc := bufio.NewScanner(pipe)
			sc.Buffer(make([]byte, 1<<20), 1<<28)
			gotV := false
			for sc.Scan() {
				line := sc.Text()
				switch {
				case strings.HasPrefix(line, "S "):
					f := strings.Fields(line)
					cpu, _, _ := procCPU(r.cmd.Process.Pid)
					r.mu.Lock()
					r.fam = f[1]
					r.idx, _ = strconv.Atoi(f[2])
					r.started = true
					r.since = time.Now()
					r.cpu0 = cpu
					r.mu.Unlock()
				case strings.HasPrefix(line, "V "):
					var m childMsg
					_ = json.Unmarshal([]byte(line[2:]), &m)
					gotV = true
					mu.Lock()
					if !stop {
						vios = append(vios, m)
						stop = true
						mu.Unlock()
						killAll()
					} else {
						mu.Unlock()
					}
				case strings.HasPrefix(line, "E "):
					var e childEnd
					if err := json.Unmarshal([]byte(line[2:]), &e); err == nil {
						r.mu.Lock()
						r.ended = true
						r.mu.Unlock()
						mu.Lock()
						ends = append(ends, e)
						mu.Unlock()
					}
				}
			}
			werr := r.cmd.Wait()
			started.Lock()
			r.reaped = true
			started.Unlock()
			r.mu.Lock()
			ended, hung, tmo, mem, fam, idx := r.ended, r.hung, r.timeout, r.mem, r.fam, r.idx
			r.mu.Unlock()
			if p.Race && strings.Contains(r.stderr.String(), "WARNING: DATA RACE") {
				mu.Lock()
				if !stop {
					vios = append(vios, childMsg{Family: fam, Idx: idx, Msg: "data race reported by the Go race detector", Detail: raceExcerpt(r.stderr.String())})
					stop = true
					mu.Unlock()
					killAll()
				} else {
					mu.Unlock()
				}
				return
			}
			if ended || gotV {
				return
			}
			mu.Lock()
			defer mu.Unlock()
			if stop {
				return
			}
			tail := r.stderr.String()
			if len(tail) > 6000 {
				tail = tail[:6000]
			}
			switch {
			case tmo:
				incon = append(incon, fmt.Sprintf("shard made no progress in %s/%d and used little CPU", fam, idx))
			case hung:
				vios = append(vios, childMsg{Family: fam, Idx: idx, Msg: fmt.Sprintf("the case did not finish within %v of CPU time (hang or super-polynomial work)", caseCPULimit)})
				stop = true
				go killAll()
			case mem:
				vios = append(vios, childMsg{Family: fam, Idx: idx, Msg: "the case exhausted its memory budget (runaway allocation)"})
				stop = true
				go killAll()
			case !r.started:
				incon = append(incon, fmt.Sprintf("child failed before its first case: %v: %s", werr, clip(tail, 800)))
			case strings.Contains(fmt.Sprint(werr), "killed"):
				incon = append(incon, fmt.Sprintf("child was killed from outside in %s/%d", fam, idx))
			default:
				vios = append(vios, childMsg{Family: fam, Idx: idx, Msg: fmt.Sprintf("process crashed: %v: %s", werr, clip(tail, 300)), Stack: tail})
				stop = true
				go killAll()
			}
		}(r)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			for _, r := range runs {
				if r == nil {
					continue
				}
				cpu, rss, ok := procCPU(r.cmd.Process.Pid)
				if !ok {
					continue
				}
				r.mu.Lock()
				if r.started && !r.ended {
					if cpu-r.cpu0 > caseCPULimit && !p.Race {
						r.hung = true
					} else if time.Since(r.since) > caseWallLimit {
						if p.Race && cpu-r.cpu0 > caseCPULimit {
							r.hung = true
						} else {
							r.timeout = true
						}
					}
					if rss > rssLimit && !p.Race {
						r.mem = true
					}
					if r.hung || r.timeout || r.mem {
						_ = syscall.Kill(-r.cmd.Process.Pid, syscall.SIGKILL)
					}
				}
				r.mu.Unlock()
			}
		}
	}

	// merge
	counters := map[string]uint64{}
	maxes := map[string]float64{}
	sigs := map[uint64]struct{}{}
	knowns := map[string]knownHit{}
	var samples []string
	var evals, cases uint64
	for _, e := range ends {
		evals += e.Evals
		cases += e.Cases
		for k, v := range e.Counters {
			counters[k] += v
		}
		for k, v := range e.Maxes {
			if v > maxes[k] {
				maxes[k] = v
			}
		}
		for _, s := range e.Sigs {
			sigs[s] = struct{}{}
		}
		for k, h := range e.Knowns {
			x := knowns[k]
			x.Count += h.Count
			if x.Sample == "" {
				x.Sample = h.Sample
			}
			knowns[k] = x
		}
		if len(samples) < 8 {
			for i := 0; i < len(e.Samples) && i < 2; i++ {
				samples = append(samples, e.Samples[i])
			}
		}
	}
	if len(samples) == 0 {
		samples = []string{"none: the run stopped early"}
	}
	cov := map[string]any{
		"evaluations":         evals,
		"distinct_nontrivial": len(sigs),
		"rule":                p.Rule,
		"samples":             samples,
		"cases_scheduled_run": cases,
		"events":              counters,
		"measured_maxima":     maxes,
		"shards":              n,
	}
	if p.Cover != nil {
		for k, v := range p.Cover(counters) {
			cov[k] = v
		}
	}
	kk := map[string]int{}
	for k, h := range knowns {
		kk[k] = h.Count
	}
	cov["known_finding_hits"] = kk
	assume := p.Assumptions
	if assume == nil {
		assume = []string{}
	}
	ev := map[string]any{
		"property": p.ID, "tier": o.Tier, "seed": o.Seed, "level": "exploration",
		"coverage": cov, "assumptions": assume, "wall_s": time.Since(t0).Seconds(), "violations": len(vios),
	}
	evDir := filepath.Join(o.Root, "evidence")
	_ = os.MkdirAll(evDir, 0o755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(evDir, p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
		return 2
	}

	if len(vios) > 0 {
		v := vios[0]
		rf := ReplayFile{Property: p.ID, Family: v.Family, Index: v.Idx, Tier: o.Tier, Seed: o.Seed, Msg: v.Msg, Detail: v.Detail, Stack: v.Stack,
			How: "bash /verif/check.sh replay <this file>"}
		rd := filepath.Join(evDir, "replays")
		_ = os.MkdirAll(rd, 0o755)
		rp := filepath.Join(rd, fmt.Sprintf("%s-%s-%d.json", p.ID, v.Family, v.Idx))
		b, _ := json.MarshalIndent(rf, "", " ")
		_ = os.WriteFile(rp, append(b, '\n'), 0o644)
		fmt.Printf("%s %s/%d: %s\n", p.ID, v.Family, v.Idx, clip(v.Msg, 1500))
		if v.Detail != "" {
			fmt.Println("  detail:", clip(v.Detail, 1500))
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, rp)
		return 1
	}
	if len(incon) > 0 {
		fmt.Println("INCONCLUSIVE", p.ID, strings.Join(incon, "; "))
		return 3
	}
	if len(ends) != n {
		fmt.Println("INCONCLUSIVE", p.ID, "not every shard reported")
		return 3
	}
	if o.Only == "" {
		var missing []string
		for k, want := range p.MinEvents {
			if counters[k] < want {
				missing = append(missing, fmt.Sprintf("%s=%d<%d", k, counters[k], want))
			}
		}
		sort.Strings(missing)
		if len(missing) > 0 {
			fmt.Println("INCONCLUSIVE", p.ID, "too few events observed:", strings.Join(missing, ", "))
			return 3
		}
	}
	for _, f := range findings {
		if f.Property != p.ID {
			continue
		}
		h := knowns[f.ID]
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s (matched %d times in this run)\n", p.ID, f.ID, f.What, h.Count)
	}
	fmt.Printf("OK %s tier=%s cases=%d evaluations=%d distinct=%d wall=%.1fs\n", p.ID, o.Tier, cases, evals, len(sigs), time.Since(t0).Seconds())
	return 0
}

type capWriter struct {
	b   *bytes.Buffer
	max int
}

func (w *capWriter) Write(p []byte) (int, error) {
	if w.b.Len() < w.max {
		w.b.Write(p)
	}
	return len(p), nil
}

func raceExcerpt(s string) string {
	k := strings.Index(s, "WARNING: DATA RACE")
	s = s[k:]
	if len(s) > 5000 {
		s = s[:5000]
	}
	return s
}
