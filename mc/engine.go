package main

// The exploration engine.
//
// A property enumerates its space with a Chooser: the generator asks for
// Choose(n) whenever something can differ, and the engine visits every leaf of
// the resulting decision tree exactly once (depth first, in order).  The
// generator returns a Case, whose Run executes the real yarql code and compares
// it with the reference model.  Every shard walks the complete tree and runs the
// leaves whose index belongs to it.

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Chooser walks a decision tree.
type Chooser struct {
	vec   []int
	arity []int
	pos   int
	fresh int // the choices from here on were not visited before
	nodes int // visited nodes of the tree
}

// Choose returns a number in [0, n); every number is visited.
func (c *Chooser) Choose(n int) int {
	if n <= 0 {
		panic("Choose(0)")
	}
	if c.pos == len(c.vec) {
		c.vec = append(c.vec, 0)
		c.arity = append(c.arity, n)
	} else if c.pos < len(c.arity) {
		if c.arity[c.pos] != n {
			panic(fmt.Sprintf("nondeterministic generator: arity %d != %d at %d", c.arity[c.pos], n, c.pos))
		}
	} else {
		// replaying a recorded vector
		c.arity = append(c.arity, n)
		if c.vec[c.pos] >= n {
			panic("replayed choice is out of range")
		}
	}
	v := c.vec[c.pos]
	c.pos++
	return v
}

// Bool is a binary choice.
func (c *Chooser) Bool() bool { return c.Choose(2) == 1 }

// Pick chooses one of the strings
func (c *Chooser) Pick(opts ...string) string { return opts[c.Choose(len(opts))] }

func (c *Chooser) next() bool {
	c.nodes += len(c.vec) - c.fresh
	for i := len(c.vec) - 1; i >= 0; i-- {
		if c.vec[i]+1 < c.arity[i] {
			c.vec = c.vec[:i+1]
			c.arity = c.arity[:i+1]
			c.vec[i]++
			c.pos = 0
			c.fresh = i
			return true
		}
	}
	return false
}

// Result of one executed case
type Result struct {
	Fail    string // empty: the property held
	Known   string // the deviation matches this known finding
	Outcome string // observed outcome, used to count distinct outcomes
	Steps   int    // requests, parses or scheduling steps executed
	Skip    bool   // outside of what the property talks about, only well formedness was checked
}

// Case is one leaf of the decision tree.  nil: the leaf is not part of the space
type Case struct {
	Desc  string // written out case
	DescF func() string
	Run   func() Result
}

func (c *Case) desc() string {
	if c.Desc == "" && c.DescF != nil {
		c.Desc = c.DescF()
	}
	return c.Desc
}

// Property is a check
type Property struct {
	ID  string
	Gen func(c *Chooser, e *Env) *Case
	// Parts, if set, replaces Gen: each part is its own decision tree
	Parts []func(c *Chooser, e *Env) *Case
	// Bounds describes the explored space per tier
	Bounds map[string]string
	// Custom, if set, runs the whole property without the sharded engine
	Custom func(tier string) *Report
}

// Env is handed to the generators
type Env struct {
	Tier     string
	Thorough bool
}

// Report is what a shard (or a whole run) covered
type Report struct {
	Cases      int            `json:"cases"`
	Steps      int            `json:"steps"`
	Choices    int            `json:"choices"`
	Nodes      int            `json:"nodes"`
	DontCare   int            `json:"dont_care"`
	Outcomes   int            `json:"outcomes"`
	Known      map[string]int `json:"known"`
	KnownDesc  map[string]string
	Samples    []string       `json:"samples"`
	Fail       *Failure       `json:"fail"`
	Complete   bool           `json:"complete"`
	Extra      map[string]any `json:"extra"`
	outcomeSet map[uint64]struct{}
	OutcomeSet []uint64
}

// Failure is a violation
type Failure struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Part     int    `json:"part"`
	Vec      []int  `json:"vec"`
	Shard    int    `json:"shard"`
	Shards   int    `json:"shards"`
	Index    int    `json:"index"`
	Desc     string `json:"desc"`
	Fail     string `json:"fail"`
	Kind     string `json:"kind"` // mismatch, crash, hang, memory
	How      string `json:"how"`  // how it was confirmed
}

var properties = map[string]*Property{}

func register(p *Property) {
	if p.Gen != nil {
		p.Parts = []func(c *Chooser, e *Env) *Case{p.Gen}
	}
	properties[p.ID] = p
}

func hash64(s string) uint64 {
	h := fnv.New64a()
	h.Write([]byte(s))
	return h.Sum64()
}

const sharedSize = 1 << 16

// shared memory block written by a worker before each case, so the parent knows
// what was running when a worker dies: [counter 8][part 4][index 8][len 4][choices 4*]
type sharedBlock []byte

func (b sharedBlock) set(counter uint64, part, index int, vec []int) {
	binary.LittleEndian.PutUint32(b[8:], uint32(part))
	binary.LittleEndian.PutUint64(b[12:], uint64(index))
	n := len(vec)
	if n > (sharedSize-64)/4 {
		n = (sharedSize - 64) / 4
	}
	binary.LittleEndian.PutUint32(b[20:], uint32(n))
	for i := 0; i < n; i++ {
		binary.LittleEndian.PutUint32(b[24+4*i:], uint32(vec[i]))
	}
	binary.LittleEndian.PutUint64(b[0:], counter)
}

func (b sharedBlock) get() (counter uint64, part, index int, vec []int) {
	counter = binary.LittleEndian.Uint64(b[0:])
	part = int(binary.LittleEndian.Uint32(b[8:]))
	index = int(binary.LittleEndian.Uint64(b[12:]))
	n := int(binary.LittleEndian.Uint32(b[20:]))
	for i := 0; i < n; i++ {
		vec = append(vec, int(binary.LittleEndian.Uint32(b[24+4*i:])))
	}
	return
}

func mapShared(path string) sharedBlock {
	f, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE, 0o600)
	fatalIf(err)
	defer f.Close()
	fatalIf(f.Truncate(sharedSize))
	b, err := syscall.Mmap(int(f.Fd()), 0, sharedSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	fatalIf(err)
	return b
}

func fatalIf(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "harness error:", err)
		os.Exit(3)
	}
}

// runCase runs a case and turns panics of the code under test into a failure
func runCase(c *Case) (res Result) {
	defer func() {
		if r := recover(); r != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			res = Result{Fail: fmt.Sprintf("panic: %v\n%s", r, st)}
		}
	}()
	return c.Run()
}

func workerMain(p *Property, tier string, shard, shards int, sharedPath string, deadline time.Time, out *os.File) {
	debug.SetMaxStack(256 << 20)
	debug.SetGCPercent(400)
	sh := mapShared(sharedPath)
	env := &Env{Tier: tier, Thorough: tier == "thorough"}
	rep := &Report{Known: map[string]int{}, KnownDesc: map[string]string{}, outcomeSet: map[uint64]struct{}{}, Complete: true}
	var counter uint64
	sampleAt := 1
outer:
	for pi, part := range p.Parts {
		ch := &Chooser{}
		index := 0
		for {
			c := part(ch, env)
			if c != nil {
				if index%shards == shard {
					counter++
					sh.set(counter, pi, index, ch.vec[:ch.pos])
					res := runCase(c)
					rep.Cases++
					rep.Steps += res.Steps
					rep.Choices += ch.pos
					if res.Skip {
						rep.DontCare++
					}
					if len(rep.outcomeSet) < 200000 {
						rep.outcomeSet[hash64(res.Outcome)] = struct{}{}
					}
					if rep.Cases == sampleAt && len(rep.Samples) < 8 {
						rep.Samples = append(rep.Samples, clip(c.desc(), 300)+"  =>  "+clip(res.Outcome, 200))
						sampleAt *= 11
					}
					if res.Known != "" {
						rep.Known[res.Known]++
						if _, ok := rep.KnownDesc[res.Known]; !ok {
							rep.KnownDesc[res.Known] = clip(c.desc(), 200)
						}
					} else if res.Fail != "" {
						rep.Fail = &Failure{
							Property: p.ID, Tier: tier, Part: pi, Vec: append([]int{}, ch.vec[:ch.pos]...),
							Shard: shard, Shards: shards, Index: index,
							Desc: clip(c.desc(), 4000), Fail: clip(res.Fail, 6000), Kind: "mismatch",
						}
						rep.Complete = false
						break outer
					}
					if rep.Cases%64 == 0 && time.Now().After(deadline) {
						rep.Complete = false
						break outer
					}
				}
				index++
			}
			if !ch.next() {
				break
			}
		}
		rep.Nodes += ch.nodes + 1
	}
	rep.Outcomes = len(rep.outcomeSet)
	for h := range rep.outcomeSet {
		if len(rep.OutcomeSet) < 50000 {
			rep.OutcomeSet = append(rep.OutcomeSet, h)
		}
	}
	sh.set(0, 0, 0, nil)
	w := bufio.NewWriter(out)
	fatalIf(json.NewEncoder(w).Encode(rep))
	w.Flush()
}

func clip(s string, n int) string {
	if len(s) <= n {
		return s
	}
	return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
}

func rssOf(pid int) int64 {
	b, err := os.ReadFile("/proc/" + strconv.Itoa(pid) + "/statm")
	if err != nil {
		return 0
	}
	f := strings.Fields(string(b))
	if len(f) < 2 {
		return 0
	}
	n, _ := strconv.ParseInt(f[1], 10, 64)
	return n * 4096
}

const rssLimit = int64(3) << 30

// childProc starts this binary again and watches it
func childProc(args []string, sharedPath string, hang time.Duration, stop <-chan struct{}) (stdout []byte, stderr string, kind string) {
	cmd := exec.Command("/proc/self/exe", args...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GOTRACEBACK=single")
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL, Setpgid: true}
	var so, se limitedBuf
	so.max = 64 << 20
	se.max = 64 << 10
	cmd.Stdout = &so
	cmd.Stderr = &se
	fatalIf(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	var sh sharedBlock
	if sharedPath != "" {
		sh = mapShared(sharedPath)
		defer syscall.Munmap(sh)
	}
	last := uint64(0)
	lastAt := time.Now()
	kill := func() { syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	t := time.NewTicker(100 * time.Millisecond)
	defer t.Stop()
	for {
		select {
		case err := <-done:
			if err != nil {
				return so.b, string(se.b), "crash"
			}
			return so.b, string(se.b), ""
		case <-stop:
			kill()
			<-done
			return nil, "", "stopped"
		case <-t.C:
			if sh != nil {
				n := binary.LittleEndian.Uint64(sh[0:])
				if n != last {
					last = n
					lastAt = time.Now()
				}
			}
			if time.Since(lastAt) > hang {
				kill()
				<-done
				return so.b, string(se.b), "hang"
			}
			if rssOf(cmd.Process.Pid) > rssLimit {
				kill()
				<-done
				return so.b, string(se.b), "memory"
			}
		}
	}
}

type limitedBuf struct {
	b   []byte
	max int
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	if len(l.b)+len(p) <= l.max {
		l.b = append(l.b, p...)
	} else if len(l.b) < l.max {
		l.b = append(l.b, p[:l.max-len(l.b)]...)
	}
	return len(p), nil
}

// scratchDir is created for a run and removed afterwards
var scratchDir string

func runSharded(p *Property, tier string, shards int, budget time.Duration) *Report {
	total := &Report{Known: map[string]int{}, KnownDesc: map[string]string{}, Complete: true, Extra: map[string]any{}}
	outcomes := map[uint64]struct{}{}
	var mu sync.Mutex
	var wg sync.WaitGroup
	stop := make(chan struct{})
	var once sync.Once
	deadline := time.Now().Add(budget)
	var cands []*Failure
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			sp := filepath.Join(scratchDir, fmt.Sprintf("shared-%s-%d", p.ID, s))
			out, errOut, kind := childProc([]string{"worker", p.ID, tier, strconv.Itoa(s), strconv.Itoa(shards), sp,
				strconv.FormatInt(deadline.UnixMilli(), 10)}, sp, 60*time.Second, stop)
			mu.Lock()
			defer mu.Unlock()
			if kind == "stopped" {
				total.Complete = false
				return
			}
			var rep Report
			if kind == "" && json.Unmarshal(out, &rep) == nil {
				total.Cases += rep.Cases
				total.Steps += rep.Steps
				total.Choices += rep.Choices
				total.DontCare += rep.DontCare
				if rep.Nodes > total.Nodes {
					total.Nodes = rep.Nodes // every shard walks the whole tree
				}
				for k, v := range rep.Known {
					total.Known[k] += v
					if _, ok := total.KnownDesc[k]; !ok {
						total.KnownDesc[k] = rep.KnownDesc[k]
					}
				}
				for _, h := range rep.OutcomeSet {
					outcomes[h] = struct{}{}
				}
				if len(total.Samples) < 12 {
					total.Samples = append(total.Samples, rep.Samples...)
				}
				if !rep.Complete {
					total.Complete = false
				}
				if rep.Fail != nil {
					cands = append(cands, rep.Fail)
					once.Do(func() { close(stop) })
				}
				return
			}
			// the worker died: blame the case that was running
			total.Complete = false
			sh := mapShared(sp)
			counter, part, index, vec := sh.get()
			if counter == 0 {
				fmt.Fprintf(os.Stderr, "harness error: worker %d died (%s) outside of a case\n%s\n%s\n", s, kind, clip(string(out), 500), clip(errOut, 4000))
				os.Exit(3)
			}
			if kind == "" {
				kind = "crash"
			}
			cands = append(cands, &Failure{
				Property: p.ID, Tier: tier, Part: part, Vec: vec, Shard: s, Shards: shards, Index: index,
				Fail: kind + " while this case was running\n" + clip(errOut, 4000), Kind: kind,
			})
			once.Do(func() { close(stop) })
		}(s)
	}
	wg.Wait()
	total.Outcomes = len(outcomes)
	for _, f := range cands {
		if confirm(p, f) {
			total.Fail = f
			break
		}
		fmt.Printf("note: property=%s a deviation was observed but could not be reproduced, not reported: %s\n", p.ID, clip(f.Fail, 300))
		total.Extra["unconfirmed"] = clip(f.Desc+" :: "+f.Fail, 1000)
	}
	return total
}

// confirm re-runs a failing case in fresh processes
func confirm(p *Property, f *Failure) bool {
	path := filepath.Join(scratchDir, "confirm.json")
	b, _ := json.Marshal(f)
	fatalIf(os.WriteFile(path, b, 0o600))
	try := func(mode string) (bool, string) {
		sp := filepath.Join(scratchDir, "shared-confirm")
		out, errOut, kind := childProc([]string{"rerun", path, mode, sp}, sp, 60*time.Second, nil)
		if kind != "" {
			return true, kind + ": " + clip(errOut, 3000)
		}
		s := string(out)
		if strings.HasPrefix(s, "FAIL ") {
			return true, s[5:]
		}
		return false, ""
	}
	hits, runs := 0, 5
	for i := 0; i < runs; i++ {
		if f.Kind == "hang" && i == 2 && hits == 2 {
			runs = 2
			break
		}
		if ok, msg := try("case"); ok {
			hits++
			if f.Desc == "" || i == 0 {
				f.Fail = clip(msg, 6000)
			}
		}
	}
	if hits > 0 {
		f.How = fmt.Sprintf("the case alone fails in %d of %d fresh processes", hits, runs)
		fillDesc(p, f)
		return true
	}
	hits, runs = 0, 3
	for i := 0; i < runs; i++ {
		if ok, msg := try("history"); ok {
			hits++
			f.Fail = clip(msg, 6000)
		}
	}
	if hits > 0 {
		f.How = fmt.Sprintf("the case fails after the cases before it in its shard, in %d of %d fresh processes", hits, runs)
		fillDesc(p, f)
		return true
	}
	return false
}

func fillDesc(p *Property, f *Failure) {
	if f.Desc != "" {
		return
	}
	ch := &Chooser{vec: append([]int{}, f.Vec...)}
	func() {
		defer func() { recover() }()
		if c := p.Parts[f.Part](ch, &Env{Tier: f.Tier, Thorough: f.Tier == "thorough"}); c != nil {
			f.Desc = clip(c.desc(), 4000)
		}
	}()
}

// rerunMain runs a recorded case: alone, or with the cases of its shard before it
func rerunMain(path, mode, sharedPath string) {
	b, err := os.ReadFile(path)
	fatalIf(err)
	var f Failure
	fatalIf(json.Unmarshal(b, &f))
	p := properties[f.Property]
	if p == nil {
		fatalIf(fmt.Errorf("unknown property %s", f.Property))
	}
	debug.SetMaxStack(256 << 20)
	env := &Env{Tier: f.Tier, Thorough: f.Tier == "thorough"}
	if mode == "case" {
		ch := &Chooser{vec: append([]int{}, f.Vec...)}
		c := p.Parts[f.Part](ch, env)
		if c == nil {
			fmt.Println("ok (not a case)")
			return
		}
		res := runCase(c)
		if res.Fail != "" && res.Known == "" {
			fmt.Print("FAIL " + c.desc() + "\n" + res.Fail)
		} else {
			fmt.Println("ok", clip(res.Outcome, 1000))
		}
		return
	}
	var sh sharedBlock
	if sharedPath != "" {
		sh = mapShared(sharedPath)
	}
	// history: everything this shard ran before the failing case
	var counter uint64
	for pi := 0; pi <= f.Part; pi++ {
		ch := &Chooser{}
		index := 0
		for {
			c := p.Parts[pi](ch, env)
			if c != nil {
				if index%f.Shards == f.Shard {
					counter++
					if sh != nil {
						sh.set(counter, pi, index, ch.vec[:ch.pos])
					}
					res := runCase(c)
					if res.Fail != "" && res.Known == "" {
						fmt.Print("FAIL " + c.desc() + "\n" + res.Fail)
						return
					}
					if pi == f.Part && index >= f.Index {
						fmt.Println("ok")
						return
					}
				}
				index++
			}
			if !ch.next() {
				break
			}
		}
	}
	fmt.Println("ok")
}

func cleanupOnSignal() {
	c := make(chan os.Signal, 1)
	signal.Notify(c, syscall.SIGTERM, syscall.SIGINT, syscall.SIGHUP)
	go func() {
		<-c
		if scratchDir != "" {
			os.RemoveAll(scratchDir)
		}
		os.Exit(4)
	}()
}
