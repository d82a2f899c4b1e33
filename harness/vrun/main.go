// Panics with nil are recovered as in the modules of the age of the code under test.
//
//go:debug panicnil=1
package main

// Parent side: runs the jobs of a check in worker processes and judges them.

import (
	"bufio"
	"bytes"
	"encoding/json"
	"fmt"
	"io/ioutil"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

type violation struct {
	Job    Job    `json:"job"`
	Kind   string `json:"kind"`
	Detail string `json:"detail"`
	Stderr string `json:"stderr,omitempty"`
}

// C is the context of a check.
type C struct {
	ID       string
	Tier     string
	Seed     int64
	Dir      string // /verif
	Tmp      string
	mu       sync.Mutex
	viols    []violation
	incon    []string
	evals    int64
	counts   map[string]int64
	states   map[uint64]bool
	samples  []interface{}
	jobs     int
	rule     string
	assume   []string
	scenario map[string]int
	started  time.Time
	slots    chan int
}

// Pick returns q in the quick tier and t in the thorough one.
func (c *C) Pick(q, t int) int {
	if c.Tier == "thorough" {
		return t
	}
	return q
}

var checks = map[string]func(c *C){}

func main() {
	if len(os.Args) < 2 {
		fail("usage: vrun check ID | worker JSON | node KIND ... | replay FILE")
	}
	switch os.Args[1] {
	case "worker":
		worker(os.Args[2])
	case "node":
		node(os.Args[2:])
	case "check":
		os.Exit(check(os.Args[2]))
	case "replay":
		os.Exit(replay(os.Args[2]))
	case "list":
		for k := range checks {
			fmt.Println(k)
		}
	}
}

func worker(spec string) {
	var job Job
	if err := json.Unmarshal([]byte(spec), &job); err != nil {
		fail("%v", err)
	}
	if job.NoFile > 0 {
		lim := syscall.Rlimit{Cur: job.NoFile, Max: job.NoFile}
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &lim); err != nil {
			fail("setrlimit: %v", err)
		}
	}
	f := scenarios[job.Scenario]
	if f == nil {
		fail("no scenario %s", job.Scenario)
	}
	w := newW(job, os.NewFile(3, "report"))
	w.tmp = os.Getenv("VW_TMP")
	w.heartbeat()
	f(w)
	w.finish()
	os.Exit(0)
}

func check(id string) int {
	f := checks[id]
	if f == nil {
		fail("no check %s", id)
	}
	c := newC(id)
	defer os.RemoveAll(c.Tmp)
	f(c)
	return c.conclude()
}

func newC(id string) *C {
	seed, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		seed = 1
	}
	tier := os.Getenv("VERIF_TIER")
	if tier != "thorough" {
		tier = "quick"
	}
	tmp, err := ioutil.TempDir("", "vrun")
	if err != nil {
		fail("%v", err)
	}
	c := &C{ID: id, Tier: tier, Seed: seed, Dir: os.Getenv("VERIF_DIR"), Tmp: tmp, counts: map[string]int64{},
		states: map[uint64]bool{}, scenario: map[string]int{}, started: time.Now(), slots: make(chan int, nSlots)}
	for i := 0; i < nSlots; i++ {
		c.slots <- i
	}
	return c
}

func (c *C) Rule(r string)      { c.rule = r }
func (c *C) Assume(a ...string) { c.assume = append(c.assume, a...) }
func (c *C) violated() bool     { c.mu.Lock(); defer c.mu.Unlock(); return len(c.viols) > 0 }
func (c *C) Incon(f string, a ...any) {
	c.mu.Lock()
	c.incon = append(c.incon, fmt.Sprintf(f, a...))
	c.mu.Unlock()
}

// again is how many times the jobs of a check run in the quick tier.
var again = map[string]int{"C01": 2, "C02": 3, "C03": 4, "C04": 4, "C05": 4, "C06": 4, "C07": 2, "C08": 2, "C10": 2, "C11": 3, "C12": 8, "C13": 3,
	"C14": 2, "C15": 2, "C16": 3, "C17": 2, "C18": 5, "C19": 3, "C20": 2, "C21": 3, "C22": 4, "C23": 4}

var atLeisure = regexp.MustCompile("hold|big|huge|idle")

// Run executes jobs, at most par at a time. Jobs get distinct seeds.
func (c *C) Run(par int, jobs ...Job) {
	if n := runtime.NumCPU(); par > n {
		par = n
	}
	sem := make(chan bool, par)
	var wg sync.WaitGroup
	if n := again[c.ID]; n > 1 && c.Tier != "thorough" && c.jobs == 0 {
		// The same with other seeds, but for what takes its time or much memory.
		once := jobs
		for k := 1; k < n; k++ {
			for _, j := range once {
				if j.P["ticks"] == 0 && !atLeisure.MatchString(j.Scenario) {
					jobs = append(jobs, j)
				}
			}
		}
	}
	for i := range jobs {
		j := jobs[i]
		j.Prop = c.ID
		if j.Seed == 0 {
			j.Seed = c.Seed*1009 + int64(c.jobs+1)
		}
		c.jobs++
		sem <- true
		if c.violated() {
			<-sem
			break
		}
		wg.Add(1)
		go func() {
			defer func() { <-sem; wg.Done() }()
			c.run(j)
		}()
	}
	wg.Wait()
}

// Times makes n copies of a job.
func Times(n int, j Job) []Job {
	js := make([]Job, n)
	for i := range js {
		js[i] = j
	}
	return js
}

func bin(race bool) string {
	if race {
		return os.Getenv("VRUN_RACE")
	}
	return os.Getenv("VRUN_BIN")
}

func (c *C) run(job Job) {
	job.Slot = <-c.slots
	defer func() { c.slots <- job.Slot }()
	dir, err := ioutil.TempDir(c.Tmp, "job")
	if err != nil {
		fail("%v", err)
	}
	defer os.RemoveAll(dir)
	spec, _ := json.Marshal(job)
	r, wr, err := os.Pipe()
	if err != nil {
		fail("%v", err)
	}
	errf, _ := os.Create(filepath.Join(dir, "stderr"))
	if bin(job.Race) == "" {
		fail("binary (race=%v) is not built", job.Race)
	}
	cmd := exec.Command(bin(job.Race), "worker", string(spec))
	cmd.Dir = dir
	cmd.Stderr = errf
	cmd.Stdout = errf
	cmd.ExtraFiles = []*os.File{wr}
	cmd.Env = append(os.Environ(), "VW_TMP="+dir, "GOTRACEBACK=all",
		"GORACE=halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=2 log_path="+filepath.Join(dir, "race"))
	if job.Procs > 0 {
		cmd.Env = append(cmd.Env, fmt.Sprintf("GOMAXPROCS=%d", job.Procs))
	}
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	runtime.LockOSThread() // Pdeathsig is tied to the thread.
	defer runtime.UnlockOSThread()
	if err := cmd.Start(); err != nil {
		fail("%v", err)
	}
	wr.Close()
	limit := job.Timeout
	if limit == 0 {
		limit = 300
	}
	timedout := false
	timer := time.AfterFunc(time.Duration(limit)*time.Second, func() {
		timedout = true
		syscall.Kill(-cmd.Process.Pid, syscall.SIGQUIT)
		time.Sleep(2 * time.Second)
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	})
	if os.Getenv("VRUN_V") != "" {
		defer func(t time.Time) {
			fmt.Fprintf(os.Stderr, "%s took %.1f s\n", spec, time.Since(t).Seconds())
		}(time.Now())
	}
	var viols []violation
	done := false
	sc := bufio.NewScanner(r)
	sc.Buffer(make([]byte, 1<<20), 1<<24)
	for sc.Scan() {
		var m msg
		if json.Unmarshal(sc.Bytes(), &m) != nil {
			continue
		}
		c.mu.Lock()
		switch m.T {
		case "viol":
			viols = append(viols, violation{Job: job, Kind: m.Kind, Detail: m.Detail})
		case "count":
			if strings.HasPrefix(m.K, "max ") {
				if c.counts[m.K] < m.N {
					c.counts[m.K] = m.N
				}
			} else {
				c.counts[m.K] += m.N
			}
		case "states":
			for _, h := range m.H {
				c.states[h] = true
			}
		case "sample":
			if len(c.samples) < 6 {
				c.samples = append(c.samples, map[string]interface{}{"scenario": job.Scenario, "seed": job.Seed, "case": m.S})
			}
		case "done":
			done = true
			c.evals += m.N
		}
		c.mu.Unlock()
	}
	werr := cmd.Wait()
	timer.Stop()
	r.Close()
	syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
	errf.Close()
	stderr := tail(filepath.Join(dir, "stderr"))
	races, own := readRaces(dir)
	c.mu.Lock()
	defer c.mu.Unlock()
	c.scenario[job.Scenario]++
	if !done {
		code := -1
		if ee, ok := werr.(*exec.ExitError); ok {
			code = ee.ExitCode()
		}
		switch {
		case timedout:
			c.incon = append(c.incon, fmt.Sprintf("%s: worker exceeded %d s\n%s", job.Scenario, limit, stderr))
		case code == 97:
			c.incon = append(c.incon, fmt.Sprintf("%s: %s", job.Scenario, stderr))
		case harnessPanic(stderr):
			c.incon = append(c.incon, fmt.Sprintf("%s: the harness panicked: %s", job.Scenario, stderr))
		case killedByOOM(werr):
			viols = append(viols, violation{Job: job, Kind: "killed", Detail: fmt.Sprintf("worker was killed: %v", werr), Stderr: stderr})
		default:
			viols = append(viols, violation{Job: job, Kind: "crash", Detail: fmt.Sprintf("process of the code under test ended: %v\n%s", werr, firstCrash(stderr)), Stderr: stderr})
		}
	}
	c.incon = append(c.incon, own...)
	for _, r := range races {
		viols = append(viols, violation{Job: job, Kind: "race", Detail: r})
	}
	c.viols = append(c.viols, viols...)
}

func killedByOOM(err error) bool {
	ee, ok := err.(*exec.ExitError)
	if !ok {
		return false
	}
	ws, ok := ee.Sys().(syscall.WaitStatus)
	return ok && ws.Signaled() && ws.Signal() == syscall.SIGKILL
}

// harnessPanic tells whether the panicking function is one of the harness.
func harnessPanic(s string) bool {
	if !strings.HasPrefix(s, "panic: ") {
		return false
	}
	in := false
	for _, line := range strings.Split(s, "\n") {
		switch {
		case strings.HasPrefix(line, "goroutine "):
			if in {
				return false
			}
			in = true
		case in && strings.HasPrefix(line, "main."):
			return true
		case in && strings.HasPrefix(line, "github.com/muguangyi/"):
			return false
		}
	}
	return false
}

func tail(file string) string {
	b, _ := ioutil.ReadFile(file)
	// Keep the start of a panic report, it comes before the goroutines.
	for _, key := range []string{"panic: ", "fatal error: ", "HARNESS: ", "runtime: goroutine stack exceeds"} {
		if i := bytes.Index(b, []byte(key)); i >= 0 {
			b = b[i:]
			if len(b) > 6000 {
				b = b[:6000]
			}
			return string(b)
		}
	}
	if len(b) > 3000 {
		b = b[len(b)-3000:]
	}
	return string(b)
}

func firstCrash(s string) string {
	if len(s) > 1500 && (strings.HasPrefix(s, "panic") || strings.HasPrefix(s, "fatal")) {
		return s[:1500]
	}
	if len(s) > 1500 {
		return s[len(s)-1500:]
	}
	return s
}

var raceFn = regexp.MustCompile(`(?m)^  ((?:main|github\.com/muguangyi/ferry)[./]\S*)\(\)`)

// readRaces returns the distinct race reports, told apart by the functions that
// access the memory: the first frame of each stack that is neither the runtime
// nor the standard library. A race between functions of the harness only is a
// mistake of the harness, unless both are probes, which features use without
// any lock since their calls must not overlap.
func readRaces(dir string) (races, own []string) {
	files, _ := filepath.Glob(filepath.Join(dir, "race.*"))
	seen := map[string]bool{}
	for _, f := range files {
		b, _ := ioutil.ReadFile(f)
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "DATA RACE") {
				continue
			}
			stacks := rep
			if i := strings.Index(stacks, "\nGoroutine "); i >= 0 {
				stacks = stacks[:i]
			}
			parts := strings.SplitN(stacks, "Previous ", 2)
			key, code := "", false
			for _, p := range parts {
				m := raceFn.FindStringSubmatch(p)
				if m == nil {
					// The stack could not be restored, or has library frames only.
					continue
				}
				key += m[1] + " | "
				if strings.HasPrefix(m[1], "github.com/") || strings.HasSuffix(m[1], ".probe") {
					code = true
				}
			}
			if key == "" {
				code = strings.Contains(rep, "github.com/muguangyi/ferry")
			}
			if seen[key] {
				continue
			}
			seen[key] = true
			if len(rep) > 5000 {
				rep = rep[:5000]
			}
			if code {
				races = append(races, "data race: "+key+"\n"+rep)
			} else {
				own = append(own, "data race of the harness: "+key+"\n"+rep)
			}
		}
	}
	return races, own
}

func (c *C) conclude() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	known := loadKnown(c.Dir, c.ID)
	var fresh []violation
	for _, v := range c.viols {
		if k := matchKnown(known, v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k)
		} else {
			fresh = append(fresh, v)
		}
	}
	c.viols = fresh
	c.evidence()
	for i, s := range c.incon {
		if i >= 3 {
			fmt.Printf("INCONCLUSIVE %s: %d in all\n", c.ID, len(c.incon))
			break
		}
		if len(s) > 3000 {
			s = s[:3000] + "..."
		}
		fmt.Printf("INCONCLUSIVE %s: %s\n", c.ID, s)
	}
	if len(c.viols) > 0 {
		dir := filepath.Join(c.Dir, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		for i, v := range c.viols {
			if i >= 5 {
				break
			}
			path := filepath.Join(dir, fmt.Sprintf("%s-%d.json", c.ID, i))
			b, _ := json.MarshalIndent(v, "", " ")
			ioutil.WriteFile(path, b, 0644)
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, path)
			d := v.Detail
			if len(d) > 1500 {
				d = d[:1500] + "..."
			}
			fmt.Printf("  %s in %s (seed %d, race %v): %s\n", v.Kind, v.Job.Scenario, v.Job.Seed, v.Job.Race, d)
		}
		return 1
	}
	if len(c.incon) > 0 {
		return 2
	}
	if c.evals == 0 || len(c.states) == 0 {
		fmt.Printf("INCONCLUSIVE %s: nothing was observed\n", c.ID)
		return 2
	}
	fmt.Printf("OK %s: %d evaluations, %d distinct, %d jobs, %.1f s\n", c.ID, c.evals, len(c.states), c.jobs, time.Since(c.started).Seconds())
	return 0
}

func (c *C) evidence() {
	measured := map[string]interface{}{}
	for k, v := range c.counts {
		measured[k] = v
	}
	scen := []string{}
	for k, v := range c.scenario {
		scen = append(scen, fmt.Sprintf("%s x%d", k, v))
	}
	sort.Strings(scen)
	if len(c.samples) == 0 {
		c.samples = []interface{}{}
	}
	ev := map[string]interface{}{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": c.evals, "distinct_nontrivial": len(c.states), "rule": c.rule, "samples": c.samples,
			"worker_processes": scen, "observed": measured,
		},
		"assumptions": append([]string{}, c.assume...),
		"wall_s":      time.Since(c.started).Seconds(),
		"violations":  len(c.viols),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(c.Dir, "evidence"), 0755)
	ioutil.WriteFile(filepath.Join(c.Dir, "evidence", c.ID+".json"), append(b, '\n'), 0644)
}

// Known findings: lines "property=<id> scenario=<s> kind=<k> match=<substring> :: <text>".
type knownFinding struct{ scenario, kind, match, text string }

func loadKnown(dir, id string) []knownFinding {
	b, _ := ioutil.ReadFile(filepath.Join(dir, "known-findings.txt"))
	var out []knownFinding
	for _, line := range strings.Split(string(b), "\n") {
		if !strings.HasPrefix(line, "finding: property="+id+" ") {
			continue
		}
		head, text := line, ""
		if i := strings.Index(line, " :: "); i >= 0 {
			head, text = line[:i], line[i+4:]
		}
		k := knownFinding{text: text}
		for _, f := range strings.Fields(head)[2:] {
			switch {
			case strings.HasPrefix(f, "scenario="):
				k.scenario = f[9:]
			case strings.HasPrefix(f, "kind="):
				k.kind = f[5:]
			case strings.HasPrefix(f, "match="):
				k.match = f[6:]
			}
		}
		if k.scenario != "" && k.kind != "" && k.match != "" {
			out = append(out, k)
		}
	}
	return out
}

func matchKnown(known []knownFinding, v violation) string {
	for _, k := range known {
		if k.scenario == v.Job.Scenario && k.kind == v.Kind && strings.Contains(v.Detail, k.match) {
			return k.text
		}
	}
	return ""
}

func replay(file string) int {
	b, err := ioutil.ReadFile(file)
	if err != nil {
		fail("%v", err)
	}
	var v violation
	if err := json.Unmarshal(b, &v); err != nil {
		fail("%v", err)
	}
	c := newC(v.Job.Prop)
	defer os.RemoveAll(c.Tmp)
	for i := 0; i < 20 && len(c.viols) == 0 && len(c.incon) == 0; i++ {
		c.run(v.Job)
	}
	for _, v := range c.viols {
		fmt.Printf("reproduced: %s in %s: %s\n", v.Kind, v.Job.Scenario, v.Detail)
	}
	for _, v := range c.incon {
		fmt.Println("inconclusive:", v)
	}
	if len(c.viols) > 0 {
		return 1
	}
	return 0
}
