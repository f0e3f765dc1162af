package props

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

const (
	exitHang = 77
	exitMem  = 78

	// A case normally takes milliseconds; only one that runs for this long is
	// suspected of not terminating, and the suspicion is confirmed alone in a
	// fresh process.
	caseLimit   = 100 * time.Second
	replayLimit = 150 * time.Second
	memLimit    = 3 << 30
)

func envInt(name string, def int) int {
	v, err := strconv.Atoi(os.Getenv(name))
	if err != nil {
		return def
	}
	return v
}

// Main is called from TestMain.
func Main(m *testing.M) int {
	switch os.Getenv("VERIF_MODE") {
	case "worker", "replay":
		return m.Run()
	case "orchestrate":
		return orchestrate()
	}
	fmt.Fprintln(os.Stderr, "VERIF_MODE not set")
	return 2
}

func watchdog(cur *current) {
	for {
		time.Sleep(100 * time.Millisecond)
		cur.mu.Lock()
		over := cur.busy && time.Since(cur.start) > caseLimit
		cur.mu.Unlock()
		if over {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Fprintf(os.Stderr, "VERIF: case exceeds %v\n%s\n", caseLimit, trimStack(string(buf[:n])))
			os.Exit(exitHang)
		}
		var ms runtime.MemStats
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > memLimit {
			fmt.Fprintf(os.Stderr, "VERIF: case uses more than %d bytes\n", uint64(memLimit))
			os.Exit(exitMem)
		}
	}
}

// Worker runs the shard of a property given in the environment.
func Worker(t *testing.T) {
	debug.SetGCPercent(200)
	if os.Getenv("VERIF_MODE") == "replay" {
		replayWorker(t)
		return
	}

	p := registry[os.Getenv("VERIF_PROP")]
	shard := envInt("VERIF_SHARD", 0)
	shards := envInt("VERIF_SHARDS", 1)
	seed := envInt("VERIF_SEED", 1)
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	out := os.Getenv("VERIF_OUT")

	cur := &current{}
	fd, err := os.Create(os.Getenv("VERIF_CURRENT"))
	if err == nil {
		cur.fd = fd
	}
	go watchdog(cur)

	results := []*ArmResult{}
	for idx, a := range p.Arms {
		if only := os.Getenv("VERIF_ARM"); only != "" && only != a.Name {
			continue
		}
		total := a.Quick
		if thorough {
			total = a.Thorough
		}
		n := total / shards
		if shard < total%shards {
			n++
		}
		if n == 0 {
			continue
		}
		res := runArm(t, p, a, cur, n, armSeed(seed, shard, idx))
		results = append(results, res)
		writeFile(out, mustJSON(results))
		if res.Failure != nil {
			break
		}
	}
	writeFile(out, mustJSON(results))
	writeFile(out+".done", []byte("ok"))
}

func armSeed(seed, shard, idx int) uint64 {
	x := uint64(seed)*0x9E3779B97F4A7C15 + uint64(shard)*0xBF58476D1CE4E5B9 +
		uint64(idx)*0x94D049BB133111EB + 0x1234567
	x ^= x >> 31
	x *= 0xD6E8FEB86659FD93
	x ^= x >> 29
	x &= 0x7fffffffffff
	if x == 0 {
		x = 1
	}
	return x
}

func writeFile(path string, data []byte) {
	err := os.WriteFile(path+".tmp", data, 0o644)
	if err == nil {
		err = os.Rename(path+".tmp", path)
	}
	if err != nil {
		panic("harness: " + err.Error())
	}
}

func runArm(t *testing.T, p *Prop, a *Arm, cur *current, checks int, seed uint64) *ArmResult {
	res := &ArmResult{Name: a.Name,
		Classes: map[string]int{}, Counters: map[string]int{}}
	start := time.Now()
	defer func() { res.WallS = time.Since(start).Seconds() }()

	_ = flag.Set("rapid.checks", strconv.Itoa(checks))
	_ = flag.Set("rapid.seed", strconv.FormatUint(seed, 10))
	_ = flag.Set("rapid.nofailfile", "true")
	_ = flag.Set("rapid.shrinktime", "25s")

	seen := map[uint64]bool{}
	var last *Failure
	failing := false

	prop := func(rt *rapid.T) {
		c := a.Gen(rt)
		raw := mustJSON(c)
		r := &R{T: t, arm: res, counting: !failing}
		cur.begin(p.ID, a.Name, raw)
		msg, failed := runCheck(r, a, raw)
		cur.end()
		if r.counting {
			res.Evaluations++
			if r.nontriv {
				h := hash64(raw)
				if !seen[h] {
					seen[h] = true
					if len(res.Samples) < 3 && len(raw) < 4000 && len(seen)%7 == 1 {
						res.Samples = append(res.Samples, raw)
					}
				}
			}
		}
		if failed {
			failing = true
			last = &Failure{Property: p.ID, Arm: a.Name, Message: msg, Case: raw, Kind: "oracle"}
			rt.Fatalf("violation")
		}
	}

	tb := &quietTB{}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(stopTB); !ok {
					panic(e)
				}
			}
		}()
		rapid.Check(tb, prop)
	}()
	for h := range seen {
		res.Hashes = append(res.Hashes, h)
	}
	if last != nil {
		res.Failure = last
	} else if tb.failed {
		res.Error = strings.Join(tb.logs, "\n")
	}
	return res
}

func replayWorker(t *testing.T) {
	path := os.Getenv("VERIF_REPLAY")
	data, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	f := &Failure{}
	if err := json.Unmarshal(data, f); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := registry[f.Property]
	if p == nil {
		fmt.Fprintln(os.Stderr, "no such property", f.Property)
		os.Exit(2)
	}
	cur := &current{}
	go watchdog(cur)
	for _, a := range p.Arms {
		if a.Name != f.Arm {
			continue
		}
		repeats := envInt("VERIF_REPEAT", 1)
		for i := 0; i < repeats; i++ {
			cur.begin(p.ID, a.Name, f.Case)
			msg, failed := runCheck(&R{T: t, arm: &ArmResult{}}, a, f.Case)
			cur.end()
			if failed {
				fmt.Printf("REPLAY-FAILED %s\n", msg)
				os.Exit(1)
			}
		}
		fmt.Println("REPLAY-PASSED")
		return
	}
	fmt.Fprintln(os.Stderr, "no such arm", f.Arm)
	os.Exit(2)
}

type replayOutcome struct {
	failed bool
	err    bool
	out    string
}

func replay(self, path string) replayOutcome {
	cmd := exec.Command(self, "-test.run", "^TestWorker$", "-test.timeout", "0")
	cmd.Env = append(os.Environ(), "VERIF_MODE=replay", "VERIF_REPLAY="+path)
	var buf bytes.Buffer
	cmd.Stdout = &buf
	cmd.Stderr = &buf
	if err := cmd.Start(); err != nil {
		return replayOutcome{err: true, out: err.Error()}
	}
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	select {
	case <-done:
	case <-time.After(replayLimit):
		_ = cmd.Process.Kill()
		<-done
		return replayOutcome{failed: true, out: "did not terminate"}
	}
	code := cmd.ProcessState.ExitCode()
	out := buf.String()
	switch {
	case code == 0:
		return replayOutcome{}
	case code == 1 && strings.Contains(out, "REPLAY-FAILED"):
		return replayOutcome{failed: true, out: out}
	case code == exitHang || code == exitMem:
		return replayOutcome{failed: true, out: out}
	case code == 2 && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:")) &&
		!strings.Contains(out, "harness:") && !strings.Contains(out, "out of memory"):
		return replayOutcome{failed: true, out: out}
	case code == 66 && strings.Contains(out, "DATA RACE"):
		return replayOutcome{failed: true, out: out}
	}
	return replayOutcome{err: true, out: out}
}

type workerRun struct {
	shard   int
	results []*ArmResult
	failure *Failure
	err     string
}

func orchestrate() int {
	id := os.Getenv("VERIF_PROP")
	tier := os.Getenv("VERIF_TIER")
	verif := os.Getenv("VERIF_DIR")
	work := os.Getenv("VERIF_WORK")
	p := registry[id]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", id)
		return 2
	}
	seed := envInt("VERIF_SEED", 1)
	start := time.Now()
	self, _ := os.Executable()

	if path := os.Getenv("VERIF_REPLAY"); path != "" {
		o := replay(self, path)
		fmt.Println(o.out)
		if o.failed {
			fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
			return 1
		}
		if o.err {
			return 2
		}
		return 0
	}

	shards := envInt("VERIF_SHARDS", 7)
	runs := make([]*workerRun, shards)
	var wg sync.WaitGroup
	var mu sync.Mutex
	procs := map[int]*exec.Cmd{}
	stop := false

	for i := 0; i < shards; i++ {
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			w := &workerRun{shard: i}
			runs[i] = w
			out := filepath.Join(work, fmt.Sprintf("out%d.json", i))
			curp := filepath.Join(work, fmt.Sprintf("cur%d.json", i))
			cmd := exec.Command(self, "-test.run", "^TestWorker$", "-test.timeout", "0", "-test.cpu", os.Getenv("VERIF_CPU"))
			if os.Getenv("VERIF_CPU") == "" {
				cmd.Args = cmd.Args[:len(cmd.Args)-2]
			}
			cmd.Dir = work
			cmd.Env = append(os.Environ(), "VERIF_MODE=worker",
				fmt.Sprintf("VERIF_SHARD=%d", i), fmt.Sprintf("VERIF_SHARDS=%d", shards),
				"VERIF_OUT="+out, "VERIF_CURRENT="+curp)
			var buf bytes.Buffer
			cmd.Stdout = &limitWriter{w: &buf, n: 1 << 20}
			cmd.Stderr = cmd.Stdout
			mu.Lock()
			if stop {
				mu.Unlock()
				return
			}
			err := cmd.Start()
			procs[i] = cmd
			mu.Unlock()
			if err != nil {
				w.err = err.Error()
				return
			}
			_ = cmd.Wait()
			mu.Lock()
			stopped := stop
			mu.Unlock()

			data, rerr := os.ReadFile(out)
			if rerr == nil {
				_ = json.Unmarshal(data, &w.results)
			}
			_, derr := os.Stat(out + ".done")
			code := cmd.ProcessState.ExitCode()
			if derr == nil && (code == 0 || code == 1) {
				for _, res := range w.results {
					if res.Failure != nil {
						w.failure = res.Failure
					}
					if res.Error != "" {
						w.err = res.Error
					}
				}
			} else if !stopped {
				w.failure, w.err = crashed(self, curp, code, buf.String())
			}
			if w.failure != nil {
				// One violation decides the run.
				mu.Lock()
				if !stop {
					stop = true
					for j, c := range procs {
						if j != i && c.Process != nil {
							_ = c.Process.Kill()
						}
					}
				}
				mu.Unlock()
			}
		}(i)
	}
	wg.Wait()

	var fail *Failure
	errs := []string{}
	merged := map[string]*ArmResult{}
	hashes := map[uint64]bool{}
	evals := 0
	order := []string{}
	for _, w := range runs {
		if w == nil {
			continue
		}
		if w.failure != nil && fail == nil {
			fail = w.failure
		}
		if w.err != "" {
			errs = append(errs, fmt.Sprintf("shard %d: %s", w.shard, w.err))
		}
		for _, res := range w.results {
			m := merged[res.Name]
			if m == nil {
				m = &ArmResult{Name: res.Name, Classes: map[string]int{}, Counters: map[string]int{}}
				merged[res.Name] = m
				order = append(order, res.Name)
			}
			m.Evaluations += res.Evaluations
			evals += res.Evaluations
			for k, v := range res.Classes {
				m.Classes[k] += v
			}
			for k, v := range res.Counters {
				m.Counters[k] += v
			}
			for _, h := range res.Hashes {
				hashes[h^hash64([]byte(res.Name))] = true
			}
			if len(m.Samples) < 2 {
				m.Samples = append(m.Samples, res.Samples...)
			}
			if res.WallS > m.WallS {
				m.WallS = res.WallS
			}
		}
	}

	// Findings that are recorded rather than repaired.
	known := runFindings(self, verif, id)

	arms := map[string]interface{}{}
	samples := []interface{}{}
	for _, name := range order {
		m := merged[name]
		arms[name] = map[string]interface{}{
			"evaluations": m.Evaluations,
			"classes":     m.Classes,
			"counters":    m.Counters,
			"max_shard_s": m.WallS,
		}
		for i, s := range m.Samples {
			if i < 2 {
				samples = append(samples, map[string]interface{}{"arm": name, "case": s})
			}
		}
	}
	violations := 0
	if fail != nil {
		violations = 1
	}
	evidence := map[string]interface{}{
		"property": id,
		"tier":     tier,
		"seed":     seed,
		"level":    "exploration",
		"coverage": map[string]interface{}{
			"evaluations":         evals,
			"distinct_nontrivial": len(hashes),
			"rule":                p.Rule,
			"samples":             samples,
			"arms":                arms,
			"shards":              shards,
			"known_findings":      known,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  violations,
	}
	if p.Assumptions == nil {
		delete(evidence, "assumptions")
	}
	buf, _ := json.MarshalIndent(evidence, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	writeFile(filepath.Join(verif, "evidence", id+".json"), append(buf, '\n'))

	if fail != nil {
		dir := filepath.Join(verif, "replays")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", id, tier, seed))
		data, _ := json.MarshalIndent(fail, "", " ")
		writeFile(path, data)
		fmt.Printf("property %s arm %s (%s):\n%s\n", fail.Property, fail.Arm, fail.Kind, fail.Message)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
		return 1
	}
	if len(errs) > 0 {
		for _, e := range errs {
			fmt.Fprintln(os.Stderr, "ERROR", e)
		}
		return 3
	}
	fmt.Printf("OK property=%s tier=%s seed=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n",
		id, tier, seed, evals, len(hashes), time.Since(start).Seconds())
	return 0
}

// crashed decides what a worker that ended without finishing means.
func crashed(self, curp string, code int, out string) (*Failure, string) {
	data, err := os.ReadFile(curp)
	f := &Failure{}
	if err != nil || json.Unmarshal(data, f) != nil || f.Case == nil {
		return nil, fmt.Sprintf("worker ended with %d before running a case: %s", code, tail(out))
	}
	goPanic := code == 2 && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:"))
	race := code == 66 && strings.Contains(out, "DATA RACE")
	hang := code == exitHang || code == exitMem
	if !goPanic && !hang && !race {
		return nil, fmt.Sprintf("worker ended with %d: %s", code, tail(out))
	}
	if strings.Contains(out, "harness:") || strings.Contains(out, "out of memory") {
		return nil, tail(out)
	}
	o := replayOutcome{}
	for i := 0; i < 3 && !o.failed; i++ {
		o = replay(self, curp)
	}
	if o.failed {
		f.Kind = "crash"
		f.Message = tail(o.out)
		if hang {
			f.Kind = "no termination"
		}
		return f, ""
	}
	// A panic or race inside the code under test is a violation even if it
	// needs a schedule that the replay did not hit again.
	if (goPanic || race) && strings.Contains(out, "www.velocidex.com/golang/vfilter") {
		f.Kind = "crash (schedule dependent)"
		f.Message = tail(out)
		return f, ""
	}
	return nil, fmt.Sprintf("worker ended with %d and the case does not reproduce: %s", code, tail(out))
}

func tail(s string) string {
	if i := strings.Index(s, "panic:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "fatal error:"); i >= 0 {
		s = s[i:]
	} else if i := strings.Index(s, "WARNING: DATA RACE"); i >= 0 {
		s = s[i:]
	}
	if len(s) > 6000 {
		s = s[:6000]
	}
	return s
}

type limitWriter struct {
	w *bytes.Buffer
	n int
}

func (self *limitWriter) Write(b []byte) (int, error) {
	if self.w.Len() < self.n {
		self.w.Write(b)
	}
	return len(b), nil
}

// Known findings are committed in /verif/known_findings.txt, one per line:
//
//	KNOWN-FINDING: property=<id> replay=<file below /verif> <what fails>
//	fixed: property=<id> <commit> <what failed>
//
// The generators exclude the inputs of a known finding; each listed input is
// run here, alone, and reported while it still fails.
func runFindings(self, verif, id string) []string {
	res := []string{}
	data, err := os.ReadFile(filepath.Join(verif, "known_findings.txt"))
	if err != nil {
		return res
	}
	for _, line := range strings.Split(string(data), "\n") {
		if !strings.HasPrefix(line, "KNOWN-FINDING: property="+id+" ") {
			continue
		}
		path := ""
		for _, w := range strings.Fields(line) {
			if strings.HasPrefix(w, "replay=") {
				path = filepath.Join(verif, strings.TrimPrefix(w, "replay="))
			}
		}
		if path == "" {
			continue
		}
		o := replay(self, path)
		if o.failed {
			fmt.Println(line)
			res = append(res, line)
		} else {
			fmt.Printf("note: known finding no longer fails: %s\n", line)
		}
	}
	return res
}
