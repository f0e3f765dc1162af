// Package props is the property-based testing harness for vfilter.
//
// A property is a list of "arms". An arm has a rapid generator producing a
// JSON-serialisable case and a check which runs the real code on the case and
// compares it with an explicit oracle. The check always sees the case after a
// JSON round trip, so that a saved replay file is exactly what was executed.
package props

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// R is the handle given to a check.
type R struct {
	T *testing.T

	counting bool // false while shrinking or replaying
	arm      *ArmResult
	hash     uint64
	nontriv  bool
	failmsg  string
}

type failure struct{ msg string }

// Failf reports a violation of the property.
func (r *R) Failf(format string, a ...interface{}) {
	panic(failure{fmt.Sprintf(format, a...)})
}

// Class counts the case under a label.
func (r *R) Class(label string) {
	if r.counting {
		r.arm.Classes[label]++
	}
}

// NonTrivial marks the current case as non trivial.
func (r *R) NonTrivial() { r.nontriv = true }

func (r *R) NonTrivialIf(b bool) {
	if b {
		r.nontriv = true
	}
}

// Count adds to a named counter of the evidence.
func (r *R) Count(label string, n int) {
	if r.counting {
		r.arm.Counters[label] += n
	}
}

type Arm struct {
	Name            string
	Quick, Thorough int
	Serial          bool // run in shard 0 only
	Gen             func(t *rapid.T) interface{}
	New             func() interface{}
	Check           func(r *R, c interface{})
}

type Prop struct {
	ID          string
	Rule        string
	Assumptions []string
	Arms        []*Arm
	Race        bool // run from the binary built with the race detector
}

var registry = map[string]*Prop{}

func register(p *Prop) { registry[p.ID] = p }

func arm[C any](name string, quick, thorough int,
	gen func(t *rapid.T) *C, check func(r *R, c *C)) *Arm {
	return &Arm{
		Name: name, Quick: quick, Thorough: thorough,
		Gen:   func(t *rapid.T) interface{} { return gen(t) },
		New:   func() interface{} { return new(C) },
		Check: func(r *R, c interface{}) { check(r, c.(*C)) },
	}
}

// ArmResult is what a worker reports about one arm.
type ArmResult struct {
	Name        string
	Evaluations int
	Classes     map[string]int
	Counters    map[string]int
	Hashes      []uint64
	Samples     []json.RawMessage
	Failure     *Failure
	WallS       float64
	Error       string
}

type Failure struct {
	Property string          `json:"property"`
	Arm      string          `json:"arm"`
	Message  string          `json:"message"`
	Case     json.RawMessage `json:"case"`
	Kind     string          `json:"kind"`
}

// rapid.TB that swallows the output.
type quietTB struct {
	failed bool
	logs   []string
}

type stopTB struct{}

func (self *quietTB) Helper()      {}
func (self *quietTB) Name() string { return "verif" }
func (self *quietTB) Logf(f string, a ...any) {
	if len(self.logs) < 50 {
		self.logs = append(self.logs, fmt.Sprintf(f, a...))
	}
}
func (self *quietTB) Log(a ...any)              { self.Logf("%s", fmt.Sprint(a...)) }
func (self *quietTB) Skipf(f string, a ...any)  { panic(stopTB{}) }
func (self *quietTB) Skip(a ...any)             { panic(stopTB{}) }
func (self *quietTB) SkipNow()                  { panic(stopTB{}) }
func (self *quietTB) Errorf(f string, a ...any) { self.failed = true; self.Logf(f, a...) }
func (self *quietTB) Error(a ...any)            { self.failed = true; self.Log(a...) }
func (self *quietTB) Fatalf(f string, a ...any) {
	self.failed = true
	self.Logf(f, a...)
	panic(stopTB{})
}
func (self *quietTB) Fatal(a ...any) { self.failed = true; self.Log(a...); panic(stopTB{}) }
func (self *quietTB) FailNow()       { self.failed = true; panic(stopTB{}) }
func (self *quietTB) Fail()          { self.failed = true }
func (self *quietTB) Failed() bool   { return self.failed }

// current records the case being executed so that the orchestrator can find
// it when the process dies.
type current struct {
	mu    sync.Mutex
	fd    *os.File
	start time.Time
	busy  bool
}

func (self *current) begin(prop, arm string, c json.RawMessage) {
	f := Failure{Property: prop, Arm: arm, Case: c, Kind: "crash"}
	buf, _ := json.Marshal(f)
	self.mu.Lock()
	defer self.mu.Unlock()
	self.start = time.Now()
	self.busy = true
	if self.fd != nil {
		_ = self.fd.Truncate(0)
		_, _ = self.fd.WriteAt(buf, 0)
	}
}

func (self *current) end() {
	self.mu.Lock()
	self.busy = false
	self.mu.Unlock()
}

// runCheck runs the check on the encoded case and returns the violation
// message, if any.
func runCheck(r *R, a *Arm, raw json.RawMessage) (msg string, failed bool) {
	c := a.New()
	err := json.Unmarshal(raw, c)
	if err != nil {
		panic("harness: can not decode case: " + err.Error())
	}
	defer func() {
		if e := recover(); e != nil {
			f, ok := e.(failure)
			if ok {
				msg, failed = f.msg, true
				return
			}
			stack := string(debug.Stack())
			if strings.Contains(fmt.Sprint(e), "harness:") {
				panic(e)
			}
			msg, failed = fmt.Sprintf("panic: %v\n%s", e, trimStack(stack)), true
		}
	}()
	a.Check(r, c)
	return "", false
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 60 {
		lines = lines[:60]
	}
	return strings.Join(lines, "\n")
}

func hash64(b []byte) uint64 {
	h := fnv.New64a()
	h.Write(b)
	return h.Sum64()
}

func mustJSON(x interface{}) json.RawMessage {
	res, err := json.Marshal(x)
	if err != nil {
		panic("harness: " + err.Error())
	}
	return res
}

func sortedKeys[T any](m map[string]T) []string {
	res := []string{}
	for k := range m {
		res = append(res, k)
	}
	sort.Strings(res)
	return res
}
