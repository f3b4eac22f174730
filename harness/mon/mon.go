// Package mon runs the monitored workloads: it gives every case its own
// deterministic PRNG, journals which case each worker is running (so that a
// crash, a stuck execution or a race report is attributed to a case), collects
// what the monitors observed, and writes the evidence and replay files.
package mon

import (
	"fmt"
	"hash/fnv"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
)

// Workload is one family of monitored executions of a property.
type Workload struct {
	Name string
	// number of cases in each tier.
	Quick, Thorough int
	// Race workloads are run in the binary built with the race detector.
	Race bool
	// Serial workloads run one case at a time.
	Serial bool
	Run    func(*Case)
}

type Property struct {
	ID          string
	Title       string
	Level       string
	Rule        string
	Assumptions []string
	Workloads   []Workload
}

var registry = map[string]*Property{}

func Register(p *Property) {
	if _, ok := registry[p.ID]; ok {
		panic("duplicate property " + p.ID)
	}
	if p.Level == "" {
		p.Level = "exploration"
	}
	registry[p.ID] = p
}

func Get(id string) *Property { return registry[id] }

func IDs() []string {
	out := []string{}
	for id := range registry {
		out = append(out, id)
	}
	sort.Strings(out)
	return out
}

type Violation struct {
	Property string            `json:"property"`
	Workload string            `json:"workload"`
	Index    int               `json:"index"`
	Seed     int64             `json:"seed"`
	Tier     string            `json:"tier"`
	Race     bool              `json:"race"`
	Key      string            `json:"key"`
	Message  string            `json:"message"`
	Notes    map[string]string `json:"notes,omitempty"`
	Stack    string            `json:"stack,omitempty"`
}

// Case is one monitored execution.
type Case struct {
	Property *Property
	Workload *Workload
	Index    int
	Tier     string
	Seed     int64
	R        *Rand

	col   *collector
	mu    sync.Mutex
	notes map[string]string
	fail  *Violation
	wg    sync.WaitGroup
}

type abortCase struct{}

// Report records a violation without ending the execution.
func (c *Case) Report(key, format string, args ...any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.fail != nil {
		return
	}
	notes := map[string]string{}
	for k, v := range c.notes {
		notes[k] = v
	}
	c.fail = &Violation{
		Property: c.Property.ID, Workload: c.Workload.Name, Index: c.Index, Seed: c.Seed, Tier: c.Tier,
		Race: raceEnabled, Key: key, Message: fmt.Sprintf(format, args...), Notes: notes,
		Stack: trimStack(string(debug.Stack())),
	}
}

// Failf records a violation and ends the case (in the calling goroutine).
func (c *Case) Failf(key, format string, args ...any) {
	c.Report(key, format, args...)
	panic(abortCase{})
}

func (c *Case) Failed() bool {
	c.mu.Lock()
	defer c.mu.Unlock()
	return c.fail != nil
}

// Note attaches a detail of the case to the replay file.
func (c *Case) Note(key, format string, args ...any) {
	s := format
	if len(args) > 0 {
		s = fmt.Sprintf(format, args...)
	}
	if len(s) > 16384 {
		s = s[:16384] + fmt.Sprintf("... (%d bytes)", len(s))
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if c.notes == nil {
		c.notes = map[string]string{}
	}
	c.notes[key] = s
}

// Event counts something the monitors observed.
func (c *Case) Event(name string) { c.col.event(name, 1) }

func (c *Case) EventN(name string, n int) { c.col.event(name, n) }

// State records that the case reached a (non-trivial) state, for the count of
// distinct ones.
func (c *Case) State(parts ...any) {
	h := fnv.New64a()
	fmt.Fprint(h, parts...)
	c.col.state(h.Sum64())
}

func (c *Case) StateBytes(b []byte) {
	h := fnv.New64a()
	h.Write(b)
	c.col.state(h.Sum64())
}

// Sample keeps a few of the actual cases for the evidence.
func (c *Case) Sample(format string, args ...any) {
	c.col.sample(c.Workload.Name, c.Index, func() string {
		s := fmt.Sprintf(format, args...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		return s
	})
}

// Go runs part of a case in another goroutine: a panic in it is a violation.
func (c *Case) Go(fn func()) {
	c.wg.Add(1)
	go func() {
		defer c.wg.Done()
		defer c.recover()
		fn()
	}()
}

// Wait waits for everything started by Go, and ends the case when that found a
// violation.
func (c *Case) Wait() {
	c.wg.Wait()
	if c.Failed() {
		panic(abortCase{})
	}
}

func (c *Case) recover() {
	p := recover()
	if p == nil {
		return
	}
	if _, ok := p.(abortCase); ok {
		return
	}
	c.Report("panic", "panic: %v", p)
	c.mu.Lock()
	c.fail.Stack = trimStack(string(debug.Stack()))
	c.mu.Unlock()
}

// NoPanic calls the function and reports whether it panicked.
func NoPanic(fn func()) (panicked any) {
	defer func() {
		if p := recover(); p != nil {
			if _, ok := p.(abortCase); ok {
				panic(p)
			}
			panicked = p
			if panicked == nil {
				panicked = "nil"
			}
		}
	}()
	fn()
	return nil
}

func (c *Case) run() {
	defer c.recover()
	c.Workload.Run(c)
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 80 {
		lines = lines[:80]
	}
	return strings.Join(lines, "\n")
}

type collector struct {
	mu     sync.Mutex
	events map[string]int
	states [64]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
	samples map[string][]string
	cases   map[string]int
}

func newCollector() *collector {
	c := &collector{events: map[string]int{}, samples: map[string][]string{}, cases: map[string]int{}}
	for i := range c.states {
		c.states[i].m = map[uint64]struct{}{}
	}
	return c
}

func (c *collector) event(name string, n int) {
	c.mu.Lock()
	c.events[name] += n
	c.mu.Unlock()
}

func (c *collector) state(h uint64) {
	s := &c.states[h%64]
	s.mu.Lock()
	s.m[h] = struct{}{}
	s.mu.Unlock()
}

func (c *collector) sample(workload string, index int, fn func() string) {
	if index > 2 && index%997 != 0 {
		return
	}
	c.mu.Lock()
	if len(c.samples[workload]) >= 4 {
		c.mu.Unlock()
		return
	}
	c.mu.Unlock()
	s := fmt.Sprintf("%s/%d: %s", workload, index, fn())
	c.mu.Lock()
	if len(c.samples[workload]) < 4 {
		c.samples[workload] = append(c.samples[workload], s)
	}
	c.mu.Unlock()
}

func (c *collector) distinct() int {
	n := 0
	for i := range c.states {
		n += len(c.states[i].m)
	}
	return n
}

func fatal(format string, args ...any) {
	fmt.Fprintf(os.Stderr, format+"\n", args...)
	os.Exit(2)
}
