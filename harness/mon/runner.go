package mon

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
)

const (
	slotSize     = 96
	maxHeap      = 10 << 30
	hangAfter    = 40 * time.Second
	spinAfter    = 150 * time.Second
	maxViolation = 3
)

type result struct {
	Complete   bool                `json:"complete"`
	Cases      map[string]int      `json:"cases"`
	Events     map[string]int      `json:"events"`
	Distinct   int                 `json:"distinct"`
	Samples    map[string][]string `json:"samples"`
	Violations []*Violation        `json:"violations"`
	Known      map[string]int      `json:"known"`
}

type child struct {
	prop    *Property
	tier    string
	seed    int64
	workers int
	result  string
	slots   *os.File
	known   map[string]string

	col    *collector
	mu     sync.Mutex
	res    result
	stop   atomic.Bool
	gate   sync.RWMutex // held by watch while no other case may begin
	active []atomic.Pointer[running]
}

type running struct {
	c     *Case
	start time.Time
	cpu   time.Duration
}

// Main is the entry point of the harness binary.
func Main() {
	prop := flag.String("prop", "", "property to check")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	raceBin := flag.String("racebin", "", "harness binary built with the race detector")
	verif := flag.String("verif", "/verif", "directory of the evidence and replay files")
	isChild := flag.Bool("child", false, "run the cases")
	resultFile := flag.String("result", "", "result file of the child")
	slotFile := flag.String("slots", "", "journal of the child")
	workers := flag.Int("workers", 0, "number of parallel cases")
	only := flag.String("only", "", "workload:index to run alone")
	replay := flag.String("replay", "", "replay file")
	list := flag.Bool("list", false, "list the properties")
	needsRace := flag.Bool("needs-race", false, "print which builds the property needs")
	scale := flag.Float64("scale", 1, "scale the number of cases (for experiments)")
	flag.Parse()

	if *list {
		for _, id := range IDs() {
			fmt.Println(id)
		}
		return
	}

	if *replay != "" {
		data, err := os.ReadFile(*replay)
		if err != nil {
			fatal("%v", err)
		}
		v := Violation{}
		if err := json.Unmarshal(data, &v); err != nil {
			fatal("%v", err)
		}
		*prop, *tier, *seed = v.Property, v.Tier, v.Seed
		*only = fmt.Sprintf("%s:%d", v.Workload, v.Index)
	}

	p := Get(*prop)
	if p == nil {
		fatal("unknown property %q", *prop)
	}

	for i := range p.Workloads {
		w := &p.Workloads[i]
		w.Quick = max(1, int(float64(w.Quick)**scale))
		w.Thorough = max(1, int(float64(w.Thorough)**scale))
	}

	if *needsRace {
		for _, w := range p.Workloads {
			if w.Race {
				fmt.Println("race")
				return
			}
		}
		fmt.Println("plain")
		return
	}

	if *workers == 0 {
		*workers = runtime.GOMAXPROCS(0)
	}

	known := readKnown(filepath.Join(*verif, "known_findings.txt"), p.ID)

	if *isChild || *replay != "" {
		debug.SetMaxStack(512 << 20)
		ch := &child{prop: p, tier: *tier, seed: *seed, workers: *workers, result: *resultFile, known: known, col: newCollector()}
		if *slotFile != "" {
			f, err := os.OpenFile(*slotFile, os.O_RDWR|os.O_CREATE, 0o644)
			if err != nil {
				fatal("%v", err)
			}
			ch.slots = f
		}
		ch.main(*only)
		if *replay != "" {
			for _, v := range ch.res.Violations {
				fmt.Printf("%s\n%s\n", v.Message, v.Stack)
				for k, n := range v.Notes {
					fmt.Printf("%s: %s\n", k, n)
				}
			}
			if len(ch.res.Violations) > 0 {
				os.Exit(1)
			}
		}
		return
	}

	par := &parent{prop: p, tier: *tier, seed: *seed, verif: *verif, raceBin: *raceBin, workers: *workers, scale: *scale, known: known}
	os.Exit(par.main())
}

func readKnown(path, prop string) map[string]string {
	out := map[string]string{}
	data, err := os.ReadFile(path)
	if err != nil {
		return out
	}
	sc := bufio.NewScanner(bytes.NewReader(data))
	for sc.Scan() {
		line := sc.Text()
		rest, ok := strings.CutPrefix(line, "known: property="+prop+" key=")
		if !ok {
			continue
		}
		key, desc, _ := strings.Cut(rest, " ")
		out[key] = desc
	}
	return out
}

func (ch *child) count(w *Workload) int {
	if ch.tier == "thorough" {
		return w.Thorough
	}
	return w.Quick
}

func (ch *child) main(only string) {
	ch.active = make([]atomic.Pointer[running], ch.workers)
	ch.res.Known = map[string]int{}
	go ch.watch()

	for i := range ch.prop.Workloads {
		w := &ch.prop.Workloads[i]
		if only != "" {
			name, idx, _ := strings.Cut(only, ":")
			if name != w.Name {
				continue
			}
			n, _ := strconv.Atoi(idx)
			ch.runCase(0, w, n)
			continue
		}
		if w.Race != raceEnabled {
			continue
		}
		n := ch.count(w)
		workers := ch.workers
		if w.Serial {
			workers = 1
		}
		var next atomic.Int64
		var wg sync.WaitGroup
		for k := 0; k < workers; k++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for {
					ch.gate.RLock()
					ch.gate.RUnlock() //nolint:staticcheck
					if ch.stop.Load() {
						return
					}
					idx := int(next.Add(1) - 1)
					if idx >= n {
						return
					}
					ch.runCase(k, w, idx)
				}
			}()
		}
		wg.Wait()
		if ch.stop.Load() {
			break
		}
	}
	ch.finish(true)
}

func (ch *child) runCase(slot int, w *Workload, idx int) {
	c := &Case{
		Property: ch.prop, Workload: w, Index: idx, Tier: ch.tier, Seed: ch.seed, col: ch.col,
		R: NewRand(ch.seed, ch.prop.ID+"/"+w.Name, idx),
	}
	if ch.slots != nil {
		rec := make([]byte, slotSize)
		copy(rec, fmt.Sprintf("%s:%d", w.Name, idx))
		_, _ = ch.slots.WriteAt(rec, int64(slot*slotSize))
	}
	ch.active[slot].Store(&running{c: c, start: time.Now(), cpu: processCPU()})
	c.run()
	ch.active[slot].Store(nil)
	if ch.slots != nil {
		_, _ = ch.slots.WriteAt(make([]byte, slotSize), int64(slot*slotSize))
	}
	ch.col.mu.Lock()
	ch.col.cases[w.Name]++
	ch.col.mu.Unlock()

	c.mu.Lock()
	v := c.fail
	c.mu.Unlock()
	if v != nil {
		ch.violation(v)
	}
}

func (ch *child) violation(v *Violation) {
	ch.mu.Lock()
	defer ch.mu.Unlock()
	if _, ok := ch.known[v.Key]; ok {
		ch.res.Known[v.Key]++
		return
	}
	ch.res.Violations = append(ch.res.Violations, v)
	if len(ch.res.Violations) >= maxViolation {
		ch.stop.Store(true)
	}
}

func (ch *child) finish(complete bool) {
	ch.mu.Lock()
	defer ch.mu.Unlock()
	ch.col.mu.Lock()
	defer ch.col.mu.Unlock()
	ch.res.Complete = complete
	ch.res.Cases = ch.col.cases
	ch.res.Events = ch.col.events
	ch.res.Samples = ch.col.samples
	ch.res.Distinct = ch.col.distinct()
	if ch.result == "" {
		return
	}
	data, _ := json.Marshal(&ch.res)
	if err := os.WriteFile(ch.result, data, 0o644); err != nil {
		fatal("%v", err)
	}
}

func processCPU() time.Duration {
	var ru syscall.Rusage
	_ = syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return time.Duration(ru.Utime.Nano() + ru.Stime.Nano())
}

// watch looks for executions that don't end and for runaway memory. Time alone
// is never a verdict: a case is stuck when, while nothing else runs, none of the
// goroutines of the process can run, and it doesn't terminate when it has
// consumed minutes of processor time.
func (ch *child) watch() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	closed := false
	for {
		time.Sleep(100 * time.Millisecond)
		metrics.Read(sample)
		if heap := sample[0].Value.Uint64(); heap > maxHeap {
			ch.abort(nil, "memory", fmt.Sprintf("the heap grew to %d bytes", heap), "")
		}
		var old *running
		for i := range ch.active {
			if r := ch.active[i].Load(); r != nil && time.Since(r.start) > hangAfter && (old == nil || r.start.Before(old.start)) {
				old = r
			}
		}
		if old == nil {
			if closed {
				ch.gate.Unlock()
				closed = false
			}
			continue
		}
		if !closed {
			ch.gate.Lock()
			closed = true
		}
		// let the other cases end.
		for deadline := time.Now().Add(30 * time.Second); time.Now().Before(deadline); time.Sleep(100 * time.Millisecond) {
			n := 0
			for i := range ch.active {
				if ch.active[i].Load() != nil {
					n++
				}
			}
			if n <= 1 {
				break
			}
		}
		if !ch.isActive(old) {
			continue
		}
		first, dump := blocked()
		time.Sleep(3 * time.Second)
		second, _ := blocked()
		if first && second && ch.isActive(old) {
			ch.abort(old, "stuck", "the execution is stuck: no goroutine can run", dump)
		}
		if time.Since(old.start) > spinAfter && processCPU()-old.cpu > spinAfter/2 && ch.isActive(old) {
			_, dump := blocked()
			ch.abort(old, "spin", "the execution doesn't end", dump)
		}
	}
}

func (ch *child) isActive(r *running) bool {
	for i := range ch.active {
		if ch.active[i].Load() == r {
			return true
		}
	}
	return false
}

var goroutineHeader = regexp.MustCompile(`(?m)^goroutine \d+ (?:gp=\S+ m=\S+ (?:mp=\S+ )?)?\[([^\],]+)`)

func blocked() (bool, string) {
	buf := make([]byte, 4<<20)
	buf = buf[:runtime.Stack(buf, true)]
	all := true
	for _, g := range strings.Split(string(buf), "\n\n") {
		m := goroutineHeader.FindStringSubmatch(g)
		if m == nil || strings.Contains(g, "mon.(*child).watch") {
			continue
		}
		switch strings.TrimSuffix(strings.TrimSpace(m[1]), " (scan)") {
		case "running", "runnable", "syscall", "sleep", "waiting":
			all = false
		}
	}
	return all, string(buf)
}

func (ch *child) abort(r *running, key, message, dump string) {
	v := &Violation{Property: ch.prop.ID, Seed: ch.seed, Tier: ch.tier, Race: raceEnabled, Key: key, Message: message, Notes: map[string]string{}}
	if r == nil {
		for i := range ch.active {
			if o := ch.active[i].Load(); o != nil && (r == nil || o.start.Before(r.start)) {
				r = o
			}
		}
	}
	if r != nil {
		v.Workload, v.Index = r.c.Workload.Name, r.c.Index
		r.c.mu.Lock()
		for k, n := range r.c.notes {
			v.Notes[k] = n
		}
		r.c.mu.Unlock()
	}
	if len(dump) > 60000 {
		dump = dump[:60000]
	}
	v.Stack = dump
	ch.violation(v)
	ch.finish(false)
	os.Exit(3)
}

type parent struct {
	prop    *Property
	tier    string
	seed    int64
	verif   string
	raceBin string
	workers int
	scale   float64
	known   map[string]string
	tmp     string
	start   time.Time
}

func (p *parent) child(bin string, only string, workers int) (*result, string, []string, *exec.ExitError) {
	resFile := filepath.Join(p.tmp, "result.json")
	slotFile := filepath.Join(p.tmp, "slots")
	_ = os.Remove(resFile)
	_ = os.Remove(slotFile)
	args := []string{"-child", "-prop", p.prop.ID, "-tier", p.tier, "-seed", fmt.Sprint(p.seed), "-verif", p.verif,
		"-result", resFile, "-slots", slotFile, "-workers", fmt.Sprint(workers), "-scale", fmt.Sprint(p.scale)}
	if only != "" {
		args = append(args, "-only", only)
	}
	cmd := exec.Command(bin, args...)
	cmd.Dir = p.tmp
	cmd.Env = append(os.Environ(), "TZ=UTC", "GORACE=halt_on_error=1 exitcode=66", "GOTRACEBACK=all", "TMPDIR="+p.tmp)
	var stderr tailBuffer
	cmd.Stderr = &stderr
	cmd.Stdout = &stderr
	err := cmd.Run()
	res := &result{}
	if data, rerr := os.ReadFile(resFile); rerr == nil {
		_ = json.Unmarshal(data, res)
	}
	var inflight []string
	if data, rerr := os.ReadFile(slotFile); rerr == nil {
		for len(data) >= slotSize {
			if s := strings.TrimRight(string(data[:slotSize]), "\x00"); s != "" {
				inflight = append(inflight, s)
			}
			data = data[slotSize:]
		}
	}
	var ee *exec.ExitError
	if err != nil {
		var ok bool
		if ee, ok = err.(*exec.ExitError); !ok {
			fatal("cannot run the workloads: %v", err)
		}
	}
	return res, stderr.String(), inflight, ee
}

type tailBuffer struct {
	mu   sync.Mutex
	head []byte
	tail []byte
}

func (t *tailBuffer) Write(b []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	n := len(b)
	if room := 65536 - len(t.head); room > 0 {
		k := min(room, len(b))
		t.head = append(t.head, b[:k]...)
		b = b[k:]
	}
	t.tail = append(t.tail, b...)
	if len(t.tail) > 65536 {
		t.tail = t.tail[len(t.tail)-65536:]
	}
	return n, nil
}

func (t *tailBuffer) String() string {
	t.mu.Lock()
	defer t.mu.Unlock()
	return string(t.head) + string(t.tail)
}

func (p *parent) main() int {
	p.start = time.Now()
	tmp, err := os.MkdirTemp("", "birchmon")
	if err != nil {
		fatal("%v", err)
	}
	p.tmp = tmp
	defer os.RemoveAll(tmp)

	self, err := os.Executable()
	if err != nil {
		fatal("%v", err)
	}

	var total result
	total.Cases, total.Events, total.Samples, total.Known = map[string]int{}, map[string]int{}, map[string][]string{}, map[string]int{}
	complete := true
	expected := 0

	for _, race := range []bool{false, true} {
		need := false
		for _, w := range p.prop.Workloads {
			if w.Race == race {
				need = true
				if p.tier == "thorough" {
					expected += w.Thorough
				} else {
					expected += w.Quick
				}
			}
		}
		if !need || len(total.Violations) > 0 {
			continue
		}
		bin := self
		if race {
			bin = p.raceBin
			if bin == "" {
				fatal("the property needs the binary built with the race detector")
			}
		}
		res, stderr, inflight, ee := p.child(bin, "", p.workers)
		for k, n := range res.Cases {
			total.Cases[k] += n
		}
		for k, n := range res.Events {
			total.Events[k] += n
		}
		for k, n := range res.Known {
			total.Known[k] += n
		}
		for k, s := range res.Samples {
			total.Samples[k] = append(total.Samples[k], s...)
		}
		total.Distinct += res.Distinct
		total.Violations = append(total.Violations, res.Violations...)
		if ee != nil && len(res.Violations) == 0 {
			complete = false
			if v := p.crash(bin, race, stderr, inflight, ee); v != nil {
				total.Violations = append(total.Violations, v)
			} else {
				fmt.Fprintln(os.Stderr, stderr)
				fatal("inconclusive: the workloads ended with %v", ee)
			}
		} else if !res.Complete {
			complete = false
		}
	}

	for _, v := range total.Violations {
		p.report(v)
	}
	keys := []string{}
	for k := range total.Known {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	for _, k := range keys {
		fmt.Printf("KNOWN-FINDING: property=%s key=%s %s (seen %d times)\n", p.prop.ID, k, p.known[k], total.Known[k])
	}

	evaluated := 0
	for _, n := range total.Cases {
		evaluated += n
	}
	p.evidence(&total, evaluated)

	if len(total.Violations) > 0 {
		return 1
	}
	if !complete || evaluated != expected {
		fatal("inconclusive: %d of %d cases ran", evaluated, expected)
	}
	if total.Distinct < 2 || len(total.Events) == 0 {
		fatal("inconclusive: the monitors observed nothing")
	}
	fmt.Printf("property %s held on %d executions (%d distinct states, %s, seed %d, %.1fs)\n", p.prop.ID, evaluated, total.Distinct, p.tier, p.seed, time.Since(p.start).Seconds())
	return 0
}

func (p *parent) crash(bin string, race bool, stderr string, inflight []string, ee *exec.ExitError) *Violation {
	mk := func(only, out string) *Violation {
		v := &Violation{Property: p.prop.ID, Seed: p.seed, Tier: p.tier, Race: race, Key: "crash", Message: firstLine(out), Stack: out}
		if strings.Contains(out, "DATA RACE") {
			v.Key, v.Message = "race", "the race detector reported a data race"
		}
		if name, idx, ok := strings.Cut(only, ":"); ok {
			v.Workload = name
			v.Index, _ = strconv.Atoi(idx)
		}
		v.Notes = map[string]string{"in_flight": strings.Join(inflight, " ")}
		return v
	}
	if strings.Contains(stderr, "DATA RACE") {
		only := ""
		if len(inflight) > 0 {
			only = inflight[0]
		}
		return mk(only, stderr)
	}
	if strings.Contains(stderr, "inconclusive:") {
		return nil
	}
	// find the case that crashes.
	for _, only := range inflight {
		_, out, _, ee := p.child(bin, only, 1)
		if ee != nil && !strings.Contains(out, "inconclusive:") {
			return mk(only, out)
		}
	}
	if strings.Contains(stderr, "panic:") || strings.Contains(stderr, "fatal error:") || strings.Contains(stderr, "unexpected fault") || strings.Contains(stderr, "SIGSEGV") {
		return mk("", stderr)
	}
	return nil
}

func firstLine(s string) string {
	for _, l := range strings.Split(s, "\n") {
		if strings.Contains(l, "panic:") || strings.Contains(l, "fatal error:") || strings.Contains(l, "runtime:") {
			return l
		}
	}
	l, _, _ := strings.Cut(s, "\n")
	return l
}

func (p *parent) report(v *Violation) {
	dir := filepath.Join(p.verif, "replays")
	_ = os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%s-%d-seed%d.json", v.Property, v.Workload, v.Index, v.Seed))
	data, _ := json.MarshalIndent(v, "", " ")
	_ = os.WriteFile(path, data, 0o644)
	msg := v.Message
	if len(msg) > 600 {
		msg = msg[:600] + "..."
	}
	fmt.Printf("%s/%s case %d: [%s] %s\n", v.Property, v.Workload, v.Index, v.Key, msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", v.Property, path)
}

func (p *parent) evidence(r *result, evaluated int) {
	samples := []string{}
	names := []string{}
	for k := range r.Samples {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		s := r.Samples[k]
		sort.Strings(s)
		samples = append(samples, s[:min(len(s), 3)]...)
	}
	ev := map[string]any{
		"property": p.prop.ID,
		"tier":     p.tier,
		"seed":     p.seed,
		"level":    p.prop.Level,
		"coverage": map[string]any{
			"evaluations":         evaluated,
			"distinct_nontrivial": r.Distinct,
			"rule":                p.prop.Rule,
			"samples":             samples,
			"executions":          r.Cases,
			"observed_events":     r.Events,
		},
		"assumptions": p.prop.Assumptions,
		"wall_s":      time.Since(p.start).Seconds(),
		"violations":  len(r.Violations),
	}
	if p.prop.Assumptions == nil {
		delete(ev, "assumptions")
	}
	dir := filepath.Join(p.verif, "evidence")
	_ = os.MkdirAll(dir, 0o755)
	data, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(dir, p.prop.ID+".json"), append(data, '\n'), 0o644); err != nil {
		fatal("%v", err)
	}
}
