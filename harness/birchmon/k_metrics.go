package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/ftdc/metrics"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:   "K01",
		Rule: "streams of JSON documents from readers and files are collected; the output files are decoded and compared with the documents; sources and outputs fail, stall, are cancelled, and are written while they are followed; a case is non-trivial when its documents are new",
		Workloads: []mon.Workload{
			{Name: "streams", Quick: 2000, Thorough: 60000, Run: k01Streams},
			{Name: "faults", Quick: 2000, Thorough: 40000, Run: k01Faults},
			{Name: "follow", Quick: 240, Thorough: 6000, Run: k01Follow},
			{Name: "leaks", Quick: 120, Thorough: 2000, Serial: true, Run: k01Leaks},
			{Name: "race", Quick: 200, Thorough: 3000, Race: true, Run: k01Race},
		},
	})
	mon.Register(&mon.Property{
		ID:   "K02",
		Rule: "runtime collections run with random intervals, options and custom collectors; the output files are decoded and compared with what the collectors gave; a case is non-trivial when its history is new",
		Workloads: []mon.Workload{
			{Name: "collections", Quick: 400, Thorough: 6000, Run: k02Collect},
			{Name: "options", Quick: 5000, Thorough: 100000, Run: k02Options},
			{Name: "failures", Quick: 200, Thorough: 3000, Run: k02Failures},
			{Name: "race", Quick: 120, Thorough: 2000, Race: true, Run: k02Collect},
		},
	})
	mon.Register(&mon.Property{
		ID:   "K03",
		Rule: "metrics structures with random numbers become documents that are compared, field by field, with a table; counters of the Go runtime are compared with ones read before and after; a case is non-trivial when its numbers are new",
		Workloads: []mon.Workload{
			{Name: "documents", Quick: 30000, Thorough: 600000, Run: k03Documents},
			{Name: "runtime", Quick: 300, Thorough: 5000, Serial: true, Run: k03Runtime},
			{Name: "processes", Quick: 6, Thorough: 60, Serial: true, Run: k03Processes},
			{Name: "concurrent", Quick: 60, Thorough: 600, Race: true, Run: k03Concurrent},
		},
	})
}

// scratch is a directory of the case's own.
func scratch(c *C) (string, func()) {
	dir, err := os.MkdirTemp("", "birchmon-")
	if err != nil {
		c.Failf("scratch", "%v", err)
	}
	return dir, func() { _ = os.RemoveAll(dir) }
}

// readDoc is a document.
func readDoc(d *Doc) *birch.Document {
	out, err := birch.ReadDocument(d.Encode())
	if err != nil {
		panic(err)
	}
	return out
}

// outputs are the files prefix.0, prefix.1 and so on; there are no others.
func outputs(c *C, dir, prefix string) [][]byte {
	entries, err := os.ReadDir(dir)
	if err != nil {
		c.Failf("scratch", "%v", err)
	}
	n := 0
	for _, e := range entries {
		if strings.HasPrefix(e.Name(), prefix) {
			n++
		}
	}
	var out [][]byte
	for i := range n {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("%s.%d", prefix, i)))
		if err != nil {
			names := []string{}
			for _, e := range entries {
				names = append(names, e.Name())
			}
			c.Failf("files", "the output has %d files, but no %s.%d: %q", n, prefix, i, names)
		}
		out = append(out, b)
	}
	return out
}

// samplesIn are the samples of the files, each of which can be read alone.
func samplesIn(c *C, files [][]byte) [][]byte {
	var out [][]byte
	for i, f := range files {
		got, err := readStructured(c, f)
		if err != nil {
			c.Failf("files", "output file %d of %d can't be read: %v", i, len(files), err)
		}
		c.EventN("samples", len(got))
		out = append(out, got...)
	}
	c.EventN("files", len(files))
	return out
}

// jsonShape are documents that have a JSON text and a meaning as metrics.
type jsonShape struct {
	r    *mon.Rand
	g    *ref.Gen
	doc  *Doc
	next int64
}

func newJSONShape(r *mon.Rand) *jsonShape {
	s := &jsonShape{r: r, g: ref.NewGen(r)}
	s.g.ValidUTF8 = true
	s.doc = s.shape(r.Range(0, 6), 2, false)
	return s
}

func (s *jsonShape) shape(n, depth int, array bool) *Doc {
	d := &Doc{}
	for i := range n {
		k := string(rune('a'+i%26)) + strconv.Itoa(i)
		if array {
			k = strconv.Itoa(i)
		}
		v := &Val{T: mon.Pick(s.r, []byte{ref.Int32, ref.Int64, ref.Double, ref.Boolean, ref.String, ref.Null, ref.Int32, ref.Int64})}
		if depth > 0 && s.r.Chance(4) {
			v.T = mon.Pick(s.r, []byte{ref.Document, ref.Array})
			v.D = s.shape(s.r.IntN(4), depth-1, v.T == ref.Array)
		}
		d.Append(k, v)
	}
	return d
}

// sample is the next document, and its text.
func (s *jsonShape) sample() (*Doc, string) {
	d := &Doc{}
	d.Append("n", &Val{T: ref.Int32, I: s.next})
	s.next++
	var sb strings.Builder
	fmt.Fprintf(&sb, `{"n":%d`, s.next-1)
	s.fill(s.doc, d, &sb, false, false)
	sb.WriteByte('}')
	return d, sb.String()
}

func (s *jsonShape) fill(t, d *Doc, sb *strings.Builder, array, first bool) {
	r := s.r
	space := func() {
		if r.Chance(8) {
			sb.WriteString(mon.Pick(r, []string{" ", "\t", "  "}))
		}
	}
	for _, e := range t.E {
		if !first {
			sb.WriteByte(',')
		}
		first = false
		space()
		if !array {
			fmt.Fprintf(sb, "%q:", e.K)
			space()
		}
		v := &Val{T: e.V.T}
		switch e.V.T {
		case ref.Int32:
			v.I = int64(int32(r.Uint64()))
			if r.Bool() {
				v.I = int64(r.IntN(10))
			}
			fmt.Fprintf(sb, "%d", v.I)
		case ref.Int64:
			v.I = mon.Pick(r, []int64{math.MaxInt32 + 1, math.MinInt32 - 1, math.MaxInt64, math.MinInt64, int64(r.Uint64()>>4) + math.MaxInt32 + 1})
			fmt.Fprintf(sb, "%d", v.I)
		case ref.Double:
			v.F = float64(r.IntN(2000)-1000) + 0.5
			if r.Bool() {
				v.F = (float64(r.Uint64()>>12) + 0.5) / 1024
			}
			sb.WriteString(strconv.FormatFloat(v.F, 'f', -1, 64))
		case ref.Boolean:
			v.I = int64(r.IntN(2))
			fmt.Fprint(sb, v.I == 1)
		case ref.String:
			fmt.Fprintf(sb, "%q", mon.Pick(r, []string{"", "x", "a longer string", "{", "}", "[1,2]"}))
		case ref.Null:
			sb.WriteString("null")
		case ref.Document:
			v.D = &Doc{}
			sb.WriteByte('{')
			s.fill(e.V.D, v.D, sb, false, true)
			sb.WriteByte('}')
		case ref.Array:
			v.D = &Doc{}
			sb.WriteByte('[')
			s.fill(e.V.D, v.D, sb, true, true)
			sb.WriteByte(']')
		}
		d.Append(e.K, v)
		space()
	}
}

// jsonStream is n documents of a few shapes, and their lines.
func jsonStream(r *mon.Rand, n int) (docs []*Doc, lines []string) {
	s := newJSONShape(r)
	change := r.Chance(3)
	for range n {
		if change && r.Chance(6) {
			next := s.next
			s = newJSONShape(r)
			s.next = next
		}
		d, l := s.sample()
		docs = append(docs, recorded(d, false))
		lines = append(lines, l)
	}
	return docs, lines
}

func flushEvery(r *mon.Rand) time.Duration {
	return mon.Pick(r, []time.Duration{0, time.Nanosecond, time.Microsecond, 50 * time.Microsecond, time.Millisecond, time.Hour, time.Hour, 100 * time.Hour})
}

func streamLen(r *mon.Rand, flush time.Duration) int {
	if flush < time.Millisecond {
		return r.IntN(25)
	}
	if r.Chance(40) {
		return r.Range(300, 4000)
	}
	switch r.IntN(4) {
	case 0:
		return r.IntN(4)
	case 1:
		return r.IntN(300)
	}
	return r.IntN(40)
}

// slowReader stops for a moment between its pieces.
type slowReader struct {
	io.Reader
	r *mon.Rand
}

func (s *slowReader) Read(p []byte) (int, error) {
	if s.r.Chance(4) {
		pause(s.r)
	}
	return s.Reader.Read(p)
}

func k01Streams(c *C) {
	dir, clean := scratch(c)
	defer clean()
	r := c.R
	opts := metrics.CollectJSONOptions{
		OutputFilePrefix: filepath.Join(dir, "out"),
		SampleCount:      mon.Pick(r, []int{1, 2, 3, 10, 100, 1000}),
		FlushInterval:    flushEvery(r),
	}
	docs, lines := jsonStream(r, streamLen(r, opts.FlushInterval))
	end := mon.Pick(r, []string{"\n", "\n", "\n", "\r\n"})
	text := strings.Join(lines, end)
	if r.Bool() && len(lines) > 0 {
		text += end
	}
	source := "reader"
	if r.Bool() {
		source = "file"
		opts.FileName = filepath.Join(dir, "in.json")
		if err := os.WriteFile(opts.FileName, []byte(text), 0o600); err != nil {
			c.Failf("scratch", "%v", err)
		}
	} else {
		opts.InputSource = &slowReader{&chunkReader{r: fork2(r), data: []byte(text), err: io.EOF}, fork2(r)}
	}
	c.Note("input", "%s", text)
	c.Note("options", "%s, samples %d, interval %s", source, opts.SampleCount, opts.FlushInterval)
	err := within1(60*time.Second, func() error { return metrics.CollectJSONStream(context.Background(), opts) })
	if err != nil {
		c.Failf("error", "%s: %v", source, err)
	}
	files := outputs(c, dir, "out")
	for i, f := range files {
		if len(f) == 0 {
			c.Failf("files", "output file %d of %d is empty", i, len(files))
		}
	}
	if opts.FlushInterval >= time.Hour && len(files) > 1 {
		c.Failf("files", "there are %d output files, but the flush interval is %s", len(files), opts.FlushInterval)
	}
	if len(docs) == 0 && len(files) != 0 {
		c.Failf("files", "there are output files for no documents")
	}
	sameSamples(c, source, samplesIn(c, files), docs)
	for _, f := range files {
		for _, ch := range decodeFTDC(c, "output", f) {
			if len(ch.Samples) > opts.SampleCount {
				c.Failf("chunks", "a chunk has %d samples, of at most %d", len(ch.Samples), opts.SampleCount)
			}
		}
	}
	c.Event("stream:" + source)
	c.EventN("documents", len(docs))
	if len(files) > 1 {
		c.Event("stream: several files")
	}
	c.StateBytes([]byte(text))
	c.Sample("%d documents from a %s, every %s: %d files", len(docs), source, opts.FlushInterval, len(files))
}

var brokenLines = []string{`{`, `}`, `{"a":}`, `{"a":1`, `"a":1}`, `nope`, `{"a" 1}`, `{"a":1}}`, `{"n":1}{"n":2}`, `{"a":tru}`, `{"a":1,}`, `["a"`}

// prefixOf says how many of the documents the samples are, from the first on.
func prefixOf(c *C, what string, got [][]byte, docs []*Doc, most int) int {
	if len(got) > most {
		c.Failf("samples", "%s: %d samples, of %d documents", what, len(got), most)
	}
	sameSamples(c, what, got, docs[:len(got)])
	return len(got)
}

type panicReader struct{ io.Reader }

func (p *panicReader) Read(b []byte) (int, error) {
	n, err := p.Reader.Read(b)
	if err != nil {
		panic("the reader panics")
	}
	return n, err
}

func k01Faults(c *C) {
	dir, clean := scratch(c)
	defer clean()
	r := c.R
	opts := metrics.CollectJSONOptions{
		OutputFilePrefix: filepath.Join(dir, "out"),
		SampleCount:      mon.Pick(r, []int{1, 2, 10, 1000}),
		FlushInterval:    flushEvery(r),
	}
	n := 1 + streamLen(r, opts.FlushInterval)
	docs, lines := jsonStream(r, n)
	most := n
	var failure error
	var broken bool
	kind := mon.Pick(r, []string{"line", "line", "source", "long", "long", "no file", "no directory", "panic", "options", "options"})
	reader := func(text string, err error) io.Reader {
		return &slowReader{&chunkReader{r: fork2(r), data: []byte(text), err: err}, fork2(r)}
	}
	give := func(text string) {
		if r.Bool() {
			opts.FileName = filepath.Join(dir, "in.json")
			if err := os.WriteFile(opts.FileName, []byte(text), 0o600); err != nil {
				c.Failf("scratch", "%v", err)
			}
			return
		}
		opts.InputSource = reader(text, io.EOF)
	}
	long := ""
	switch kind {
	case "line":
		most = r.IntN(n)
		lines[most] = mon.Pick(r, brokenLines)
		give(strings.Join(lines, "\n") + "\n")
		broken = true
	case "source":
		text := strings.Join(lines, "\n") + "\n"
		cut := r.IntN(len(text))
		if r.Bool() {
			cut = strings.LastIndexByte(text[:cut], '\n') + 1
		}
		most = strings.Count(text[:cut], "\n")
		failure = errors.New("the source's own error")
		if r.Chance(5) {
			failure = io.ErrUnexpectedEOF
		}
		if cut > 0 && text[cut-1] != '\n' {
			// the rest of the line may be read as a line
			most++
			opts.InputSource = reader(text[:cut], failure)
			failure = nil
		} else {
			opts.InputSource = reader(text[:cut], failure)
		}
		broken = true
	case "long":
		most = r.IntN(n)
		size := mon.Pick(r, []int{60_000, 65_000, 65_536, 66_000, 70_000, 200_000, 1_200_000})
		long = lines[most]
		long = long[:len(long)-1] + `,"long":"` + strings.Repeat("x", size) + `"}`
		lines[most] = long
		give(strings.Join(lines, "\n") + "\n")
	case "no file":
		opts.FileName = filepath.Join(dir, "in.json")
		most, broken = 0, true
		failure = os.ErrNotExist
	case "no directory":
		opts.OutputFilePrefix = filepath.Join(dir, "no", "out")
		give(strings.Join(lines, "\n") + "\n")
		most, broken = 0, true
		failure = os.ErrNotExist
	case "panic":
		opts.InputSource = &panicReader{reader(strings.Join(lines, "\n")+"\n", io.EOF)}
		broken = true
	case "options":
		most, broken = 0, true
		switch r.IntN(3) {
		case 0:
		case 1:
			opts.InputSource = reader(strings.Join(lines, "\n"), io.EOF)
			opts.FileName = filepath.Join(dir, "in.json")
			_ = os.WriteFile(opts.FileName, []byte(strings.Join(lines, "\n")), 0o600)
		case 2:
			opts.InputSource = reader(strings.Join(lines, "\n"), io.EOF)
			opts.Follow = true
		}
	}
	c.Note("kind", "%s", kind)
	c.Note("input", "%s", strings.Join(lines, "\n"))
	err := within1(60*time.Second, func() error { return metrics.CollectJSONStream(context.Background(), opts) })
	switch {
	case broken && err == nil:
		c.Failf("no-error", "%s: the collection gave no error", kind)
	case failure != nil && !errors.Is(err, failure):
		c.Failf("error", "%s: the error %v isn't %v", kind, err, failure)
	}
	if broken && strings.Contains(fmt.Sprint(err), "doesn't return") {
		c.Failf("stuck", "%s: %v", kind, err)
	}
	got := samplesIn(c, outputs(c, dir, "out"))
	if kind == "long" && err == nil {
		// the long line's document is only longer
		sameSamples(c, kind, got, docs)
		c.Event("long line collected")
	} else if prefixOf(c, kind, got, docs, most); kind == "long" {
		if len(long) < 64*1024-2 {
			c.Failf("error", "a line of %d bytes: %v", len(long), err)
		}
		c.Event("long line refused")
	}
	c.Event("fault:" + kind)
	c.State(kind, strings.Join(lines, "\n"))
	c.Sample("%s: %v", kind, err)
}

// writePieces writes the text to the file in pieces.
func writePieces(r *mon.Rand, f *os.File, text string) error {
	for len(text) > 0 {
		n := min(len(text), mon.Pick(r, []int{1, r.Range(1, 20), r.Range(1, 300), r.Range(1, 20000)}))
		if i := strings.IndexByte(text, '\n'); i >= 0 && r.Chance(3) {
			n = i + 1
		}
		if _, err := f.WriteString(text[:n]); err != nil {
			return err
		}
		text = text[n:]
		if r.Chance(3) {
			pause(r)
		}
		if r.Chance(10) {
			time.Sleep(time.Duration(r.IntN(3)) * time.Millisecond)
		}
	}
	return nil
}

func countSamples(c *C, dir string) int {
	n := 0
	for i := 0; ; i++ {
		b, err := os.ReadFile(filepath.Join(dir, fmt.Sprintf("out.%d", i)))
		if err != nil {
			return n
		}
		got, err := readStructured(c, b)
		if err != nil {
			return n
		}
		n += len(got)
	}
}

func k01Follow(c *C) {
	dir, clean := scratch(c)
	defer clean()
	r := c.R
	name := filepath.Join(dir, "in.json")
	docs, lines := jsonStream(r, r.Range(1, 60))
	text := strings.Join(lines, "\n") + "\n"
	before := 0
	if r.Bool() {
		before = r.IntN(len(text) + 1)
	}
	rest := "" // of a line that is never finished
	if r.Chance(3) {
		rest = `{"n": 77`
	}
	bad := -1
	if r.Chance(5) {
		bad = r.IntN(len(lines))
		lines[bad] = mon.Pick(r, brokenLines)
		text = strings.Join(lines, "\n") + "\n"
		before = min(before, len(text))
	}
	c.Note("input", "%s", text)
	c.Note("plan", "%d bytes are there before, broken line %d", before, bad)
	f, err := os.OpenFile(name, os.O_CREATE|os.O_WRONLY|os.O_APPEND, 0o600)
	if err != nil {
		c.Failf("scratch", "%v", err)
	}
	defer f.Close()
	if _, err := f.WriteString(text[:before]); err != nil {
		c.Failf("scratch", "%v", err)
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	wr := fork2(r)
	c.Go(func() {
		if wr.Bool() {
			time.Sleep(time.Duration(wr.IntN(5)) * time.Millisecond)
		}
		if err := writePieces(wr, f, text[before:]+rest); err != nil {
			c.Report("scratch", "%v", err)
		}
	})
	opts := metrics.CollectJSONOptions{
		OutputFilePrefix: filepath.Join(dir, "out"),
		SampleCount:      mon.Pick(r, []int{1, 5, 1000}),
		FlushInterval:    mon.Pick(r, []time.Duration{300 * time.Microsecond, time.Millisecond, 4 * time.Millisecond}),
		FileName:         name,
		Follow:           true,
	}
	res := make(chan error, 1)
	go func() { res <- metrics.CollectJSONStream(ctx, opts) }()
	if bad >= 0 {
		select {
		case err := <-res:
			if err == nil {
				c.Failf("no-error", "a malformed line gave no error")
			}
		case <-time.After(30 * time.Second):
			c.Failf("stuck", "a malformed line gave no error in 30 s")
		}
		c.Wait()
		prefixOf(c, "follow", samplesIn(c, outputs(c, dir, "out")), docs, bad)
		c.Event("follow: malformed")
		return
	}
	done := false
	arrived := within(30*time.Second, func() bool {
		select {
		case err = <-res:
			done = true
			return true
		default:
			time.Sleep(time.Millisecond)
			return countSamples(c, dir) >= len(docs)
		}
	})
	if done {
		c.Failf("error", "the collection ended: %v", err)
	}
	cancel()
	select {
	case err = <-res:
		if err == nil {
			c.Failf("no-error", "a cancelled collection gave no error")
		}
	case <-time.After(30 * time.Second):
		c.Failf("stuck", "a cancelled collection doesn't return")
	}
	c.Wait()
	got := samplesIn(c, outputs(c, dir, "out"))
	if !arrived {
		c.Failf("lost", "%d of %d documents arrived within 30 s", len(got), len(docs))
	}
	sameSamples(c, "follow", got, docs)
	c.Event("follow: complete")
	c.EventN("follow: bytes before", before)
	c.StateBytes([]byte(text))
	c.Sample("%d documents followed, %d bytes of them there before", len(docs), before)
}

// gate is a reader that blocks until it is opened.
type gate struct {
	data   io.Reader
	at     int
	block  chan struct{}
	reads  atomic.Int64
	inside atomic.Int64
}

func (g *gate) Read(p []byte) (int, error) {
	g.inside.Add(1)
	defer g.inside.Add(-1)
	if int(g.reads.Add(1)) > g.at {
		<-g.block
		return 0, io.EOF
	}
	n, err := g.data.Read(p[:min(len(p), 50)])
	if n == 0 {
		<-g.block
	}
	return n, err
}

func k01Leaks(c *C) {
	dir, clean := scratch(c)
	defer clean()
	r := c.R
	docs, lines := jsonStream(r, r.Range(1, 200))
	text := strings.Join(lines, "\n") + "\n"
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	opts := metrics.CollectJSONOptions{
		OutputFilePrefix: filepath.Join(dir, "out"),
		SampleCount:      10,
		FlushInterval:    mon.Pick(r, []time.Duration{time.Microsecond, time.Millisecond, time.Hour}),
	}
	kind := mon.Pick(r, []string{"reader", "blocked", "file", "follow", "output", "broken"})
	var g *gate
	var f *os.File
	inFile := func() {
		opts.FileName = filepath.Join(dir, "in.json")
		if err := os.WriteFile(opts.FileName, []byte(text), 0o600); err != nil {
			c.Failf("scratch", "%v", err)
		}
	}
	fails := true
	switch kind {
	case "reader":
		opts.InputSource = &slowReader{&chunkReader{r: fork2(r), data: []byte(text), err: io.EOF}, fork2(r)}
		fails = false
	case "blocked":
		g = &gate{data: strings.NewReader(text), at: r.IntN(20), block: make(chan struct{})}
		opts.InputSource = g
	case "file":
		inFile()
		fails = false
	case "follow":
		inFile()
		opts.Follow = true
	case "output":
		opts.OutputFilePrefix = filepath.Join(dir, "no", "out")
		opts.FlushInterval = time.Microsecond
		if r.Bool() {
			opts.InputSource = &slowReader{strings.NewReader(text), fork2(r)}
		} else {
			inFile()
		}
	case "broken":
		text += "{\n"
		inFile()
		opts.Follow = r.Bool()
	}
	defer func() {
		if f != nil {
			_ = f.Close()
		}
	}()
	c.Note("kind", "%s", kind)
	waits := time.Duration(r.IntN(1500)) * time.Microsecond
	if r.Chance(6) {
		waits = 0
		cancel()
	} else {
		time.AfterFunc(waits, cancel)
	}
	err := within1(20*time.Second, func() error { return metrics.CollectJSONStream(ctx, opts) })
	if err != nil && strings.Contains(err.Error(), "doesn't return") {
		c.Failf("stuck", "%s: a cancelled collection doesn't return", kind)
	}
	if fails && err == nil {
		c.Failf("no-error", "%s: no error", kind)
	}
	got := samplesIn(c, outputs(c, dir, "out"))
	if err == nil {
		sameSamples(c, kind, got, docs)
	} else {
		prefixOf(c, kind, got, docs, len(docs))
	}
	if g != nil {
		close(g.block)
	}
	left := ""
	if !within(10*time.Second, func() bool {
		left = stacksWith("ftdc/metrics.CollectJSON", "ftdc/metrics.follow", "fsnotify.(*Watcher)")
		return left == ""
	}) {
		c.Failf("leak", "%s: goroutines are left: %s", kind, left)
	}
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(to, dir) {
			c.Failf("leak", "%s: %s is left open", kind, to)
		}
	}
	c.Event("cancelled:" + kind)
	c.State(kind, text)
}

func k01Race(c *C) {
	switch c.R.IntN(3) {
	case 0:
		k01Follow(c)
	case 1:
		k01Faults(c)
	default:
		k01Streams(c)
	}
}

// --- K02

var golangFields = []string{"memory.objects.heap", "memory.summary.alloc", "memory.summary.system", "memory.heap.idle", "memory.heap.used", "memory.counters.mallocs", "memory.counters.frees", "gc.rate", "gc.pause.duration.last", "gc.pause.duration.latency", "goroutines.total", "cgo.calls"}

// runtimeSample checks the part of a sample that describes the process.
func runtimeSample(c *C, i int, d *Doc, opts *metrics.CollectOptions, last map[string]int64, start, end time.Time) {
	keys := []string{"id", "ts", "pid"}
	for _, x := range []struct {
		skip bool
		key  string
	}{{opts.SkipGolang, "golang"}, {opts.SkipSystem, "system"}, {opts.SkipProcess, "process"}} {
		if !x.skip {
			keys = append(keys, x.key)
		}
	}
	var got []string
	for _, e := range d.E {
		got = append(got, e.K)
	}
	if !reflect.DeepEqual(keys, got) {
		c.Failf("sample", "sample %d has the fields %q instead of %q", i, got, keys)
	}
	if id := d.E[0].V.I; id != int64(i) {
		c.Failf("id", "sample %d has the ID %d", i, id)
	}
	if ts := d.E[1].V.I; d.E[1].V.T != ref.DateTime || ts < start.UnixMilli() || ts > end.UnixMilli() || ts < last["ts"] {
		c.Failf("ts", "sample %d is at %d, not between %d and %d, or before %d", i, ts, start.UnixMilli(), end.UnixMilli(), last["ts"])
	}
	last["ts"] = d.E[1].V.I
	if pid := d.E[2].V.I; pid != int64(os.Getpid()) {
		c.Failf("pid", "sample %d has the PID %d", i, pid)
	}
	if opts.SkipGolang {
		return
	}
	g := d.E[3].V.D
	got = nil
	for _, e := range g.E {
		got = append(got, e.K)
		if e.V.T != ref.Int64 || e.V.I < 0 {
			c.Failf("golang", "sample %d, %s: %v", i, e.K, e.V)
		}
		switch e.K {
		case "memory.counters.mallocs", "memory.counters.frees", "gc.rate", "cgo.calls":
			if e.V.I < last[e.K] {
				c.Failf("golang", "sample %d: the total %s decreases from %d to %d", i, e.K, last[e.K], e.V.I)
			}
			last[e.K] = e.V.I
		}
	}
	if !reflect.DeepEqual(got, golangFields) {
		c.Failf("golang", "sample %d has the fields %q", i, got)
	}
	c.Event("runtime sample")
}

type custom struct {
	name  string
	s     *schema
	calls int64
	given []*Doc
}

func k02Collect(c *C) {
	dir, clean := scratch(c)
	defer clean()
	r := c.R
	opts := metrics.NewCollectOptions(filepath.Join(dir, "out"))
	if opts.Validate() != nil {
		c.Failf("options", "new options aren't valid: %v", opts.Validate())
	}
	opts.SampleCount = mon.Pick(r, []int{10, 11, 25, 1000})
	opts.CollectionInterval = time.Millisecond
	opts.FlushInterval = mon.Pick(r, []time.Duration{time.Millisecond, 3 * time.Millisecond, 10 * time.Millisecond, time.Hour})
	opts.SkipProcess = !r.Chance(10)
	opts.SkipSystem = true
	opts.SkipGolang = !opts.SkipProcess && r.Bool()
	var customs []*custom
	var mu sync.Mutex
	n := int64(r.Range(1, 40))
	if fork2(r).Chance(25) {
		n = int64(fork2(r).Range(200, 600))
	}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type key struct{}
	ctx = context.WithValue(ctx, key{}, c)
	names := map[string]bool{"runtime": true}
	if r.Chance(4) {
		time.AfterFunc(time.Duration(n)*time.Millisecond, cancel)
	} else {
		opts.RunParallelCollectors = r.Bool()
		for range r.Range(1, 12) {
			name := mon.Pick(r, []string{"a", "b", "runtime.x", "z", "Z", "é", "0", "stats", "q"}) + strconv.Itoa(r.IntN(100))
			if names[name] {
				continue
			}
			names[name] = true
			x := &custom{name: name, s: newSchema(fork2(r), schemaOpts{elems: r.Range(0, 5)})}
			first := len(customs) == 0
			pr := fork2(r)
			opts.Collectors = append(opts.Collectors, metrics.CustomCollector{Name: name, Operation: func(got context.Context) *birch.Document {
				if got.Value(key{}) != c {
					c.Report("context", "a collector's context isn't the collection's")
				}
				mu.Lock()
				x.calls++
				d := x.s.sample()
				x.given = append(x.given, d)
				slow := pr.Chance(5)
				calls := x.calls
				mu.Unlock()
				if slow {
					time.Sleep(time.Duration(calls%7) * 100 * time.Microsecond)
				}
				if first && calls == n {
					cancel()
				}
				return readDoc(d)
			}})
			customs = append(customs, x)
		}
	}
	c.Note("options", "%+v", opts)
	start := time.Now()
	err := within1(60*time.Second, func() error { return metrics.CollectRuntime(ctx, opts) })
	if err != nil {
		c.Failf("error", "%v", err)
	}
	if ctx.Err() == nil {
		c.Failf("ended", "the collection ended before it was cancelled")
	}
	end := time.Now()
	mu.Lock()
	defer mu.Unlock()
	sort.SliceStable(customs, func(i, j int) bool { return customs[i].name < customs[j].name })
	order := []string{"runtime"}
	for _, x := range customs {
		order = append(order, x.name)
	}
	if opts.RunParallelCollectors {
		sort.Strings(order)
	}
	files := outputs(c, dir, "out")
	for i, f := range files {
		if len(f) == 0 && i+1 < len(files) {
			c.Failf("files", "output file %d of %d is empty", i, len(files))
		}
	}
	if opts.FlushInterval == time.Hour && len(files) > 2 {
		c.Failf("files", "there are %d files, but the flush interval is %s", len(files), opts.FlushInterval)
	}
	samples := samplesIn(c, files)
	last := map[string]int64{}
	for i, b := range samples {
		d, err := ref.Decode(b)
		if err != nil {
			c.Failf("sample", "sample %d: %v", i, err)
		}
		if len(customs) == 0 {
			runtimeSample(c, i, d, &opts, last, start, end)
			continue
		}
		var got []string
		for _, e := range d.E {
			got = append(got, e.K)
		}
		if !reflect.DeepEqual(got, order) {
			c.Failf("collectors", "sample %d has the fields %q instead of %q", i, got, order)
		}
		for _, e := range d.E {
			if e.K == "runtime" {
				runtimeSample(c, i, e.V.D, &opts, last, start, end)
				continue
			}
			for _, x := range customs {
				if x.name != e.K {
					continue
				}
				if i >= len(x.given) {
					c.Failf("collectors", "there are %d samples, but collector %s was called %d times", len(samples), x.name, len(x.given))
				}
				sameSample(c, fmt.Sprintf("sample %d of collector %s", i, x.name), e.V.D.Encode(), recorded(x.given[i], false))
				c.Event("custom sample")
			}
		}
	}
	for _, x := range customs {
		if len(x.given) != len(samples) {
			c.Failf("collectors", "there are %d samples, but collector %s was called %d times", len(samples), x.name, len(x.given))
		}
	}
	if len(customs) > 0 && int64(len(samples)) < n {
		c.Failf("lost", "there are %d samples, of at least %d", len(samples), n)
	}
	for i, f := range files {
		for _, ch := range decodeFTDC(c, "output", f) {
			if len(ch.Samples) > opts.SampleCount+1 {
				c.Failf("chunks", "a chunk of file %d has %d samples, of at most %d", i, len(ch.Samples), opts.SampleCount)
			}
		}
	}
	fds, _ := os.ReadDir("/proc/self/fd")
	for _, fd := range fds {
		if to, err := os.Readlink("/proc/self/fd/" + fd.Name()); err == nil && strings.HasPrefix(to, dir) {
			c.Failf("leak", "%s is left open", to)
		}
	}
	mode := "sequential"
	if opts.RunParallelCollectors {
		mode = "parallel"
	}
	c.Event(fmt.Sprintf("collection: %s", mode))
	if len(files) > 2 {
		c.Event("collection: several files")
	}
	c.State(order, len(samples), len(files))
	c.Sample("%d samples in %d files, %d collectors, %s", len(samples), len(files), len(customs), mode)
}

func k02Options(c *C) {
	r := c.R
	dur := func() time.Duration {
		return mon.Pick(r, []time.Duration{0, -time.Second, time.Nanosecond, time.Millisecond - 1, time.Millisecond, time.Millisecond + 1, 2 * time.Millisecond, time.Second, time.Hour})
	}
	opts := metrics.CollectOptions{
		FlushInterval:         dur(),
		CollectionInterval:    dur(),
		SkipGolang:            r.Bool(),
		SkipSystem:            r.Bool(),
		SkipProcess:           r.Bool(),
		RunParallelCollectors: r.Bool(),
		SampleCount:           mon.Pick(r, []int{-1, 0, 1, 9, 10, 11, 300}),
	}
	for range r.IntN(3) {
		opts.Collectors = append(opts.Collectors, metrics.CustomCollector{Name: "x", Operation: func(context.Context) *birch.Document { return birch.DC.New() }})
	}
	want := []string{}
	bad := func(cond bool, what string) {
		if cond {
			want = append(want, what)
		}
	}
	bad(opts.FlushInterval < time.Millisecond, "flush interval")
	bad(opts.CollectionInterval < time.Millisecond, "collection interval")
	bad(opts.CollectionInterval > opts.FlushInterval, "smaller than flush interval")
	bad(opts.SampleCount < 10, "sample count")
	bad(opts.SkipGolang && opts.SkipSystem && opts.SkipProcess, "skip all")
	bad(opts.RunParallelCollectors && len(opts.Collectors) == 0, "parallel collectors")
	c.Note("options", "%+v", opts)
	err := opts.Validate()
	if (err != nil) != (len(want) > 0) {
		c.Failf("validate", "%+v: the error is %v, the faults are %q", opts, err, want)
	}
	for _, w := range want {
		if !strings.Contains(err.Error(), w) {
			c.Failf("validate", "%+v: the error %q doesn't mention the %s", opts, err, w)
		}
	}
	c.Event(fmt.Sprintf("options with %d faults", len(want)))
	c.State(fmt.Sprintf("%v", want), opts.FlushInterval, opts.CollectionInterval, opts.SampleCount, len(opts.Collectors))
	if len(want) > 0 && r.Chance(20) {
		dir, clean := scratch(c)
		defer clean()
		opts.OutputFilePrefix = filepath.Join(dir, "out")
		ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
		defer cancel()
		if err := metrics.CollectRuntime(ctx, opts); err == nil {
			c.Failf("validate", "a collection with the faults %q gives no error", want)
		}
		if files := outputs(c, dir, "out"); len(files) > 0 {
			c.Failf("validate", "a collection with the faults %q makes files", want)
		}
		c.Event("invalid collection")
	}
}

func k02Failures(c *C) {
	dir, clean := scratch(c)
	defer clean()
	r := c.R
	opts := metrics.NewCollectOptions(filepath.Join(dir, "out"))
	opts.SkipProcess, opts.SkipSystem = true, true
	opts.CollectionInterval = time.Millisecond
	opts.FlushInterval = mon.Pick(r, []time.Duration{time.Millisecond, time.Hour})
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	calls := 0
	s := newSchema(fork2(r), schemaOpts{})
	at := r.Range(1, 8)
	kind := mon.Pick(r, []string{"panic", "no directory", "schema"})
	var given []*Doc
	switch kind {
	case "no directory":
		opts.OutputFilePrefix = filepath.Join(dir, "no", "out")
	case "panic":
		opts.RunParallelCollectors = true
		n := r.Range(1, 6)
		bad := r.IntN(n)
		for i := range n {
			calls := 0
			opts.Collectors = append(opts.Collectors, metrics.CustomCollector{Name: fmt.Sprint("c", i), Operation: func(context.Context) *birch.Document {
				calls++
				if calls == at && i == bad {
					panic("the collector panics")
				}
				return birch.DC.Elements(birch.EC.Int("calls", calls))
			}})
		}
	case "schema":
		// the streaming collector refuses a sample with other metrics
		opts.FlushInterval = time.Hour
		opts.Collectors = append(opts.Collectors, metrics.CustomCollector{Name: "x", Operation: func(context.Context) *birch.Document {
			calls++
			if calls == at+1 {
				return birch.DC.Elements(birch.EC.Int("other", 1), birch.EC.Int("one", 1), birch.EC.Int("two", 1))
			}
			d := s.sample()
			given = append(given, d)
			out := readDoc(d)
			return out.Append(birch.EC.Int("one more", 1))
		}})
	}
	c.Note("kind", "%s at %d", kind, at)
	if kind == "schema" && metricsOf(s.doc)+1 == 3 {
		return
	}
	err := within1(30*time.Second, func() error { return metrics.CollectRuntime(ctx, opts) })
	if err == nil {
		c.Failf("no-error", "%s: no error", kind)
	}
	if strings.Contains(err.Error(), "doesn't return") {
		c.Failf("stuck", "%s: the collection doesn't return", kind)
	}
	if kind == "panic" && !strings.Contains(err.Error(), "the collector panics") {
		c.Failf("error", "the panic isn't in the error %v", err)
	}
	c.Event("failure:" + kind)
	c.State(kind, at, len(opts.Collectors))
}

// --- K03

type mfield struct {
	path, from string
}

func cpuFields(at string) (out []mfield) {
	for _, k := range []string{"user", "system", "idle", "nice", "iowait", "irq", "softirq", "steal", "guest", "guestNice"} {
		out = append(out, mfield{"cpu." + k, at + "." + strings.ToUpper(k[:1]) + k[1:]})
	}
	return out
}

func netFields(path, at string) (out []mfield) {
	for _, k := range []string{"name", "bytesSent", "bytesRecv", "packetsSent", "packetsRecv", "errin", "errout", "dropin", "dropout", "fifoin", "fifoout"} {
		out = append(out, mfield{path + "." + k, at + "." + strings.ToUpper(k[:1]) + k[1:]})
	}
	return out
}

func golangTable() []mfield {
	from := []string{"HeapObjects", "Alloc", "HeapSystem", "HeapIdle", "HeapInUse", "Mallocs", "Frees", "GC", "GCPause", "GCLatency", "Goroutines", "CgoCalls"}
	out := []mfield{}
	for i, k := range golangFields {
		// these names have dots
		out = append(out, mfield{strings.ReplaceAll(k, ".", "\x00"), from[i]})
	}
	return out
}

func processTable(nets int) []mfield {
	out := []mfield{{"pid", "Pid"}, {"parentPid", "Parent"}, {"threads", "Threads"}, {"command", "Command"}}
	out = append(out, cpuFields("CPU")...)
	for _, k := range []string{"readCount", "writeCount", "readBytes", "writeBytes"} {
		out = append(out, mfield{"io." + k, "IoStat." + strings.ToUpper(k[:1]) + k[1:]})
	}
	for _, x := range [][2]string{{"rss", "RSS"}, {"vms", "VMS"}, {"hwm", "HWM"}, {"data", "Data"}, {"stack", "Stack"}, {"locked", "Locked"}, {"swap", "Swap"}} {
		out = append(out, mfield{"mem." + x[0], "Memory." + x[1]})
	}
	for _, x := range [][2]string{{"rss", "RSS"}, {"vms", "VMS"}, {"shared", "Shared"}, {"text", "Text"}, {"lib", "Lib"}, {"data", "Data"}, {"dirty", "Dirty"}} {
		out = append(out, mfield{"memExtra." + x[0], "MemoryPlatform." + x[1]})
	}
	for i := range nets {
		out = append(out, netFields(fmt.Sprintf("net.%d", i), fmt.Sprintf("NetStat.%d", i))...)
	}
	return out
}

func systemTable(usage, io, parts int) []mfield {
	out := []mfield{{"num_cpu", "NumCPU"}, {"cpu_percent", "CPUPercent"}}
	out = append(out, cpuFields("CPU")...)
	for _, x := range strings.Fields("total:Total available:Available used:Used usedPercent:UsedPercent free:Free active:Active inactive:Inactive wired:Wired laundry:Laundry buffers:Buffers cached:Cached writeback:Writeback dirty:Dirty writebacktmp:WritebackTmp shared:Shared slab:Slab sreclaimable:SReclaimable sunreclaim:SUnreclaim pagetables:PageTables swapcached:SwapCached commitlimit:CommitLimit commitedas:CommittedAS hightotal:HighTotal highfree:HighFree lowtotal:LowTotal lowfree:LowFree swaptotal:SwapTotal swapfree:SwapFree mapped:Mapped vmalloctotal:VMallocTotal vmallocused:VMallocUsed vmallocchunk:VMallocChunk hugepagestotal:HugePagesTotal hugepagesfree:HugePagesFree hugepagessize:HugePageSize") {
		k, f, _ := strings.Cut(x, ":")
		out = append(out, mfield{"vmstat." + k, "VMStat." + f})
	}
	out = append(out, netFields("netstat", "NetStat")...)
	each := func(n int, path, from, fields string) {
		for i := range n {
			for _, k := range strings.Fields(fields) {
				out = append(out, mfield{fmt.Sprintf("%s.%d.%s", path, i, k), fmt.Sprintf("%s.%d.%s", from, i, strings.ToUpper(k[:1])+k[1:])})
			}
		}
	}
	each(usage, "usage", "Usage", "path fstype total free used usedPercent inodesTotal inodesFree inodesUsedPercent")
	each(io, "iostat", "IOStat", "name serialNumber label readCount mergedReadCount writeCount mergedWriteCount readBytes writeBytes readTime writeTime iopsInProgress ioTime weightedIO")
	each(parts, "partitions", "Partitions", "device mountpoint fstype opts")
	return out
}

// fillRandom sets every exported field to a number or a string of its own.
func fillRandom(r *mon.Rand, v reflect.Value) {
	switch v.Kind() {
	case reflect.Struct:
		for i := range v.NumField() {
			if v.Type().Field(i).IsExported() {
				fillRandom(r, v.Field(i))
			}
		}
	case reflect.Slice:
		v.Set(reflect.MakeSlice(v.Type(), r.IntN(4), 4))
		for i := range v.Len() {
			fillRandom(r, v.Index(i))
		}
	case reflect.Int, reflect.Int64:
		v.SetInt(ref.Int64v(r))
	case reflect.Int32:
		v.SetInt(int64(int32(r.Uint64())))
	case reflect.Uint64, reflect.Uint:
		v.SetUint(r.Uint64() >> uint(r.IntN(64)))
	case reflect.Uint32:
		v.SetUint(r.Uint64() >> 32)
	case reflect.Float64:
		v.SetFloat(float64(r.IntN(1<<30)) / 8)
	case reflect.String:
		v.SetString(mon.Pick(r, []string{"", "x", "eth0", "/a b/ç", "longer than the others"}) + strconv.Itoa(r.IntN(1000)))
	case reflect.Bool:
		v.SetBool(r.Bool())
	}
}

func at(v reflect.Value, path string) reflect.Value {
	for _, p := range strings.Split(path, ".") {
		if v.Kind() == reflect.Slice {
			i, _ := strconv.Atoi(p)
			v = v.Index(i)
			continue
		}
		v = v.FieldByName(p)
	}
	return v
}

// leaves are the values of a document that aren't documents, with their paths.
func leaves(d *Doc, prefix string, out map[string]*Val, order *[]string) {
	for _, e := range d.E {
		p := prefix + strings.ReplaceAll(e.K, ".", "\x00")
		if e.V.T == ref.Document || e.V.T == ref.Array {
			leaves(e.V.D, p+".", out, order)
			continue
		}
		if out[p] != nil {
			*order = append(*order, "twice: "+p)
		}
		out[p] = e.V
		*order = append(*order, p)
	}
}

func checkTable(c *C, what string, d *Doc, v reflect.Value, table []mfield) {
	got := map[string]*Val{}
	var order, want []string
	leaves(d, "", got, &order)
	for _, f := range table {
		want = append(want, f.path)
	}
	sort.Strings(order)
	sort.Strings(want)
	if !reflect.DeepEqual(order, want) {
		c.Failf("fields", "%s has the fields %q instead of %q", what, order, want)
	}
	for _, f := range table {
		x, g := at(v, f.from), got[f.path]
		ok := false
		switch x.Kind() {
		case reflect.Int, reflect.Int32, reflect.Int64:
			ok = (g.T == ref.Int32 || g.T == ref.Int64) && g.I == x.Int()
		case reflect.Uint64, reflect.Uint32, reflect.Uint:
			ok = g.T == ref.Int64 && g.I == int64(x.Uint())
		case reflect.Float64:
			ok = g.T == ref.Double && g.F == x.Float()
			if strings.HasSuffix(f.path, "vmstat.usedPercent") {
				ok = g.T == ref.Int64 && g.I == int64(x.Float())
			}
		case reflect.String:
			ok = g.T == ref.String && string(g.S) == x.String()
		default:
			c.Failf("table", "%s is a %s", f.from, x.Kind())
		}
		if !ok {
			c.Failf("fields", "%s: %s is %v, but %s is %v", what, f.path, g, f.from, x)
		}
	}
	c.EventN("fields", len(table))
}

func k03Documents(c *C) {
	r := c.R
	var g metrics.GoRuntimeInfo
	var p metrics.ProcessInfo
	var s metrics.SystemInfo
	fillRandom(r, reflect.ValueOf(&g).Elem())
	fillRandom(r, reflect.ValueOf(&p).Elem())
	fillRandom(r, reflect.ValueOf(&s).Elem())
	gt, pt, st := golangTable(), processTable(len(p.NetStat)), systemTable(len(s.Usage), len(s.IOStat), len(s.Partitions))
	marshal := func(what string, m birch.DocumentMarshaler) *Doc {
		d, err := m.MarshalDocument()
		if err != nil {
			c.Failf("error", "%s: %v", what, err)
		}
		b := mustMarshal(c, d)
		c.StateBytes(b)
		out, err := ref.Decode(b)
		if err != nil {
			c.Failf("bytes", "%s: %v", what, err)
		}
		return out
	}
	kind := r.IntN(4)
	switch kind {
	case 0:
		checkTable(c, "GoRuntimeInfo", marshal("GoRuntimeInfo", &g), reflect.ValueOf(g), gt)
	case 1:
		checkTable(c, "ProcessInfo", marshal("ProcessInfo", &p), reflect.ValueOf(p), pt)
	case 2:
		checkTable(c, "SystemInfo", marshal("SystemInfo", &s), reflect.ValueOf(s), st)
	case 3:
		ts := genTime(r)
		rt := &metrics.Runtime{ID: int(ref.Int64v(r)), PID: r.IntN(1 << 20), Timestamp: ts}
		table := []mfield{{"id", "ID"}, {"pid", "PID"}}
		under := func(k, f string, t []mfield) {
			for _, x := range t {
				table = append(table, mfield{k + "." + x.path, f + "." + x.from})
			}
		}
		v := reflect.ValueOf(rt).Elem()
		if r.Bool() {
			rt.Golang = &g
			under("golang", "Golang", gt)
		}
		if r.Bool() {
			rt.System = &s
			under("system", "System", st)
		}
		if r.Bool() {
			rt.Process = &p
			under("process", "Process", pt)
		}
		d := marshal("Runtime", rt)
		if len(d.E) < 3 || d.E[1].K != "ts" || d.E[1].V.T != ref.DateTime || d.E[1].V.I != floorMilli(ts) {
			c.Failf("fields", "Runtime: the document has no ts of %s", ts)
		}
		d.E = append(d.E[:1:1], d.E[2:]...)
		checkTable(c, "Runtime", d, deref(v), table)
	}
	c.Event("document:" + []string{"golang", "process", "system", "runtime"}[kind])
	c.Sample("%d network interfaces, %d partitions", len(p.NetStat), len(s.Partitions))
}

// deref replaces the pointers of a structure by what they point to.
func deref(v reflect.Value) reflect.Value {
	t := []reflect.StructField{}
	for i := range v.NumField() {
		f := v.Type().Field(i)
		if f.Type.Kind() == reflect.Pointer {
			f.Type = f.Type.Elem()
		}
		f.Tag, f.Offset, f.Index = "", 0, nil
		t = append(t, f)
	}
	out := reflect.New(reflect.StructOf(t)).Elem()
	for i := range v.NumField() {
		x := v.Field(i)
		if x.Kind() == reflect.Pointer {
			if x.IsNil() {
				continue
			}
			x = x.Elem()
		}
		out.Field(i).Set(x)
	}
	return out
}

var k03sink [][]byte

func k03Runtime(c *C) {
	r := c.R
	read := func() *runtime.MemStats {
		m := &runtime.MemStats{}
		runtime.ReadMemStats(m)
		return m
	}
	allocate := func() {
		for range r.IntN(2000) {
			k03sink = append(k03sink[:0], make([]byte, r.IntN(64)))
		}
		if r.Chance(3) {
			runtime.GC()
		}
	}
	between := func(what string, got int64, lo, hi uint64) {
		if got < int64(lo) || got > int64(hi) {
			c.Failf("counter", "%s is %d, not between %d and %d", what, got, lo, hi)
		}
		c.Event("counter")
	}
	// totals
	m1 := read()
	t := metrics.CollectGoStatsTotals()
	if r.Bool() {
		t = metrics.CollectGoStatsCurrent("message")
	}
	m2 := read()
	between("the total of mallocs", t.Mallocs, m1.Mallocs, m2.Mallocs)
	between("the total of frees", t.Frees, m1.Frees, m2.Frees)
	between("the total of collections", t.GC, uint64(m1.NumGC), uint64(m2.NumGC))
	between("the heap of the system", int64(t.HeapSystem), min(m1.HeapSys, m2.HeapSys), max(m1.HeapSys, m2.HeapSys))
	if t.Goroutines < 1 {
		c.Failf("counter", "there are %d goroutines", t.Goroutines)
	}
	// counts since the collection before
	sum := *t
	for range r.Range(1, 6) {
		allocate()
		m1 := read()
		d := metrics.CollectGoStatsDeltas()
		m2 := read()
		for _, x := range []*int64{&d.Mallocs, &d.Frees, &d.GC, &d.CgoCalls} {
			if *x < 0 {
				c.Failf("counter", "a count since the last collection is %d", *x)
			}
		}
		sum.Mallocs += d.Mallocs
		sum.Frees += d.Frees
		sum.GC += d.GC
		between("the total and the counts of mallocs since", sum.Mallocs, m1.Mallocs, m2.Mallocs)
		between("the total and the counts of frees since", sum.Frees, m1.Frees, m2.Frees)
		between("the total and the counts of collections since", sum.GC, uint64(m1.NumGC), uint64(m2.NumGC))
		c.State(d.Mallocs, d.Frees)
	}
	allocate()
	before := time.Now()
	runtime.GC()
	x := metrics.CollectGoStatsTotals()
	if x.GCLatency < 0 || x.GCLatency > time.Since(before)+time.Second {
		c.Failf("counter", "the latest collection was %s ago, but it was %s ago", x.GCLatency, time.Since(before))
	}
	rates := metrics.CollectGoStatsRates()
	if rates.Mallocs < 0 || rates.Frees < 0 || rates.GC < 0 || rates.Mallocs > x.Mallocs {
		c.Failf("counter", "the rates are %+v", rates)
	}
	basic := metrics.CollectBasicGoStats()
	for _, k := range []string{"memory.objects.heap", "memory.summary.alloc", "memory.summary.system", "memory.heap.Idle", "memory.heap.InUse", "memory.counters.mallocs", "memory.counters.frees", "gc.rate", "gc.pause.duration.span", "gc.pause.duration.string", "gc.pause.last.span", "gc.pause.last.string", "goroutines.total", "cgo.calls"} {
		if basic[k] == nil {
			c.Failf("basic", "there is no %s: %v", k, basic)
		}
	}
	c.Sample("%d mallocs", sum.Mallocs)
}

func k03Processes(c *C) {
	self := metrics.CollectProcessInfoSelf()
	pid := int32(os.Getpid())
	cmdline, err := os.ReadFile("/proc/self/cmdline")
	if err != nil {
		return
	}
	if self.Pid != pid || self.Parent != int32(os.Getppid()) || self.Threads < 1 {
		c.Failf("process", "this process, %d of %d, is %+v", pid, os.Getppid(), self)
	}
	if want := strings.Join(strings.Split(strings.TrimSuffix(string(cmdline), "\x00"), "\x00"), " "); self.Command != want {
		c.Failf("process", "this process' command is %q instead of %q", self.Command, want)
	}
	if self.Memory.RSS == 0 {
		c.Failf("process", "this process has no memory: %+v", self.Memory)
	}
	cmd := exec.Command("sleep", "60")
	if cmd.Start() != nil {
		return
	}
	defer func() { _ = cmd.Process.Kill(); _ = cmd.Wait() }()
	for what, infos := range map[string][]*metrics.ProcessInfo{"with children": metrics.CollectProcessInfoSelfWithChildren(), "all": metrics.CollectAllProcesses()} {
		count := map[int32]int{}
		for _, p := range infos {
			count[p.Pid]++
			if count[p.Pid] > 1 {
				c.Failf("process", "%s: process %d is there %d times", what, p.Pid, count[p.Pid])
			}
			if p.Pid == int32(cmd.Process.Pid) && p.Parent != pid {
				c.Failf("process", "%s: the parent of %d is %d instead of %d", what, p.Pid, p.Parent, pid)
			}
		}
		if count[pid] != 1 || count[int32(cmd.Process.Pid)] != 1 {
			c.Failf("process", "%s: this process is there %d times, its child %d times", what, count[pid], count[int32(cmd.Process.Pid)])
		}
		c.EventN("processes "+what, len(infos))
	}
	none := metrics.CollectProcessInfo(math.MaxInt32 - 7)
	if len(none.Errors) == 0 {
		c.Failf("process", "a process that doesn't exist has no errors")
	}
	sys := metrics.CollectSystemInfo()
	if sys.NumCPU != runtime.NumCPU() || sys.VMStat.Total == 0 || sys.VMStat.Available > sys.VMStat.Total {
		c.Failf("system", "%d CPUs, %d of %d bytes of memory", sys.NumCPU, sys.VMStat.Available, sys.VMStat.Total)
	}
	d, err := sys.MarshalDocument()
	if err != nil {
		c.Failf("system", "%v", err)
	}
	dd, err := ref.Decode(mustMarshal(c, d))
	if err != nil {
		c.Failf("system", "%v", err)
	}
	checkTable(c, "SystemInfo", dd, reflect.ValueOf(*sys), systemTable(len(sys.Usage), len(sys.IOStat), len(sys.Partitions)))
	c.State(c.Index)
	c.Sample("%d partitions, %s", len(sys.Partitions), bytes.ReplaceAll(cmdline, []byte{0}, []byte{' '}))
}

func k03Concurrent(c *C) {
	for i := range 4 {
		c.Go(func() {
			last := int64(0)
			for range 20 {
				switch i {
				case 0:
					t := metrics.CollectGoStatsTotals()
					if t.Mallocs < last {
						c.Report("counter", "the total of mallocs decreases from %d to %d", last, t.Mallocs)
					}
					last = t.Mallocs
				case 1:
					if d := metrics.CollectGoStatsDeltas(); d.Mallocs < 0 || d.Frees < 0 || d.GC < 0 {
						c.Report("counter", "the counts are %+v", d)
					}
				case 2:
					metrics.CollectBasicGoStats()
				case 3:
					metrics.CollectGoStatsRates()
				}
				c.Event("concurrent")
			}
		})
	}
	c.Wait()
	c.State(c.Index)
}
