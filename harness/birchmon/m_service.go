package main

import (
	"context"
	"errors"
	"fmt"
	"io"
	"math"
	"net"
	"os"
	"runtime/pprof"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/tychoish/birch/x/mrpc"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:   "M04",
		Rule: "random scopes are validated, registered and looked up, by one goroutine and by many, and compared with a map; a case is non-trivial when its sequence of operations is new",
		Workloads: []mon.Workload{
			{Name: "scopes", Quick: 30000, Thorough: 500000, Run: m04Scopes},
			{Name: "registry", Quick: 4000, Thorough: 200000, Run: m04Registry},
			{Name: "registry-concurrent", Quick: 300, Thorough: 10000, Race: true, Run: m04Concurrent},
			{Name: "namespaces", Quick: 30000, Thorough: 500000, Run: m04Namespaces},
		},
	})
	mon.Register(&mon.Property{
		ID:   "M05",
		Rule: "clients on several connections of a service on the loopback network send requests of every type, unknown and malformed ones, to handlers that delay, reply and panic; every request is followed to its handler and back; a case is non-trivial when its messages are new",
		Assumptions: []string{
			"error handlers are registered before the service runs",
			"a connection whose client stops sending, or sends a request that no handler is for, is closed: replies still due on it are not judged",
		},
		Workloads: []mon.Workload{
			{Name: "dispatch", Quick: 400, Thorough: 8000, Race: true, Run: m05Dispatch},
			{Name: "failures", Quick: 400, Thorough: 8000, Race: true, Run: m05Failures},
			{Name: "many", Quick: 6, Thorough: 100, Serial: true, Run: m05Many},
			{Name: "lifecycle", Quick: 150, Thorough: 2000, Serial: true, Run: m05Lifecycle},
			{Name: "accept", Quick: 40, Thorough: 500, Serial: true, Run: m05Accept},
		},
	})
}

// --- M04

var mScopeOps = []int32{mUpdate, mInsert, mQuery, mGetMore, mDelete, mKillCursors, mCommand, mMessage}

// validScope says whether a scope names something a request can be for.
func validScope(s mongowire.OpScope) bool {
	switch int32(s.Type) {
	case mCommand, mMessage:
		return s.Command != ""
	case mUpdate, mInsert, mQuery, mGetMore, mDelete:
		return s.Context != "" && s.Command == ""
	case mKillCursors:
		return s.Context == "" && s.Command == ""
	}
	return false
}

func genScope(r *mon.Rand) mongowire.OpScope {
	s := mongowire.OpScope{Type: mongowire.OpType(mon.Pick(r, mOps))}
	switch r.IntN(12) {
	case 0:
		s.Type = mongowire.OpType(ref.Int32v(r))
	case 1:
		s.Type = mongowire.OpType(r.Range(1999, 2015))
	}
	str := func() string {
		switch r.IntN(6) {
		case 0, 1:
			return ""
		case 2:
			return smallGen(r).Str(20, true)
		}
		return mon.Pick(r, []string{"a", "b", "c", "a.b", "db.$cmd", "ping", "Ping"})
	}
	s.Context, s.Command = str(), str()
	return s
}

func m04Scopes(c *C) {
	s := genScope(c.R)
	before := s
	err := s.Validate()
	if (err == nil) != validScope(s) {
		c.Failf("validate", "the scope %+v: %v", s, err)
	}
	if s != before {
		c.Failf("changed", "validating changed the scope %+v to %+v", before, s)
	}
	c.State(s.Type, "|", s.Context, "|", s.Command)
	c.Event(fmt.Sprintf("valid:%v", err == nil))
}

// callID calls the handler to find out which one it is.
func callID(fn mrpc.HandlerFunc, got *atomic.Int64) int64 {
	fn(context.Background(), io.Discard, nil)
	return got.Load()
}

func m04Registry(c *C) {
	reg := &mrpc.OperationRegistry{}
	model := map[mongowire.OpScope]int64{}
	var called atomic.Int64
	var history []string
	ops := c.R.Range(1, 40)
	if c.R.Chance(50) {
		ops = c.R.Range(100, 1500)
	}
	for i := range ops {
		s := genScope(c.R)
		if ops > 40 && !c.R.Chance(3) {
			s = mongowire.OpScope{Type: mongowire.OpType(mon.Pick(c.R, []int32{mCommand, mMessage})), Command: fmt.Sprint("c", c.R.IntN(ops/2)), Context: mon.Pick(c.R, []string{"", "a"})}
		}
		if c.R.Chance(3) {
			called.Store(-1)
			for k := range model {
				if c.R.Chance(len(model)) {
					s = k
					if c.R.Bool() {
						s.Context = mon.Pick(c.R, []string{"", "a", "zz"})
					}
					break
				}
			}
		}
		if c.R.Bool() {
			var fn mrpc.HandlerFunc
			if !c.R.Chance(8) {
				fn = func(context.Context, io.Writer, mongowire.Message) { called.Store(int64(i)) }
			}
			_, dup := model[s]
			ok := validScope(s) && !dup && fn != nil
			if err := reg.Add(s, fn); (err == nil) != ok {
				c.Failf("add", "adding %+v (valid %v, registered %v, handler %v): %v", s, validScope(s), dup, fn != nil, err)
			}
			if ok {
				model[s] = int64(i)
			}
			history = append(history, fmt.Sprintf("add %+v %v", s, fn != nil))
			c.Event(fmt.Sprintf("add:%v", ok))
			continue
		}
		want, found := model[s]
		kind := "specific"
		if !found {
			def := s
			def.Context = ""
			want, found = model[def]
			kind = "default"
		}
		before := s
		fn, ok := reg.Get(&s)
		if s != before {
			c.Failf("changed", "looking up %+v changed it to %+v", before, s)
		}
		if ok != found || (fn != nil) != found {
			c.Failf("get", "looking up %+v: %v, expected %v", s, ok, found)
		}
		if found {
			if got := callID(fn, &called); got != want {
				c.Failf("handler", "looking up %+v gives the handler %d, expected %d (%s)", s, got, want, kind)
			}
			c.Event("get:" + kind)
		} else {
			c.Event("get:none")
		}
		history = append(history, fmt.Sprintf("get %+v", s))
	}
	if fn, ok := reg.Get(nil); ok || fn != nil {
		c.Failf("get", "there is a handler for no scope")
	}
	c.State(strings.Join(history, ";"))
}

// goroutines register the same scopes: each has exactly one winner, whose
// handler is the one found from then on.
func m04Concurrent(c *C) {
	reg := &mrpc.OperationRegistry{}
	var scopes []mongowire.OpScope
	for len(scopes) < 12 {
		if s := genScope(c.R); validScope(s) {
			scopes = append(scopes, s)
		}
	}
	type res struct {
		s  mongowire.OpScope
		id int64
	}
	n := c.R.Range(2, 6)
	won := make([][]res, n)
	rs := forks(c, n)
	for g := range n {
		c.Go(func() {
			r := rs[g]
			for i := range 20 {
				s := mon.Pick(r, scopes)
				id := int64(g*1000 + i)
				if r.Bool() {
					if err := reg.Add(s, func(_ context.Context, w io.Writer, _ mongowire.Message) {
						_, _ = w.Write([]byte(fmt.Sprint(id)))
					}); err == nil {
						won[g] = append(won[g], res{s, id})
						if fn, ok := reg.Get(&s); !ok || fn == nil {
							c.Report("get", "%+v was added, and isn't found", s)
						}
					}
				} else {
					reg.Get(&s)
				}
				pause(r)
			}
		})
	}
	c.Wait()
	all := map[mongowire.OpScope]int64{}
	for g := range won {
		for _, x := range won[g] {
			if _, ok := all[x.s]; ok {
				c.Failf("twice", "%+v was added twice", x.s)
			}
			all[x.s] = x.id
		}
	}
	for s, id := range all {
		fn, ok := reg.Get(&s)
		if !ok {
			c.Failf("get", "%+v isn't found", s)
		}
		var sb strings.Builder
		fn(context.Background(), &sb, nil)
		if sb.String() != fmt.Sprint(id) {
			c.Failf("handler", "%+v gives the handler %s, expected %d", s, sb.String(), id)
		}
		c.Event("winner")
	}
	c.State(c.Index, len(all))
}

func m04Namespaces(c *C) {
	ns := genNS(c.R)
	db, coll, _ := strings.Cut(ns, ".")
	if got := mongowire.NamespaceToDB(ns); got != db {
		c.Failf("db", "the database of %q is %q", ns, got)
	}
	if got := mongowire.NamespaceToCollection(ns); got != coll {
		c.Failf("collection", "the collection of %q is %q", ns, got)
	}
	if got := mongowire.NamespaceIsCommand(ns); got != isCommandNS(ns) {
		c.Failf("command", "%q is a command: %v", ns, got)
	}
	c.State(ns)
	c.Event("namespace")
}

// --- M05

// Every process has a range of ports of its own, which it claims by a socket in
// the abstract namespace for as long as it runs.
const portRange = 1000

var (
	portMu    sync.Mutex
	portClaim net.Listener
	portBase  int
	nextPort  int
	portsUsed = map[int]bool{} // by services that run
)

// freePort needs the mutex.
func freePort(c *C) int {
	for slot := os.Getpid(); portClaim == nil; slot++ {
		if slot > os.Getpid()+1000 {
			c.Failf("setup", "no ports for the services")
		}
		l, err := net.Listen("unix", fmt.Sprintf("@birchmon-ports-%d", slot%20))
		if err != nil {
			continue
		}
		portClaim, portBase = l, 10000+slot%20*portRange
	}
	for range portRange {
		port := portBase + nextPort%portRange
		nextPort++
		if !portsUsed[port] {
			return port
		}
	}
	c.Failf("setup", "no free port for the service")
	return 0
}

type serviceRun struct {
	svc    mrpc.Service
	addr   string
	port   int
	cancel context.CancelFunc
	ctx    context.Context
	done   chan error
	mu     sync.Mutex
	errs   []string
}

func (s *serviceRun) errors() []string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]string(nil), s.errs...)
}

// startService runs a service at a port that is free.
func startService(c *C, setup func(mrpc.Service)) *serviceRun {
	portMu.Lock()
	defer portMu.Unlock()
	for try := 0; try < 200; try++ {
		port := freePort(c)
		s := &serviceRun{svc: mrpc.NewBasicService("127.0.0.1", port), done: make(chan error, 1)}
		s.addr = fmt.Sprintf("127.0.0.1:%d", port)
		if s.svc.Address() != s.addr {
			c.Failf("address", "the address is %q, expected %q", s.svc.Address(), s.addr)
		}
		s.svc.RegisterErrorHandler(func(err error) {
			s.mu.Lock()
			defer s.mu.Unlock()
			s.errs = append(s.errs, fmt.Sprint(err))
		})
		setup(s.svc)
		s.ctx, s.cancel = context.WithCancel(context.WithValue(context.Background(), ctxKey{}, s))
		go func() { s.done <- s.svc.Run(s.ctx) }()
		deadline := time.Now().Add(20 * time.Second)
		for {
			select {
			case err := <-s.done:
				s.cancel()
				if !errors.Is(err, syscall.EADDRINUSE) {
					c.Failf("run", "running a service at %s: %v", s.addr, err)
				}
			default:
				conn, err := net.Dial("tcp", s.addr)
				if err == nil {
					conn.Close()
					s.port = port
					portsUsed[port] = true
					return s
				}
				if time.Now().After(deadline) {
					c.Failf("run", "the service at %s can't be reached: %v", s.addr, err)
				}
				time.Sleep(200 * time.Microsecond)
				continue
			}
			break
		}
	}
	c.Failf("run", "no free port")
	return nil
}

type ctxKey struct{}

func (s *serviceRun) stop(c *C) {
	s.cancel()
	select {
	case err := <-s.done:
		if err != nil {
			c.Failf("run", "the cancelled service returned %v", err)
		}
		c.Event("stopped")
	case <-time.After(20 * time.Second):
		c.Failf("stuck", "the service goes on after its context was cancelled")
	}
	// the listener may still be closing.
	refuses := func() bool {
		conn, err := net.DialTimeout("tcp", s.addr, time.Second)
		if err == nil {
			conn.Close()
		}
		return err != nil
	}
	if !within(10*time.Second, refuses) {
		c.Failf("listening", "the service's address accepts connections after it returned")
	}
	portMu.Lock()
	delete(portsUsed, s.port)
	portMu.Unlock()
}

func dial(c *C, s *serviceRun) net.Conn {
	conn, err := net.Dial("tcp", s.addr)
	if err != nil {
		c.Failf("dial", "connecting: %v", err)
	}
	_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
	return conn
}

// closed waits for the service to close a connection.
func closed(c *C, conn net.Conn, why string) {
	_ = conn.SetReadDeadline(time.Now().Add(20 * time.Second))
	b := make([]byte, 16)
	n, err := conn.Read(b)
	if n > 0 || err == nil {
		c.Failf("closed", "%s: %d bytes were received: %x", why, n, b[:n])
	}
	if errors.Is(err, os.ErrDeadlineExceeded) {
		c.Failf("closed", "%s: the connection stays open", why)
	}
	c.Event("closed")
}

// within tries until the condition holds.
func within(d time.Duration, fn func() bool) bool {
	deadline := time.Now().Add(d)
	for {
		if fn() {
			return true
		}
		if time.Now().After(deadline) {
			return false
		}
		time.Sleep(300 * time.Microsecond)
	}
}

func safely(fn func()) {
	defer func() { _ = recover() }()
	fn()
}

// scopeKey is what a request is for.
func (m *mMsg) scopeKey() mongowire.OpScope {
	s := mongowire.OpScope{Type: mongowire.OpType(m.op), Context: m.ns}
	switch m.op {
	case mKillCursors:
		s.Context = ""
	case mCommand:
		s.Command = m.name
	case mQuery:
		if isCommandNS(m.ns) {
			s.Type = mongowire.OP_COMMAND
			s.Context, _, _ = strings.Cut(m.ns, ".")
			s.Command = m.d1.E[0].K
		}
	case mMessage:
		s.Context = ""
		for _, x := range m.sections {
			if x.kind != 0 {
				continue
			}
			if len(x.docs[0].E) > 0 {
				s.Command = x.docs[0].E[0].K
			}
			if v := field(x.docs[0], "$db"); v != nil && v.T == ref.String {
				s.Context = v.S
			}
			break
		}
	}
	return s
}

// request makes a request, of a few scopes, with the number in its request ID.
func request(r *mon.Rand, id int32) *mMsg {
	m := smallMsg(r)
	for m.op == mReply || m.op == mCommandReply {
		m = smallMsg(r)
	}
	m.reqID = id
	cmd := mon.Pick(r, []string{"ping", "find", "stop"})
	db := mon.Pick(r, []string{"db0", "db1", "db2"})
	switch m.op {
	case mCommand:
		m.ns, m.name = db, cmd
	case mQuery:
		m.ns = db + ".coll0"
		if r.Bool() {
			m.ns = db + ".$cmd"
			m.d1 = mkdoc(cmd, int32v(1))
		}
	case mMessage:
		m.sections = []mSection{{kind: 0, docs: []*Doc{mkdoc(cmd, int32v(1), "$db", &Val{T: ref.String, S: db})}}}
		if r.Bool() {
			m.sections = append(m.sections, mSection{kind: 1, id: "documents", docs: genDocs(r, 5)})
		}
	default:
		m.ns = db + ".coll" + fmt.Sprint(r.IntN(2))
	}
	return m
}

type handled struct {
	handler int
	ok      bool
}

type dispatcher struct {
	c        *C
	mu       sync.Mutex
	scopes   []mongowire.OpScope
	model    map[mongowire.OpScope]int
	requests map[int32]*mMsg
	handled  map[int32][]handled
	replies  bool
	pauses   *mon.Rand
	run      *serviceRun
}

func (d *dispatcher) find(s mongowire.OpScope) (int, bool) {
	if i, ok := d.model[s]; ok {
		return i, true
	}
	s.Context = ""
	i, ok := d.model[s]
	return i, ok
}

func newDispatcher(c *C) *dispatcher {
	d := &dispatcher{c: c, model: map[mongowire.OpScope]int{}, requests: map[int32]*mMsg{}, handled: map[int32][]handled{}, pauses: fork(c)}
	add := func(s mongowire.OpScope) {
		if _, ok := d.model[s]; !ok && validScope(s) {
			d.model[s] = len(d.scopes)
			d.scopes = append(d.scopes, s)
		}
	}
	for range c.R.Range(4, 40) {
		s := request(c.R, 0).scopeKey()
		if c.R.Chance(2) {
			s.Context = ""
		}
		add(s)
	}
	add(mongowire.OpScope{Type: mongowire.OP_KILL_CURSORS})
	return d
}

func (d *dispatcher) register(c *C, svc mrpc.Service, fn func(int, context.Context, io.Writer, mongowire.Message)) {
	for i, s := range d.scopes {
		if err := svc.RegisterOperation(&s, func(ctx context.Context, w io.Writer, m mongowire.Message) { fn(i, ctx, w, m) }); err != nil {
			c.Failf("register", "%+v: %v", s, err)
		}
	}
}

func (d *dispatcher) handle(i int, ctx context.Context, w io.Writer, m mongowire.Message) {
	c := d.c
	id := m.Header().RequestID
	d.mu.Lock()
	want := d.requests[id]
	d.handled[id] = append(d.handled[id], handled{i, want != nil})
	r := fork2(d.pauses)
	d.mu.Unlock()
	if want == nil {
		c.Report("unknown", "a handler was given a request that was never sent: %d", id)
		return
	}
	safely(func() { want.check(c, "request", m, true) })
	if x, _ := ctx.Value(ctxKey{}).(*serviceRun); x == nil {
		c.Report("context", "the handler's context isn't the service's")
	}
	pause(r)
	c.Event("handled:" + mongowire.OpType(want.op).String())
	reply := mongowire.NewReply(int64(id), 0, 0, 0, nil)
	if err := mongowire.SendMessage(ctx, reply, w); err != nil && ctx.Err() == nil {
		c.Report("reply", "replying to %d: %v", id, err)
	}
}

func fork2(r *mon.Rand) *mon.Rand { return mon.NewRand(int64(r.Uint64()>>1), "fork", 1) }

func (d *dispatcher) newRequest(r *mon.Rand, id int32, known bool) *mMsg {
	for {
		m := request(r, id)
		if _, ok := d.find(m.scopeKey()); ok == known {
			d.mu.Lock()
			d.requests[id] = m
			d.mu.Unlock()
			return m
		}
	}
}

// exchange sends the requests, in pieces, and reads all the replies.
func (d *dispatcher) exchange(r *mon.Rand, conn net.Conn, msgs []*mMsg) {
	c := d.c
	var data []byte
	for _, m := range msgs {
		data = append(data, m.encode()...)
	}
	sent := make(chan struct{})
	go func() {
		defer close(sent)
		for len(data) > 0 {
			n := len(data)
			if r.Bool() {
				n = r.Range(1, n)
			}
			if _, err := conn.Write(data[:n]); err != nil {
				c.Report("write", "sending requests: %v", err)
				return
			}
			data = data[n:]
			pause(r)
		}
	}()
	seen := map[int64]bool{}
	for range msgs {
		got, err := mongowire.ReadMessage(context.Background(), conn)
		if err != nil {
			c.Report("replies", "after %d of %d replies: %v (%q)", len(seen), len(msgs), err, d.run.errors())
			break
		}
		reply, ok := got.(*mongowire.ReplyMessage)
		if !ok {
			c.Report("replies", "the reply is a %T", got)
			break
		}
		if seen[reply.CursorId] {
			c.Report("twice", "there are two replies to %d", reply.CursorId)
		}
		seen[reply.CursorId] = true
	}
	<-sent
	if c.Failed() {
		return
	}
	for _, m := range msgs {
		if !seen[int64(m.reqID)] {
			c.Report("replies", "no reply to %d came on its connection", m.reqID)
		}
	}
}

// judge checks that every request was handled once, by its handler.
func (d *dispatcher) judge(c *C) {
	d.mu.Lock()
	defer d.mu.Unlock()
	for id, m := range d.requests {
		want, ok := d.find(m.scopeKey())
		h := d.handled[id]
		if !ok {
			if len(h) != 0 {
				c.Failf("handler", "%+v has no handler, the request was handled by the one of %+v", m.scopeKey(), d.scopes[h[0].handler])
			}
			continue
		}
		if len(h) != 1 {
			c.Failf("once", "request %d (%+v) was handled %d times", id, m.scopeKey(), len(h))
		}
		if h[0].handler != want {
			c.Failf("handler", "request %d (%+v) was handled by the handler of %+v, expected %+v", id, m.scopeKey(), d.scopes[h[0].handler], d.scopes[want])
		}
		c.Event("judged")
	}
}

func m05Dispatch(c *C) {
	d := newDispatcher(c)
	s := startService(c, func(svc mrpc.Service) { d.register(c, svc, d.handle) })
	defer s.cancel()
	d.run = s
	conns := c.R.Range(1, 6)
	rs := forks(c, conns)
	next := int32(1)
	for g := range conns {
		first, n := next, rs[g].Range(1, 15)
		next += 1000
		r := rs[g]
		bad := r.Chance(4)
		c.Go(func() {
			conn := dial(c, s)
			defer conn.Close()
			for range r.Range(1, 3) {
				var msgs []*mMsg
				for range n {
					msgs = append(msgs, d.newRequest(r, first, true))
					first++
				}
				d.exchange(r, conn, msgs)
				if c.Failed() {
					return
				}
			}
			if bad {
				m := d.newRequest(r, first, false)
				if _, err := conn.Write(m.encode()); err != nil {
					c.Failf("write", "%v", err)
				}
				closed(c, conn, "a request without a handler")
				c.Event("unknown")
			}
		})
	}
	c.Wait()
	unknown := 0
	for _, m := range d.requests {
		if _, ok := d.find(m.scopeKey()); !ok {
			unknown++
		}
		c.State(m.body())
	}
	if !within(10*time.Second, func() bool { return len(s.errors()) >= unknown }) || len(s.errors()) > unknown {
		c.Failf("errors", "%d requests had no handler, the errors are %q", unknown, s.errors())
	}
	d.judge(c)
	s.stop(c)
	c.Sample("%d connections, %d requests, %d scopes", conns, len(d.requests), len(d.scopes))
}

// many connections at once, many requests on one, long ones, and many handlers
// that take their time.
func m05Many(c *C) {
	d := newDispatcher(c)
	insert := mongowire.OpScope{Type: mongowire.OP_INSERT, Context: "db9.coll"}
	d.model[insert] = len(d.scopes)
	d.scopes = append(d.scopes, insert)
	waiting := make(chan struct{}, 1000)
	release := make(chan struct{})
	s := startService(c, func(svc mrpc.Service) {
		d.register(c, svc, d.handle)
		if err := svc.RegisterOperation(&mongowire.OpScope{Type: mongowire.OP_COMMAND, Command: "wait"}, func(ctx context.Context, w io.Writer, m mongowire.Message) {
			waiting <- struct{}{}
			select {
			case <-release:
			case <-ctx.Done():
			}
			_ = mongowire.SendMessage(ctx, mongowire.NewReply(int64(m.Header().RequestID), 0, 0, 0, nil), w)
		}); err != nil {
			c.Failf("register", "%v", err)
		}
	})
	defer s.cancel()
	d.run = s
	// the handlers of two connections wait for everything else to be done.
	busy := c.R.Range(100, 300)
	var slow []net.Conn
	for g := range 2 {
		conn := dial(c, s)
		defer conn.Close()
		slow = append(slow, conn)
		var data []byte
		for i := range busy {
			data = append(data, (&mMsg{op: mCommand, reqID: int32(1<<29 + g*busy + i), ns: "db0", name: "wait", d1: &Doc{}, d2: &Doc{}}).encode()...)
		}
		if _, err := conn.Write(data); err != nil {
			c.Failf("write", "%v", err)
		}
	}
	for i := range 2 * busy {
		select {
		case <-waiting:
		case <-time.After(30 * time.Second):
			c.Failf("handler", "%d of %d requests, whose handlers wait, are handled", i, 2*busy)
		}
	}
	conns := c.R.Range(40, 100)
	rs := forks(c, conns)
	open := make([]net.Conn, conns)
	for g := range conns {
		open[g] = dial(c, s)
		defer open[g].Close()
	}
	for g := range conns {
		r := rs[g]
		first := int32(1 + 10000*g)
		n := r.Range(1, 5)
		if g < 3 {
			n = r.Range(100, 1500)
		}
		long := g == 3 || g == 4
		c.Go(func() {
			var msgs []*mMsg
			for range n {
				m := d.newRequest(r, first, true)
				if long {
					m = &mMsg{op: mInsert, reqID: first, ns: "db9.coll"}
					for range r.Range(1, 3) {
						m.docs = append(m.docs, mkdoc("a", &Val{T: ref.Binary, B: r.Bytes(r.Range(1<<16, 3<<20))}))
					}
					d.mu.Lock()
					d.requests[first] = m
					d.mu.Unlock()
				}
				msgs = append(msgs, m)
				first++
			}
			for k := range 2 {
				d.exchange(r, open[g], msgs[k*len(msgs)/2:(k+1)*len(msgs)/2])
			}
		})
	}
	c.Wait()
	close(release)
	for g, conn := range slow {
		got := map[int64]bool{}
		for range busy {
			m, err := mongowire.ReadMessage(context.Background(), conn)
			if err != nil {
				c.Failf("replies", "%d of %d replies of the handlers that waited: %v", len(got), busy, err)
			}
			if x, ok := m.(*mongowire.ReplyMessage); ok {
				got[x.CursorId-(1<<29)-int64(g*busy)] = true
			}
		}
		for i := range busy {
			if !got[int64(i)] {
				c.Failf("replies", "no reply to request %d came on its connection", i)
			}
		}
	}
	d.judge(c)
	if e := s.errors(); len(e) > 0 {
		c.Failf("errors", "without a failure, the errors are %q", e)
	}
	s.stop(c)
	c.EventN("requests", len(d.requests)+2*busy)
	c.EventN("connections", conns+2)
	c.State(c.Index, len(d.requests))
	c.Sample("%d connections, %d requests, %d waiting handlers", conns+2, len(d.requests), 2*busy)
}

// connections that go wrong don't concern the others.
func m05Failures(c *C) {
	d := newDispatcher(c)
	var panics atomic.Int64
	s := startService(c, func(svc mrpc.Service) {
		d.register(c, svc, d.handle)
		if err := svc.RegisterOperation(&mongowire.OpScope{Type: mongowire.OP_COMMAND, Command: "panic"}, func(context.Context, io.Writer, mongowire.Message) {
			n := panics.Add(1)
			if n%2 == 0 {
				panic(fmt.Errorf("handler panic %d", n))
			}
			panic(fmt.Sprintf("handler panic %d", n))
		}); err != nil {
			c.Failf("register", "%v", err)
		}
	})
	defer s.cancel()
	d.run = s
	conns := c.R.Range(2, 8)
	rs := forks(c, conns)
	var mu sync.Mutex
	kinds := map[string]int{}
	for g := range conns {
		r := rs[g]
		first := int32(1 + 1000*g)
		kind := mon.Pick(r, []string{"good", "panic", "garbage", "partial", "reply", "silent", "damaged"})
		if g == 0 {
			kind = "good"
		}
		mu.Lock()
		kinds[kind]++
		mu.Unlock()
		c.Go(func() {
			conn := dial(c, s)
			defer conn.Close()
			rounds := 1
			if kind == "good" {
				rounds = r.Range(1, 4)
			}
			for range rounds {
				var msgs []*mMsg
				for range r.Range(1, 5) {
					msgs = append(msgs, d.newRequest(r, first, true))
					first++
				}
				d.exchange(r, conn, msgs)
				if c.Failed() {
					return
				}
			}
			write := func(b []byte) {
				if _, err := conn.Write(b); err != nil {
					c.Failf("write", "%v", err)
				}
			}
			switch kind {
			case "panic":
				m := &mMsg{op: mCommand, reqID: math.MaxInt32, ns: "db0", name: "panic", d1: &Doc{}, d2: &Doc{}}
				write(m.encode())
				closed(c, conn, "a handler that panics")
			case "garbage":
				write(frame(0, 0, int32(r.Range(3000, 4000)), r.Bytes(r.IntN(50))))
				closed(c, conn, "a message of an unknown type")
			case "damaged":
				write([]byte{byte(r.IntN(16)), 0, 0, 0})
				closed(c, conn, "a message that is shorter than a header")
			case "reply":
				write((&mMsg{op: mReply}).encode())
				closed(c, conn, "a reply instead of a request")
			case "partial":
				b := request(r, 1<<30).encode()
				write(b[:r.Range(1, len(b)-1)])
				_ = conn.(*net.TCPConn).CloseWrite()
				closed(c, conn, "a message that ends early")
			case "silent":
			}
			c.Event("connection:" + kind)
		})
	}
	c.Wait()
	d.judge(c)
	// all that went wrong is reported.
	reports := func() (panicked, rest int) {
		for _, e := range s.errors() {
			switch {
			case strings.Contains(e, "handler panic"):
				panicked++
			case strings.Contains(e, "use of closed network connection"):
				// of the connection that the panic closed
			default:
				rest++
			}
		}
		return
	}
	wantRest := kinds["garbage"] + kinds["damaged"] + kinds["reply"] + kinds["partial"]
	if !within(10*time.Second, func() bool { p, r := reports(); return p >= kinds["panic"] && r >= wantRest }) {
		c.Failf("errors", "connections %v, the errors are %q", kinds, s.errors())
	}
	if p, r := reports(); p != kinds["panic"] || r != wantRest {
		c.Failf("errors", "connections %v, the errors are %q", kinds, s.errors())
	}
	// and the service goes on.
	conn := dial(c, s)
	d.exchange(c.R, conn, []*mMsg{d.newRequest(c.R, 1<<20, true)})
	conn.Close()
	if c.Failed() {
		return
	}
	s.stop(c)
	c.State(fmt.Sprint(kinds), c.Index)
}

func stacksWith(what ...string) string {
	var sb strings.Builder
	_ = pprof.Lookup("goroutine").WriteTo(&sb, 2)
	out := []string{}
	for _, g := range strings.Split(sb.String(), "\n\n") {
		for _, w := range what {
			if strings.Contains(g, w) {
				out = append(out, g)
				break
			}
		}
	}
	return strings.Join(out, "\n\n")
}

// stopping a service in the middle of anything ends its goroutines and
// connections.
func m05Lifecycle(c *C) {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	d := newDispatcher(c)
	started := make(chan struct{}, 100)
	s := startService(c, func(svc mrpc.Service) {
		d.register(c, svc, d.handle)
		if err := svc.RegisterOperation(&mongowire.OpScope{Type: mongowire.OP_COMMAND, Command: "wait"}, func(ctx context.Context, _ io.Writer, _ mongowire.Message) {
			started <- struct{}{}
			<-ctx.Done()
		}); err != nil {
			c.Failf("register", "%v", err)
		}
	})
	defer s.cancel()
	d.run = s
	// the address is taken.
	_, port, _ := net.SplitHostPort(s.addr)
	var p int
	fmt.Sscan(port, &p)
	other := mrpc.NewBasicService("127.0.0.1", p)
	octx, ocancel := context.WithTimeout(context.Background(), 20*time.Second)
	defer ocancel()
	if err := other.Run(octx); err == nil {
		c.Failf("occupied", "running a second service at %s returned no error", s.addr)
	}
	var conns []net.Conn
	id := int32(0)
	for range c.R.IntN(6) {
		conn := dial(c, s)
		defer conn.Close()
		conns = append(conns, conn)
		for range c.R.IntN(3) {
			id++
			d.exchange(c.R, conn, []*mMsg{d.newRequest(c.R, id, true)})
		}
		switch c.R.IntN(3) {
		case 0: // in a message
			b := request(c.R, 1<<30).encode()
			_, _ = conn.Write(b[:c.R.IntN(len(b)-1)])
		case 1: // in a handler
			m := &mMsg{op: mCommand, reqID: 1 << 29, ns: "db0", name: "wait", d1: &Doc{}, d2: &Doc{}}
			_, _ = conn.Write(m.encode())
			select {
			case <-started:
			case <-time.After(10 * time.Second):
				c.Failf("handler", "a request wasn't handled")
			}
		}
	}
	if c.Failed() {
		return
	}
	pause(c.R)
	hung := false
	if c.R.Chance(4) {
		for _, conn := range conns {
			conn.Close()
		}
		conns, hung = nil, true
	}
	s.stop(c)
	for _, conn := range conns {
		closed(c, conn, "the service was stopped")
	}
	d.judge(c)
	if e := s.errors(); len(e) > 0 && !hung {
		c.Failf("errors", "without a failure, the errors are %q", e)
	}
	var left string
	if !within(10*time.Second, func() bool {
		left = stacksWith("birch/x/mrpc.(*basicService)", "mongowire.runWithContext")
		return left == ""
	}) {
		c.Failf("leak", "goroutines go on after the service was stopped: %s", left)
	}
	// with a context that is cancelled already; on the same address.
	if err := within1(20*time.Second, func() error { return other.Run(ctx) }); err != nil {
		c.Failf("run", "running with a cancelled context, on the address of a stopped service: %v", err)
	}
	c.Event("lifecycle")
	c.State(c.Index, len(conns), id)
}

// m05Accept has connections wait for the process to have a file descriptor for
// them.
func m05Accept(c *C) {
	d := newDispatcher(c)
	s := startService(c, func(svc mrpc.Service) { d.register(c, svc, d.handle) })
	defer s.cancel()
	d.run = s
	id := int32(0)
	exchange := func(conn net.Conn) {
		id++
		d.exchange(c.R, conn, []*mMsg{d.newRequest(c.R, id, true)})
	}
	first := dial(c, s)
	defer first.Close()
	exchange(first)
	for range c.R.Range(1, 3) {
		before := len(s.errors())
		var held []int
		release := func() {
			for _, fd := range held {
				_ = syscall.Close(fd)
			}
			held = nil
		}
		top, err := syscall.Dup(0)
		if err != nil {
			c.Failf("setup", "dup: %v", err)
		}
		held = append(held, top)
		var old syscall.Rlimit
		if err := syscall.Getrlimit(syscall.RLIMIT_NOFILE, &old); err != nil {
			release()
			c.Failf("setup", "getrlimit: %v", err)
		}
		restore := func() {
			_ = syscall.Setrlimit(syscall.RLIMIT_NOFILE, &old)
			release()
		}
		low := old
		low.Cur = uint64(top) + 20
		if err := syscall.Setrlimit(syscall.RLIMIT_NOFILE, &low); err != nil {
			restore()
			c.Failf("setup", "setrlimit: %v", err)
		}
		for {
			fd, err := syscall.Dup(0)
			if err != nil {
				break
			}
			held = append(held, fd)
		}
		_ = syscall.Close(held[len(held)-1])
		held = held[:len(held)-1]
		conn, err := net.Dial("tcp", s.addr)
		if err != nil {
			restore()
			c.Failf("setup", "dial: %v", err)
		}
		reported := within(10*time.Second, func() bool { return len(s.errors()) > before })
		if c.R.Bool() {
			// the one that is there goes on.
			exchange(first)
		}
		restore()
		if !reported {
			conn.Close()
			c.Failf("errors", "a connection that couldn't be accepted wasn't reported")
		}
		_ = conn.SetDeadline(time.Now().Add(60 * time.Second))
		exchange(conn)
		conn.Close()
		c.Event("waited")
	}
	exchange(first)
	c.State(fmt.Sprint(c.Index))
	d.judge(c)
	s.stop(c)
	c.Sample("%d requests", len(d.requests))
}

func within1(d time.Duration, fn func() error) error {
	res := make(chan error, 1)
	go func() { res <- fn() }()
	select {
	case err := <-res:
		return err
	case <-time.After(d):
		return errors.New("it doesn't return")
	}
}
