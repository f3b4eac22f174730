package main

import (
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"net"
	"strings"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/bsonerr"
	"github.com/tychoish/birch/x/blist"
	"github.com/tychoish/birch/x/mrpc"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"github.com/tychoish/birch/x/mrpc/shell"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:   "S01",
		Rule: "random documents and errors become requests and responses of both protocols, go over the wire and back; every command of the shell service is called with random requests; all is compared byte by byte; a case is non-trivial when its messages are new",
		Workloads: []mon.Workload{
			{Name: "conversions", Quick: 20000, Thorough: 500000, Run: s01Conversions},
			{Name: "responses", Quick: 10000, Thorough: 300000, Run: s01Responses},
			{Name: "commands", Quick: 4000, Thorough: 100000, Run: s01Commands},
			{Name: "service", Quick: 40, Thorough: 1000, Run: s01Service},
		},
	})
	mon.Register(&mon.Property{
		ID:   "L01",
		Rule: "histories of operations on a list document are compared, after every operation, with a list; a case is non-trivial when its history is new",
		Workloads: []mon.Workload{
			{Name: "histories", Quick: 20000, Thorough: 1000000, Run: l01History},
		},
	})
}

func shellRequest(m mongowire.Message) (*birch.Document, error) {
	return shell.RequestMessageToDocument(m)
}

func shellResponse(m mongowire.Message) (*birch.Document, error) {
	return shell.ResponseMessageToDocument(m)
}

func sameDocument(c *C, what string, got *birch.Document, want *Doc) {
	if got == nil {
		c.Failf("document", "%s: nil", what)
	}
	if b := mustMarshal(c, got); !bytes.Equal(b, want.Encode()) {
		c.Failf("document", "%s: %s", what, diffAt(b, want.Encode()))
	}
	c.Event("document")
}

// replyTo is the response with a document to a request of a protocol.
func replyTo(op mongowire.OpType, d *Doc) *mMsg {
	if op == mongowire.OP_MSG {
		return &mMsg{op: mMessage, reqID: 19, sections: []mSection{{kind: 0, docs: []*Doc{d}}}}
	}
	return &mMsg{op: mReply, reqID: 19, b: 1, docs: []*Doc{d}}
}

func requestOf(op mongowire.OpType, d *Doc) *mMsg {
	if op == mongowire.OP_MSG {
		return &mMsg{op: mMessage, reqID: 19, sections: []mSection{{kind: 0, docs: []*Doc{d}}}}
	}
	return &mMsg{op: mQuery, reqID: 19, ns: "mrpc.$cmd", b: 1, d1: d, d2: &Doc{}}
}

func genOp(r *mon.Rand) mongowire.OpType {
	if r.Chance(3) {
		return mongowire.OpType(mon.Pick(r, mOps))
	}
	return mon.Pick(r, []mongowire.OpType{mongowire.OP_MSG, mongowire.OP_COMMAND, mongowire.OP_QUERY})
}

func wire(c *C, what string, m mongowire.Message, want *mMsg) mongowire.Message {
	b := m.Serialize()
	if enc := want.encode(); !bytes.Equal(b, enc) {
		c.Failf("bytes", "%s: %s", what, diffAt(b, enc))
	}
	c.StateBytes(b)
	got, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(b))
	if err != nil {
		c.Failf("read", "%s: %v", what, err)
	}
	return got
}

func s01Conversions(c *C) {
	op := genOp(c.R)
	d := genDocOf(c.R)
	for len(d.E) == 0 {
		d = genDocOf(c.R)
	}
	b := &builder{r: c.R}
	req, err := shell.RequestToMessage(op, b.doc(d))
	if err != nil {
		c.Failf("request", "%s: %v", op, err)
	}
	got := wire(c, "request", req, requestOf(op, d))
	out, err := shell.RequestMessageToDocument(got)
	if err != nil {
		c.Failf("request", "%s, document of the request: %v", op, err)
	}
	sameDocument(c, "request", out, d)
	if op == mongowire.OP_MSG {
		out, err := shell.RequestMessageToDocument(req)
		if err != nil {
			c.Failf("request", "%s, document of the request: %v", op, err)
		}
		sameDocument(c, "request before sending", out, d)
	}
	c.Event("request:" + op.String())

	resp, err := shell.ResponseToMessage(op, b.doc(d))
	if err != nil {
		c.Failf("response", "%s: %v", op, err)
	}
	for _, m := range []mongowire.Message{resp, wire(c, "response", resp, replyTo(op, d))} {
		out, err := shell.ResponseMessageToDocument(m)
		if err != nil {
			c.Failf("response", "%s, document of the response: %v", op, err)
		}
		sameDocument(c, "response", out, d)
	}
	b.checkGuards(c)
	c.Event("response:" + op.String())

	// any message
	m := genMsg(c.R, mon.Pick(c.R, mOps), true)
	enc := m.encode()
	msg, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(enc))
	if err != nil {
		c.Failf("read", "a %s: %v", mongowire.OpType(m.op), err)
	}
	var wantReq, wantResp *Doc
	switch m.op {
	case mCommand:
		wantReq = m.d1
	case mQuery:
		if isCommandNS(m.ns) {
			wantReq = m.d1
		}
	case mReply:
		if len(m.docs) > 0 {
			wantResp = m.docs[0]
		}
	case mCommandReply:
		wantResp = m.d1
	case mMessage:
		for _, s := range m.sections {
			if s.kind == 0 {
				wantReq, wantResp = s.docs[0], s.docs[0]
				break
			}
		}
	}
	judge := func(what string, d *birch.Document, err error, want *Doc) {
		if (err == nil) != (want != nil) || (err != nil && d != nil) {
			c.Failf("any", "%s of a %s: %v, %v", what, mongowire.OpType(m.op), d, err)
		}
		if want != nil {
			sameDocument(c, what, d, want)
		}
		c.Event(fmt.Sprintf("%s:%v", what, want != nil))
	}
	out, err = shell.RequestMessageToDocument(msg)
	judge("request document", out, err, wantReq)
	out, err = shell.ResponseMessageToDocument(msg)
	judge("response document", out, err, wantResp)
}

func s01Responses(c *C) {
	n := newNative(c)
	var r shell.ErrorResponse
	var text string
	var ok bool
	switch c.R.IntN(3) {
	case 0:
		r = shell.MakeSuccessResponse()
		ok = true
	case 1:
		ok = c.R.Bool()
		var err error
		if c.R.Bool() {
			text = smallGen(c.R).Str(100, true)
			err = errors.New(text)
		}
		r = shell.MakeErrorResponse(ok, err)
	case 2:
		ok = true
		text = smallGen(c.R).Str(100, true)
		r = shell.ErrorResponse{OK: int(ref.Int64v(c.R)), ErrorMessage: text}
		ok = r.OK != 0
	}
	if (r.OK == 1) != ok && (r.OK != 0) != ok || r.ErrorMessage != text {
		c.Failf("make", "the response is %+v, expected %v %q", r, ok, text)
	}
	err := r.SuccessOrError()
	switch {
	case text != "":
		if err == nil || err.Error() != text {
			c.Failf("error", "the error of %+v is %v", r, err)
		}
	case (err == nil) != ok:
		c.Failf("error", "the error of %+v is %v", r, err)
	}
	want := mkdoc("ok", n.intAny(int64(r.OK)), "errmsg", &Val{T: ref.String, S: text})
	d, err := r.MarshalDocument()
	if err != nil {
		c.Failf("marshal", "%+v: %v", r, err)
	}
	n.judge(c, "response", d, want)
	// back, in any order and among other fields
	back := &Doc{}
	for _, i := range c.R.Perm(2) {
		for c.R.Chance(3) {
			k := smallGen(c.R).Key()
			if k != "ok" && k != "errmsg" {
				back.Append(k, smallGen(c.R).Val())
			}
		}
		back.Append(want.E[i].K, want.E[i].V)
	}
	if field(back, "ok").I == int64(int32(field(back, "ok").I)) && c.R.Bool() {
		for _, e := range back.E {
			if e.K == "ok" {
				e.V.T = mon.Pick(c.R, []byte{ref.Int32, ref.Int64})
			}
		}
	} else {
		for _, e := range back.E {
			if e.K == "ok" {
				e.V.T = ref.Int64
			}
		}
	}
	var got shell.ErrorResponse
	if err := got.UnmarshalDocument((&builder{r: c.R}).doc(back)); err != nil || got != r {
		c.Failf("unmarshal", "%+v comes back as %+v: %v", r, got, err)
	}
	c.StateBytes(back.Encode())
	// fields of other types
	bad := mon.Pick(c.R, []string{"ok", "errmsg"})
	v := smallGen(c.R).Val()
	if refused := bad == "ok" && v.T != ref.Int32 && v.T != ref.Int64 || bad == "errmsg" && v.T != ref.String; refused {
		got := shell.ErrorResponse{}
		if err := got.UnmarshalDocument((&builder{r: c.R}).doc(mkdoc(bad, v))); err == nil {
			c.Failf("types", "a response whose %s is of type %x is accepted: %+v", bad, v.T, got)
		}
		c.Event("refused")
	}
	// sent
	op := genOp(c.R)
	w := &pieceWriter{fail: -1}
	var exp *Doc
	switch c.R.IntN(4) {
	case 0:
		err = shell.WriteOKResponse(context.Background(), w, op, "x")
		exp = mkdoc("ok", int32v(1), "errmsg", &Val{T: ref.String})
	case 1:
		err = shell.WriteNotOKResponse(context.Background(), w, op, "x")
		exp = mkdoc("ok", int32v(0), "errmsg", &Val{T: ref.String})
	case 2:
		err = shell.WriteErrorResponse(context.Background(), w, op, errors.New(text), "x")
		exp = mkdoc("ok", int32v(0), "errmsg", &Val{T: ref.String, S: text})
	case 3:
		m := genMsg(c.R, mon.Pick(c.R, mOps), false)
		if err := shell.WriteResponse(context.Background(), w, m.construct(&builder{r: c.R}), "x"); err != nil || !bytes.Equal(w.buf, m.encode()) {
			c.Failf("write", "%v: %s", err, diffAt(w.buf, m.encode()))
		}
	}
	if exp != nil {
		if err != nil {
			c.Failf("write", "%v", err)
		}
		s01Sent(c, w.buf, op, exp)
	}
	// to a writer that fails
	w = &pieceWriter{fail: c.R.IntN(30), err: errors.New("writer failed")}
	for i, err := range []error{
		shell.WriteOKResponse(context.Background(), w, op, "x"),
		shell.WriteNotOKResponse(context.Background(), w, op, "x"),
		shell.WriteErrorResponse(context.Background(), w, op, errors.New(text), "x"),
	} {
		if !errors.Is(err, w.err) {
			c.Failf("write-error", "%d: the writer failed, the error is %v", i, err)
		}
	}
	c.Event("response")
}

// s01Sent compares what was sent; integers may be of either width.
func s01Sent(c *C, b []byte, op mongowire.OpType, want *Doc) {
	got, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(b))
	if err != nil {
		c.Failf("sent", "%v: %x", err, b)
	}
	kind := mongowire.OP_REPLY
	if op == mongowire.OP_MSG {
		kind = mongowire.OP_MSG
	}
	if got.Header().OpCode != kind || int(got.Header().Size) != len(b) {
		c.Failf("sent", "the response to a %s is a %s of %d bytes, %d were sent", op, got.Header().OpCode, got.Header().Size, len(b))
	}
	d, err := shell.ResponseMessageToDocument(got)
	if err != nil {
		c.Failf("sent", "%v", err)
	}
	x, err := ref.Decode(mustMarshal(c, d))
	if err != nil {
		c.Failf("sent", "%v", err)
	}
	for i := range x.E {
		if x.E[i].V.T == ref.Int64 {
			x.E[i].V.T = ref.Int32
		}
	}
	if !ref.Equal(x, want) {
		c.Failf("sent", "the response to a %s is %s, expected %x", op, d, want.Encode())
	}
	c.Event("sent")
}

// captured is a service that keeps what is registered.
type captured struct {
	addr     string
	handlers map[mongowire.OpScope]mrpc.HandlerFunc
	fail     int
	n        int
	err      error
}

func (s *captured) Address() string                  { return s.addr }
func (s *captured) Run(context.Context) error        { return s.err }
func (s *captured) RegisterErrorHandler(func(error)) {}
func (s *captured) RegisterOperation(scope *mongowire.OpScope, h mrpc.HandlerFunc) error {
	if s.n++; s.n == s.fail {
		return s.err
	}
	if err := scope.Validate(); err != nil {
		return err
	}
	if _, ok := s.handlers[*scope]; ok {
		return errors.New("registered twice")
	}
	s.handlers[*scope] = h
	return nil
}

var shellCommands = map[string]func(addr string) *Doc{
	"isMaster": func(string) *Doc {
		return mkdoc("ok", int32v(1), "errmsg", &Val{T: ref.String}, "minWireVersion", int32v(0), "maxWireVersion", int32v(6))
	},
	"whatsmyuri": func(addr string) *Doc {
		return mkdoc("ok", int32v(1), "errmsg", &Val{T: ref.String}, "you", &Val{T: ref.String, S: addr})
	},
	"buildInfo":               buildInfoDoc,
	"buildinfo":               buildInfoDoc,
	"endSessions":             notOKDoc,
	"getCmdLineOpts":          notOKDoc,
	"getFreeMonitoringStatus": notOKDoc,
	"replSetGetStatus":        notOKDoc,
	"listCollections":         notOKDoc,
	"getLog": func(string) *Doc {
		return mkdoc("ok", int32v(1), "errmsg", &Val{T: ref.String}, "log", &Val{T: ref.Array, D: &Doc{}})
	},
}

func buildInfoDoc(string) *Doc {
	return mkdoc("ok", int32v(1), "errmsg", &Val{T: ref.String}, "version", &Val{T: ref.String, S: "0.0.0"})
}

func notOKDoc(string) *Doc { return mkdoc("ok", int32v(0), "errmsg", &Val{T: ref.String}) }

var commandNames = func() (out []string) {
	for _, n := range []string{"isMaster", "whatsmyuri", "buildInfo", "buildinfo", "endSessions", "getCmdLineOpts", "getFreeMonitoringStatus", "replSetGetStatus", "listCollections", "getLog"} {
		out = append(out, n)
	}
	return
}()

func commandRequest(r *mon.Rand, name string) *mMsg {
	g := smallGen(r)
	args := mkdoc(name, int32v(1))
	for range r.IntN(3) {
		args.Append(g.Key(), g.Val())
	}
	switch r.IntN(3) {
	case 0:
		return &mMsg{op: mCommand, reqID: ref.Int32v(r), ns: "admin", name: name, d1: args, d2: &Doc{}}
	case 1:
		return &mMsg{op: mQuery, reqID: ref.Int32v(r), ns: "admin.$cmd", d1: args, d2: &Doc{}}
	}
	m := &mMsg{op: mMessage, reqID: ref.Int32v(r), sections: []mSection{{kind: 0, docs: []*Doc{args}}}}
	if r.Bool() {
		args.Append("$db", &Val{T: ref.String, S: "admin"})
	}
	return m
}

func s01Commands(c *C) {
	s := &captured{addr: smallGen(c.R).Str(30, false), handlers: map[mongowire.OpScope]mrpc.HandlerFunc{}, err: errors.New("refused")}
	if c.R.Chance(5) {
		s.fail = c.R.Range(1, 20)
		if svc, err := shell.MakeShellService(s); err == nil || !errors.Is(err, s.err) || svc != nil {
			c.Failf("register", "registration %d of 20 was refused, the error is %v", s.fail, err)
		}
		c.Event("registration refused")
		return
	}
	svc, err := shell.MakeShellService(s)
	if err != nil {
		c.Failf("register", "%v", err)
	}
	if svc.Address() != s.addr || svc.Run(context.Background()) != s.err {
		c.Failf("wrap", "the shell service isn't the given one")
	}
	if len(s.handlers) != 2*len(commandNames) {
		c.Failf("register", "%d scopes are registered, expected %d", len(s.handlers), 2*len(commandNames))
	}
	for range 5 {
		name := mon.Pick(c.R, commandNames)
		m := commandRequest(c.R, name)
		msg, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(m.encode()))
		if err != nil {
			c.Failf("read", "%v", err)
		}
		scope := *msg.Scope()
		scope.Context = ""
		h, ok := s.handlers[scope]
		if !ok {
			c.Failf("register", "nothing is registered for %+v", scope)
		}
		w := &pieceWriter{fail: -1}
		h(context.Background(), w, msg)
		s01Sent(c, w.buf, msg.Header().OpCode, shellCommands[name](s.addr))
		c.Event("command:" + name)
		c.StateBytes(m.encode())
		h(context.Background(), &pieceWriter{fail: c.R.IntN(20), err: errors.New("writer failed")}, msg)
	}
}

// the shell service over the network.
func s01Service(c *C) {
	var addr string
	s := startService(c, func(svc mrpc.Service) {
		addr = svc.Address()
		if _, err := shell.MakeShellService(svc); err != nil {
			c.Failf("register", "%v", err)
		}
		if _, err := shell.MakeShellService(svc); err == nil {
			c.Failf("register", "the commands were registered twice")
		}
	})
	defer s.cancel()
	conn := dial(c, s)
	defer conn.Close()
	for range 8 {
		name := mon.Pick(c.R, commandNames)
		op := genOp(c.R)
		args := mkdoc(name, int32v(1))
		req, err := shell.RequestToMessage(op, (&builder{r: c.R}).doc(args))
		if err != nil {
			c.Failf("request", "%v", err)
		}
		if err := mongowire.SendMessage(context.Background(), req, conn); err != nil {
			c.Failf("send", "%v", err)
		}
		b := readFrame(c, conn)
		s01Sent(c, b, op, shellCommands[name](addr))
		c.State(name, op)
	}
	s.stop(c)
	// one made with its address
	host := mon.Pick(c.R, []string{"localhost", "127.0.0.1", "example.com", ""})
	port := c.R.IntN(65536)
	svc, err := shell.NewShellService(host, port)
	if err != nil || svc.Address() != fmt.Sprintf("%s:%d", host, port) {
		c.Failf("new", "a service at %q %d: %v", host, port, err)
	}
}

func readFrame(c *C, conn net.Conn) []byte {
	b := make([]byte, 4)
	if _, err := io.ReadFull(conn, b); err != nil {
		c.Failf("response", "%v", err)
	}
	n := int(b[0]) | int(b[1])<<8 | int(b[2])<<16
	b = append(b, make([]byte, max(0, n-4))...)
	if _, err := io.ReadFull(conn, b[4:]); err != nil {
		c.Failf("response", "%v", err)
	}
	return b
}

// --- L01

func l01History(c *C) {
	d := &blist.Document{}
	type item struct {
		k string
		v *Val
		e *birch.Element
	}
	var model []item
	b := &builder{r: c.R}
	g := smallGen(c.R)
	g.Budget, g.Depth, g.MaxElems = 2000, 2, 4
	var history []string
	make1 := func() item {
		k := mon.Pick(c.R, []string{"a", "b", "c", "d", "", "long key"})
		if c.R.Chance(6) {
			k = g.Key()
		}
		v := g.Val()
		if c.R.Chance(4) {
			v = zeroOf(c.R)
		}
		return item{k, v, b.elem(k, v)}
	}
	many := func() (out []item, elems []*birch.Element) {
		n := c.R.IntN(4)
		if c.R.Chance(100) {
			n = c.R.Range(50, 300)
		}
		for range n {
			it := make1()
			out = append(out, it)
			elems = append(elems, it.e)
		}
		return
	}
	for range c.R.Range(1, 25) {
		var op string
		switch c.R.IntN(9) {
		case 0, 1:
			items, elems := many()
			op = fmt.Sprintf("append %d", len(items))
			if d.Append(elems...) != d {
				c.Failf("self", "Append returns another document")
			}
			model = append(model, items...)
		case 2:
			items, elems := many()
			op = fmt.Sprintf("omitempty %d", len(items))
			for i, it := range items {
				empty, known := isEmpty(it.v)
				if !known {
					empty = elems[i].Value().IsEmpty()
				}
				if !empty {
					model = append(model, it)
				}
			}
			if c.R.Bool() {
				elems = append(elems, nil)
				elems[len(elems)-1], elems[0] = elems[0], elems[len(elems)-1]
				if len(elems) > 1 {
					// the first one is now last
					elems = append([]*birch.Element{elems[len(elems)-1]}, elems[:len(elems)-1]...)
				}
			}
			if d.AppendOmitEmpty(elems...) != d {
				c.Failf("self", "AppendOmitEmpty returns another document")
			}
		case 3, 4:
			items, elems := many()
			op = fmt.Sprintf("prepend %d", len(items))
			if d.Prepend(elems...) != d {
				c.Failf("self", "Prepend returns another document")
			}
			model = append(append([]item{}, items...), model...)
		case 5, 6:
			it := make1()
			op = "set " + it.k
			if d.Set(it.e) != d {
				c.Failf("self", "Set returns another document")
			}
			found := false
			for i := range model {
				if model[i].k == it.k {
					model[i], found = it, true
					break
				}
			}
			if !found {
				model = append(model, it)
			}
		case 7:
			k := make1().k
			op = "delete " + k
			var want *birch.Element
			for i := range model {
				if model[i].k == k {
					want = model[i].e
					model = append(append([]item{}, model[:i]...), model[i+1:]...)
					break
				}
			}
			if got := d.Delete(k); got != want {
				c.Failf("delete", "deleting %q returns %v, expected %v", k, got, want)
			}
		case 8:
			// nothing can be made of no element
			var p any
			switch c.R.IntN(3) {
			case 0:
				p = mon.NoPanic(func() { d.Append(nil) })
			case 1:
				p = mon.NoPanic(func() { d.Prepend(nil) })
			case 2:
				p = mon.NoPanic(func() { d.Set(nil) })
			}
			if p != bsonerr.NilElement {
				c.Failf("nil", "adding a nil element: %v", p)
			}
			op = "nil"
		}
		history = append(history, op)
		c.Event("op:" + strings.Fields(op)[0])
		if d.Len() != len(model) {
			c.Note("history", strings.Join(history, "; "))
			c.Failf("length", "after %s, the length is %d, expected %d", op, d.Len(), len(model))
		}
		i := 0
		size := 5
		k := comparer{c: c}
		for e := range d.IteratorFront() {
			if i >= len(model) || e != model[i].e {
				c.Note("history", strings.Join(history, "; "))
				c.Failf("element", "after %s, element %d is %v", op, i, e)
			}
			k.elem(fmt.Sprint(i), e, model[i].k, model[i].v)
			size += len(ref.EncodeElem(model[i].k, model[i].v))
			i++
		}
		if i != len(model) {
			c.Failf("element", "after %s, there are %d elements, expected %d", op, i, len(model))
		}
		for e := range d.IteratorBack() {
			i--
			if i < 0 || e != model[i].e {
				c.Failf("element", "after %s, backwards, element %d is %v", op, i, e)
			}
		}
		if n, err := d.Validate(); err != nil || int(n) != size {
			c.Failf("size", "after %s, the size is %d, %v, expected %d", op, n, err, size)
		}
	}
	var none *blist.Document
	if _, err := none.Validate(); err != bsonerr.NilDocument {
		c.Failf("nil", "a nil document is valid: %v", err)
	}
	c.State(strings.Join(history, ";"), len(model))
	b.checkGuards(c)
}
