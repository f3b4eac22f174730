package main

import (
	"bytes"
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"runtime"
	"strings"
	"sync"
	"time"

	"github.com/tychoish/birch"
	"github.com/tychoish/birch/x/mrpc/model"
	"github.com/tychoish/birch/x/mrpc/mongowire"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	mon.Register(&mon.Property{
		ID:   "M01",
		Rule: "messages of every type are constructed or encoded by an independent encoder of the wire protocol, read back and compared field by field and byte by byte; a case is non-trivial when its encoding is new",
		Assumptions: []string{
			"namespaces, names and identifiers have no NUL; documents are given (only a query's projection is optional)",
		},
		Workloads: []mon.Workload{
			{Name: "constructed", Quick: 25000, Thorough: 1000000, Run: m01Constructed},
			{Name: "foreign", Quick: 25000, Thorough: 1000000, Run: m01Foreign},
		},
	})
	mon.Register(&mon.Property{
		ID:   "M02",
		Rule: "streams of messages arrive in pieces of any size, cut, failing, cancelled and blocked; every message read is compared to the one sent; a case is non-trivial when its stream is new",
		Workloads: []mon.Workload{
			{Name: "streams", Quick: 6000, Thorough: 200000, Run: m02Streams},
			{Name: "cuts", Quick: 600, Thorough: 20000, Run: m02Cuts},
			{Name: "large", Quick: 60, Thorough: 2000, Run: m02Large},
			{Name: "sizes", Quick: 3000, Thorough: 50000, Run: m02Sizes},
			{Name: "writers", Quick: 6000, Thorough: 200000, Run: m02Writers},
			{Name: "cancelled", Quick: 400, Thorough: 6000, Run: m02Cancelled},
			{Name: "pipes", Quick: 150, Thorough: 6000, Race: true, Run: m02Pipes},
		},
	})
	mon.Register(&mon.Property{
		ID:   "M03",
		Rule: "messages damaged in their lengths, documents, kinds and contents go through the reader and the parsers of every type, and are judged by an independent parser; whatever is accepted is used completely; a case is non-trivial when its input is new",
		Assumptions: []string{
			"what follows the last document of an update or delete, or the last number of a get more or kill cursors message, is not judged",
		},
		Workloads: []mon.Workload{
			{Name: "damaged", Quick: 60000, Thorough: 2000000, Run: m03Damaged},
			{Name: "every-length", Quick: 1500, Thorough: 30000, Run: m03Lengths},
			{Name: "truncated", Quick: 800, Thorough: 20000, Run: m03Truncated},
			{Name: "random", Quick: 20000, Thorough: 500000, Run: m03Random},
			{Name: "memory", Quick: 600, Thorough: 8000, Serial: true, Run: m03Memory},
		},
	})
}

// section of an OP_MSG.
type mSection struct {
	kind byte
	id   string
	docs []*Doc
}

// mMsg is the model of a message.
type mMsg struct {
	op         int32
	reqID, rto int32
	flags      int32
	ns         string // database of a command
	name       string // command name
	a, b       int32  // skip and number to return; starting from and number returned
	cursor     int64
	ids        []int64
	d1, d2     *Doc // filter, query, arguments and update, projection, metadata
	docs       []*Doc
	sections   []mSection
	checksum   int32
}

const (
	mReply        = 1
	mUpdate       = 2001
	mInsert       = 2002
	mQuery        = 2004
	mGetMore      = 2005
	mDelete       = 2006
	mKillCursors  = 2007
	mCommand      = 2010
	mCommandReply = 2011
	mMessage      = 2013
)

var mOps = []int32{mReply, mUpdate, mInsert, mQuery, mGetMore, mDelete, mKillCursors, mCommand, mCommandReply, mMessage}

func app32(b []byte, i int32) []byte { return binary.LittleEndian.AppendUint32(b, uint32(i)) }
func app64(b []byte, i int64) []byte { return binary.LittleEndian.AppendUint64(b, uint64(i)) }
func appC(b []byte, s string) []byte { return append(append(b, s...), 0) }

func appDoc(b []byte, d *Doc) []byte {
	if d == nil {
		return b
	}
	return append(b, d.Encode()...)
}

func appDocs(b []byte, ds []*Doc) []byte {
	for _, d := range ds {
		b = appDoc(b, d)
	}
	return b
}

func (m *mMsg) body() []byte {
	var b []byte
	switch m.op {
	case mReply:
		b = app32(b, m.flags)
		b = app64(b, m.cursor)
		b = app32(b, m.a)
		b = app32(b, m.b)
		b = appDocs(b, m.docs)
	case mUpdate:
		b = app32(b, 0)
		b = appC(b, m.ns)
		b = app32(b, m.flags)
		b = appDoc(b, m.d1)
		b = appDoc(b, m.d2)
	case mInsert:
		b = app32(b, m.flags)
		b = appC(b, m.ns)
		b = appDocs(b, m.docs)
	case mQuery:
		b = app32(b, m.flags)
		b = appC(b, m.ns)
		b = app32(b, m.a)
		b = app32(b, m.b)
		b = appDoc(b, m.d1)
		b = appDoc(b, m.d2)
	case mGetMore:
		b = app32(b, 0)
		b = appC(b, m.ns)
		b = app32(b, m.a)
		b = app64(b, m.cursor)
	case mDelete:
		b = app32(b, 0)
		b = appC(b, m.ns)
		b = app32(b, m.flags)
		b = appDoc(b, m.d1)
	case mKillCursors:
		b = app32(b, 0)
		b = app32(b, int32(len(m.ids)))
		for _, id := range m.ids {
			b = app64(b, id)
		}
	case mCommand:
		b = appC(b, m.ns)
		b = appC(b, m.name)
		b = appDoc(b, m.d1)
		b = appDoc(b, m.d2)
		b = appDocs(b, m.docs)
	case mCommandReply:
		b = appDoc(b, m.d1)
		b = appDoc(b, m.d2)
		b = appDocs(b, m.docs)
	case mMessage:
		b = app32(b, m.flags)
		for _, s := range m.sections {
			b = append(b, s.kind)
			if s.kind == 0 {
				b = appDoc(b, s.docs[0])
				continue
			}
			var p []byte
			p = appC(p, s.id)
			p = appDocs(p, s.docs)
			b = app32(b, int32(4+len(p)))
			b = append(b, p...)
		}
		if m.flags&1 != 0 {
			b = app32(b, m.checksum)
		}
	default:
		panic("op")
	}
	return b
}

func frame(reqID, rto, op int32, body []byte) []byte {
	var b []byte
	b = app32(b, int32(16+len(body)))
	b = app32(b, reqID)
	b = app32(b, rto)
	b = app32(b, op)
	return append(b, body...)
}

func (m *mMsg) encode() []byte { return frame(m.reqID, m.rto, m.op, m.body()) }

// isCommandNS says whether the collection starts with $.
func isCommandNS(ns string) bool {
	_, coll, ok := strings.Cut(ns, ".")
	return ok && strings.HasPrefix(coll, "$")
}

func smallGen(r *mon.Rand) *ref.Gen {
	g := ref.NewGen(r)
	if r.Chance(10) {
		g.Budget = min(g.Budget, 20000)
		return g
	}
	g.Budget, g.Depth, g.MaxElems = r.Range(20, 600), r.Range(1, 5), r.Range(1, 8)
	return g
}

func genDocs(r *mon.Rand, limit int) []*Doc {
	n := r.IntN(4)
	if r.Chance(6) {
		n = r.IntN(limit + 1)
		if r.Chance(30) {
			n = r.IntN(20*limit + 1)
		}
	}
	out := make([]*Doc, 0, n)
	for range n {
		out = append(out, genDocOf(r))
	}
	return out
}

func genDocOf(r *mon.Rand) *Doc {
	if r.Chance(8) {
		return &Doc{}
	}
	return smallGen(r).Doc()
}

func genNS(r *mon.Rand) string {
	switch r.IntN(8) {
	case 0:
		return mon.Pick(r, []string{"", ".", "$", "$cmd", ".$", ".$cmd", "db", "db.", "db..$", "db.c.$cmd", "a.$b", "db.c$", "db.$"})
	case 1:
		return smallGen(r).Str(200, false)
	case 2:
		return fmt.Sprintf("db%d.$cmd", r.IntN(5))
	case 3:
		return fmt.Sprintf("db%d.c%d.$x", r.IntN(5), r.IntN(5))
	}
	return fmt.Sprintf("db%d.coll%d", r.IntN(5), r.IntN(5))
}

func genMsg(r *mon.Rand, op int32, foreign bool) *mMsg {
	m := &mMsg{op: op, reqID: 19}
	g := smallGen(r)
	if foreign {
		m.reqID, m.rto = ref.Int32v(r), ref.Int32v(r)
	}
	flags := func() int32 {
		if r.Bool() {
			return int32(r.IntN(8))
		}
		return ref.Int32v(r)
	}
	m.ns = genNS(r)
	switch op {
	case mReply:
		m.flags, m.cursor, m.a, m.b, m.docs = flags(), ref.Int64v(r), ref.Int32v(r), ref.Int32v(r), genDocs(r, 40)
	case mUpdate:
		m.flags, m.d1, m.d2 = flags(), genDocOf(r), genDocOf(r)
	case mInsert:
		m.docs = genDocs(r, 40)
		if foreign {
			m.flags = flags()
		}
	case mQuery:
		m.flags, m.a, m.b, m.d1 = flags(), ref.Int32v(r), ref.Int32v(r), genDocOf(r)
		if !r.Chance(3) {
			m.d2 = genDocOf(r)
		}
		if isCommandNS(m.ns) && len(m.d1.E) == 0 {
			m.d1 = (&Doc{}).Append(g.Key(), g.Val())
		}
	case mGetMore:
		m.a, m.cursor = ref.Int32v(r), ref.Int64v(r)
	case mDelete:
		m.flags, m.d1 = flags(), genDocOf(r)
	case mKillCursors:
		m.ids = make([]int64, ref.Len(r, 300))
		for i := range m.ids {
			m.ids[i] = ref.Int64v(r)
		}
	case mCommand:
		m.ns, m.name = g.Str(60, false), g.Str(60, false)
		m.d1, m.d2, m.docs = genDocOf(r), genDocOf(r), genDocs(r, 20)
	case mCommandReply:
		m.d1, m.d2, m.docs = genDocOf(r), genDocOf(r), genDocs(r, 20)
	case mMessage:
		body := func() *Doc {
			d := genDocOf(r)
			if r.Bool() {
				d = mkdoc(mon.Pick(r, []string{"ping", "find", "isMaster", "", "$db"}), int32v(1))
				for range r.IntN(3) {
					d.Append(g.Key(), g.Val())
				}
			}
			switch r.IntN(4) {
			case 0, 1:
				d.Append("$db", &Val{T: ref.String, S: g.Str(30, true)})
			case 2:
				d.Append("$db", g.Val())
			}
			return d
		}
		bodies, seqs := 1, r.IntN(3)
		if r.Chance(5) {
			bodies, seqs = r.IntN(4), r.IntN(8)
		}
		for range bodies {
			m.sections = append(m.sections, mSection{kind: 0, docs: []*Doc{body()}})
		}
		for range seqs {
			m.sections = append(m.sections, mSection{kind: 1, id: g.Str(40, false), docs: genDocs(r, 30)})
		}
		if foreign {
			m.flags = flags()
			m.checksum = ref.Int32v(r)
			r.Shuffle(len(m.sections), func(i, j int) { m.sections[i], m.sections[j] = m.sections[j], m.sections[i] })
		} else if r.Bool() {
			m.flags = 2
		}
	}
	return m
}

// enlarge makes a message of 64 KB to 20 MB of it.
func (m *mMsg) enlarge(r *mon.Rand) {
	size := r.Range(1<<16, 1<<mon.Pick(r, []int{17, 20, 21, 24}))
	big := func() *Val {
		if r.Bool() {
			return &Val{T: ref.Binary, B: r.Bytes(size)}
		}
		return &Val{T: ref.String, S: strings.Repeat("x", size)}
	}
	many := func() (out []*Doc) {
		if r.Bool() {
			return []*Doc{mkdoc("big", big())}
		}
		for n := 0; n < min(size, 1<<19); {
			d := genDocOf(r)
			out = append(out, d)
			n += len(d.Encode())
		}
		return out
	}
	switch m.op {
	case mReply, mInsert:
		m.docs = append(m.docs, many()...)
	case mCommand, mCommandReply:
		if r.Bool() {
			m.docs = append(m.docs, many()...)
			return
		}
		m.d2.Append("big", big())
	case mUpdate:
		m.d2.Append("big", big())
	case mQuery, mDelete:
		m.d1.Append("big", big())
	case mKillCursors:
		for range size / 8 {
			m.ids = append(m.ids, ref.Int64v(r))
		}
	case mMessage:
		if len(m.sections) > 0 {
			s := &m.sections[r.IntN(len(m.sections))]
			if s.kind == 0 {
				s.docs[0].Append("big", big())
			} else {
				s.docs = append(s.docs, many()...)
			}
		}
	}
}

func int32v(i int32) *Val { return &Val{T: ref.Int32, I: int64(i)} }

// construct makes the message by its constructor.
func (m *mMsg) construct(b *builder) mongowire.Message {
	doc := func(d *Doc) *birch.Document {
		if d == nil {
			return nil
		}
		return b.doc(d)
	}
	docs := func(ds []*Doc) (out []birch.Document) {
		for _, d := range ds {
			out = append(out, *b.doc(d))
		}
		return out
	}
	switch m.op {
	case mReply:
		return mongowire.NewReply(m.cursor, m.flags, m.a, m.b, docs(m.docs))
	case mUpdate:
		return mongowire.NewUpdate(m.ns, m.flags, doc(m.d1), doc(m.d2))
	case mInsert:
		ds := []*birch.Document{}
		for _, d := range m.docs {
			ds = append(ds, doc(d))
		}
		msg := mongowire.NewInsert(m.ns, ds...)
		for _, d := range ds {
			spoil(b.r, d)
		}
		return msg
	case mQuery:
		return mongowire.NewQuery(m.ns, m.flags, m.a, m.b, doc(m.d1), doc(m.d2))
	case mGetMore:
		return mongowire.NewGetMore(m.ns, m.a, m.cursor)
	case mDelete:
		return mongowire.NewDelete(m.ns, m.flags, doc(m.d1))
	case mKillCursors:
		return mongowire.NewKillCursors(m.ids...)
	case mCommand:
		return mongowire.NewCommand(m.ns, m.name, doc(m.d1), doc(m.d2), docs(m.docs))
	case mCommandReply:
		return mongowire.NewCommandReply(doc(m.d1), doc(m.d2), docs(m.docs))
	case mMessage:
		var bodies []birch.Document
		var items []model.SequenceItem
		for _, s := range m.sections {
			if s.kind == 0 {
				bodies = append(bodies, *b.doc(s.docs[0]))
			} else {
				items = append(items, model.SequenceItem{Identifier: s.id, Documents: docs(s.docs)})
			}
		}
		msg := mongowire.NewOpMessage(m.flags&2 != 0, bodies, items...)
		for i := range bodies {
			spoil(b.r, &bodies[i])
		}
		for _, it := range items {
			for i := range it.Documents {
				spoil(b.r, &it.Documents[i])
			}
		}
		return msg
	}
	panic("op")
}

// spoil changes a document that a message was made of.
func spoil(r *mon.Rand, d *birch.Document) {
	switch r.IntN(6) {
	case 0:
		d.Append(birch.EC.String("later", "x"))
	case 2:
		if d.Len() > 0 {
			d.Set(birch.EC.String(d.ElementAt(0).Key(), "later"))
		}
	case 3:
		if d.Len() > 0 {
			d.Delete(d.ElementAt(uint(d.Len() - 1)).Key())
		}
	case 4:
		d.Reset()
	}
}

// check compares everything that can be seen of a message with the model.
func (m *mMsg) check(c *C, what string, got mongowire.Message, sized bool) {
	bad := func(key, field string, got, want any) {
		c.Failf(key, "%s of a %s: %s is %.300q, expected %.300q", what, mongowire.OpType(m.op), field, fmt.Sprint(got), fmt.Sprint(want))
	}
	eq := func(field string, got, want any) {
		if got != want {
			bad("field", field, got, want)
		}
		c.Event("field")
	}
	doc := func(field string, d *birch.Document, want *Doc) {
		if want == nil {
			if d != nil {
				bad("field", field, d, "nil")
			}
			return
		}
		if d == nil {
			bad("field", field, "nil", "a document")
		}
		if b := mustMarshal(c, d); !bytes.Equal(b, want.Encode()) {
			c.Failf("document", "%s of a %s: %s: %s", what, mongowire.OpType(m.op), field, diffAt(b, want.Encode()))
		}
		c.Event("document")
	}
	docs := func(field string, ds []birch.Document, want []*Doc) {
		eq("number of "+field, len(ds), len(want))
		for i := range ds {
			doc(fmt.Sprintf("%s %d", field, i), &ds[i], want[i])
		}
	}
	upconverted := m.op == mQuery && isCommandNS(m.ns) && sized
	h := got.Header()
	op := m.op
	if upconverted {
		op = mCommand
	}
	eq("op code", int32(h.OpCode), op)
	eq("request ID", h.RequestID, m.reqID)
	eq("response to", h.ResponseTo, m.rto)
	if sized && !upconverted {
		eq("size", int(h.Size), 16+len(m.body()))
	}
	scope := got.Scope()
	mo, mop := mongowire.GetModel(got)
	wantScope := mongowire.OpScope{Type: mongowire.OpType(op), Context: m.ns}
	switch m.op {
	case mReply:
		eq("has response", got.HasResponse(), false)
		r, ok := mo.(*model.Reply)
		if !ok || mop != mongowire.OP_REPLY {
			bad("model", "model", fmt.Sprintf("%T %v", mo, mop), "a reply")
		}
		if scope != nil {
			bad("scope", "scope", scope, "nil")
		}
		docs("contents", r.Contents, m.docs)
		eq("cursor", r.CursorID, m.cursor)
		eq("starting from", r.StartingFrom, m.a)
		eq("cursor not found", r.CursorNotFound, m.flags&1 != 0)
		eq("query failure", r.QueryFailure, m.flags&2 != 0)
		rm := got.(*mongowire.ReplyMessage)
		eq("flags", rm.Flags, m.flags)
		eq("number returned", rm.NumberReturned, m.b)
		docs("documents", rm.Docs, m.docs)
	case mUpdate:
		eq("has response", got.HasResponse(), false)
		u, ok := mo.(*model.Update)
		if !ok || mop != mongowire.OP_UPDATE {
			bad("model", "model", fmt.Sprintf("%T %v", mo, mop), "an update")
		}
		eq("namespace", u.Namespace, m.ns)
		eq("upsert", u.Upsert, m.flags&1 != 0)
		eq("multi", u.Multi, m.flags&2 != 0)
		doc("filter", u.Filter, m.d1)
		doc("update", u.Update, m.d2)
	case mInsert:
		eq("has response", got.HasResponse(), false)
		i, ok := mo.(*model.Insert)
		if !ok || mop != mongowire.OP_INSERT {
			bad("model", "model", fmt.Sprintf("%T %v", mo, mop), "an insert")
		}
		eq("namespace", i.Namespace, m.ns)
		docs("documents", i.Documents, m.docs)
	case mQuery:
		eq("has response", got.HasResponse(), true)
		if upconverted {
			db, _, _ := strings.Cut(m.ns, ".")
			wantScope.Context, wantScope.Command = db, m.d1.E[0].K
			cm, ok := mo.(*model.Command)
			if !ok || mop != mongowire.OP_COMMAND {
				bad("model", "model", fmt.Sprintf("%T %v", mo, mop), "a command")
			}
			eq("database", cm.DB, db)
			eq("command", cm.Command, m.d1.E[0].K)
			eq("converted", cm.ConvertedFromQuery, true)
			doc("arguments", cm.Arguments, m.d1)
			break
		}
		q, ok := mo.(*model.Query)
		if !ok || mop != mongowire.OP_QUERY {
			bad("model", "model", fmt.Sprintf("%T %v", mo, mop), "a query")
		}
		eq("namespace", q.Namespace, m.ns)
		eq("skip", q.Skip, m.a)
		eq("number to return", q.NReturn, m.b)
		doc("query", q.Query, m.d1)
		doc("projection", q.Project, m.d2)
	case mGetMore:
		eq("has response", got.HasResponse(), true)
		g, ok := mo.(*model.GetMore)
		if !ok || mop != mongowire.OP_GET_MORE {
			bad("model", "model", fmt.Sprintf("%T %v", mo, mop), "a get more")
		}
		eq("namespace", g.Namespace, m.ns)
		eq("number to return", g.NReturn, m.a)
		eq("cursor", g.CursorID, m.cursor)
	case mDelete:
		eq("has response", got.HasResponse(), false)
		d, ok := mo.(*model.Delete)
		if !ok || mop != mongowire.OP_DELETE {
			bad("model", "model", fmt.Sprintf("%T %v", mo, mop), "a delete")
		}
		eq("namespace", d.Namespace, m.ns)
		doc("filter", d.Filter, m.d1)
	case mKillCursors:
		eq("has response", got.HasResponse(), false)
		wantScope.Context = ""
	case mCommand:
		eq("has response", got.HasResponse(), true)
		wantScope.Command = m.name
		cm, ok := mo.(*model.Command)
		if !ok || mop != mongowire.OP_COMMAND {
			bad("model", "model", fmt.Sprintf("%T %v", mo, mop), "a command")
		}
		eq("database", cm.DB, m.ns)
		eq("command", cm.Command, m.name)
		eq("converted", cm.ConvertedFromQuery, false)
		doc("arguments", cm.Arguments, m.d1)
		doc("metadata", cm.Metadata, m.d2)
		docs("inputs", cm.Inputs, m.docs)
		x := got.(*mongowire.CommandMessage)
		eq("database", x.DB, m.ns)
		eq("name", x.CmdName, m.name)
	case mCommandReply:
		eq("has response", got.HasResponse(), false)
		if scope != nil {
			bad("scope", "scope", scope, "nil")
		}
		x := got.(*mongowire.CommandReplyMessage)
		doc("reply", x.CommandReply, m.d1)
		doc("metadata", x.Metadata, m.d2)
		docs("output", x.OutputDocs, m.docs)
	case mMessage:
		x := got.(*mongowire.OpMessage)
		eq("flags", int32(x.Flags), m.flags)
		if m.flags&1 != 0 {
			eq("checksum", x.Checksum, m.checksum)
		}
		mm, ok := mo.(*model.Message)
		if !ok || mop != mongowire.OP_MSG {
			bad("model", "model", fmt.Sprintf("%T %v", mo, mop), "a message")
		}
		eq("checksum present", mm.Checksum, m.flags&1 != 0)
		eq("more to come", mm.MoreToCome, m.flags&2 != 0)
		eq("number of items", len(mm.Items), len(m.sections))
		eq("number of sections", len(x.Items), len(m.sections))
		wantScope.Context = ""
		first := true
		for i, s := range m.sections {
			id, db := s.id, ""
			if s.kind == 0 {
				id = ""
				if len(s.docs[0].E) > 0 {
					id = s.docs[0].E[0].K
				}
				for _, e := range s.docs[0].E {
					if e.K == "$db" {
						if e.V.T == ref.String {
							db = e.V.S
						}
						break
					}
				}
				if first {
					wantScope.Command, wantScope.Context = id, db
					first = false
				}
			}
			eq("section type", x.Items[i].Type(), s.kind)
			eq("section name", x.Items[i].Name(), id)
			eq("section database", x.Items[i].DB(), db)
			docs("section documents", x.Items[i].Documents(), s.docs)
			eq("identifier", mm.Items[i].Identifier, id)
			docs("item documents", mm.Items[i].Documents, s.docs)
		}
	}
	if m.op != mReply && m.op != mCommandReply {
		if scope == nil {
			bad("scope", "scope", "nil", wantScope)
		}
		eq("scope", *scope, wantScope)
	}
}

func (m *mMsg) readBack(c *C, what string, enc []byte) {
	got, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(enc))
	if err != nil {
		c.Note("bytes", hexs(enc))
		c.Failf("read", "%s: reading a %s: %v", what, mongowire.OpType(m.op), err)
	}
	m.check(c, what, got, true)
	if m.op == mQuery && isCommandNS(m.ns) {
		return
	}
	for range 2 {
		if b := got.Serialize(); !bytes.Equal(b, enc) {
			c.Failf("again", "%s: a %s that was read serializes differently: %s", what, mongowire.OpType(m.op), diffAt(b, enc))
		}
	}
	m.check(c, what+", after serializing", got, true)
	c.Event("read:" + mongowire.OpType(m.op).String())
}

func m01Constructed(c *C) {
	m := genMsg(c.R, mOps[c.Index%len(mOps)], false)
	b := &builder{r: c.R}
	msg := m.construct(b)
	m.check(c, "construction", msg, false)
	want := m.encode()
	for range 2 {
		got := msg.Serialize()
		if !bytes.Equal(got, want) {
			c.Note("got", hexs(got))
			c.Note("want", hexs(want))
			c.Failf("bytes", "a %s serializes differently: %s", mongowire.OpType(m.op), diffAt(got, want))
		}
	}
	if int(msg.Header().Size) != len(want) {
		c.Failf("size", "a %s of %d bytes says its size is %d", mongowire.OpType(m.op), len(want), msg.Header().Size)
	}
	m.check(c, "serialization", msg, false)
	b.checkGuards(c)
	c.StateBytes(want)
	c.Event("constructed:" + mongowire.OpType(m.op).String())
	c.Sample("%s %x", mongowire.OpType(m.op), want[:min(len(want), 80)])
	m.readBack(c, "constructed", msg.Serialize())
}

func m01Foreign(c *C) {
	m := genMsg(c.R, mOps[c.Index%len(mOps)], true)
	enc := m.encode()
	c.StateBytes(enc)
	c.Sample("%s %x", mongowire.OpType(m.op), enc[:min(len(enc), 80)])
	m.readBack(c, "foreign", enc)
	// by the header's parser as well.
	h := mongowire.MessageHeader{Size: int32(len(enc)), RequestID: m.reqID, ResponseTo: m.rto, OpCode: mongowire.OpType(m.op)}
	got, err := h.Parse(clone(enc[16:]))
	if err != nil {
		c.Failf("parse", "parsing a %s: %v", mongowire.OpType(m.op), err)
	}
	m.check(c, "parsing", got, true)
	buf := &bytes.Buffer{}
	h.WriteTo(buf)
	if !bytes.Equal(buf.Bytes(), enc[:16]) {
		c.Failf("header", "the header %+v is written as %x, expected %x", h, buf.Bytes(), enc[:16])
	}
}

// --- M02

// countingReader counts what was taken from it.
type countingReader struct {
	r io.Reader
	n int
}

func (r *countingReader) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	r.n += n
	return n, err
}

func genStream(c *C, n int) (msgs []*mMsg, data []byte, ends []int) {
	for range n {
		m := genMsg(c.R, mon.Pick(c.R, mOps), true)
		msgs = append(msgs, m)
		data = append(data, m.encode()...)
		ends = append(ends, len(data))
	}
	return
}

func m02Streams(c *C) {
	msgs, data, ends := genStream(c, c.R.IntN(8))
	src := &countingReader{r: &chunkReader{r: fork(c), data: clone(data), err: io.EOF}}
	ctx := context.Background()
	if c.R.Bool() {
		var cancel context.CancelFunc
		ctx, cancel = context.WithCancel(ctx)
		defer cancel()
	}
	for i, m := range msgs {
		got, err := mongowire.ReadMessage(ctx, src)
		if err != nil {
			c.Failf("read", "message %d of %d: %v", i, len(msgs), err)
		}
		if src.n != ends[i] {
			c.Failf("consumed", "after message %d, %d bytes were read, it ends at %d", i, src.n, ends[i])
		}
		m.check(c, fmt.Sprintf("message %d", i), got, true)
		c.Event("message")
	}
	c.StateBytes(data)
	c.Sample("%d messages in %d bytes", len(msgs), len(data))
	if got, err := mongowire.ReadMessage(ctx, src); err != io.EOF || got != nil {
		c.Failf("end", "at the end of the stream: %v, %v, expected %v", got, err, io.EOF)
	}
}

// m02Large: messages of up to 20 MB among small ones.
func m02Large(c *C) {
	var msgs []*mMsg
	var data []byte
	var ends []int
	for range c.R.Range(1, 4) {
		m := genMsg(c.R, mon.Pick(c.R, mOps), true)
		if !c.R.Chance(4) {
			m.enlarge(c.R)
		}
		msgs = append(msgs, m)
		data = append(data, m.encode()...)
		ends = append(ends, len(data))
	}
	src := &countingReader{r: &blockReader{r: fork(c), data: data}}
	w := &pieceWriter{fail: -1}
	if c.R.Bool() {
		w.r = fork(c)
	}
	var sent []byte
	for i, m := range msgs {
		got, err := mongowire.ReadMessage(context.Background(), src)
		if err != nil {
			c.Failf("read", "message %d of %d: %v", i, len(msgs), err)
		}
		if src.n != ends[i] {
			c.Failf("consumed", "after message %d, %d bytes were read, it ends at %d", i, src.n, ends[i])
		}
		m.check(c, fmt.Sprintf("message %d", i), got, true)
		if m.op == mQuery && isCommandNS(m.ns) {
			continue
		}
		if err := mongowire.SendMessage(context.Background(), got, w); err != nil {
			c.Failf("send", "message %d of %d: %v", i, len(msgs), err)
		}
		sent = append(sent, m.encode()...)
		if !bytes.Equal(w.buf, sent) {
			c.Failf("sent", "message %d: %s", i, diffAt(w.buf, sent))
		}
		c.EventN("kilobytes", len(m.encode())/1024)
	}
	if got, err := mongowire.ReadMessage(context.Background(), src); err != io.EOF || got != nil {
		c.Failf("end", "at the end of the stream: %v, %v, expected %v", got, err, io.EOF)
	}
	c.StateBytes(data)
	c.Sample("%d messages in %d bytes", len(msgs), len(data))
	// cut anywhere
	cut := c.R.Range(0, len(data)-1)
	src = &countingReader{r: &blockReader{r: fork(c), data: data[:cut]}}
	for i := range msgs {
		got, err := mongowire.ReadMessage(context.Background(), src)
		if ends[i] <= cut {
			if err != nil {
				c.Failf("read", "cut at %d: message %d: %v", cut, i, err)
			}
			continue
		}
		start := 0
		if i > 0 {
			start = ends[i-1]
		}
		if want := io.ErrUnexpectedEOF; got != nil || cut > start && err != want || cut == start && err != io.EOF {
			c.Failf("cut", "cut at %d: message %d (%d to %d) was read: %v, %v", cut, i, start, ends[i], got, err)
		}
		break
	}
}

// blockReader gives pieces of up to 64 KB.
type blockReader struct {
	r    *mon.Rand
	data []byte
}

func (b *blockReader) Read(p []byte) (int, error) {
	if len(b.data) == 0 {
		return 0, io.EOF
	}
	n := min(len(p), len(b.data), 1+b.r.IntN(1<<mon.Pick(b.r, []int{4, 12, 16})))
	copy(p, b.data[:n])
	b.data = b.data[n:]
	return n, nil
}

func m02Cuts(c *C) {
	msgs, data, ends := genStream(c, c.R.Range(1, 3))
	if len(data) > 3000 {
		return
	}
	c.StateBytes(data)
	own := errors.New("source failed")
	for cut := 0; cut < len(data); cut++ {
		if len(data) > 400 && !c.R.Chance(len(data)/400+1) && cut > 40 {
			continue
		}
		end := io.EOF
		if c.R.Bool() {
			end = own
		}
		src := &chunkReader{r: c.R, data: clone(data[:cut]), err: end}
		start := 0
		for i, m := range msgs {
			got, err := mongowire.ReadMessage(context.Background(), src)
			if ends[i] <= cut {
				if err != nil {
					c.Failf("read", "cut at %d: message %d (%d to %d): %v", cut, i, start, ends[i], err)
				}
				m.check(c, fmt.Sprintf("message %d", i), got, true)
				start = ends[i]
				continue
			}
			if err == nil || got != nil {
				c.Failf("cut", "cut at %d: message %d (%d to %d) was read: %v, %v", cut, i, start, ends[i], got, err)
			}
			switch {
			case end == own:
				if !errors.Is(err, own) {
					c.Failf("cut-error", "the source failed at %d (message at %d to %d), the error is %v", cut, start, ends[i], err)
				}
			case cut == start:
				if err != io.EOF {
					c.Failf("cut-error", "the stream ends at %d, before a message, the error is %v", cut, err)
				}
			default:
				if errors.Is(err, io.EOF) || !errors.Is(err, io.ErrUnexpectedEOF) {
					c.Failf("cut-error", "the stream ends at %d, within a message (%d to %d), the error is %v", cut, start, ends[i], err)
				}
			}
			c.Event("cut")
			break
		}
	}
}

// sizes that can't be.
func m02Sizes(c *C) {
	m := genMsg(c.R, mon.Pick(c.R, mOps), true)
	enc := m.encode()
	var size int32
	switch c.R.IntN(4) {
	case 0:
		size = int32(c.R.IntN(16))
	case 1:
		size = -int32(c.R.IntN(1 << 30))
	case 2:
		size = 200*1024*1024 + 1 + int32(c.R.IntN(1<<30))
	case 3:
		size = mon.Pick(c.R, []int32{0, 1, 3, 4, 15, -1, -4, -1 << 31, 1<<31 - 1, 200*1024*1024 + 1, 542393671})
	}
	binary.LittleEndian.PutUint32(enc, uint32(size))
	src := &countingReader{r: &chunkReader{r: c.R, data: clone(enc), err: io.EOF}}
	got, err := mongowire.ReadMessage(context.Background(), src)
	if err == nil || got != nil {
		c.Failf("size", "a message of size %d was read: %v", size, got)
	}
	if errors.Is(err, io.EOF) {
		c.Failf("size", "a message of size %d looks like the end: %v", size, err)
	}
	if src.n > 16 {
		c.Failf("size", "%d bytes were read of a message of size %d", src.n, size)
	}
	c.State(size)
	c.Event("refused")
	// unknown codes
	known := map[int32]bool{}
	for _, op := range mOps {
		known[op] = true
	}
	op := ref.Int32v(c.R)
	if c.R.Bool() {
		op = int32(c.R.Range(1990, 2020))
	}
	body := m.body()
	if !known[op] {
		got, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(frame(1, 2, op, body)))
		if err == nil || got != nil {
			c.Failf("op", "a message with the code %d was read: %v", op, got)
		}
		c.Event("unknown")
	}
	if s := mongowire.OpType(op).String(); known[op] == (s == "") && op != 2003 {
		c.Failf("name", "the name of %d is %q", op, s)
	}
}

type pieceWriter struct {
	r    *mon.Rand
	buf  []byte
	fail int // fails once that many bytes were written
	err  error
	n    int
}

func (w *pieceWriter) Write(p []byte) (int, error) {
	w.n++
	n := len(p)
	if w.r != nil && n > 1 {
		n = w.r.Range(1, n)
	}
	if w.fail >= 0 && len(w.buf)+n > w.fail {
		n = w.fail - len(w.buf)
		w.buf = append(w.buf, p[:n]...)
		return n, w.err
	}
	w.buf = append(w.buf, p[:n]...)
	return n, nil
}

func m02Writers(c *C) {
	n := c.R.Range(1, 4)
	w := &pieceWriter{fail: -1}
	if c.R.Bool() {
		w.r = fork(c)
	}
	var want []byte
	for i := range n {
		m := genMsg(c.R, mon.Pick(c.R, mOps), false)
		msg := m.construct(&builder{r: c.R})
		if err := mongowire.SendMessage(context.Background(), msg, w); err != nil {
			c.Failf("send", "message %d: %v", i, err)
		}
		want = append(want, m.encode()...)
		if !bytes.Equal(w.buf, want) {
			c.Failf("sent", "after message %d (%s): %s", i, mongowire.OpType(m.op), diffAt(w.buf, want))
		}
		c.Event("sent")
	}
	c.StateBytes(want)
	m := genMsg(c.R, mon.Pick(c.R, mOps), false)
	enc := m.encode()
	w.err = errors.New("writer failed")
	w.fail = len(w.buf) + c.R.IntN(len(enc))
	before := len(w.buf)
	err := mongowire.SendMessage(context.Background(), m.construct(&builder{r: c.R}), w)
	if !errors.Is(err, w.err) {
		c.Failf("send-error", "the writer failed after %d of %d bytes, the error is %v", w.fail-before, len(enc), err)
	}
	if !bytes.Equal(w.buf, append(want, enc[:w.fail-before]...)) {
		c.Failf("sent", "before the failure: %s", diffAt(w.buf, append(want, enc...)))
	}
	c.Event("failed")
}

func m02Cancelled(c *C) {
	m := genMsg(c.R, mon.Pick(c.R, mOps), false)
	enc := m.encode()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	want := context.Canceled
	switch c.R.IntN(4) {
	case 0: // before
		cancel()
		src := &countingReader{r: bytes.NewReader(enc)}
		if got, err := mongowire.ReadMessage(ctx, src); err != want || got != nil || src.n != 0 {
			c.Failf("cancelled", "reading with a cancelled context: %v, %v, %d bytes were read", got, err, src.n)
		}
		w := &pieceWriter{fail: -1}
		if err := mongowire.SendMessage(ctx, m.construct(&builder{r: c.R}), w); err != want || w.n != 0 {
			c.Failf("cancelled", "sending with a cancelled context: %v, %d writes", err, w.n)
		}
	case 1: // while reading
		cut := c.R.IntN(len(enc))
		pr, pw := io.Pipe()
		defer pw.Close()
		defer pr.Close()
		res := make(chan error, 1)
		go func() {
			_, err := mongowire.ReadMessage(ctx, pr)
			res <- err
		}()
		if cut > 0 {
			_, _ = pw.Write(enc[:cut])
		}
		pause(c.R)
		select {
		case err := <-res:
			c.Failf("early", "with %d of %d bytes, reading returned %v", cut, len(enc), err)
		default:
		}
		cancel()
		select {
		case err := <-res:
			if !errors.Is(err, want) {
				c.Failf("cancelled", "cancelled after %d of %d bytes: %v", cut, len(enc), err)
			}
		case <-time.After(10 * time.Second):
			c.Failf("stuck", "cancelled after %d of %d bytes, reading goes on", cut, len(enc))
		}
	case 2: // while writing
		pr, pw := io.Pipe()
		defer pw.Close()
		defer pr.Close()
		res := make(chan error, 1)
		msg := m.construct(&builder{r: c.R})
		go func() { res <- mongowire.SendMessage(ctx, msg, pw) }()
		cut := c.R.IntN(len(enc))
		if cut > 0 {
			_, _ = io.ReadFull(pr, make([]byte, cut))
		}
		pause(c.R)
		cancel()
		select {
		case err := <-res:
			if !errors.Is(err, want) {
				c.Failf("cancelled", "cancelled after %d of %d bytes: %v", cut, len(enc), err)
			}
		case <-time.After(10 * time.Second):
			c.Failf("stuck", "cancelled after %d of %d bytes, sending goes on", cut, len(enc))
		}
	case 3: // deadline
		ctx, cancel := context.WithTimeout(context.Background(), time.Duration(c.R.Range(1, 3000))*time.Microsecond)
		defer cancel()
		pr, pw := io.Pipe()
		defer pw.Close()
		defer pr.Close()
		start := time.Now()
		_, err := mongowire.ReadMessage(ctx, pr)
		if !errors.Is(err, context.DeadlineExceeded) {
			c.Failf("cancelled", "past the deadline: %v", err)
		}
		if d := time.Since(start); d > 10*time.Second {
			c.Failf("stuck", "reading returned %v after the deadline", d)
		}
	}
	c.StateBytes(enc)
	c.Event("cancelled")
}

// two ends of a connection send and receive at the same time.
func m02Pipes(c *C) {
	a, b := net.Pipe()
	defer a.Close()
	defer b.Close()
	ends := []net.Conn{a, b}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	var wg sync.WaitGroup
	for i := range 2 {
		n := c.R.Range(1, 10)
		var msgs []*mMsg
		var built []mongowire.Message
		for range n {
			m := genMsg(c.R, mon.Pick(c.R, mOps), false)
			msgs = append(msgs, m)
			built = append(built, m.construct(&builder{r: c.R}))
		}
		r := fork(c)
		wg.Add(2)
		c.Go(func() {
			defer wg.Done()
			for j, msg := range built {
				pause(r)
				if err := mongowire.SendMessage(ctx, msg, ends[i]); err != nil {
					c.Report("send", "message %d: %v", j, err)
					return
				}
			}
		})
		c.Go(func() {
			defer wg.Done()
			for j, m := range msgs {
				got, err := mongowire.ReadMessage(ctx, ends[1-i])
				if err != nil {
					c.Report("read", "message %d of %d: %v", j, n, err)
					cancel()
					return
				}
				m.check(c, fmt.Sprintf("message %d", j), got, true)
				c.Event("message")
			}
		})
		c.State(i, n, fmt.Sprint(c.Index))
	}
	c.Wait()
}

// --- M03

type mVerdict int

const (
	mReject mVerdict = iota
	mAccept
	mEither
)

// judgeBody is an independent parser of a message's body.
func judgeBody(op int32, b []byte) mVerdict {
	bad := false
	int32f := func() int32 {
		if len(b) < 4 {
			bad = true
			return 0
		}
		v := int32(binary.LittleEndian.Uint32(b))
		b = b[4:]
		return v
	}
	cstr := func() string {
		i := bytes.IndexByte(b, 0)
		if i < 0 {
			bad = true
			return ""
		}
		s := string(b[:i])
		b = b[i+1:]
		return s
	}
	take := func(b []byte) (*Doc, int) {
		d, n, err := ref.DecodePrefix(b)
		if err != nil {
			bad = true
			return nil, 0
		}
		return d, n
	}
	doc := func() *Doc {
		if bad {
			return nil
		}
		d, n := take(b)
		b = b[n:]
		return d
	}
	docs := func() {
		for !bad && len(b) > 0 {
			doc()
		}
	}
	rest := func() mVerdict {
		switch {
		case bad:
			return mReject
		case len(b) > 0:
			return mEither
		}
		return mAccept
	}
	skip := func(n int) {
		if len(b) < n {
			bad = true
			return
		}
		b = b[n:]
	}
	switch op {
	case mReply:
		skip(20)
		docs()
	case mUpdate:
		skip(4)
		cstr()
		skip(4)
		doc()
		doc()
	case mInsert:
		skip(4)
		cstr()
		docs()
	case mQuery:
		skip(4)
		ns := cstr()
		skip(8)
		q := doc()
		if !bad && len(b) > 0 {
			doc()
		}
		if !bad && isCommandNS(ns) && len(q.E) == 0 {
			bad = true
		}
	case mGetMore:
		skip(4)
		cstr()
		skip(12)
	case mDelete:
		skip(4)
		cstr()
		skip(4)
		doc()
	case mKillCursors:
		skip(4)
		n := int32f()
		if n < 0 || !bad && len(b)/8 < int(n) {
			bad = true
		}
		if !bad {
			skip(8 * int(n))
		}
	case mCommand:
		cstr()
		cstr()
		doc()
		doc()
		docs()
	case mCommandReply:
		doc()
		doc()
		docs()
	case mMessage:
		flags := int32f()
		if flags&1 != 0 {
			if len(b) < 4 {
				return mReject
			}
			b = b[:len(b)-4]
		}
		for !bad && len(b) > 0 {
			kind := b[0]
			b = b[1:]
			switch kind {
			case 0:
				doc()
			case 1:
				all := b
				n := int32f()
				if bad || n < 4 || int(n) > len(all) {
					return mReject
				}
				b = all[4:n]
				cstr()
				docs()
				b = all[n:]
			default:
				return mReject
			}
		}
	default:
		return mReject
	}
	return rest()
}

func m03Check(c *C, op int32, body []byte) {
	want := judgeBody(op, body)
	in := clone(body)
	var results []string
	for i := range 2 {
		var msg mongowire.Message
		var err error
		if i == 0 {
			h := mongowire.MessageHeader{Size: int32(len(body) + 16), RequestID: 5, ResponseTo: 6, OpCode: mongowire.OpType(op)}
			msg, err = h.Parse(in)
		} else {
			msg, err = mongowire.ReadMessage(context.Background(), &chunkReader{r: c.R, data: frame(5, 6, op, body), err: io.EOF})
		}
		results = append(results, fmt.Sprint(err == nil))
		if (err == nil && want == mReject) || (err != nil && want == mAccept) {
			c.Note("body", hexs(body))
			c.Failf("verdict", "%s with a body of %d bytes, well-formed %v: %v", mongowire.OpType(op), len(body), want == mAccept, err)
		}
		if err != nil {
			c.Event("refused")
			continue
		}
		if msg == nil {
			c.Failf("nil", "neither a message nor an error for a %s", mongowire.OpType(op))
		}
		c.Event("accepted")
		if _, ok := msg.(*mongowire.CommandMessage); want == mAccept && !(ok && op == mQuery) {
			exp := frame(5, 6, op, body)
			switch op {
			case mUpdate, mGetMore, mDelete, mKillCursors:
				copy(exp[16:20], []byte{0, 0, 0, 0}) // reserved
			}
			if b := msg.Serialize(); !bytes.Equal(b, exp) {
				c.Failf("again", "a %s that was read serializes differently: %s", mongowire.OpType(op), diffAt(b, exp))
			}
		}
		useMessage(c, msg)
	}
	if !bytes.Equal(in, body) {
		c.Failf("input", "parsing changed its input: %s", diffAt(in, body))
	}
	if results[0] != results[1] {
		c.Failf("disagree", "ReadMessage and Parse disagree about a %s", mongowire.OpType(op))
	}
	c.StateBytes(body)
}

func useMessage(c *C, msg mongowire.Message) {
	msg.Header()
	msg.HasResponse()
	if s := msg.Scope(); s != nil {
		_ = s.Validate()
	}
	mo, _ := mongowire.GetModel(msg)
	switch m := mo.(type) {
	case *model.Command:
		exerciseMsgDoc(m.Arguments)
		exerciseMsgDoc(m.Metadata)
		exerciseMsgDocs(m.Inputs)
	case *model.Message:
		for _, it := range m.Items {
			exerciseMsgDocs(it.Documents)
		}
	case *model.Delete:
		exerciseMsgDoc(m.Filter)
	case *model.Insert:
		exerciseMsgDocs(m.Documents)
	case *model.Query:
		exerciseMsgDoc(m.Query)
		exerciseMsgDoc(m.Project)
	case *model.Update:
		exerciseMsgDoc(m.Filter)
		exerciseMsgDoc(m.Update)
	case *model.Reply:
		exerciseMsgDocs(m.Contents)
	}
	if d, err := shellRequest(msg); err == nil {
		exerciseMsgDoc(d)
	}
	if d, err := shellResponse(msg); err == nil {
		exerciseMsgDoc(d)
	}
	msg.Serialize()
}

func exerciseMsgDocs(ds []birch.Document) {
	for i := range ds {
		exerciseMsgDoc(&ds[i])
	}
}

func exerciseMsgDoc(d *birch.Document) {
	if d == nil {
		return
	}
	for e := range d.Iterator() {
		exerciseElem(e, 0)
	}
	_, _ = d.MarshalBSON()
}

func smallMsg(r *mon.Rand) *mMsg {
	m := genMsg(r, mon.Pick(r, mOps), true)
	for range 20 {
		if len(m.body()) < 600 {
			break
		}
		m = genMsg(r, m.op, true)
	}
	return m
}

func m03Damaged(c *C) {
	m := smallMsg(c.R)
	op := m.op
	if c.R.Chance(8) {
		op = mon.Pick(c.R, mOps)
	}
	m03Check(c, op, ref.Mutate(c.R, m.body()))
}

func m03Random(c *C) {
	b := c.R.Bytes(c.R.IntN(60))
	for i := range b {
		if c.R.Chance(2) {
			b[i] = byte(c.R.IntN(6))
		}
	}
	m03Check(c, mon.Pick(c.R, mOps), b)
}

func m03Truncated(c *C) {
	m := smallMsg(c.R)
	b := m.body()
	for i := 0; i <= len(b); i++ {
		if len(b) > 150 && i > 60 && !c.R.Chance(len(b)/100+1) {
			continue
		}
		m03Check(c, m.op, b[:i])
	}
}

// every four bytes of a message as a length.
func m03Lengths(c *C) {
	m := smallMsg(c.R)
	b := m.body()
	if len(b) < 4 {
		return
	}
	for i := 0; i+4 <= len(b); i++ {
		if len(b) > 120 && !c.R.Chance(len(b)/60+1) {
			continue
		}
		old := int32(binary.LittleEndian.Uint32(b[i:]))
		for _, v := range []int32{old + 1, old - 1, 0, -1, 3, 4, 5, int32(len(b)), int32(len(b) - i), int32(len(b) - i + 1), 1<<31 - 1, -1 << 31, 1 << 28} {
			x := clone(b)
			binary.LittleEndian.PutUint32(x[i:], uint32(v))
			m03Check(c, m.op, x)
		}
	}
}

// what is allocated follows from what arrives, not from what is announced.
func m03Memory(c *C) {
	m := smallMsg(c.R)
	body := m.body()
	if c.R.Bool() {
		// announced within the message
		if len(body) < 4 {
			return
		}
		i := c.R.IntN(len(body) - 3)
		binary.LittleEndian.PutUint32(body[i:], uint32(c.R.Range(1<<20, 1<<31-1)))
	}
	enc := frame(1, 2, m.op, body)
	if c.R.Bool() {
		// announced by the header, up to what is allowed
		binary.LittleEndian.PutUint32(enc, uint32(c.R.Range(10<<20, 200<<20)))
		enc = enc[:c.R.Range(4, len(enc))]
	}
	var before, after runtime.MemStats
	runtime.ReadMemStats(&before)
	msg, err := mongowire.ReadMessage(context.Background(), bytes.NewReader(enc))
	runtime.ReadMemStats(&after)
	c.Event("measured")
	c.StateBytes(enc)
	if got, limit := after.TotalAlloc-before.TotalAlloc, uint64(256<<10+400*len(enc)); got > limit {
		c.Note("bytes", hexs(enc))
		c.Failf("memory", "reading %d bytes allocated %d (%v, %v)", len(enc), got, msg != nil, err)
	}
}
