package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const (
	pUnmarshal = "github.com/golang/protobuf/proto.Unmarshal"
	pMarshal   = "github.com/golang/protobuf/proto.Marshal"
	pMsgName   = "github.com/golang/protobuf/proto.MessageName"
	pMsgType   = "github.com/golang/protobuf/proto.MessageType"
	connRead   = "(net.Conn).Read"
	connWrite  = "(net.Conn).Write"
)

// fallible steps between the bytes of a connection and a delivered message
var decodeSteps = []string{connRead, "io.ReadFull", "io.ReadAtLeast", pUnmarshal, "compress/zlib.NewReader", "io/ioutil.ReadAll", "io.ReadAll", "io.Copy", "io.CopyN", "(*bytes.Buffer).ReadFrom", "encoding/binary.Read"}

func isHandle(e *Ev) bool {
	return (e.Kind == "call" || e.Kind == "go") && strings.HasSuffix(e.Name, "ackageHandler).Handle")
}

// filledBuffers: predicate telling whether a buffer is completely read from the connection on a path at pc.
func (c *Ctx) filled(loops []transferLoop, evs []*Ev, pc *PC) func(buf *Term) bool {
	return func(buf *Term) bool {
		for _, l := range loops {
			if l.Buf == buf && l.complete(pc) {
				return true
			}
		}
		for _, e := range evs {
			if isCall(e, "io.ReadFull") && len(e.Args) > 1 && e.Args[1] == buf && nilAt(pc, errOf(e)) {
				return true
			}
		}
		return false
	}
}

// littleEndian read of a buffer: app Uint64(_, buf)
func uintOf(t *Term) (endian string, buf *Term) {
	t = strip(t)
	if t != nil && t.Op == "app" {
		s := fmt.Sprint(t.Aux)
		if strings.HasPrefix(s, "(encoding/binary.") && strings.HasSuffix(s, ").Uint64") {
			return strings.TrimSuffix(strings.TrimPrefix(s, "(encoding/binary."), ").Uint64"), t.Args[len(t.Args)-1]
		}
	}
	return "", nil
}

func init() {
	register(&Prop{
		ID:        "W01",
		Title:     "Bytes from a peer can never crash or exhaust the process",
		Statement: "Whatever bytes a peer sends, and wherever it stops sending, decoding them and handling the resulting message never panics, and never makes the receiver allocate memory without a fixed bound. A frame announcing an impossible size, or a payload inflating beyond the bound, only ends that connection.",
		Over:      []string{"inputs", "fault_sequences"},
		Quant:     "all byte sequences a connected peer can deliver, in all splits, at the server, a player or an infoer",
		Why:       "The unit tests decode a handful of well-formed frames; nothing samples negative sizes, truncated payloads, decompression bombs or unexpected message contents, and no sample covers all of them.",
		Files:     []string{"comm/package_util.go", "comm/conn_handler.go", "comm/package_handler.go", "cmd/music-sync-player/main.go", "cmd/music-sync-infoer/infoer_package_handler.go"},
		Mech:      [][2]string{{"frame size bound", "comm/package_util.go readWire"}, {"bounded decompression", "comm/package_util.go readWire"}, {"message handlers", "implementations of comm.TypedPackageHandlerInterface"}},
		Technique: "abstract interpretation of the SSA form (value numbering, linear inequalities, loop invariants) of the decoder and of every message handler: one proof obligation per operation which can panic, and an upper bound for every allocation sized by peer data",
		Note:      "Every index, slice, division, conversion, type assertion, make size and dereference reachable from a received frame inside the module is discharged on every abstract path; the libraries (protobuf, zlib) are trusted not to panic on any input, and messages handed to handlers are taken to be non-nil as the dispatcher passes them.",
		Run:       runW01,
	})
	register(&Prop{
		ID:        "W02",
		Title:     "Only complete, intact messages are handled, each exactly once",
		Statement: "A message is handed to its handler only if its whole frame arrived and every decoding step succeeded; a truncated, oversized or corrupt frame is never delivered, not even in part, and ends the connection. Every intact message is handed over exactly once, together with the connection it came from.",
		Over:      []string{"inputs", "fault_sequences"},
		Quant:     "all frames, and all ways in which reading or decoding one can fail or be split into partial reads",
		Why:       "Tests use a connection stub which returns whole frames; short reads at every boundary and failures of each decoding step are not exercised.",
		Files:     []string{"comm/package_util.go", "comm/conn_handler.go"},
		Mech:      [][2]string{{"frame reader", "comm.readWire"}, {"read loop", "comm.readBytes"}, {"connection loop", "comm.handleConnection"}},
		Technique: "path-sensitive dataflow over the connection loop: at every delivery each fallible decoding step of the iteration must be known to have succeeded, buffers used must be known to be full, and the delivered object must be the one decoded from them",
		Note:      "Decided on all abstract paths of the connection loop with module functions inlined. Assumes io.Reader's contract for net.Conn (0 <= n <= len(p)) and the contracts of proto.Unmarshal and zlib.",
		Run:       runW02,
	})
	register(&Prop{
		ID:        "W03",
		Title:     "Writer and reader agree on the frame format",
		Statement: "Every message, of any size and content, is encoded as an 8 byte little-endian length followed by exactly that many bytes of envelope, which names the message's type and carries its zlib-compressed encoding; the reader takes exactly this format apart again. So a frame produced by any component is decoded by every other one to a message of the same type and content, unless it exceeds the size limit.",
		Over:      []string{"inputs"},
		Quant:     "all protocol messages",
		Why:       "Round-trip tests use a few small fixed messages and the same two functions on both sides; they do not show the layout for every length nor that a change on one side is matched on the other.",
		Files:     []string{"comm/package_util.go"},
		Mech:      [][2]string{{"encoder", "comm.toWire"}, {"decoder", "comm.readWire"}},
		Technique: "abstract interpretation of encoder and decoder to symbolic frame layouts, compared field by field (header width, byte order, length, offset, envelope fields, compression pair, type registry pair)",
		Note:      "The layouts are compared on all abstract paths. protobuf's and zlib's own encode/decode inverses are trusted.",
		Run:       runW03,
	})
	register(&Prop{
		ID:        "W04",
		Title:     "A frame is written as a whole, and a failed send is reported",
		Statement: "A send hands the complete frame to the connection in one write, continues after a short write where it stopped, reports success only when every byte was written, and returns an error whenever encoding or writing failed. Nothing else writes to a connection, so frames of concurrent senders are not interleaved.",
		Over:      []string{"inputs", "schedules", "fault_sequences"},
		Quant:     "all messages, all concurrent senders on one connection, and all points at which a write can fail or be short",
		Why:       "The connection stub of the tests accepts every write completely and is used by one sender.",
		Files:     []string{"comm/package_util.go", "comm/message_sender.go", "comm/package_handler.go"},
		Mech:      [][2]string{{"frame writer", "comm.sendWire"}, {"only writer of connections", "call sites of (net.Conn).Write"}},
		Technique: "path-sensitive dataflow over the frame writer (transfer-loop bookkeeping, error propagation) and a who-may-call rule over the call graph for every write to a connection",
		Note:      "Relies on net.Conn's contract that one Write call is atomic with respect to other Write calls.",
		Run:       runW04,
	})
}

// messageHandlers: every HandleX method of a package handler in the module (not the no-op base).
func (c *Ctx) messageHandlers() []*ssa.Function {
	var r []*ssa.Function
	for _, f := range c.p.fns {
		if f.Signature.Recv() == nil || !strings.HasPrefix(f.Name(), "Handle") || len(f.Params) != 3 || c.p.isGenerated(f) || f.Synthetic != "" {
			continue
		}
		if strings.HasPrefix(namedOf(f.Params[1].Type()), "comm.") && namedOf(f.Params[2].Type()) == "net.Conn" && namedOf(f.Params[0].Type()) != "comm.BaseTypedPackageHandler" {
			r = append(r, f)
		}
	}
	return r
}

func runW01(c *Ctx) {
	c.assume("protobuf and zlib do not panic, and allocate no more than a constant factor of the bytes they are given")
	roots := []string{"comm.handleConnection", "(comm.TypedPackageHandler).Handle", "comm.PingHandler"}
	obs := func(o *Ob) {
		c.check("panic-free", o.Fn+": "+o.Key, o.Where, o.Fail == "", "%s", o.Fail)
	}
	for _, n := range roots {
		paths := c.explore(n, opt{obs: obs, noSpawn: true})
		if n == "comm.handleConnection" {
			c.boundedAllocs(paths)
		}
	}
	hs := c.messageHandlers()
	for _, f := range hs {
		c.check("handler", fnName(f), c.at(f.Pos()), true, "")
		c.exploreFn(f, opt{obs: obs, noSpawn: true, joinMax: 10, keep: func(*Ev) bool { return false }, init: nonNilParams})
	}
	c.need("handler", 12)
	c.need("panic-free", 40)
}

// nonNilParams assumes pointer and interface arguments of an entry function are not nil.
func nonNilParams(ex *Exec, st *State, args []*Term) {
	for _, a := range args {
		if nillable(a.Typ) {
			st.addFact(mkNot(mkEq(a, mkNil(a.Typ))))
		}
	}
}

// boundedAllocs: allocations on the decoding paths have a constant upper bound.
func (c *Ctx) boundedAllocs(paths []*Path) {
	const cap = int64(1) << 31
	for _, p := range paths {
		for _, e := range p.Events() {
			switch {
			case e.Kind == "make":
				ok := e.PC.entailsLe(e.Args[len(e.Args)-1], mkInt(cap, nil), 0)
				c.check("bounded allocation", fnName(e.Fn)+": make", where(c, e), ok, "the size of an allocation is taken from peer data without a fixed upper bound (%s)", cut(e.Args[0].String(), 120))
			case isCall(e, "io/ioutil.ReadAll", "io.ReadAll", "(*bytes.Buffer).ReadFrom", "io.Copy"):
				src := e.Args[len(e.Args)-1]
				se, _ := resOf(strip(src))
				ok := false
				if se != nil && isCall(se, "io.LimitReader") {
					n, isC := se.Args[1].intVal()
					ok = isC && n <= cap
				}
				if t := strip(src); !ok && t != nil && t.Op == "alloc" { // &io.LimitedReader{R: r, N: const}
					for a, v := range p.St.mem {
						if a.Op == "faddr" && a.Args[0] == t && fieldName(a) == "N" {
							n, isC := v.intVal()
							ok = isC && n <= cap
						}
					}
				}
				c.check("bounded allocation", fnName(e.Fn)+": "+e.Name, where(c, e), ok, "%s reads peer data without a fixed upper bound", e.Name)
			case isCall(e, "io.CopyN"):
				n, isC := e.Args[len(e.Args)-1].intVal()
				c.check("bounded allocation", fnName(e.Fn)+": "+e.Name, where(c, e), isC && n <= cap, "%s reads peer data without a fixed upper bound", e.Name)
			}
		}
	}
	c.need("bounded allocation", 3)
}

func runW02(c *Ctx) {
	paths := c.explore("comm.handleConnection", opt{noSpawn: true})
	if len(paths) == 0 {
		return
	}
	loops := c.transferLoops("read-loop", paths, connRead, 1)
	f := c.p.fn("comm.handleConnection")
	conn := mkParam(f, f.Params[0])
	h := mkParam(f, f.Params[1])
	for _, p := range paths {
		evs := p.Events()
		var handled []*Ev
		for i, e := range evs {
			if !isHandle(e) {
				continue
			}
			handled = append(handled, e)
			win := sinceLoop(evs, f, i)
			filled := c.filled(loops, win, e.PC)
			for _, s := range calls(win, decodeSteps...) {
				c.check("decode-step-succeeded", fnName(s.Fn)+": "+s.Name, where(c, s), nilAt(e.PC, errOf(s)), "a message is delivered although %s may have failed", s.Name)
			}
			var us []*Ev
			for _, u := range calls(win, pUnmarshal) {
				us = append(us, u)
			}
			msg := strip(e.Args[1])
			okMsg := false
			for _, u := range us {
				if strip(u.Args[1]) == msg {
					okMsg = true
					de, _ := resOf(u.Args[0])
					full := de != nil && isCall(de, "io/ioutil.ReadAll", "io.ReadAll")
					if full {
						// a limited read must not be a truncated one
						if se, _ := resOf(strip(de.Args[0])); se != nil && isCall(se, "io.LimitReader") {
							full = e.PC.entails(mkLt0(linOf(lenOf(u.Args[0])).add(linOf(se.Args[1]), -1)))
						}
					}
					c.check("payload-complete", fnName(u.Fn)+": payload", where(c, u), full, "the payload of a delivered message may be incomplete: it is not known that all of the compressed data was read and decoded")
				} else {
					c.check("envelope-complete", fnName(u.Fn)+": envelope", where(c, u), filled(u.Args[0]), "the envelope is decoded from a buffer which is not known to be completely read")
				}
			}
			c.check("delivered-message", fnName(e.Fn), where(c, e), okMsg, "the delivered message is not the object the payload was decoded into")
			c.check("delivered-connection", fnName(e.Fn), where(c, e), e.Args[0] == h && len(e.Args) > 2 && e.Args[2] == conn, "the message is not delivered to this connection's handler together with this connection")
			hdr := 0
			for _, r := range calls(win, "(encoding/binary.*") {
				if _, b := uintOf(r.Res); b != nil {
					hdr++
					c.check("header-complete", fnName(r.Fn)+": header", where(c, r), filled(b), "the length is decoded from a buffer which is not known to be completely read")
				}
			}
		}
		if p.End == "back" && len(evs) > 0 && evs[len(evs)-1].Fn == f {
			c.check("delivered-once", fnName(f), c.at(f.Pos()), len(sinceHandles(evs, f)) == 1, "an iteration of the connection loop reads a frame but does not deliver exactly one message (%d deliveries)", len(sinceHandles(evs, f)))
		}
		if p.End == "ret" {
			// the loop ends only because reading failed; the connection is closed
			closed := false
			for _, e := range evs {
				if isCall(e, "(net.Conn).Close") && e.Args[0] == conn {
					closed = true
				}
			}
			c.check("closed-after-error", fnName(f), c.at(f.Pos()), closed, "the connection loop can end without closing the connection")
			c.check("no-delivery-on-error", fnName(f), c.at(f.Pos()), len(sinceHandles(evs, f)) == 0, "the connection loop ends after delivering a message")
		}
		if p.End == "panic" {
			c.fail("closed-after-error", fnName(f), c.at(f.Pos()), "the connection loop can end with a panic")
		}
	}
	c.check("loops", "comm.handleConnection", c.at(f.Pos()), true, "")
	for _, r := range []string{"decode-step-succeeded", "payload-complete", "envelope-complete", "header-complete", "delivered-once", "delivered-message", "closed-after-error"} {
		c.need(r, 1)
	}
	// nobody else takes bytes from a connection
	for g, ins := range c.callersOf(connRead, "io.ReadFull", "io.ReadAtLeast") {
		for _, in := range ins {
			c.check("single-reader", fnName(g), c.at(in.Pos()), c.onlyVia(g, "comm.handleConnection"), "%s reads from a connection outside the connection loop", fnName(g))
		}
	}
	c.need("single-reader", 1)
}

func sinceHandles(evs []*Ev, f *ssa.Function) []*Ev {
	var r []*Ev
	start := 0
	for i, e := range evs {
		if e.Kind == "loophead" && e.Fn == f {
			start = i
		}
	}
	for _, e := range evs[start:] {
		if isHandle(e) {
			r = append(r, e)
		}
	}
	return r
}

// frameLayout is the symbolic layout of a frame.
type frameLayout struct {
	hdrLen int64
	endian string
	ok     bool
	why    string
	env    *Term
}

func (c *Ctx) layoutOf(p *Path, w *Term) frameLayout {
	evs := p.Events()
	bad := func(s string, a ...interface{}) frameLayout { return frameLayout{why: fmt.Sprintf(s, a...)} }
	pc := p.St.pc
	var l frameLayout
	// header: PutUint64(part of w, value)
	var put *Ev
	for _, e := range evs {
		if isCall(e, "(encoding/binary.littleEndian).PutUint64", "(encoding/binary.bigEndian).PutUint64", "(encoding/binary.ByteOrder).PutUint64") {
			put = e
		}
	}
	if put == nil {
		return bad("no 64 bit length is written")
	}
	l.endian = strings.TrimSuffix(strings.TrimPrefix(put.Name, "(encoding/binary."), ").PutUint64")
	dst := put.Args[1]
	val := strip(put.Args[2])
	root := w
	if w.Op == "append" {
		// append(header, env...)
		if w.Aux != "spread" {
			return bad("the frame is assembled in an unknown way")
		}
		hdr := w.Args[0]
		n, ok := lenOf(hdr).intVal()
		if !ok || addrRoot(hdr) != addrRoot(dst) || !pc.entails(mkEq(sliceLo(dst), sliceLo(hdr))) {
			return bad("the length is not at the start of the frame")
		}
		l.hdrLen, l.env = n, w.Args[1]
		if !pc.entails(mkEq(val, lenOf(l.env))) {
			return bad("the written length %s is not the envelope's length", cut(val.String(), 80))
		}
		l.ok = true
		return l
	}
	if addrRoot(dst) != root || !pc.entails(mkEq(sliceLo(dst), mkInt(0, nil))) {
		return bad("the length is not written at the start of the returned frame")
	}
	// body: exactly one copy into w at a constant offset, covering the rest
	for _, e := range evs {
		if e.Kind != "copy" || addrRoot(e.Args[0]) != root {
			continue
		}
		if l.env != nil {
			return bad("the frame is written twice")
		}
		off, ok := sliceLo(e.Args[0]).intVal()
		if !ok {
			return bad("the envelope is copied to an offset which is not constant")
		}
		l.hdrLen, l.env = off, e.Args[1]
		if !pc.entails(mkEq(lenOf(e.Args[0]), lenOf(e.Args[1]))) {
			return bad("the room for the envelope differs from its length")
		}
	}
	if l.env == nil {
		return bad("the envelope is not copied into the frame")
	}
	if !pc.entails(mkEq(val, lenOf(l.env))) {
		return bad("the written length %s is not the envelope's length", cut(val.String(), 80))
	}
	if !pc.entails(mkEq(lenOf(w), mkAdd(lenOf(l.env), mkInt(l.hdrLen, nil), nil))) {
		return bad("the frame's length is not header plus envelope")
	}
	// nothing else writes into the frame
	for _, e := range evs {
		if e.Kind == "store" && e.Addr != nil && addrRoot(e.Addr) == root {
			return bad("the frame is modified elsewhere")
		}
	}
	l.ok = true
	return l
}

func sliceLo(t *Term) *Term {
	if t.Op == "slice" {
		return t.Args[1]
	}
	return mkInt(0, nil)
}

func runW03(c *Ctx) {
	c.assume("proto.Marshal/Unmarshal, zlib compression/decompression and proto.MessageName/MessageType are inverse to each other")
	f := c.p.fn("comm.toWire")
	paths := c.explore("comm.toWire", opt{noSpawn: true})
	if len(paths) == 0 {
		return
	}
	m := mkParam(f, f.Params[0])
	var wHdr int64 = -1
	wEnd := ""
	for _, p := range paths {
		if p.End != "ret" {
			c.check("encoder-terminates", fnName(f), c.at(f.Pos()), p.End != "panic", "the encoder can end with %s", p.End)
			continue
		}
		evs := p.Events()
		pc := p.St.pc
		success := nilAt(pc, p.Rets[1])
		if !success {
			c.check("encoder-error", fnName(f)+": error", c.at(f.Pos()), notNilAt(pc, p.Rets[1]) && p.Rets[0].isNil(), "an encoding path returns neither a frame nor a definite error")
			continue
		}
		l := c.layoutOf(p, p.Rets[0])
		if !c.check("frame-layout", fnName(f), c.at(f.Pos()), l.ok, "%s", l.why) {
			continue
		}
		wHdr, wEnd = l.hdrLen, l.endian
		// the envelope: Marshal of an Envelope with the message's name and the compressed encoding
		ee, ei := resOf(l.env)
		if !c.check("envelope-encoding", fnName(f), c.at(f.Pos()), ee != nil && isCall(ee, pMarshal) && ei == 0 && nilAt(pc, errOf(ee)), "the body of the frame is not the encoded envelope, or its encoding may have failed") {
			continue
		}
		env := strip(ee.Args[0])
		var typ, data *Term
		for _, e := range evs {
			if e.N < ee.N && isStoreTo(e, "comm.Envelope", "Type") && e.Addr.Args[0] == env {
				typ = e.Val
			}
			if e.N < ee.N && isStoreTo(e, "comm.Envelope", "Data") && e.Addr.Args[0] == env {
				data = e.Val
			}
		}
		c.check("envelope-type", fnName(f), where(c, ee), isApp(typ, pMsgName) && strip(typ.Args[0]) == strip(m), "the envelope does not name the type of the message being sent")
		// data: the bytes of the buffer a zlib writer, fed with the message's encoding and closed, writes to
		ok, why := c.compressedEncoding(evs, pc, data, m)
		c.check("envelope-data", fnName(f), where(c, ee), ok, "%s", why)
	}
	for _, r := range []string{"frame-layout", "envelope-type", "envelope-data"} {
		c.need(r, 1)
	}
	// reader
	rp := c.explore("comm.readWire", opt{noSpawn: true})
	loops := c.transferLoops("read-loop", rp, connRead, 1)
	g := c.p.fn("comm.readWire")
	for _, p := range rp {
		if p.End != "ret" || len(p.Rets) != 2 {
			continue
		}
		pc := p.St.pc
		evs := p.Events()
		if notNilAt(pc, p.Rets[1]) {
			c.check("decoder-error", fnName(g)+": error", c.at(g.Pos()), p.Rets[0].isNil() || nilAt(pc, p.Rets[0]), "the decoder returns a message together with an error")
			// an error must have a cause: a failed step, an unknown type, or a size out of bounds
			c.check("decoder-error-cause", fnName(g)+": "+cut(p.Rets[1].String(), 60), c.at(g.Pos()), c.errorCause(evs, pc), "an intact frame of an allowed size can be rejected")
			continue
		}
		if !nilAt(pc, p.Rets[1]) {
			// returned error of a step: fine if it is that step's error
			e, _ := resOf(p.Rets[1])
			c.check("decoder-error", fnName(g)+": passed on", c.at(g.Pos()), e != nil, "the decoder returns neither success nor a definite error")
			continue
		}
		filled := c.filled(loops, evs, pc)
		us := calls(evs, pUnmarshal)
		if !c.check("decoder-steps", fnName(g), c.at(g.Pos()), len(us) == 2, "the decoder takes %d decoding steps instead of envelope and payload", len(us)) {
			continue
		}
		// header
		var hdr *Term
		end := ""
		for _, r := range calls(evs, "(encoding/binary.*") {
			if e2, b := uintOf(r.Res); b != nil {
				hdr, end = r.Res, e2
			}
		}
		if hdr == nil {
			c.fail("header-agrees", fnName(g), c.at(g.Pos()), "the decoder does not read a 64 bit length")
			continue
		}
		_, hb := uintOf(hdr)
		hn, okn := lenOf(hb).intVal()
		c.check("header-agrees", fnName(g), c.at(g.Pos()), okn && hn == wHdr && hn == 8 && end == wEnd && end == "littleEndian" && filled(hb), "the decoder reads a %d byte %s header, the encoder writes a %d byte %s one", hn, end, wHdr, wEnd)
		body := us[0].Args[0]
		bl := lenOf(body)
		c.check("body-length-agrees", fnName(g), where(c, us[0]), filled(body) && (strip(bl) == strip(hdr) || pc.entails(mkEq(bl, hdr))), "the decoder does not read exactly as many bytes as the header announces")
		env := strip(us[0].Args[1])
		c.check("envelope-object", fnName(g), where(c, us[0]), namedOf(env.Typ) == "comm.Envelope", "the body is not decoded as an envelope")
		// payload object: reflect.New(MessageType(env.Type).Elem())
		msg := strip(us[1].Args[1])
		okT := false
		if mt := msg.find(func(t *Term) bool {
			e, _ := resOf(t)
			return t.Op == "call" && e != nil && isCall(e, pMsgType) || t.Op == "app" && t.Aux == pMsgType
		}); mt != nil {
			a := mt.Args[0]
			b, n := fieldOf(a)
			okT = n == "Type" && b == env
		}
		c.check("payload-type", fnName(g), where(c, us[1]), okT, "the payload is not decoded into a message of the type the envelope names")
		c.check("payload-result", fnName(g), where(c, us[1]), strip(p.Rets[0]) == msg && nilAt(pc, errOf(us[1])), "the decoder does not return the decoded payload")
		// payload bytes: zlib of env.Data
		de, _ := resOf(us[1].Args[0])
		okD := false
		if de != nil {
			t := us[1].Args[0].find(func(t *Term) bool {
				e, _ := resOf(t)
				if t.Op != "call" || e == nil || !isCall(e, "compress/zlib.NewReader") {
					return false
				}
				d := e.Args[0].find(func(x *Term) bool { b, n := fieldOf(x); return n == "Data" && b == env })
				return d != nil
			})
			okD = t != nil
		}
		c.check("payload-data", fnName(g), where(c, us[1]), okD, "the payload is not the decompressed data of the envelope")
	}
	for _, r := range []string{"header-agrees", "body-length-agrees", "payload-type", "payload-data", "payload-result", "decoder-error-cause"} {
		c.need(r, 1)
	}
}

// errorCause: on an error path some fallible step is known to have failed, or the announced size is out of bounds, or the type is unknown.
func (c *Ctx) errorCause(evs []*Ev, pc *PC) bool {
	for _, e := range calls(evs, decodeSteps...) {
		if er := errOf(e); er != nil && notNilAt(pc, er) {
			return true
		}
	}
	for _, e := range calls(evs, pMsgType) {
		if nilAt(pc, e.Res) {
			return true
		}
	}
	const floor = int64(1) << 26
	for _, e := range calls(evs, "(encoding/binary.*") {
		if _, b := uintOf(e.Res); b != nil {
			sz := mk("conv", nil, nil, e.Res)
			for _, l := range pc.lits() {
				if t := l.find(func(x *Term) bool { return x.Op == "conv" && x.Args[0] == e.Res }); t != nil {
					sz = t
				}
			}
			for _, s := range []*Term{e.Res, sz} {
				if pc.entails(mkLt0(linOf(s))) || pc.entails(mkLt0(linOf(mkInt(floor, nil)).add(linOf(s), -1))) {
					return true
				}
			}
		}
	}
	for _, e := range calls(evs, "io/ioutil.ReadAll", "io.ReadAll") {
		if pc.entails(mkLt0(linOf(mkInt(floor, nil)).add(linOf(lenOf(comp(e, 0))), -1))) {
			return true
		}
	}
	return false
}

// compressedEncoding: data is the content of a buffer written by a zlib writer which was given Marshal(m) and closed before.
// emptyBuffer: the buffer is empty when the zlib writer is given it, and nobody else can write to it up to the event to.
func emptyBuffer(evs []*Ev, pc *PC, buf *Term, zw, to *Ev) (bool, string) {
	reset := false
	for _, e := range evs {
		if e.N < zw.N && isCall(e, "(*bytes.Buffer).Reset") && strip(e.Args[0]) == buf {
			reset = true
		}
	}
	be, _ := resOf(buf)
	switch {
	case be != nil && isCall(be, "bytes.NewBuffer"):
		if !reset && !pc.entails(mkEq(lenOf(be.Args[0]), mkInt(0, nil))) {
			return false, "the buffer of the compressed data is not empty at first"
		}
		return true, ""
	case be != nil && isCall(be, "bytes.NewBufferString"):
		return reset || strip(be.Args[0]).String() == mkString("").String(), "the buffer of the compressed data is not empty at first"
	case addrRoot(buf).Op == "alloc" || buf.Op == "alloc":
		return true, ""
	}
	if be != nil && isCall(be, "(*sync.Pool).Get") {
		for _, e := range calls(evs, "(*sync.Pool).Put") {
			for _, u := range calls(evs, "github.com/golang/protobuf/proto.Marshal") {
				if strip(e.Args[1]) == buf && e.N < u.N {
					return false, "a buffer is given back while its content is still in use"
				}
			}
		}
		return reset, "a reused buffer still holds other data"
	}
	return reset && sameSection(evs, zw, to), "the compressed data of a message goes to a buffer shared with other messages"
}

func (c *Ctx) compressedEncoding(evs []*Ev, pc *PC, data, m *Term) (bool, string) {
	be, _ := resOf(data)
	if be == nil || !isCall(be, "(*bytes.Buffer).Bytes") {
		return false, "the envelope's data is not the compressed encoding"
	}
	buf := strip(be.Args[0])
	var zw *Ev
	for _, e := range calls(evs, "compress/zlib.NewWriterLevel", "compress/zlib.NewWriter", "compress/zlib.NewWriterLevelDict") {
		if strip(e.Args[0]) == buf {
			zw = e
		}
	}
	if zw == nil {
		return false, "the data is not produced by a zlib writer"
	}
	if zw.Name == "compress/zlib.NewWriterLevel" {
		lv, ok := zw.Args[1].intVal()
		if !ok || lv < -2 || lv > 9 {
			return false, "the compression level is invalid"
		}
	}
	if ok, why := emptyBuffer(evs, pc, buf, zw, be); !ok {
		return false, why
	}
	w := comp(zw, 0)
	isW := func(t *Term) bool { t = strip(t); return t == w || t == strip(w) }
	fed, closed := 0, false
	for _, e := range evs {
		if e.N >= be.N {
			break
		}
		var src *Term
		switch {
		case isCall(e, "io.Copy") && isW(e.Args[0]):
			se, _ := resOf(strip(e.Args[1]))
			if se != nil && isCall(se, "bytes.NewReader", "bytes.NewBuffer") {
				src = se.Args[0]
			}
		case isCall(e, "(*compress/zlib.Writer).Write", "(io.Writer).Write") && isW(e.Args[0]):
			src = e.Args[1]
		case isCall(e, "(*compress/zlib.Writer).Close", "(io.Closer).Close", "(io.WriteCloser).Close") && isW(e.Args[0]):
			closed = fed == 1
			continue
		default:
			continue
		}
		me, mi := resOf(src)
		if me == nil || !isCall(me, pMarshal) || mi != 0 || strip(me.Args[0]) != strip(m) || !nilAt(pc, errOf(me)) {
			return false, "something other than the encoding of the message is compressed"
		}
		fed++
	}
	if fed != 1 {
		return false, fmt.Sprintf("the encoding of the message is compressed %d times", fed)
	}
	if !closed {
		return false, "the compressed data is taken before the zlib writer is closed: its end is missing"
	}
	return true, ""
}

func runW04(c *Ctx) {
	f := c.p.fn("comm.sendWire")
	paths := c.explore("comm.sendWire", opt{noSpawn: true})
	if len(paths) == 0 {
		return
	}
	c.assume("a Write call on a net.Conn is atomic with respect to other Write calls on it")
	conn := mkParam(f, f.Params[1])
	m := mkParam(f, f.Params[0])
	loops := c.transferLoops("write-loop", paths, connWrite, 1)
	for _, p := range paths {
		evs := p.Events()
		pc := p.St.pc
		ws := calls(evs, connWrite)
		for _, w := range ws {
			c.check("written-to", fnName(w.Fn), where(c, w), w.Args[0] == conn, "the frame is written to another connection")
		}
		var tw *Ev
		for _, e := range calls(evs, "comm.toWire") {
			tw = e
		}
		if p.End == "panic" {
			c.fail("send-result", fnName(f), c.at(f.Pos()), "sending can end with a panic")
		}
		if p.End != "ret" {
			continue
		}
		ret := p.Rets[0]
		failed := false
		for _, w := range ws {
			if !nilAt(pc, errOf(w)) {
				failed = true
			}
		}
		encFailed := false
		for _, e := range calls(evs, pMarshal) {
			if !nilAt(pc, errOf(e)) {
				encFailed = true
			}
		}
		if failed || encFailed {
			c.check("failure-reported", fnName(f), c.at(f.Pos()), notNilAt(pc, ret), "sending returns success although encoding or writing failed")
			continue
		}
		// success: every byte written
		ok := false
		for _, l := range loops {
			if l.complete(pc) && c.frameOf(p, l.Buf, m) {
				ok = true
			}
		}
		for _, w := range ws { // a single unlooped write reports an error when it is short
			if c.frameOf(p, w.Args[1], m) && nilAt(pc, errOf(w)) && len(ws) == 1 {
				ok = true
			}
		}
		c.check("success-means-sent", fnName(f), c.at(f.Pos()), nilAt(pc, ret) && ok, "sending ends without an error of any step, but not with success after writing the whole frame of this message")
		_ = tw
	}
	for _, r := range []string{"failure-reported", "success-means-sent", "written-to"} {
		c.need(r, 1)
	}
	for g, ins := range c.callersOf(connWrite) {
		for _, in := range ins {
			c.check("only-writer", fnName(g), c.at(in.Pos()), c.onlyVia(g, "comm.sendWire"), "%s writes to a connection outside the frame writer", fnName(g))
		}
	}
	c.need("only-writer", 1)
	// a connection is handed to no library which could write to it
	for _, g := range c.cg().fns {
		if c.p.isGenerated(g) {
			continue
		}
		for _, b := range g.Blocks {
			for _, in := range b.Instrs {
				if ci, ok := in.(*ssa.ChangeInterface); ok && namedOf(ci.X.Type()) == "net.Conn" {
					n := namedOf(ci.Type())
					c.check("conn-not-leaked", fnName(g)+": "+n, c.at(ci.Pos()), n == "io.Closer" || n == "io.Reader" && c.onlyVia(g, "comm.handleConnection"), "a connection is passed on as %s", n)
				}
			}
		}
	}
	// the senders pass their message and connection on and return the result
	for _, g := range []string{"(*comm.singleMessageSender).SendMessage"} {
		fn := c.p.fn(g)
		ps := c.explore(g, opt{noSpawn: true, opaque: func(x *ssa.Function) bool { return fnName(x) == "comm.sendWire" }})
		for _, p := range ps {
			if p.End != "ret" {
				continue
			}
			sw := calls(p.Events(), "comm.sendWire")
			ok := len(sw) == 1 && sw[0].Args[0] == mkParam(fn, fn.Params[1]) && p.Rets[0] == sw[0].Res
			if ok {
				_, n := fieldOf(sw[0].Args[1])
				ok = n == "connection"
			}
			c.check("sender-result", g, c.at(fn.Pos()), ok, "the sender does not return the result of sending this message on its connection")
		}
	}
	c.need("sender-result", 1)
	c.include("C03", rules("failure-collected", "failure-returned", "collector-counted", "collector-keeps", "collector-reports", "join"))
}

// frameOf: t is the frame toWire produced for message m on this path.
func (c *Ctx) frameOf(p *Path, t, m *Term) bool {
	for _, e := range p.Events() {
		if e.Kind == "leave" && e.Name == "comm.toWire" && len(e.Args) > 0 && e.Args[0] == t {
			return true
		}
	}
	return false
}
