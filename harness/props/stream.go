package props

import (
	"bytes"
	"fmt"
	"io"
	"math/rand/v2"
	"net"
	"runtime"
	"sync"
	"verif/harness/code"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() { reg("C13", c13) }

// sentMsg is one entry of the send log of a connection.
type sentMsg struct {
	pdu     agentx.Pdu // what the receiver must get
	size    int
	corrupt bool // the payload was damaged: it must be refused
}

// gotMsg is one entry of the receive log.
type gotMsg struct {
	pdu agentx.Pdu
	ok  bool
}

// receive reads messages until the stream ends. All messages pass through one
// buffer, and the decoded PDUs are kept until the end.
func receive(r io.Reader, dbg bool, limit int) (got []gotMsg, err error) {
	buf := make([]byte, 64)
	for {
		h := buf[:agentx.PduHeaderSize]
		n, e := io.ReadFull(r, h)
		if e == io.EOF && n == 0 {
			return got, nil
		}
		if e != nil {
			return got, fmt.Errorf("the stream ends %d bytes into the header of message %d", n, len(got))
		}
		var p agentx.Pdu
		var ok bool
		if dbg {
			p, ok = agentx.DecodePduHeaderDbg(h, nop{})
		} else {
			p, ok = agentx.DecodePduHeader(h)
		}
		if !ok {
			return got, fmt.Errorf("header %x of message %d is refused", h, len(got))
		}
		size := int(p.PayloadSize)
		if size < 0 || size > limit {
			return got, fmt.Errorf("header %x of message %d announces %d bytes", h, len(got), size)
		}
		if size > len(buf) {
			buf = make([]byte, size+size/2)
		}
		d := buf[:size]
		if n, e := io.ReadFull(r, d); e != nil {
			return got, fmt.Errorf("the stream ends %d of %d bytes into the payload of message %d", n, size, len(got))
		}
		if dbg {
			ok = agentx.DecodePduPayloadDbg(&p, d, nop{})
		} else {
			ok = agentx.DecodePduPayload(&p, d)
		}
		got = append(got, gotMsg{p, ok})
	}
}

// judge compares the send log with the receive log.
func judge(sent []sentMsg, got []gotMsg) string {
	for i := 0; i < len(sent) && i < len(got); i++ {
		s, g := sent[i], got[i]
		if s.corrupt {
			if g.ok {
				return fmt.Sprintf("message %d of %d: the damaged payload is accepted as %s", i, len(sent), show(g.pdu))
			}
			continue
		}
		if !g.ok {
			return fmt.Sprintf("message %d of %d (session %d, packet %d) is refused: %s", i, len(sent), s.pdu.SessionId, s.pdu.PacketId, show(s.pdu))
		}
		if d := ref.Diff(s.pdu, g.pdu); d != "" {
			return fmt.Sprintf("message %d of %d (session %d, packet %d): %s", i, len(sent), s.pdu.SessionId, s.pdu.PacketId, d)
		}
	}
	if len(sent) != len(got) {
		return fmt.Sprintf("%d messages were sent, %d received", len(sent), len(got))
	}
	return ""
}

// damage breaks a payload so that the reference refuses it, keeping its size.
func damage(r gen.R, data []byte) bool {
	if len(data) < 24 {
		return false
	}
	p := data[20:]
	keep := append([]byte(nil), p...)
	for try := 0; try < 8; try++ {
		copy(p, keep)
		for k := r.IntN(3); k >= 0; k-- {
			switch r.IntN(3) {
			case 0:
				p[r.IntN(len(p))] ^= byte(1 + r.IntN(255))
			case 1:
				i := r.IntN(len(p)/4) * 4
				copy(p[i:], []byte{0xff, 0xff, 0xff, 0xff})
			default:
				i := r.IntN(len(p))
				p[i] = gen.B(r)
			}
		}
		if _, v, _ := refDecode(split(data)); v == ref.Reject {
			return true
		}
	}
	copy(p, keep)
	return false
}

// traffic makes the next PDU of a session.
func traffic(r gen.R, session, packet int, o gen.Opt) agentx.Pdu {
	p := gen.Pdu(r, o)
	p.SessionId, p.PacketId, p.TransactionId = uint32(session), uint32(packet), gen.U32(r)
	return p
}

// chopper delivers a byte stream in arbitrary fragments.
type chopper struct {
	data []byte
	r    *rand.Rand
	mode int
}

func (x *chopper) Read(b []byte) (int, error) {
	if len(x.data) == 0 {
		return 0, io.EOF
	}
	n := min(len(b), len(x.data))
	switch x.mode {
	case 0:
		n = min(n, 1)
	case 1:
		n = min(n, 1+x.r.IntN(7))
	case 2:
		n = min(n, 1+x.r.IntN(64))
	case 3:
		n = min(n, x.r.IntN(4)) // also empty reads
	}
	copy(b, x.data[:n])
	x.data = x.data[n:]
	if len(x.data) == 0 && x.mode == 2 {
		return n, io.EOF // the end is reported with the last bytes
	}
	return n, nil
}

func c13(run *mon.Run) {
	run.Rule("Sessions encode generated PDUs (a part of the payloads damaged afterwards), send them over one connection (an in-memory stream, a synchronous pipe, loopback TCP) cut into random fragments, and a receiver with one reused buffer reads header, announced size, payload; the receive log must equal the send log: each message exactly once, in order, unaltered, damaged ones refused, and the stream must end where the last message does. All decoded PDUs are compared only after the last one was read. Non-trivial: streams of at least two messages; distinct by stream.")
	div := 1
	if run.Variant != "plain" {
		div = 6
	}
	encode := func(c *mon.Case, r gen.R, p agentx.Pdu, fail func(string, ...interface{})) (data []byte, s sentMsg) {
		var ok bool
		if r.IntN(8) == 0 {
			data, ok = agentx.EncodePduDbg(p, nop{})
		} else {
			data, ok = agentx.EncodePdu(p)
		}
		if !ok {
			fail("a valid PDU is refused: %s", show(p))
			return
		}
		s = sentMsg{pdu: ref.Normal(ref.Clone(p), len(data)-20), size: len(data)}
		return
	}
	run.Cases("in-memory", run.N(12000, 400000)/div, func(c *mon.Case) {
		r := c.R
		o := gen.SmallOpt
		n := 1 + r.IntN(12)
		if r.IntN(20) == 0 {
			n = 50 + r.IntN(100)
		}
		var stream []byte
		var sent []sentMsg
		for i := 0; i < n; i++ {
			data, s := encode(c, r, traffic(r, r.IntN(4), i, o), c.Fail)
			if r.IntN(6) == 0 && damage(r, data) {
				s.corrupt = true
				c.Event("damaged-messages")
			}
			sent = append(sent, s)
			stream = append(stream, data...)
		}
		mode := r.IntN(5)
		got, err := receive(&chopper{stream, r, mode}, r.IntN(6) == 0, len(stream))
		if err != nil {
			c.Fail("%v (stream of %d messages, %d bytes, fragment mode %d)", err, n, len(stream), mode)
		}
		if d := judge(sent, got); d != "" {
			c.Fail("%s (fragment mode %d)", d, mode)
		}
		c.EventN("messages", n)
		c.Event("streams")
		if n > 1 {
			c.Sig(stream)
		}
		c.Sample(func() string { return fmt.Sprintf("%d messages, %d bytes, fragment mode %d", n, len(stream), mode) })
	})

	// large messages: long strings, opaque values and lists among small ones
	lens := strLens(1 << 17)
	run.Cases("large-messages", (run.N(2*len(lens), 20*len(lens))+div-1)/div, func(c *mon.Case) {
		r := c.R
		var stream []byte
		var sent []sentMsg
		for i := 0; i < 5; i++ {
			p := traffic(r, r.IntN(4), i, gen.SmallOpt)
			if i%2 == 1 {
				switch n := lens[c.Index%len(lens)]; r.IntN(4) {
				case 0:
					p = placeStr(r.IntN(6), r.IntN(2) == 0, string(gen.Bytes(r, n)))
				case 1, 2: // two values that could share the receive buffer
					p = base(code.TagResponse, r.IntN(2) == 0)
					p.Varbinds = []asn.Varbind{{Oid: gen.OID(r), Tag: code.TagOpaque, Value: gen.Bytes(r, n)}, {Oid: gen.OID(r), Tag: code.TagOctetString, Value: string(gen.Bytes(r, n))}, {Oid: gen.OIDn(r, 128), Tag: code.TagObjectId, Value: gen.OIDn(r, 128)}}
				default:
					n = min(n, 9000)
					if ref.HasRanges[p.Tag] {
						p.Ranges = gen.Ranges(r, n)
					} else {
						p = base(code.TagResponse, r.IntN(2) == 0)
						p.Varbinds = gen.Varbinds(r, n, gen.Opt{MaxStr: 12})
					}
				}
				p.PacketId = uint32(i)
			}
			data, s := encode(c, r, p, c.Fail)
			if r.IntN(6) == 0 && damage(r, data) {
				s.corrupt = true
				c.Event("damaged-messages")
			}
			sent = append(sent, s)
			stream = append(stream, data...)
		}
		got, err := receive(&chopper{stream, r, 2 + 2*r.IntN(2)}, r.IntN(20) == 0, len(stream))
		if err != nil {
			c.Fail("%v (stream of %d bytes)", err, len(stream))
		}
		if d := judge(sent, got); d != "" {
			c.Fail("%s", d)
		}
		c.EventN("messages", len(sent))
		c.Event("large-streams")
		c.Sig("large", c.Index, len(stream))
	})

	// conversation: sessions share a connection, the peer answers each
	// message it receives by re-encoding it towards the sender
	conversation := func(c *mon.Case, a, b net.Conn, sessions, per int, echo bool) {
		type dir struct {
			mu    sync.Mutex
			sent  []sentMsg
			total int
		}
		var there, back dir
		var emu sync.Mutex
		var failure string
		fail := func(format string, args ...interface{}) {
			emu.Lock()
			if failure == "" {
				failure = fmt.Sprintf(format, args...)
			}
			emu.Unlock()
			a.Close()
			b.Close()
		}
		write := func(r gen.R, w io.Writer, data []byte) bool {
			for len(data) > 0 {
				n := len(data)
				if r.IntN(2) == 0 {
					n = 1 + r.IntN(n)
				}
				if _, err := w.Write(data[:n]); err != nil {
					return false // the receiver gave up and reported why
				}
				data = data[n:]
			}
			return true
		}
		seeds := make([]uint64, sessions+2)
		for i := range seeds {
			seeds[i] = c.R.Uint64()
		}
		dbgA, dbgB := c.R.IntN(5) == 0, c.R.IntN(5) == 0
		damaged := make([]int, sessions)
		var wg, senders sync.WaitGroup
		for s := 0; s < sessions; s++ {
			senders.Add(1)
			go func(s int) {
				defer senders.Done()
				r := rand.New(rand.NewPCG(seeds[s], 1))
				for i := 0; i < per; i++ {
					data, m := encode(c, r, traffic(r, s, i, gen.SmallOpt), fail)
					if data == nil {
						return
					}
					if r.IntN(8) == 0 && damage(r, data) {
						m.corrupt = true
						damaged[s]++
					}
					there.mu.Lock()
					there.sent = append(there.sent, m)
					there.total += len(data)
					ok := write(r, a, data)
					there.mu.Unlock()
					if !ok {
						return
					}
					fillBytes(data, 0xA5) // the sender reuses its memory at once
					if r.IntN(3) == 0 {
						runtime.Gosched()
					}
				}
			}(s)
		}
		var gotB, gotA []gotMsg
		wg.Add(1)
		go func() { // the peer
			defer wg.Done()
			r := rand.New(rand.NewPCG(seeds[sessions], 2))
			var out io.Writer
			if echo {
				out = b
			}
			got, err := receive(b, dbgB, 1<<24)
			gotB = got
			if err != nil {
				fail("at the peer: %v", err)
				return
			}
			if out != nil {
				for _, g := range got {
					if !g.ok {
						continue
					}
					data, m := encode(c, r, g.pdu, fail)
					if data == nil {
						return
					}
					back.sent = append(back.sent, m)
					if !write(r, out, data) {
						return
					}
				}
			}
			b.Close()
		}()
		if echo {
			wg.Add(1)
			go func() {
				defer wg.Done()
				got, err := receive(a, dbgA, 1<<24)
				gotA = got
				if err != nil {
					fail("at the sender: %v", err)
				}
			}()
		}
		senders.Wait()
		if cw, ok := a.(interface{ CloseWrite() error }); ok {
			cw.CloseWrite()
		} else {
			a.Close()
		}
		wg.Wait()
		a.Close()
		b.Close()
		if failure != "" {
			c.Fail("%d sessions: %s", sessions, failure)
		}
		if d := judge(there.sent, gotB); d != "" {
			c.Fail("%d sessions: %s", sessions, d)
		}
		if echo {
			if d := judge(back.sent, gotA); d != "" {
				c.Fail("%d sessions, answers: %s", sessions, d)
			}
			// the answers are the accepted messages themselves
			k := 0
			for _, s := range there.sent {
				if s.corrupt {
					continue
				}
				if d := ref.Diff(s.pdu, gotA[k].pdu); d != "" {
					c.Fail("%d sessions: message came back altered: %s", sessions, d)
				}
				k++
			}
			c.EventN("messages", len(gotA))
		}
		order := make([]byte, len(there.sent))
		next := make([]uint32, sessions)
		for i, s := range there.sent {
			order[i] = byte(s.pdu.SessionId)
			if s.pdu.PacketId != next[s.pdu.SessionId] {
				c.Error("send log out of order")
			}
			next[s.pdu.SessionId]++
		}
		for _, n := range damaged {
			c.EventN("damaged-messages", n)
		}
		c.EventN("messages", len(there.sent))
		c.Event("conversations")
		c.Sig("order", c.Section, c.Index, order)
		c.Sample(func() string {
			return fmt.Sprintf("%d sessions x %d messages, %d bytes, order of sessions %v", sessions, per, there.total, trunc(fmt.Sprint(order), 120))
		})
	}
	run.Cases("pipe", run.N(1200, 30000)/div, func(c *mon.Case) {
		a, b := net.Pipe()
		conversation(c, a, b, 1+c.R.IntN(6), 1+c.R.IntN(12), false)
	})
	tcp := true
	ln, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		tcp = false
	}
	if tcp {
		defer ln.Close()
		var mu sync.Mutex
		run.Cases("tcp", run.N(400, 8000)/div, func(c *mon.Case) {
			mu.Lock()
			a, err1 := net.Dial("tcp", ln.Addr().String())
			var b net.Conn
			var err2 error
			if err1 == nil {
				b, err2 = ln.Accept()
			}
			mu.Unlock()
			if err1 != nil || err2 != nil {
				c.Event("loopback-unavailable")
				return
			}
			conversation(c, a, b, 1+c.R.IntN(8), 1+c.R.IntN(10), true)
		})
	}
	// decoding the messages of one stream on several goroutines at once
	run.Cases("parallel-decoding", run.N(1500, 30000)/div, func(c *mon.Case) {
		r := c.R
		n := 8 + r.IntN(40)
		var stream bytes.Buffer
		var sent []sentMsg
		for i := 0; i < n; i++ {
			data, s := encode(c, r, traffic(r, r.IntN(4), i, gen.SmallOpt), c.Fail)
			if r.IntN(6) == 0 && damage(r, data) {
				s.corrupt = true
				c.Event("damaged-messages")
			}
			sent = append(sent, s)
			stream.Write(data)
		}
		data := stream.Bytes()
		var frames []Msg
		for pos := 0; pos < len(data); {
			if pos+20 > len(data) {
				c.Fail("the stream does not end at a message boundary")
			}
			p, ok := agentx.DecodePduHeader(data[pos : pos+20])
			if !ok || p.PayloadSize < 0 || pos+20+int(p.PayloadSize) > len(data) {
				c.Fail("header of message %d is refused or announces too much", len(frames))
			}
			end := pos + 20 + int(p.PayloadSize)
			frames = append(frames, Msg{data[pos : pos+20], data[pos+20 : end]})
			pos = end
		}
		got := make([]gotMsg, len(frames))
		var wg sync.WaitGroup
		for g := 0; g < 4; g++ {
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				for i := g; i < len(frames); i += 4 {
					p, h, ok := libDecode(frames[i])
					got[i] = gotMsg{p, h && ok}
				}
			}(g)
		}
		wg.Wait()
		fillBytes(data, 0x3C)
		if d := judge(sent, got); d != "" {
			c.Fail("decoded in parallel: %s", d)
		}
		c.EventN("messages", n)
		c.Event("streams")
		c.Sig(c.Section, c.Index)
	})
	run.Need("messages", 20000)
	run.Need("damaged-messages", 500)
	run.Need("conversations", 100)
}
