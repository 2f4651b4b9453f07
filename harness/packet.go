package main

import (
	"bytes"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"time"

	"github.com/singchia/geminio/packet"
	"github.com/singchia/geminio/pkg/id"
	"gmc/mc"
)

// view lists everything a user of a packet can see, except the length.
func view(p packet.Packet) string {
	var h *packet.PacketHeader
	body := ""
	msg := func(s uint64, d *packet.MessageData) string {
		if d == nil {
			return fmt.Sprintf("s%d nil", s)
		}
		return fmt.Sprintf("s%d k%q v%q t%q c%q e%q to%d d%d cd%d", s, d.Key, d.Value, d.Topic, d.Custom, d.Error, d.Timeout, d.Deadline.UnixNano(), d.Context.Deadline.UnixNano())
	}
	cd := func(d *packet.ConnData) string {
		if d == nil {
			return "nil"
		}
		return fmt.Sprintf("m%q e%q", d.Meta, d.Error)
	}
	sd := func(d *packet.SessionData) string {
		if d == nil {
			return "nil"
		}
		return fmt.Sprintf("m%q e%q p%q", d.Meta, d.Error, d.Peer)
	}
	switch q := p.(type) {
	case *packet.ConnPacket:
		h, body = q.PacketHeader, fmt.Sprintf("conn hb%d acq%v retain%v clear%v id%d %s", q.Heartbeat, q.ClientIDAcquire(), q.Retain, q.Clear, q.ClientID, cd(q.ConnData))
	case *packet.ConnAckPacket:
		h, body = q.PacketHeader, fmt.Sprintf("connack rc%d id%d %s", q.RetCode, q.ClientID, cd(q.ConnData))
	case *packet.DisConnPacket:
		h, body = q.PacketHeader, "disconn"
	case *packet.DisConnAckPacket:
		h, body = q.PacketHeader, fmt.Sprintf("disconnack rc%d %s", q.RetCode, cd(q.ConnData))
	case *packet.HeartbeatPacket:
		h, body = q.PacketHeader, "hb"
	case *packet.HeartbeatAckPacket:
		h, body = q.PacketHeader, "hback"
	case *packet.SessionPacket:
		h, body = q.PacketHeader, fmt.Sprintf("sess n%d acq%v prio%d qos%d %s", q.NegotiateID(), q.SessionIDAcquire(), q.Priority, q.Qos&15, sd(q.SessionData))
	case *packet.SessionAckPacket:
		h, body = q.PacketHeader, fmt.Sprintf("sessack n%d s%d %s", q.NegotiateID(), q.SessionID(), sd(q.SessionData))
	case *packet.DismissPacket:
		h, body = q.PacketHeader, fmt.Sprintf("dismiss s%d %s", q.SessionID(), sd(q.SessionData))
	case *packet.DismissAckPacket:
		h, body = q.PacketHeader, fmt.Sprintf("dismissack s%d %s", q.SessionID(), sd(q.SessionData))
	case *packet.MessagePacket:
		h, body = q.PacketHeader, "msg "+msg(q.SessionID(), q.Data)
	case *packet.MessageAckPacket:
		h, body = q.PacketHeader, "msgack "+msg(q.SessionID(), q.Data)
	case *packet.RequestPacket:
		h, body = q.PacketHeader, "req "+msg(q.SessionID(), q.Data)
	case *packet.ResponsePacket:
		h, body = q.PacketHeader, "rsp "+msg(q.SessionID(), q.Data)
	case *packet.RequestCancelPacket:
		h, body = q.PacketHeader, fmt.Sprintf("cancel s%d", q.SessionID())
	case *packet.StreamPacket:
		h, body = q.PacketHeader, fmt.Sprintf("stream s%d %q", q.SessionID(), q.Data)
	case *packet.RegisterPacket:
		h, body = q.PacketHeader, fmt.Sprintf("register s%d %q", q.SessionID(), q.Method())
	case *packet.RegisterAckPacket:
		e := "nil"
		if q.RegisterData != nil {
			e = q.RegisterData.Error
		}
		h, body = q.PacketHeader, fmt.Sprintf("registerack s%d %q", q.SessionID(), e)
	default:
		return fmt.Sprintf("unknown packet type %T", p)
	}
	if h == nil {
		return "no header " + body
	}
	return fmt.Sprintf("v%d typ%#x id%d %s", h.Version, h.Typ, h.PacketID, body)
}

// samples returns packets of one kind with all combinations of an alphabet of
// field values and the view each must have after the wire.
const nKinds = 18

func samples(kind int, full bool) []packet.Packet {
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Inc))
	bs := [][]byte{nil, {}, []byte("x"), []byte("\x00\xff{\"a\":1}\n"), bytes.Repeat([]byte{0xab}, 70)}
	ss := []string{"", "e", "text \"quoted\" <é>\n", string(bytes.Repeat([]byte("z"), 40))}
	ids := []uint64{0, 1, 0x0102030405060708, 1<<64 - 1}
	errs := []error{nil, errors.New("e"), errors.New("text \"quoted\" <é>\n")}
	times := []time.Time{{}, time.Unix(1700000001, 123456789)}
	if !full {
		bs, ss, ids, errs, times = bs[3:4], ss[2:3], ids[2:3], errs[1:2], times[1:]
	}
	var out []packet.Packet
	add := func(p packet.Packet) { out = append(out, p) }
	data := func(mk func(b []byte) *packet.MessageData) {
		for _, k := range bs {
			for _, c := range bs {
				for _, t := range ss {
					for _, dl := range times {
						for _, to := range []time.Duration{0, 1500 * ms} {
							d := mk(k)
							d.Custom, d.Topic, d.Deadline, d.Timeout = c, t, dl, to
							d.Context.Deadline = dl
						}
					}
				}
			}
		}
	}
	for _, i := range ids {
		switch kind {
		case 0:
			for _, hb := range []packet.Heartbeat{packet.Heartbeat5, packet.Heartbeat20, packet.Heartbeat80, packet.Heartbeat320} {
				for _, acq := range []bool{false, true} {
					for _, m := range bs {
						for fl := 0; fl < 4; fl++ {
							p := pf.NewConnPacket(i, acq, hb, m)
							p.Retain, p.Clear = fl&1 != 0, fl&2 != 0
							add(p)
						}
					}
				}
			}
		case 1:
			for _, e := range errs {
				for _, m := range bs {
					p := pf.NewConnAckPacket(i, i^5, e)
					p.ConnData.Meta = m
					add(p)
				}
			}
		case 2:
			add(pf.NewDisConnPacket())
		case 3:
			for _, e := range errs {
				add(pf.NewDisConnAckPacket(i, e))
			}
		case 4:
			add(pf.NewHeartbeatPacket())
		case 5:
			add(pf.NewHeartbeatAckPacket(i))
		case 6:
			for _, acq := range []bool{false, true} {
				for _, m := range bs {
					for _, peer := range ss {
						for _, q := range []int{0, 1, 15, -1, -8} {
							p := pf.NewSessionPacket(i, acq, m, peer)
							p.Priority, p.Qos = uint8(q*17), int8(q)
							add(p)
						}
					}
				}
			}
		case 7:
			for _, e := range errs {
				for _, m := range bs {
					p := pf.NewSessionAckPacket(i, i^3, i^9, e)
					p.SessionData.Meta, p.SessionData.Peer = m, "peer"
					add(p)
				}
			}
		case 8:
			add(pf.NewDismissPacket(i))
		case 9:
			for _, e := range errs {
				add(pf.NewDismissAckPacket(i, i^3, e))
			}
		case 10:
			data(func(b []byte) *packet.MessageData {
				p := pf.NewMessagePacketWithIDAndSessionID(i, i^3, b, b)
				add(p)
				return p.Data
			})
		case 11:
			for _, e := range errs {
				data(func(b []byte) *packet.MessageData {
					p := pf.NewMessageAckPacketWithSessionID(i^3, i, e)
					p.Data.Value = b
					add(p)
					return p.Data
				})
			}
		case 12:
			for _, b := range bs {
				add(pf.NewStreamPacketWithSessionID(i, b))
			}
		case 13:
			data(func(b []byte) *packet.MessageData {
				p := pf.NewRequestPacketWithIDAndSessionID(i, i^3, b, b)
				add(p)
				return p.Data
			})
		case 14:
			for _, e := range errs {
				data(func(b []byte) *packet.MessageData {
					p := pf.NewResponsePacket(i, b, b, e)
					p.SetSessionID(i ^ 3)
					add(p)
					return p.Data
				})
			}
		case 15:
			for _, t := range []packet.RequestCancelType{packet.RequestCancelTypeCanceled, packet.RequestCancelTypeDeadlineExceeded} {
				add(pf.NewRequestCancelPacketWithIDAndSessionID(i, i^3, t))
			}
		case 16:
			for _, b := range bs {
				add(pf.NewRegisterPacketWithSessionID(i, b))
			}
		case 17:
			for _, e := range errs {
				add(pf.NewRegisterAckPacketWithSessionID(i, i^3, e))
			}
		}
	}
	return out
}

// sized is a packet with every field of variable length as long as b, nil if there is none.
func sized(kind int, b []byte) packet.Packet {
	pf := packet.NewPacketFactory(id.NewIDCounter(id.Inc))
	t := string(b)
	e := errors.New(t)
	if t == "" {
		e = nil
	}
	msg := func(d *packet.MessageData, key bool) {
		d.Custom, d.Topic = b, t
		if key {
			d.Key = b
		}
	}
	switch kind {
	case 0:
		return pf.NewConnPacket(7, true, packet.Heartbeat20, b)
	case 1:
		p := pf.NewConnAckPacket(7, 8, e)
		p.ConnData.Meta = b
		return p
	case 3:
		return pf.NewDisConnAckPacket(7, e)
	case 6:
		return pf.NewSessionPacket(7, true, b, t)
	case 7:
		p := pf.NewSessionAckPacket(7, 8, 9, e)
		p.SessionData.Meta, p.SessionData.Peer = b, t
		return p
	case 9:
		return pf.NewDismissAckPacket(7, 8, e)
	case 10:
		p := pf.NewMessagePacketWithIDAndSessionID(7, 8, b, b)
		msg(p.Data, true)
		return p
	case 11:
		p := pf.NewMessageAckPacketWithSessionID(8, 7, e)
		msg(p.Data, true)
		return p
	case 12:
		return pf.NewStreamPacketWithSessionID(8, b)
	case 13:
		p := pf.NewRequestPacketWithIDAndSessionID(7, 8, b, b)
		msg(p.Data, true)
		return p
	case 14:
		p := pf.NewResponsePacket(7, b, b, e)
		p.SetSessionID(8)
		msg(p.Data, true)
		return p
	case 16:
		return pf.NewRegisterPacketWithSessionID(8, b)
	case 17:
		return pf.NewRegisterAckPacketWithSessionID(8, 7, e)
	}
	return nil
}

func encode(p packet.Packet) []byte {
	var b bytes.Buffer
	if err := packet.EncodeToWriter(p, &b); err != nil {
		mc.FailNow("encode %s: %v", view(p), err)
	}
	d, err := packet.Encode(p)
	noErr("encode", err)
	eqBytes("Encode against EncodeToWriter", d, b.Bytes())
	if len(d) < 14 || int(binary.BigEndian.Uint32(d[10:14])) != len(d)-14 {
		mc.FailNow("announced length of %s does not match its %d bytes", view(p), len(d))
	}
	return d
}

// cutReader delivers the data cut at the given positions, and counts.
type cutReader struct {
	data []byte
	pos  int
	step int // 0: everything at once
	cut  int // first read ends here (0: no cut)
	eofN bool
	over bool // a read after the end was attempted
}

func (r *cutReader) Read(b []byte) (int, error) {
	if len(b) == 0 {
		return 0, nil
	}
	if r.pos >= len(r.data) {
		r.over = true
		return 0, io.EOF
	}
	n := len(r.data) - r.pos
	if r.step > 0 && n > r.step {
		n = r.step
	}
	if r.cut > r.pos && n > r.cut-r.pos {
		n = r.cut - r.pos
	}
	if n > len(b) {
		n = len(b)
	}
	copy(b, r.data[r.pos:r.pos+n])
	r.pos += n
	if r.eofN && r.pos == len(r.data) {
		return n, io.EOF
	}
	return n, nil
}

func sameAs(what string, got packet.Packet, err error, exp string, raw []byte) {
	if err != nil {
		mc.FailNow("%s of %s: %v", what, exp, err)
	}
	if v := view(got); v != exp {
		mc.FailNow("%s: packet changed on the wire\n sent %s\n got  %s", what, exp, v)
	}
	if re, err := packet.Encode(got); err != nil || !bytes.Equal(re, raw) {
		mc.FailNow("%s: re-encoding the decoded %s gives different bytes", what, exp)
	}
}

func init() {
	reg("packet.values", "every packet kind with all combinations of field values, decoded from memory, at once and byte by byte", mc.Config{}, func() {
		k := mc.Choose(nKinds, "kind")
		for _, p := range samples(k, true) {
			mc.CountCase()
			raw := encode(p)
			exp := view(p)
			buf := append([]byte(nil), raw...)
			q, n, err := packet.Decode(append(buf, 0xee, 0xee))
			sameAs("Decode", q, err, exp, raw)
			want(int(n) == len(raw)-14, "Decode of %s consumed %d of %d payload bytes", exp, n, len(raw)-14)
			for _, step := range []int{0, 1, 7} {
				r := &cutReader{data: append(append([]byte(nil), raw...), 0xee), step: step}
				q, err := packet.DecodeFromReader(r)
				sameAs("DecodeFromReader", q, err, exp, raw)
				want(r.pos == len(raw), "decoding %s consumed %d of %d bytes", exp, r.pos, len(raw))
			}
		}
		mc.Outcome("kind %d", k)
	})
	reg("packet.sizes", "every packet kind with fields of every length around the powers of two, in pieces", mc.Config{}, func() {
		k := mc.Choose(nKinds, "kind")
		var sizes []int
		for i := 0; i < 300; i++ {
			sizes = append(sizes, i)
		}
		for _, c := range []int{512, 1024, 4096, 8192, 32768, 65536, 1 << 18} {
			for i := -2; i <= 2; i++ {
				sizes = append(sizes, c+i)
			}
			// and those which make the whole payload this long
			for i := 8; i <= 16; i += 4 {
				sizes = append(sizes, c-i)
			}
		}
		for _, n := range sizes {
			b := make([]byte, n)
			for i := range b {
				b[i] = 'a' + byte(i%23)
			}
			p := sized(k, b)
			if p == nil {
				return
			}
			mc.CountCase()
			raw := encode(p)
			exp := view(p)
			q, used, err := packet.Decode(append(append([]byte(nil), raw...), 0xee))
			sameAs("Decode", q, err, exp, raw)
			want(int(used) == len(raw)-14, "Decode consumed %d of %d payload bytes", used, len(raw)-14)
			for _, step := range []int{0, 1000} {
				r := &cutReader{data: append(append([]byte(nil), raw...), 0xee), step: step}
				q, err := packet.DecodeFromReader(r)
				sameAs("DecodeFromReader", q, err, exp, raw)
				want(r.pos == len(raw), "decoding consumed %d of %d bytes", r.pos, len(raw))
			}
		}
		mc.Outcome("kind %d", k)
	})
	reg("packet.cuts", "every ordered pair of packet kinds back to back, cut at every position", mc.Config{}, func() {
		a := samples(mc.Choose(nKinds, "first"), false)[0]
		b := samples(mc.Choose(nKinds, "second"), false)[0]
		ra, rb := encode(a), encode(b)
		va, vb := view(a), view(b)
		all := append(append([]byte(nil), ra...), rb...)
		for cut := 0; cut < len(all); cut++ {
			for _, eofN := range []bool{false, true} {
				mc.CountCase()
				r := &cutReader{data: all, cut: cut, eofN: eofN}
				p, err := packet.DecodeFromReader(r)
				sameAs("first packet", p, err, va, ra)
				p, err = packet.DecodeFromReader(r)
				sameAs("second packet", p, err, vb, rb)
				_, err = packet.DecodeFromReader(r)
				want(err != nil, "a packet was decoded from nothing")
			}
		}
	})
	reg("packet.bad", "every packet kind truncated everywhere, with every wrong length, with corrupted bytes and types", mc.Config{}, func() {
		k := mc.Choose(nKinds, "kind")
		for _, p := range samples(k, false) {
			raw := encode(p)
			exp := view(p)
			try := func(what string, d []byte, must bool) {
				mc.CountCase()
				announced := -1
				if len(d) >= 14 {
					announced = 14 + int(binary.BigEndian.Uint32(d[10:14]))
				}
				if announced > 1<<20 {
					return // an announced length is trusted up to 4 GB: out of the explored bound
				}
				q, n, err := packet.Decode(append([]byte(nil), d...))
				if err == nil {
					want(!must, "%s of %s: Decode succeeded", what, exp)
					want(announced >= 0 && announced <= len(d) && int(n)+14 == announced, "%s of %s: Decode consumed %d, announced %d, there are %d", what, exp, n+14, announced, len(d))
					again(what, q)
				}
				r := &cutReader{data: d}
				q, err = packet.DecodeFromReader(r)
				if announced >= 0 && r.pos > announced {
					mc.FailNow("%s of %s: decoding read %d bytes, announced are %d", what, exp, r.pos, announced)
				}
				if announced >= 0 && announced <= len(d) && r.over {
					mc.FailNow("%s of %s: decoding waits for more than the announced %d bytes", what, exp, announced)
				}
				if err == nil {
					want(!must, "%s of %s: DecodeFromReader succeeded", what, exp)
					want(r.pos == announced, "%s of %s: decoding read %d bytes, announced are %d", what, exp, r.pos, announced)
					again(what, q)
				}
			}
			for n := 0; n < len(raw); n++ {
				try(fmt.Sprintf("truncation to %d", n), raw[:n], true)
			}
			for n := 0; n <= len(raw)-14+40; n++ {
				d := append([]byte(nil), raw...)
				d = append(d, raw...)
				d = append(d, raw...)
				binary.BigEndian.PutUint32(d[10:14], uint32(n))
				try(fmt.Sprintf("length %d", n), d, false)
				if 14+n <= len(d) {
					try(fmt.Sprintf("length %d, cut", n), d[:14+n], false)
				}
			}
			for i := range raw {
				for _, v := range []byte{0, 1, 8, '"', '{', '}', 0x7f, 0x80, 0xff, raw[i] ^ 1, raw[i] ^ 0x20, raw[i] ^ 0x80} {
					if v == raw[i] {
						continue
					}
					d := append([]byte(nil), raw...)
					d[i] = v
					try(fmt.Sprintf("byte %d = %#x", i, v), d, false)
				}
			}
			for t := 0; t < 256; t++ {
				d := append([]byte(nil), raw...)
				d[1] = byte(t)
				try(fmt.Sprintf("type %#x", t), d, packet.Type(t).String() == "unknown packet")
			}
		}
		mc.Outcome("kind %d", k)
	})
	mc.RegisterPlan(&mc.Plan{Property: "C01", QuickS: 150, ThoroughS: 300, Runs: []mc.Run{
		{Scenario: "packet.values", Quick: 0, Thorough: 0},
		{Scenario: "packet.cuts", Quick: 0, Thorough: 0},
		{Scenario: "packet.sizes", Quick: 0, Thorough: 0},
		{Scenario: "packet.wire", Quick: 0, Thorough: 0},
	}, Assumptions: []string{"text fields (error, topic, peer) hold valid UTF-8; announced lengths up to 1 MB"}})
}

// again checks that what was decoded from damaged input is itself a packet.
func again(what string, p packet.Packet) {
	v := view(p)
	raw, err := packet.Encode(p)
	noErr(what+": encode what was decoded", err)
	q, _, err := packet.Decode(raw)
	if err != nil || view(q) != v {
		mc.FailNow("%s: decoded %s, which does not survive another round (%v)", what, v, err)
	}
}
