// Package vnet is the in-memory network of the model checker.
package vnet

import (
	"errors"
	"fmt"
	"io"
	"net"
	"os"
	"time"

	"gmc/mc"
)

var ErrReset = &net.OpError{Op: "read", Net: "tcp", Err: errors.New("connection reset by peer")}
var ErrPipe = &net.OpError{Op: "write", Net: "tcp", Err: errors.New("broken pipe")}

func errClosed(op string) error { return &net.OpError{Op: op, Net: "tcp", Err: net.ErrClosed} }

// dir is one direction of a connection.
type dir struct {
	vis    mc.VisOp
	buf    []byte
	eof    bool  // writer closed
	rerr   error // error for the reader once buf is drained
	werr   error // error for the writer
	total  int   // bytes accepted so far
	writes int
	chunks []int // sizes of successful writes
	// faults
	CutAt    int // > 0: after this many bytes the direction breaks (reset for the reader)
	cutEOF   bool
	WriteErr int // > 0: the n-th write fails
	halfAt   int // > 0: the direction is shut down after this many writes
	Cap      int // > 0: buffer capacity (writer blocks)
	MaxRead  int // > 0: at most this many bytes per read
	log      []byte
	stall    bool          // bytes are swallowed
	frozen   bool          // bytes are kept from the reader
	pace     time.Duration // > 0: from one read to the next
	nextAt   int64
}

// Conn is one side of an in-memory connection.
type Conn struct {
	in, out    *dir
	local      addr
	remote     addr
	closed     bool
	peer       *Conn
	rdl, wdl   int64
	Closes     int
	CutOnClose bool
}

type addr string

func (a addr) Network() string { return "tcp" }
func (a addr) String() string  { return string(a) }

// Pair makes a connected pair.
func Pair() (*Conn, *Conn) {
	n := mc.ExecLocal("vnet.seq", func() any { return new(int) }).(*int)
	*n++
	return pair(addr(fmt.Sprintf("10.0.0.1:%d", 1000+*n)), addr("10.0.0.2:80"))
}

func pair(la, ra addr) (*Conn, *Conn) {
	x, y := &dir{}, &dir{}
	a := &Conn{in: x, out: y, local: la, remote: ra}
	b := &Conn{in: y, out: x, local: ra, remote: la}
	a.peer, b.peer = b, a
	return a, b
}

func (c *Conn) Read(b []byte) (int, error) {
	d := c.in
	if len(b) == 0 {
		return 0, nil
	}
	d.vis.DoWhen(func() bool {
		return len(d.buf) > 0 && !d.frozen && now() >= d.nextAt || d.eof || d.rerr != nil || c.closed || c.rdl != 0 && now() >= c.rdl
	}, "conn read")
	if c.closed {
		return 0, errClosed("read")
	}
	if c.rdl != 0 && now() >= c.rdl {
		return 0, os.ErrDeadlineExceeded
	}
	if len(d.buf) == 0 {
		if d.rerr != nil {
			return 0, d.rerr
		}
		return 0, io.EOF
	}
	n := len(b)
	if d.MaxRead > 0 && n > d.MaxRead {
		n = d.MaxRead
	}
	n = copy(b[:n], d.buf)
	d.buf = d.buf[n:]
	if d.pace > 0 {
		d.nextAt = now() + int64(d.pace)
		mc.AddClock(int64(d.pace), func() {})
	}
	return n, nil
}

func now() int64 { return mc.NowRaw() }

func (c *Conn) Write(b []byte) (int, error) {
	d := c.out
	if d.Cap > 0 {
		d.vis.DoWhen(func() bool {
			return len(d.buf) < d.Cap || d.werr != nil || c.closed || d.eof || c.wdl != 0 && now() >= c.wdl
		}, "conn write")
	} else {
		d.vis.Do("conn write")
	}
	if c.closed {
		return 0, errClosed("write")
	}
	d.writes++
	if d.werr != nil {
		return 0, d.werr
	}
	if c.wdl != 0 && now() >= c.wdl {
		return 0, os.ErrDeadlineExceeded
	}
	if d.WriteErr > 0 && d.writes >= d.WriteErr {
		d.werr = ErrPipe
		return 0, ErrPipe
	}
	if d.eof {
		return 0, ErrPipe
	}
	n := len(b)
	if d.CutAt > 0 && d.total+n >= d.CutAt {
		k := d.CutAt - d.total
		if k < 0 {
			k = 0
		}
		d.buf = append(d.buf, b[:k]...)
		d.log = append(d.log, b[:k]...)
		d.total += n
		// the connection breaks: both directions die
		c.breakBoth(d.cutEOF)
		return n, nil
	}
	d.total += n
	d.chunks = append(d.chunks, n)
	if !d.stall {
		d.buf = append(d.buf, b...)
		d.log = append(d.log, b...)
	}
	if d.halfAt > 0 && d.writes >= d.halfAt {
		d.eof = true
	}
	return n, nil
}

func (c *Conn) breakBoth(eof bool) {
	for _, d := range []*dir{c.in, c.out} {
		d.vis.Touch()
		if eof {
			d.eof = true
		} else if d.rerr == nil {
			d.rerr = ErrReset
		}
		d.werr = ErrPipe
	}
}

// Kill breaks the connection (reset, or clean EOF) in both directions, as one
// visible operation.
func (c *Conn) Kill(eof bool) {
	c.in.vis.Do("conn kill")
	c.breakBoth(eof)
}

// Stall makes the peer's bytes disappear: the connection stays open but
// nothing written on c arrives any more.
func (c *Conn) Stall() {
	c.out.vis.Do("conn stall")
	c.out.stall = true
}

// Freeze keeps arriving bytes from c's reader (the peer blocks once the buffer
// is full) until it is called with false.
func (c *Conn) Freeze(on bool) {
	c.in.vis.Do("conn freeze")
	c.in.frozen = on
}

func (c *Conn) CutWriteAt(n int, eof bool) { c.out.CutAt = n; c.out.cutEOF = eof }
func (c *Conn) FailWrite(n int)            { c.out.WriteErr = n }
func (c *Conn) HalfCloseAfter(n int)       { c.out.halfAt = n }
func (c *Conn) SetMaxRead(n int)           { c.in.MaxRead = n }

// SetPace makes a slow link: c reads at most n bytes every d.
func (c *Conn) SetPace(n int, d time.Duration) { c.in.MaxRead, c.in.pace = n, d }
func (c *Conn) SetCap(n int)                   { c.out.Cap = n }
func (c *Conn) Written() int                   { return c.out.total }
func (c *Conn) WriteSizes() []int              { return c.out.chunks }
func (c *Conn) Log() []byte                    { return c.out.log }
func (c *Conn) IsClosed() bool                 { return c.closed }

// CloseWrite half-closes.
func (c *Conn) CloseWrite() error {
	c.out.vis.Do("conn closewrite")
	c.out.eof = true
	return nil
}

func (c *Conn) Close() error {
	if mc.Aborting() {
		return nil
	}
	c.in.vis.Do("conn close")
	c.Closes++
	if c.closed {
		return errClosed("close")
	}
	c.closed = true
	c.out.vis.Touch()
	c.out.eof = true
	c.in.werr = ErrPipe
	return nil
}

func (c *Conn) LocalAddr() net.Addr  { return c.local }
func (c *Conn) RemoteAddr() net.Addr { return c.remote }
func (c *Conn) SetDeadline(t time.Time) error {
	c.SetReadDeadline(t)
	return c.SetWriteDeadline(t)
}
func (c *Conn) SetReadDeadline(t time.Time) error {
	c.in.vis.Do("conn setreaddeadline")
	c.rdl = arm(t)
	return nil
}
func (c *Conn) SetWriteDeadline(t time.Time) error {
	c.out.vis.Do("conn setwritedeadline")
	c.wdl = arm(t)
	return nil
}

func arm(t time.Time) int64 {
	if t.IsZero() {
		return 0
	}
	n := t.UnixNano()
	if d := n - now(); d > 0 {
		mc.AddClock(d, func() {})
	}
	return n
}

// ---------------------------------------------------------------- listeners

type network struct {
	vis mc.VisOp
	ls  map[string]*listener
}

type listener struct {
	vis    mc.VisOp
	addr   string
	queue  []*Conn
	closed bool
	n      int
}

func nw() *network {
	return mc.ExecLocal("vnet", func() any { return &network{ls: map[string]*listener{}} }).(*network)
}

func Listen(_, address string) (net.Listener, error) {
	n := nw()
	n.vis.Do("listen")
	if l := n.ls[address]; l != nil && !l.closed {
		return nil, fmt.Errorf("listen tcp %s: bind: address already in use", address)
	}
	l := &listener{addr: address}
	n.ls[address] = l
	return l, nil
}

func Dial(_, address string) (net.Conn, error) {
	n := nw()
	n.vis.Do("dial")
	l := n.ls[address]
	if l == nil || l.closed {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: errors.New("connection refused")}
	}
	l.vis.Touch()
	l.n++
	a, b := pair(addr(fmt.Sprintf("10.0.0.1:%d", 2000+l.n)), addr(address))
	l.queue = append(l.queue, b)
	return a, nil
}

func (l *listener) Accept() (net.Conn, error) {
	l.vis.DoWhen(func() bool { return l.closed || len(l.queue) > 0 }, "listener accept")
	if l.closed {
		return nil, errClosed("accept")
	}
	c := l.queue[0]
	l.queue = l.queue[1:]
	return c, nil
}

func (l *listener) Close() error {
	if mc.Aborting() {
		return nil
	}
	l.vis.Do("listener close")
	if l.closed {
		return errClosed("close")
	}
	l.closed = true
	for _, c := range l.queue {
		c.out.vis.Touch()
		c.breakBoth(false)
	}
	return nil
}

func (l *listener) Addr() net.Addr { return addr(l.addr) }

// ---------------------------------------------------------------- io.Pipe

type IOReader struct{ p *ioPipe }
type IOWriter struct{ p *ioPipe }
type ioPipe struct {
	vis        mc.VisOp
	buf        []byte
	rerr, werr error
}

func IOPipe() (*IOReader, *IOWriter) {
	p := &ioPipe{}
	return &IOReader{p}, &IOWriter{p}
}
func (r *IOReader) Read(b []byte) (int, error) {
	p := r.p
	p.vis.DoWhen(func() bool { return len(p.buf) > 0 || p.werr != nil || p.rerr != nil }, "pipe read")
	if p.rerr != nil {
		return 0, io.ErrClosedPipe
	}
	if len(p.buf) == 0 {
		return 0, p.werr
	}
	n := copy(b, p.buf)
	p.buf = p.buf[n:]
	return n, nil
}
func (r *IOReader) Close() error { return r.CloseWithError(nil) }
func (r *IOReader) CloseWithError(err error) error {
	if err == nil {
		err = io.ErrClosedPipe
	}
	r.p.vis.Do("pipe close")
	r.p.rerr = err
	return nil
}
func (w *IOWriter) Write(b []byte) (int, error) {
	p := w.p
	p.vis.Do("pipe write")
	if p.werr != nil {
		return 0, io.ErrClosedPipe
	}
	if p.rerr != nil {
		return 0, p.rerr
	}
	p.buf = append(p.buf, b...)
	p.vis.DoWhen(func() bool { return len(p.buf) == 0 || p.rerr != nil || p.werr != nil }, "pipe write wait")
	if len(p.buf) != 0 && p.rerr != nil {
		return 0, p.rerr
	}
	return len(b), nil
}
func (w *IOWriter) Close() error { return w.CloseWithError(nil) }
func (w *IOWriter) CloseWithError(err error) error {
	if err == nil {
		err = io.EOF
	}
	w.p.vis.Do("pipe close")
	w.p.werr = err
	return nil
}
