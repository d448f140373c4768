package verifvrt

import (
	"sort"
	"syscall"
)

type FDKind uint8

const (
	FDSock FDKind = iota // socket, not yet listening or connected
	FDListen
	FDConn
	FDEpoll
	FDFile
)

type FDObj struct {
	Kind    FDKind
	Conn    *Conn
	File    *Os_File
	Backlog []*Conn
	Addr    [4]byte
	Port    int
	Bound   bool
	NonBlk  bool
	Opts    map[[2]int]int
	epoll   map[int]*interest
}

type interest struct {
	fd     int
	events uint32
	seq    int
	quiet  bool   // edge-triggered, and reported since the last edge; or one-shot, and spent
	seen   [4]int // what there was when it was reported
}

const (
	epollET      = 1 << 31
	epollOneShot = 1 << 30
)

// edges counts what makes an edge-triggered interest fire again.
func (n *NetState) edges(fd int) (r [4]int) {
	o := n.fds[fd]
	if o == nil {
		return
	}
	r[0] = len(o.Backlog)
	if c := o.Conn; c != nil {
		r[1] = c.taken + len(c.In)
		r[2] = c.blocked
		if c.EOF {
			r[3] |= 1
		}
		if c.Reset {
			r[3] |= 2
		}
	}
	return
}

// fires reports whether the interest is to be reported when its descriptor is ready.
func (n *NetState) fires(i *interest) bool {
	if !i.quiet {
		return true
	}
	if i.events&epollOneShot != 0 {
		return false
	}
	e := n.edges(i.fd)
	return e[0] > i.seen[0] || e[1] != i.seen[1] || e[2] != i.seen[2] || e[3] != i.seen[3]
}

// Conn is one TCP connection, seen from both ends.
type Conn struct {
	ID       int
	FD       int // server side descriptor, -1 when not accepted or closed
	In       []byte
	Out      []byte
	EOF      bool // peer shut down or closed
	Closed   bool // peer closed completely
	Reset    bool
	rstRead  bool
	SrvClose bool // server closed its side
	Accepted bool
	Blackout int // bytes written by the server after the peer closed

	// ReadMax, if set, limits each read; WriteFn, if set, decides each write (bytes taken or errno).
	ReadMax func(avail int) int
	WriteFn func(n int) (int, syscall.Errno)
	// OutFull makes the socket not writable (poll does not report EPOLLOUT, writes would block).
	OutFull bool
	OnRead  func() // called at each read by the server
	Reads   int
	Writes  int
	taken   int // bytes read by the server
	blocked int // writes that found no room for everything
}

type NetState struct {
	fds     map[int]*FDObj
	Conns   []*Conn
	seq     int
	maxFD   int
	Fail    func(op string, fd int) syscall.Errno // optional fault injection on socket calls
	Reorder func(evs []syscall.EpollEvent) []syscall.EpollEvent
	// Reported is told what a poll has returned
	Reported func(evs []syscall.EpollEvent)
	// Advance, if >= 0, replaces the time an idle epoll wait takes (ms)
	Advance  int64
	Waits    int
	Timeouts []int
	NextPort int
}

func (n *NetState) init() {
	n.fds = map[int]*FDObj{}
	n.Advance = -1
	n.NextPort = 40000
}

func (n *NetState) alloc(o *FDObj) int {
	fd := 3
	for n.fds[fd] != nil {
		fd++
	}
	n.fds[fd] = o
	if fd > n.maxFD {
		n.maxFD = fd
	}
	return fd
}

func (n *NetState) release(fd int) {
	delete(n.fds, fd)
	for _, o := range n.fds {
		if o.Kind == FDEpoll {
			delete(o.epoll, fd)
		}
	}
}

// OpenFDs lists open descriptors by kind.
func (n *NetState) OpenFDs() map[FDKind]int {
	r := map[FDKind]int{}
	for _, o := range n.fds {
		r[o.Kind]++
	}
	return r
}

// Interest returns the poller's interest set (fd -> events) over all pollers.
func (n *NetState) Interest() map[int]uint32 {
	r := map[int]uint32{}
	for _, o := range n.fds {
		if o.Kind == FDEpoll {
			for fd, i := range o.epoll {
				r[fd] |= i.events
			}
		}
	}
	return r
}

func (n *NetState) fail(op string, fd int) error {
	if n.Fail != nil && !W.killing {
		if e := n.Fail(op, fd); e != 0 {
			return e
		}
	}
	return nil
}

func bad(op string, fd int) error {
	W.Anomaly("%s on descriptor %d which is not open", op, fd)
	return syscall.EBADF
}

func Syscall_Socket(domain, typ, proto int) (int, error) {
	n := &W.Net
	if err := n.fail("socket", -1); err != nil {
		return -1, err
	}
	return n.alloc(&FDObj{Kind: FDSock, Opts: map[[2]int]int{}, NonBlk: typ&syscall.SOCK_NONBLOCK != 0}), nil
}

func Syscall_SetsockoptInt(fd, level, opt, value int) error {
	o := W.Net.fds[fd]
	if o == nil {
		return bad("setsockopt", fd)
	}
	if err := W.Net.fail("setsockopt", fd); err != nil {
		return err
	}
	if o.Opts != nil {
		o.Opts[[2]int{level, opt}] = value
	}
	return nil
}

func Syscall_Bind(fd int, sa syscall.Sockaddr) error {
	n := &W.Net
	o := n.fds[fd]
	if o == nil {
		return bad("bind", fd)
	}
	if err := n.fail("bind", fd); err != nil {
		return err
	}
	a, ok := sa.(*syscall.SockaddrInet4)
	if !ok {
		return syscall.EAFNOSUPPORT
	}
	if a.Addr[0] != 127 && a.Addr != [4]byte{} && a.Addr != [4]byte{10, 0, 0, 1} {
		return syscall.EADDRNOTAVAIL
	}
	for _, x := range n.fds {
		if x != o && x.Bound && x.Port == a.Port && a.Port != 0 && (x.Addr == a.Addr || x.Addr == [4]byte{} || a.Addr == [4]byte{}) {
			return syscall.EADDRINUSE
		}
	}
	o.Addr, o.Port, o.Bound = a.Addr, a.Port, true
	if o.Port == 0 {
		n.NextPort++
		o.Port = n.NextPort
	}
	return nil
}

func Syscall_Listen(fd, backlog int) error {
	o := W.Net.fds[fd]
	if o == nil {
		return bad("listen", fd)
	}
	if err := W.Net.fail("listen", fd); err != nil {
		return err
	}
	o.Kind = FDListen
	if !o.Bound {
		W.Net.NextPort++
		o.Port, o.Bound = W.Net.NextPort, true
	}
	return nil
}

func Syscall_Connect(fd int, sa syscall.Sockaddr) error {
	o := W.Net.fds[fd]
	if o == nil {
		return bad("connect", fd)
	}
	a, ok := sa.(*syscall.SockaddrInet4)
	if !ok {
		return syscall.EAFNOSUPPORT
	}
	o.Addr, o.Port = a.Addr, a.Port
	return W.Net.fail("connect", fd)
}

// Listeners returns the (address, port) pairs being listened on.
func (n *NetState) Listeners() [][5]int {
	var r [][5]int
	for _, o := range n.fds {
		if o.Kind == FDListen {
			r = append(r, [5]int{int(o.Addr[0]), int(o.Addr[1]), int(o.Addr[2]), int(o.Addr[3]), o.Port})
		}
	}
	return r
}

// ConnectAddr returns the address the descriptor was asked to connect to.
func (n *NetState) ConnectAddr(fd int) ([4]byte, int) { return n.fds[fd].Addr, n.fds[fd].Port }

// Dial opens a connection from outside; nil if nobody listens there.
func (w *World) Dial(addr [4]byte, port int) *Conn {
	var best *FDObj
	for _, o := range w.Net.fds {
		if o.Kind == FDListen && o.Port == port && (o.Addr == addr || o.Addr == [4]byte{}) {
			if best == nil || o.Addr == addr {
				best = o
			}
		}
	}
	if best == nil {
		return nil
	}
	c := &Conn{ID: len(w.Net.Conns), FD: -1}
	w.Net.Conns = append(w.Net.Conns, c)
	best.Backlog = append(best.Backlog, c)
	return c
}

func (c *Conn) Send(b []byte) {
	if c.SrvClose || c.EOF || c.Reset {
		return
	}
	c.In = append(c.In, b...)
}
func (c *Conn) ShutWrite() { c.EOF = true }
func (c *Conn) Close()     { c.EOF, c.Closed = true, true }
func (c *Conn) Rst()       { c.Reset, c.rstRead, c.Closed, c.EOF = true, true, true, true; c.In = nil }

func Syscall_Accept4(fd, flags int) (int, syscall.Sockaddr, error) {
	n := &W.Net
	o := n.fds[fd]
	if o == nil {
		return -1, nil, bad("accept", fd)
	}
	if err := n.fail("accept", fd); err != nil {
		return -1, nil, err
	}
	if o.Kind != FDListen {
		return -1, nil, syscall.EINVAL
	}
	if len(o.Backlog) == 0 {
		if o.NonBlk {
			return -1, nil, syscall.EAGAIN
		}
		point(Point{Kind: PSock, Label: "accept blocks", Ready: func() bool { return len(o.Backlog) > 0 }})
	}
	c := o.Backlog[0]
	o.Backlog = o.Backlog[1:]
	c.FD = n.alloc(&FDObj{Kind: FDConn, Conn: c, NonBlk: flags&syscall.SOCK_NONBLOCK != 0})
	c.Accepted = true
	return c.FD, &syscall.SockaddrInet4{Port: 50000 + c.ID, Addr: [4]byte{127, 0, 0, 1}}, nil
}

func Syscall_Accept(fd int) (int, syscall.Sockaddr, error) { return Syscall_Accept4(fd, 0) }

func Syscall_SetNonblock(fd int, nb bool) error {
	o := W.Net.fds[fd]
	if o == nil {
		return bad("setnonblock", fd)
	}
	if err := W.Net.fail("setnonblock", fd); err != nil {
		return err
	}
	o.NonBlk = nb
	return nil
}

func Syscall_Getsockname(fd int) (syscall.Sockaddr, error) {
	o := W.Net.fds[fd]
	if o == nil {
		return nil, bad("getsockname", fd)
	}
	return &syscall.SockaddrInet4{Port: o.Port, Addr: o.Addr}, nil
}

func Syscall_Close(fd int) error {
	n := &W.Net
	o := n.fds[fd]
	if o == nil {
		return bad("close", fd)
	}
	if o.Kind == FDFile {
		W.Anomaly("close(%d): the descriptor belongs to file %s", fd, o.File.name)
		o.File.closed = true
	}
	if o.Kind == FDConn {
		o.Conn.FD = -1
		o.Conn.SrvClose = true
	}
	if o.Kind == FDListen {
		for _, c := range o.Backlog {
			c.SrvClose = true
		}
	}
	n.release(fd)
	return nil
}

func Syscall_Read(fd int, b []byte) (int, error) {
	n := &W.Net
	o := n.fds[fd]
	if o == nil {
		return -1, bad("read", fd)
	}
	if o.Kind == FDFile {
		W.Anomaly("read(%d): the descriptor belongs to file %s", fd, o.File.name)
		return 0, nil
	}
	if o.Kind != FDConn {
		return -1, syscall.EINVAL
	}
	c := o.Conn
	if c.OnRead != nil {
		c.OnRead()
	}
	if err := n.fail("read", fd); err != nil {
		return -1, err
	}
	c.Reads++
	if c.Reset && c.rstRead {
		c.rstRead = false
		return -1, syscall.ECONNRESET
	}
	if len(c.In) == 0 {
		if c.EOF {
			return 0, nil
		}
		if o.NonBlk {
			return -1, syscall.EAGAIN
		}
		point(Point{Kind: PSock, Label: "read blocks", Ready: func() bool { return len(c.In) > 0 || c.EOF }})
	}
	m := len(c.In)
	if c.ReadMax != nil {
		if k := c.ReadMax(m); k < m {
			m = k
		}
	}
	m = copy(b, c.In[:m])
	c.In = c.In[m:]
	c.taken += m
	return m, nil
}

func Syscall_Write(fd int, b []byte) (int, error) {
	n := &W.Net
	o := n.fds[fd]
	if o == nil {
		return -1, bad("write", fd)
	}
	if o.Kind == FDFile {
		W.Anomaly("write(%d): the descriptor belongs to file %s", fd, o.File.name)
		return len(b), nil
	}
	if o.Kind != FDConn {
		return -1, syscall.EINVAL
	}
	c := o.Conn
	point(Point{Kind: PSock, Label: "send"})
	if err := n.fail("write", fd); err != nil {
		return -1, err
	}
	c.Writes++
	if c.Reset {
		return -1, syscall.EPIPE
	}
	if c.Closed {
		// the peer answers data after its close with a reset
		c.Reset, c.rstRead = true, true
		c.Blackout += len(b)
		return len(b), nil
	}
	if c.OutFull {
		c.blocked++
		return -1, syscall.EAGAIN
	}
	m := len(b)
	if c.WriteFn != nil {
		k, e := c.WriteFn(m)
		if e != 0 || k < m {
			c.blocked++
		}
		if e != 0 {
			return -1, e
		}
		m = k
	}
	if m > 0 && !W.killing {
		c.Out = append(c.Out, b[:m]...)
		W.effect(Effect{Kind: EAck, Conn: c.ID, Data: append([]byte(nil), b[:m]...)})
	}
	return m, nil
}

func Syscall_EpollCreate1(flag int) (int, error) {
	if err := W.Net.fail("epoll_create", -1); err != nil {
		return -1, err
	}
	return W.Net.alloc(&FDObj{Kind: FDEpoll, epoll: map[int]*interest{}}), nil
}

func Syscall_EpollCreate(size int) (int, error) { return Syscall_EpollCreate1(0) }

func Syscall_EpollCtl(epfd, op, fd int, ev *syscall.EpollEvent) error {
	n := &W.Net
	o := n.fds[epfd]
	if o == nil || o.Kind != FDEpoll {
		return bad("epoll_ctl", epfd)
	}
	if n.fds[fd] == nil {
		return bad("epoll_ctl target", fd)
	}
	if op == syscall.EPOLL_CTL_ADD { // the others cannot fail for lack of resources
		if err := n.fail("epoll_ctl", fd); err != nil {
			return err
		}
	}
	switch op {
	case syscall.EPOLL_CTL_ADD:
		if o.epoll[fd] != nil {
			return syscall.EEXIST
		}
		n.seq++
		o.epoll[fd] = &interest{fd: fd, events: ev.Events, seq: n.seq}
	case syscall.EPOLL_CTL_MOD:
		if o.epoll[fd] == nil {
			return syscall.ENOENT
		}
		o.epoll[fd].events, o.epoll[fd].quiet = ev.Events, false
	case syscall.EPOLL_CTL_DEL:
		if o.epoll[fd] == nil {
			return syscall.ENOENT
		}
		delete(o.epoll, fd)
	default:
		return syscall.EINVAL
	}
	return nil
}

func (n *NetState) readiness(fd int) uint32 {
	o := n.fds[fd]
	if o == nil {
		return 0
	}
	switch o.Kind {
	case FDListen:
		if len(o.Backlog) > 0 {
			return syscall.EPOLLIN
		}
	case FDConn:
		c := o.Conn
		var r uint32
		if len(c.In) > 0 || c.EOF || c.Reset {
			r |= syscall.EPOLLIN
		}
		if !c.OutFull || c.Reset {
			r |= syscall.EPOLLOUT
		}
		if c.EOF {
			r |= syscall.EPOLLRDHUP
		}
		if c.Reset {
			r |= syscall.EPOLLHUP | syscall.EPOLLERR
		}
		return r
	case FDFile:
		return syscall.EPOLLIN | syscall.EPOLLOUT
	}
	return 0
}

// Ready computes what an epoll wait on epfd would report now, in registration order.
func (n *NetState) Ready(epfd int) []syscall.EpollEvent {
	o := n.fds[epfd]
	if o == nil || o.Kind != FDEpoll {
		return nil
	}
	var ints []*interest
	for _, i := range o.epoll {
		ints = append(ints, i)
	}
	sort.Slice(ints, func(a, b int) bool { return ints[a].seq < ints[b].seq })
	var evs []syscall.EpollEvent
	for _, i := range ints {
		r := n.readiness(i.fd) & (i.events | syscall.EPOLLHUP | syscall.EPOLLERR)
		if r != 0 && n.fires(i) {
			evs = append(evs, syscall.EpollEvent{Events: r, Fd: int32(i.fd)})
		}
	}
	return evs
}

// AnyReady reports whether thread t, waiting in the poller, has something to do.
func (w *World) AnyReady(t *Thread) bool { return len(w.Net.Ready(t.Pt.EpFD)) > 0 }

func Syscall_EpollWait(epfd int, events []syscall.EpollEvent, msec int) (int, error) {
	n := &W.Net
	w := W
	if o := n.fds[epfd]; o == nil || o.Kind != FDEpoll {
		if w.killing {
			panic(killed{})
		}
		// a closed poller: give the scheduler a chance, the caller may spin on the error
		point(Point{Kind: PEpoll, Label: "epoll_wait", Timeout: msec, EpFD: epfd})
		return -1, bad("epoll_wait", epfd)
	}
	n.Waits++
	n.Timeouts = append(n.Timeouts, msec)
	point(Point{Kind: PEpoll, Label: "epoll_wait", Timeout: msec, EpFD: epfd})
	if w.killing {
		panic(killed{})
	}
	if err := n.fail("epoll_wait", epfd); err != nil {
		return -1, err
	}
	evs := n.Ready(epfd)
	if n.Reorder != nil {
		evs = n.Reorder(evs)
	}
	if len(evs) == 0 {
		if n.Advance >= 0 {
			w.NowNS += n.Advance * 1e6
		} else if msec > 0 {
			w.NowNS += int64(msec) * 1e6
		}
		return 0, nil
	}
	k := copy(events, evs)
	if n.Reported != nil {
		n.Reported(events[:k])
	}
	for _, e := range events[:k] {
		if i := n.fds[epfd].epoll[int(e.Fd)]; i.events&(epollET|epollOneShot) != 0 {
			i.quiet, i.seen = true, n.edges(i.fd)
		}
	}
	return k, nil
}

func Syscall_Fsync(fd int) error {
	o := W.Net.fds[fd]
	if o == nil || o.Kind != FDFile {
		return syscall.EBADF
	}
	return o.File.Sync()
}
func Syscall_Fdatasync(fd int) error   { return Syscall_Fsync(fd) }
func Syscall_Rename(a, b string) error { return Os_Rename(a, b) }
func Syscall_Unlink(a string) error    { return Os_Remove(a) }
func Syscall_Shutdown(fd, how int) error {
	o := W.Net.fds[fd]
	if o == nil {
		return bad("shutdown", fd)
	}
	return nil
}
