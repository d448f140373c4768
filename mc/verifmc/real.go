//go:build go1.23

package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"syscall"
	"time"

	"github.com/IfanTsai/metis/config"
)

// The unmodified server, built from the repository and run as a process of its own on loopback addresses
// with its files in a scratch directory. It validates what the closed world assumes about the outside
// and covers the glue around the server (main, flags, configuration, signals).

var curOpts *runOpts

func realBin() string { return filepath.Join(curOpts.build, "metis-real") }

func buildReal(o *runOpts) error {
	cmd := exec.Command("go", "build", "-o", filepath.Join(o.build, "metis-real"), ".")
	cmd.Dir = o.repo
	out, err := cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("building the server: %v\n%s", err, out)
	}
	// the configuration loader alone, as a program laid over the repository
	ov, _ := json.Marshal(map[string]any{"Replace": map[string]string{
		filepath.Join(o.repo, "verif_loadcfg", "main.go"): filepath.Join(o.verif, "mc", "loadcfg", "main.go.txt")}})
	ovf := filepath.Join(o.build, "overlay.json")
	if err := os.WriteFile(ovf, ov, 0o644); err != nil {
		return err
	}
	cmd = exec.Command("go", "build", "-overlay", ovf, "-o", filepath.Join(o.build, "loadcfg"), "./verif_loadcfg")
	cmd.Dir = o.repo
	out, err = cmd.CombinedOutput()
	if err != nil {
		return fmt.Errorf("building the configuration loader: %v\n%s", err, out)
	}
	return nil
}

// loadConfig reads a configuration file as the server does.
func loadConfig(c *Ctx, path string) config.Config {
	out, err := exec.Command(filepath.Join(curOpts.build, "loadcfg"), path).CombinedOutput()
	if err != nil {
		c.Fail("the configuration file is refused: %v %s", err, tail(out, 300))
	}
	var cfg config.Config
	if err := json.Unmarshal(out, &cfg); err != nil {
		panic("verifmc: " + err.Error())
	}
	return cfg
}

type Real struct {
	c      *Ctx
	dir    string
	cmd    *exec.Cmd
	addr   string
	exited chan struct{}
	err    error
	log    *os.File
}

var realPortSeq int

// scratch makes a new directory for a real server's files.
func (c *Ctx) scratch() string {
	d, err := os.MkdirTemp(curOpts.build, "real")
	if err != nil {
		panic("verifmc: " + err.Error())
	}
	return d
}

// realPortLocks are the reservations of this process, the latest one last.
var realPortLocks []net.Listener

// freePort finds a port below the ephemeral range that nobody uses, and reserves it among all workers of all
// checks: an abstract socket of the port's name is held for a while (an execution uses a few ports only), so that
// no two workers see the same port free before a server listens on it, or while it is restarted.
func freePort() int {
	for i := 0; i < 5000; i++ {
		realPortSeq++
		p := 12000 + (os.Getpid()*1009+realPortSeq)%18000
		lock, err := net.Listen("unix", "@metis-verif-port-"+strconv.Itoa(p))
		if err != nil {
			continue
		}
		l, err := net.Listen("tcp4", "0.0.0.0:"+strconv.Itoa(p))
		if err != nil {
			lock.Close()
			continue
		}
		l.Close()
		realPortLocks = append(realPortLocks, lock)
		if len(realPortLocks) > 64 {
			realPortLocks[0].Close()
			realPortLocks = realPortLocks[1:]
		}
		return p
	}
	panic("verifmc: no free port")
}

// startReal runs the server in dir with the given arguments.
func startReal(c *Ctx, dir string, args ...string) *Real {
	r := &Real{c: c, dir: dir, exited: make(chan struct{})}
	r.cmd = exec.Command(realBin(), args...)
	r.cmd.Dir = dir
	r.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	var err error
	r.log, err = os.Create(filepath.Join(dir, "..", filepath.Base(dir)+".out"))
	if err != nil {
		panic("verifmc: " + err.Error())
	}
	r.cmd.Stdout, r.cmd.Stderr = r.log, r.log
	if err := r.cmd.Start(); err != nil {
		panic("verifmc: " + err.Error())
	}
	go func() { r.err = r.cmd.Wait(); close(r.exited) }()
	return r
}

func (r *Real) output() string {
	b, _ := os.ReadFile(r.log.Name())
	return string(tail(b, 600))
}

func (r *Real) dead() bool {
	select {
	case <-r.exited:
		return true
	default:
		return false
	}
}

func (r *Real) kill() {
	_ = r.cmd.Process.Kill()
	<-r.exited
	r.log.Close()
	os.Remove(r.log.Name())
}

// waitExit waits for the process to end by itself.
func (r *Real) waitExit(d time.Duration) bool {
	select {
	case <-r.exited:
		return true
	case <-time.After(d):
		return false
	}
}

// dialReal connects to addr; wait: retries while the server starts.
func (r *Real) dial(addr string, wait bool) *RCli {
	for i := 0; i < 1500; i++ {
		k, err := net.DialTimeout("tcp4", addr, 10*time.Second)
		if err == nil {
			return &RCli{r: r, conn: k, br: bufio.NewReaderSize(quick{k}, 1<<16)}
		}
		if !wait {
			return nil
		}
		if r.dead() {
			r.c.Fail("the server ends at start: %v: %s", r.err, r.output())
		}
		time.Sleep(10 * time.Millisecond)
	}
	r.c.Fail("the server does not listen on %s: %s", addr, r.output())
	return nil
}

// quick acknowledges what it reads at once: the server leaves Nagle's algorithm on, and the replies that
// it writes in parts would come 40 ms apart.
type quick struct{ net.Conn }

func (q quick) Read(b []byte) (int, error) {
	if t, ok := q.Conn.(*net.TCPConn); ok {
		if rc, err := t.SyscallConn(); err == nil {
			_ = rc.Control(func(fd uintptr) {
				_ = syscall.SetsockoptInt(int(fd), syscall.IPPROTO_TCP, syscall.TCP_QUICKACK, 1)
			})
		}
	}
	return q.Conn.Read(b)
}

type RCli struct {
	r    *Real
	conn net.Conn
	br   *bufio.Reader
	st   ConnState
}

func (k *RCli) close() { k.conn.Close() }

func (k *RCli) read() (Reply, error) {
	line, err := k.br.ReadString('\n')
	if err != nil {
		return Reply{}, err
	}
	if len(line) < 3 || line[len(line)-2] != '\r' {
		return Reply{}, fmt.Errorf("malformed reply line %q", line)
	}
	s := line[1 : len(line)-2]
	switch line[0] {
	case '+', '-':
		return Reply{T: line[0], S: s}, nil
	case ':':
		n, err := strconv.ParseInt(s, 10, 64)
		return Reply{T: ':', N: n}, err
	case '$':
		n, err := strconv.Atoi(s)
		if err != nil || n < 0 {
			return Reply{T: '$', Nil: true}, err
		}
		b := make([]byte, n+2)
		if _, err := io.ReadFull(k.br, b); err != nil {
			return Reply{}, err
		}
		return Reply{T: '$', S: string(b[:n])}, nil
	case '*':
		n, err := strconv.Atoi(s)
		if err != nil || n < 0 {
			return Reply{T: '*', Nil: true}, err
		}
		r := Reply{T: '*'}
		for i := 0; i < n; i++ {
			x, err := k.read()
			if err != nil {
				return Reply{}, err
			}
			r.A = append(r.A, x)
		}
		return r, nil
	}
	return Reply{}, fmt.Errorf("malformed reply line %q", line)
}

// try sends a request; an error means the connection is gone.
func (k *RCli) try(args ...string) (Reply, error) {
	k.r.c.Step()
	k.r.c.alive()
	_ = k.conn.SetDeadline(time.Now().Add(20 * time.Second))
	if _, err := k.conn.Write(encode(args...)); err != nil {
		return Reply{}, err
	}
	return k.read()
}

func (k *RCli) raw(args ...string) Reply {
	rep, err := k.try(args...)
	if err != nil {
		k.r.c.Fail("real server: %s: %v (ended: %v) %s", showArgs(args), err, k.r.dead(), k.r.output())
	}
	return rep
}

func (k *RCli) do(m *Model, args ...string) Reply {
	r := k.raw(args...)
	k.r.c.Logf("real> %s -> %s", showArgs(args), r)
	if err := m.exec(&k.st, args, r, time.Now().UnixMilli()); err != nil {
		k.r.c.Fail("real server> %s: %v", showArgs(args), err)
	}
	return r
}

func writeFile(path, text string) {
	if err := os.WriteFile(path, []byte(text), 0o644); err != nil {
		panic("verifmc: " + err.Error())
	}
}

// realConfig is a configuration file in TOML.
func realConfig(host string, port int, more ...string) string {
	return fmt.Sprintf("bind = %q\nport = %d\n", host, port) + strings.Join(more, "\n") + "\n"
}
