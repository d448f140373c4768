//go:build go1.23

package main

import (
	"fmt"
	"net"
	"os"
	"strconv"
	"syscall"
	"time"

	"github.com/IfanTsai/metis/config"
	"github.com/IfanTsai/metis/server"
	rt "github.com/IfanTsai/metis/verifvrt"
)

func ip4(s string) [4]byte { return [4]byte(net.ParseIP(s).To4()) }

func init() {
	hosts := []string{"127.0.0.1", "127.0.0.2", "0.0.0.0", "10.0.0.1", "127.255.255.254"}
	ports := []int{1, 80, 6379, 6380, 6381, 32768, 65535}
	invalid := []string{"", "::1", "256.1.1.1", "abc", "1.2.3", "192.0.2.1", "127.0.0.1:1", " 127.0.0.1", "127.0.0.1 "}
	dials := []string{"127.0.0.1", "127.0.0.2", "127.0.0.3", "10.0.0.1", "127.255.255.254"}

	// attempt creates the listening socket and reports the outcome.
	attempt := func(c *Ctx, w *rt.World, host string, port int) (fd int, err error) {
		t := w.Spawn("create", func() {
			f, e := server.CreateTCPServer(host, uint16(port))
			fd, err = int(f), e
		})
		for !t.Done {
			w.Step(t)
		}
		if d := w.Dead(); d != nil {
			c.Fail("creating the listening socket panics: %v", d.Panic)
		}
		if len(w.Anomalies) > 0 {
			c.Fail("misuse of descriptors: %s", w.Anomalies[0])
		}
		return
	}
	only := func(c *Ctx, w *rt.World, host string, port int) {
		ls := w.Net.Listeners()
		a := ip4(host)
		if len(ls) != 1 || ls[0] != [5]int{int(a[0]), int(a[1]), int(a[2]), int(a[3]), port} {
			c.Fail("configured for %s:%d, the server listens on %v", host, port, ls)
		}
	}
	register(&Check{ID: "C29", Real: true, Explanation: "The real server starts in the simulated world for every combination of bind addresses and ports and is dialled at every combination of addresses and ports; every invalid or unavailable address and every failing step of the socket setup is checked for an error and for leaked descriptors, also in sequences. The unmodified binary does the same on the real loopback network.",
		Assumptions: []string{"IPv4 only"},
		Phases: []Phase{
			{Name: "addresses", Shard: 2, Run: func(c *Ctx) {
				host, port := hosts[c.Choose(len(hosts), "host")], ports[c.Choose(len(ports), "port")]
				cfg := baseConfig()
				cfg.Host, cfg.Port = host, uint16(port)
				s := boot(c, nil, cfg, 0)
				defer s.end()
				only(c, s.w, host, port)
				d := dials[c.Choose(len(dials), "dialled address")]
				p := ports[c.Choose(len(ports), "dialled port")]
				for i := 0; i < 3; i++ {
					k := s.w.Dial(ip4(d), p)
					want := p == port && (d == host || host == "0.0.0.0")
					if (k != nil) != want {
						c.Fail("configured for %s:%d, a connection to %s:%d is accepted: %v", host, port, d, p, k != nil)
					}
					if k != nil {
						k.Send(encode("ping"))
						s.settle()
						if string(k.Out) != "+PONG\r\n" {
							c.Fail("no answer on %s:%d: %q", d, p, k.Out)
						}
					}
					s.tick(150)
					only(c, s.w, host, port)
				}
				c.Sample(fmt.Sprintf("bound to %s:%d, dialled at %s:%d", host, port, d, p))
			}},
			{Name: "invalid", Shard: 2, Run: func(c *Ctx) {
				host, port := invalid[c.Choose(len(invalid), "host")], ports[c.Choose(len(ports), "port")]
				if c.Choose(2, "whole server") == 0 {
					w := rt.NewWorld(nil, 0)
					defer w.Kill()
					_, err := attempt(c, w, host, port)
					c.Check(err != nil, "address %q is accepted, listening on %v", host, w.Net.Listeners())
					if o := w.Net.OpenFDs(); len(o) > 0 {
						c.Fail("refusing address %q leaks a descriptor: %v", host, o)
					}
					// a valid address afterwards
					_, err = attempt(c, w, "127.0.0.1", port)
					c.Check(err == nil, "after a refused address a valid one is refused: %v", err)
					only(c, w, "127.0.0.1", port)
					return
				}
				cfg := baseConfig()
				cfg.Host, cfg.Port = host, uint16(port)
				failsToStart(c, cfg, nil, fmt.Sprintf("address %q", host))
			}},
			{Name: "in-use", Shard: 2, Run: func(c *Ctx) {
				first, second := hosts[c.Choose(len(hosts), "first")], hosts[c.Choose(len(hosts), "second")]
				port := ports[c.Choose(len(ports), "port")]
				p2 := ports[c.Choose(len(ports), "second port")]
				w := rt.NewWorld(nil, 0)
				defer w.Kill()
				_, err := attempt(c, w, first, port)
				c.Check(err == nil, "%s:%d: %v", first, port, err)
				_, err = attempt(c, w, second, p2)
				clash := port == p2 && (first == second || first == "0.0.0.0" || second == "0.0.0.0")
				c.Check((err != nil) == clash, "%s:%d is in use, %s:%d answers %v", first, port, second, p2, err)
				n := 2
				if clash {
					n = 1
				}
				if o := w.Net.OpenFDs(); o[rt.FDListen] != n || o[rt.FDSock] != 0 {
					c.Fail("%s:%d is in use, after %s:%d the descriptors are %v", first, port, second, p2, o)
				}
			}},
			{Name: "failing-setup", Shard: 2, Run: func(c *Ctx) {
				ops := []string{"socket", "setsockopt", "bind", "listen"}
				errs := []syscall.Errno{syscall.EMFILE, syscall.EADDRINUSE, syscall.EACCES, syscall.EADDRNOTAVAIL, syscall.ENOBUFS, syscall.EINVAL}
				op, e := ops[c.Choose(len(ops), "step")], errs[c.Choose(len(errs), "error")]
				host, port := hosts[c.Choose(len(hosts), "host")], ports[c.Choose(len(ports), "port")]
				fail := func(o string, fd int) syscall.Errno {
					if o == op {
						return e
					}
					return 0
				}
				if c.Choose(2, "whole server") == 0 {
					w := rt.NewWorld(nil, 0)
					defer w.Kill()
					n := 1 + c.Choose(3, "attempts")
					w.Net.Fail = fail
					for i := 0; i < n; i++ {
						_, err := attempt(c, w, host, port)
						if op == "setsockopt" && err == nil {
							only(c, w, host, port)
							return
						}
						c.Check(err != nil, "%s fails with %v, which is not reported", op, e)
						if o := w.Net.OpenFDs(); len(o) > 0 {
							c.Fail("%s fails with %v and leaks a descriptor: %v", op, e, o)
						}
					}
					w.Net.Fail = nil
					_, err := attempt(c, w, host, port)
					c.Check(err == nil, "after %d failures creation fails: %v", n, err)
					only(c, w, host, port)
					return
				}
				cfg := baseConfig()
				cfg.Host, cfg.Port = host, uint16(port)
				if op != "setsockopt" {
					failsToStart(c, cfg, fail, op)
				}
			}},
			{Name: "real", Shard: 3, Run: func(c *Ctx) {
				host := []string{"127.0.0.1", "127.0.0.2", "0.0.0.0"}[c.Choose(3, "host")]
				port := freePort()
				dir := c.scratch()
				defer os.RemoveAll(dir)
				bad := c.Choose(4, "address")
				text := realConfig(host, port)
				switch bad {
				case 1:
					text = realConfig([]string{"", "::1", "256.1.1.1"}[c.Choose(3, "invalid host")], port)
				case 2:
					text = realConfig("192.0.2.1", port)
				case 3:
					l, err := net.Listen("tcp4", net.JoinHostPort(host, strconv.Itoa(port)))
					if err != nil {
						panic("verifmc: " + err.Error())
					}
					defer l.Close()
				}
				writeFile(dir+"/c.toml", text)
				r := startReal(c, dir, "-c", "c.toml")
				defer r.kill()
				if bad != 0 {
					if !r.waitExit(30 * time.Second) {
						c.Fail("the server keeps running although it cannot listen as configured:\n%s", text)
					}
					c.Check(r.cmd.ProcessState.ExitCode() != 0, "the server ends with status 0 although it cannot listen as configured:\n%s", text)
					return
				}
				up := host
				if host == "0.0.0.0" {
					up = "127.0.0.9"
				}
				ps := strconv.Itoa(port)
				r.dial(net.JoinHostPort(up, ps), true).close()
				for _, d := range []string{"127.0.0.1", "127.0.0.2", "127.0.0.3"} {
					k := r.dial(net.JoinHostPort(d, ps), false)
					want := d == host || host == "0.0.0.0"
					if (k != nil) != want {
						c.Fail("configured for %s:%d, the process accepts a connection to %s:%d: %v", host, port, d, port, k != nil)
					}
					if k != nil {
						if rep := k.raw("ping"); rep.S != "PONG" {
							c.Fail("PING answers %s", rep)
						}
						k.close()
					}
				}
			}},
		}})
}

// failsToStart starts a server that cannot listen and checks that this is reported and leaves nothing open.
func failsToStart(c *Ctx, cfg config.Config, fail func(string, int) syscall.Errno, what string) {
	w := rt.NewWorld(nil, 0)
	defer w.Kill()
	var err error
	returned := false
	t := w.Spawn("server", func() {
		w.Net.Fail = fail
		s := server.NewServer(&cfg)
		err = s.Run()
		returned = true
	})
	for i := 0; i < 1000 && !t.Done && !t.AtEpoll(); i++ {
		w.Step(t)
	}
	if t.AtEpoll() {
		c.Fail("%s: the server runs nevertheless, listening on %v", what, w.Net.Listeners())
	}
	if returned {
		c.Check(err != nil, "%s: the server ends without an error", what)
		o := w.Net.OpenFDs()
		if o[rt.FDSock]+o[rt.FDListen]+o[rt.FDEpoll] > 0 {
			c.Fail("%s: descriptors are leaked: %v", what, o)
		}
		return
	}
	c.Check(t.Panic != nil, "%s: the server neither runs nor ends", what)
}
