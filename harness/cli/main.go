// Package main checks the command line client as its users run it: as a
// process of its own, in a home directory that belongs to an unprivileged user.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"runtime"
	"sort"
	"strings"
	"syscall"
	"time"

	"github.com/gorilla/websocket"

	"verif/vs"
)

var bin = filepath.Join(os.Getenv("VS_PLAIN"), "neutrino")

// uid is a user that owns nothing and has no home directory of its own.
const uid = 54321

func newHome() string {
	d, err := os.MkdirTemp("", "verif-cli-")
	if err != nil {
		panic(err)
	}
	if err := os.Chown(d, uid, uid); err != nil {
		panic(err)
	}
	return d
}

// run runs a command to its end: exit code and output.
func run(home string, args ...string) (int, string) {
	c := exec.Command(bin, args...)
	c.Dir = home
	c.Env = []string{"HOME=" + home, "GOMAXPROCS=2"}
	c.SysProcAttr = &syscall.SysProcAttr{Credential: &syscall.Credential{Uid: uid, Gid: uid}, Pdeathsig: syscall.SIGKILL}
	var b bytes.Buffer
	c.Stdout, c.Stderr = &b, &b
	if err := c.Start(); err != nil {
		return -1, err.Error()
	}
	t := time.AfterFunc(30*time.Second, func() { c.Process.Kill() })
	err := c.Wait()
	t.Stop()
	if err == nil {
		return 0, b.String()
	}
	if x, ok := err.(*exec.ExitError); ok {
		return x.ExitCode(), b.String()
	}
	return -1, b.String() + err.Error()
}

type state map[string]string

func (s state) with(kv ...string) state {
	n := state{}
	for k, v := range s {
		n[k] = v
	}
	for i := 0; i+1 < len(kv); i += 2 {
		n[kv[i]] = kv[i+1]
	}
	return n
}

func (s state) lines() string {
	var l []string
	for k, v := range s {
		l = append(l, k+": "+v)
	}
	sort.Strings(l)
	return strings.Join(l, "\n")
}

// printed is what config print shows ("error ..." if it fails).
func printed(home string) string {
	c, o := run(home, "config", "print")
	if c != 0 {
		return fmt.Sprintf("error %d: %s", c, strings.TrimSpace(o))
	}
	l := strings.Split(strings.TrimSuffix(o, "\n"), "\n")
	sort.Strings(l)
	return strings.Join(l, "\n")
}

func isErr(s string) bool { return strings.HasPrefix(s, "error ") }

// op is a command with its effect on the state (nil: it must be refused).
type op struct {
	args []string
	eff  func(s state) state
}

func (o op) String() string { return fmt.Sprintf("%q", o.args) }

func set(kv ...string) func(s state) state { return func(s state) state { return s.with(kv...) } }

const defURL, defPath = "localhost:8000", "/neutrino/subscribe/ws"

func ops(thorough bool) []op {
	l := []op{
		{[]string{"config"}, set("url", defURL, "path", defPath)},
		{[]string{"config", "--url", "10.0.0.1:1"}, set("url", "10.0.0.1:1", "path", defPath)},
		{[]string{"config", "--url=example.com:99", "--path", "/x y"}, set("url", "example.com:99", "path", "/x y")},
		{[]string{"config", "set", "url", "127.0.0.1:65535"}, set("url", "127.0.0.1:65535")},
		{[]string{"config", "set", "path", "/a\"b\\c<&>é\u2028"}, set("path", "/a\"b\\c<&>é\u2028")},
		{[]string{"config", "set", "k", ""}, set("k", "")},
		{[]string{"config", "set", "url"}, nil},
		{[]string{"config", "set"}, nil},
	}
	if thorough {
		l = append(l, op{[]string{"config", "--path", ""}, set("url", defURL, "path", "")},
			op{[]string{"config", "set", "k", strings.Repeat("long", 3000)}, set("k", strings.Repeat("long", 3000))},
			op{[]string{"config", "set", "url", "u", "surplus"}, set("url", "u")})
	}
	return l
}

// enumOps: all sequences of configuration commands against a map.
func enumOps(e *vs.Enum) {
	l := ops(e.Tier == "thorough")
	depth := 3
	var seq []op
	var rec func()
	rec = func() {
		if len(seq) > 0 {
			s := append([]op{}, seq...)
			e.Case(func() string { return fmt.Sprint(s) }, func() {
				home := newHome()
				defer os.RemoveAll(home)
				st := state{}
				for i, o := range s {
					c, out := run(home, o.args...)
					if o.eff == nil {
						if c == 0 {
							e.Fail("C24", "usage", "%v is accepted: %s", o, out)
						}
					} else {
						if c != 0 {
							e.Fail("C24", "refused", "%v after %v fails with %d: %s", o, s[:i], c, out)
						}
						st = o.eff(st)
					}
				}
				want, got := st.lines(), printed(home)
				if len(st) == 0 {
					if !isErr(got) {
						e.Fail("C24", "nothing", "after %v something is configured: %s", s, got)
					}
				} else if got != want {
					e.Fail("C24", "state", "after %v the configuration is\n%s\ninstead of\n%s", s, got, want)
				}
				e.Distinct(got)
			})
		}
		if len(seq) == depth {
			return
		}
		for _, o := range l {
			seq = append(seq, o)
			rec()
			seq = seq[:len(seq)-1]
		}
	}
	rec()
}

type crashCase struct {
	name   string
	before []op
	cmd    op
}

func crashCases() []crashCase {
	o := ops(false)
	big := op{[]string{"config", "set", "k", strings.Repeat("v", 9000)}, set("k", strings.Repeat("v", 9000))}
	return []crashCase{
		{"first config", nil, o[0]},
		{"first set", nil, o[3]},
		{"config again", []op{o[1]}, o[2]},
		{"set one key", []op{o[1]}, o[3]},
		{"set a shorter value", []op{o[2], big}, op{[]string{"config", "set", "k", ""}, set("k", "")}},
		{"set a long value", []op{o[0]}, big},
		{"set a third key", []op{o[2]}, o[5]},
	}
}

func (c crashCase) prepare(e *vs.Enum) (home string, old, new state) {
	home = newHome()
	old = state{}
	for _, o := range c.before {
		if x, out := run(home, o.args...); x != 0 {
			e.Fail("C24", "refused", "%v fails with %d: %s", o, x, out)
		}
		old = o.eff(old)
	}
	return home, old, c.cmd.eff(old)
}

// after checks the configuration left behind and that it can be changed.
func after(e *vs.Enum, home, what string, allowed ...state) string {
	got := printed(home)
	var base state
	for _, a := range allowed {
		if got == a.lines() && len(a) > 0 || len(a) == 0 && isErr(got) {
			base = a
		}
	}
	if base == nil {
		e.Fail("C24", "crash", "%s: the configuration is then\n%s\nwhich is neither the old nor the new one; files %v", what, got, files(home))
	}
	if c, out := run(home, "config", "set", "afterwards", "1"); c != 0 {
		e.Fail("C24", "crash", "%s: the configuration cannot be changed afterwards: %d %s", what, c, out)
	}
	if g := printed(home); g != base.with("afterwards", "1").lines() {
		e.Fail("C24", "crash", "%s: after another change the configuration is\n%s", what, g)
	}
	return got
}

var canTrace = func() bool {
	home := newHome()
	defer os.RemoveAll(home)
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	p, err := start(bin, home, uid, "config")
	if err != nil {
		return false
	}
	n := 0
	for p.next(false) {
		n++
	}
	p.reap()
	return p.status == 0 && n > 0
}

// enumCrash: the command is killed before every file operation, in the middle
// of every write, and every file operation fails.
func enumCrash(e *vs.Enum) {
	if !canTrace() {
		return
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	for _, c := range crashCases() {
		c := c
		// how many operations are there?
		home, _, _ := c.prepare(e)
		p, err := start(bin, home, uid, c.cmd.args...)
		if err != nil {
			panic(err)
		}
		var calls []string
		var sizes []int
		for p.next(false) {
			calls = append(calls, p.at)
			sizes = append(sizes, p.size)
		}
		p.reap()
		os.RemoveAll(home)
		at := func(k int, what string, act func(p *proc), check func(p *proc, home string, old, new state)) {
			e.Case(func() string { return fmt.Sprintf("%s: %s at operation %d (%s)", c.name, what, k, calls[k]) }, func() {
				home, old, new := c.prepare(e)
				defer os.RemoveAll(home)
				p, err := start(bin, home, uid, c.cmd.args...)
				if err != nil {
					panic(err)
				}
				for i := 0; i <= k; i++ {
					if !p.next(false) {
						p.reap()
						return
					}
				}
				act(p)
				for p.next(false) {
				}
				out := p.output()
				p.reap()
				_ = out
				check(p, home, old, new)
			})
		}
		for k := range calls {
			k := k
			at(k, "killed", func(p *proc) { p.kill() }, func(p *proc, home string, old, new state) {
				g := after(e, home, fmt.Sprintf("%s, killed before operation %d (%s)", c.name, k, calls[k]), old, new)
				e.Distinct(fmt.Sprint(c.name, g))
			})
			if sizes[k] > 1 {
				var ns []int
				for n := 1; n < sizes[k]; n++ {
					if n < 200 || n > sizes[k]-20 || n%512 == 0 || e.Tier == "thorough" && n%16 == 0 {
						ns = append(ns, n)
					}
				}
				for _, n := range ns {
					n := n
					at(k, fmt.Sprintf("killed after %d bytes", n), func(p *proc) { p.tear(n) }, func(p *proc, home string, old, new state) {
						after(e, home, fmt.Sprintf("%s, killed after %d bytes of operation %d (%s)", c.name, n, k, calls[k]), old, new)
					})
				}
			}
			for _, en := range []syscall.Errno{syscall.ENOSPC, syscall.EIO, syscall.EACCES} {
				en := en
				at(k, fmt.Sprint(en), func(p *proc) { p.fail(en) }, func(p *proc, home string, old, new state) {
					what := fmt.Sprintf("%s, operation %d (%s) fails with %v", c.name, k, calls[k], en)
					if p.status == 0 {
						after(e, home, what+", the command reports success", new)
					} else {
						after(e, home, what, old, new)
					}
				})
			}
		}
	}
}

// enumTwo: two commands at the same time, every interleaving of their file
// operations.
func enumTwo(e *vs.Enum) {
	if !canTrace() {
		return
	}
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	before := op{[]string{"config", "--url", "h:1", "--path", "/p"}, set("url", "h:1", "path", "/p")}
	pairs := [][2]op{
		{{[]string{"config", "set", "a", "1"}, set("a", "1")}, {[]string{"config", "set", "b", "2"}, set("b", "2")}},
		{{[]string{"config", "set", "url", "x:2"}, set("url", "x:2")}, {[]string{"config"}, set("url", defURL, "path", defPath)}},
	}
	for _, fresh := range []bool{false, true} {
		for _, pr := range pairs {
			pr, fresh := pr, fresh
			var n [2]int
			for i := range n {
				home := newHome()
				if !fresh {
					run(home, before.args...)
				}
				p, err := start(bin, home, uid, pr[i].args...)
				if err != nil {
					panic(err)
				}
				for p.next(true) {
					n[i]++
				}
				p.reap()
				os.RemoveAll(home)
			}
			total := n[0] + n[1]
			if total > 24 {
				total = 24
			}
			limit := 2 // context switches
			if e.Tier == "thorough" {
				limit = 5
			}
			for first := 0; first < 2; first++ {
				var sw []int
				var rec func(from int)
				rec = func(from int) {
					s, first := append([]int{}, sw...), first
					e.Case(func() string {
						return fmt.Sprintf("%v and %v, fresh %v, %d first, switches at %v", pr[0], pr[1], fresh, first, s)
					}, func() {
						home := newHome()
						defer os.RemoveAll(home)
						old := state{}
						if !fresh {
							run(home, before.args...)
							old = before.eff(old)
						}
						var ps [2]*proc
						for i := range ps {
							p, err := start(bin, home, uid, pr[i].args...)
							if err != nil {
								panic(err)
							}
							ps[i] = p
						}
						// both are taken to their first operation
						live := [2]bool{ps[0].next(true), ps[1].next(true)}
						cur := first
						step, i := 0, 0
						for live[0] || live[1] {
							if i < len(s) && step == s[i] {
								cur = 1 - cur
								i++
							}
							if !live[cur] {
								cur = 1 - cur
							}
							live[cur] = ps[cur].next(true)
							step++
						}
						st := [2]int{ps[0].status, ps[1].status}
						ps[0].reap()
						ps[1].reap()
						got := printed(home)
						var ok []state
						for i := range pr {
							if st[i] == 0 {
								ok = append(ok, pr[i].eff(old))
							}
						}
						if st[0] == 0 && st[1] == 0 {
							ok = append(ok, pr[1].eff(pr[0].eff(old)), pr[0].eff(pr[1].eff(old)))
						}
						if len(ok) == 0 {
							e.Fail("C24", "two", "both commands fail: %v", st)
						}
						for _, a := range ok {
							if got == a.lines() {
								e.Distinct(fmt.Sprint(pr, fresh, got))
								return
							}
						}
						e.Fail("C24", "two", "%v and %v (exit %v) at the same time: the configuration is then\n%s\nand was\n%s", pr[0], pr[1], st, got, old.lines())
					})
					if len(sw) == limit {
						return
					}
					for k := from; k < total; k++ {
						sw = append(sw, k)
						rec(k + 1)
						sw = sw[:len(sw)-1]
					}
				}
				rec(1)
			}
		}
	}
}

// enumDamaged: a damaged state is an error, and stays as it is.
func enumDamaged(e *vs.Enum) {
	good := state{"url": "h:1", "path": "/p", "k": "v"}
	b, _ := json.Marshal(good)
	var l [][]byte
	for n := 0; n < len(b); n++ {
		l = append(l, b[:n])
		if n%3 == 0 {
			l = append(l, append(append([]byte{}, b[:n]...), 0), append(append(append([]byte{}, b[:n]...), '{'), b[n:]...))
		}
	}
	l = append(l, []byte("[]"), []byte("1"), []byte(`{"url":1}`), []byte(`{"url":"a"`), []byte(`{"url":["a"]}`), append(append([]byte{}, b...), 'x'))
	for _, d := range l {
		d := d
		if json.Valid(d) && json.Unmarshal(d, &map[string]string{}) == nil {
			continue
		}
		e.Case(func() string { return fmt.Sprintf("the state file contains %q", d) }, func() {
			home := newHome()
			defer os.RemoveAll(home)
			run(home, "config")
			f := stateFile(home)
			if f == "" {
				return
			}
			os.WriteFile(f, d, 0o644)
			if g := printed(home); !isErr(g) {
				e.Fail("C24", "damaged", "the state file contains %q and config print shows %q without an error", d, g)
			}
			if len(d) > 0 {
				if c, out := run(home, "subscribe", "--descriptor", "x", "--block_height", "0"); c == 0 {
					e.Fail("C24", "damaged", "subscribe works on the state %q: %s", d, out)
				}
			}
			e.Distinct(string(d))
		})
	}
}

// stateFile finds the file with the configuration.
func stateFile(home string) string {
	for _, f := range files(home) {
		b, err := os.ReadFile(home + f)
		m := map[string]string{}
		if err == nil && json.Unmarshal(b, &m) == nil && m["url"] != "" {
			return home + f
		}
	}
	return ""
}

// ---- subscribe

type request struct {
	ActionType       string
	EventTypes       []string
	DescriptorWallet string
	StartBlockHeight int
}

// daemonFor plays the daemon for one connection.
func daemonFor(script []string, got chan<- string, path chan<- string) *httptest.Server {
	up := websocket.Upgrader{}
	return httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		path <- r.URL.Path
		c, err := up.Upgrade(w, r, nil)
		if err != nil {
			return
		}
		defer c.Close()
		_, b, err := c.ReadMessage()
		if err != nil {
			got <- "error " + err.Error()
			return
		}
		got <- string(b)
		for _, s := range script {
			c.WriteMessage(websocket.TextMessage, []byte(s))
		}
	}))
}

func enumSubscribe(e *vs.Enum) {
	descs := []string{"elwpkh(02f9308a019258c31049344f85f89d5229b531c845836f99b08601f113bce036f9)", "elwpkh([d34db33f/44'/0'/0']xpub/1/*)#12345678", "x\"y\\z <é>"}
	heights := []int{0, 1, 1<<31 - 1, -5}
	events := [][]string{{"unspentUtxo"}, {"spentUtxo"}, {"unspentUtxo", "spentUtxo"}, nil, {"nonsense"}}
	ev := func(t, id string) string { return fmt.Sprintf(`{"eventType":"%s","txId":"%s"}`, t, id) }
	scripts := [][]string{
		nil,
		{`{"message":"successfully registered"}`, ev("unspentUtxo", "aa11"), ev("spentUtxo", "bb22"), ev("unspentUtxo", "aa11")},
		{`{"errorMessage":"no such wallet"}`, ev("unspentUtxo", "cc33")},
		{ev("unspentUtxo", "dd44"), `{"errorMessage":"late error"}`, `{"message":"hello"}`, ev("unspentUtxo", "ee55")},
		{`{}`, `{"unknown":1}`, ev("unspentUtxo", "ff66")},
		// the same transaction pays several scripts, or is spent from, in a row
		{ev("unspentUtxo", "aa11"), ev("unspentUtxo", "aa11"), ev("spentUtxo", "aa11"), `{"message":"hello"}`, `{"message":"hello"}`, ev("spentUtxo", "aa11"), `{"errorMessage":"late error"}`, `{"errorMessage":"late error"}`},
	}
	for _, d := range descs {
		for _, h := range heights {
			for _, es := range events {
				for si, sc := range scripts {
					d, h, es, sc := d, h, es, sc
					if e.Tier != "thorough" && si > 1 && (h != 0 || len(es) != 1) {
						continue
					}
					path := []string{"/neutrino/subscribe/ws", "/other"}[si%2]
					e.Case(func() string { return fmt.Sprintf("subscribe %q from %d events %v, the daemon sends %q", d, h, es, sc) }, func() {
						home := newHome()
						defer os.RemoveAll(home)
						got, paths := make(chan string, 8), make(chan string, 8)
						srv := daemonFor(sc, got, paths)
						defer srv.Close()
						run(home, "config", "--url", strings.TrimPrefix(srv.URL, "http://"), "--path", path)
						args := []string{"subscribe", "--descriptor", d, fmt.Sprintf("--block_height=%d", h)}
						for _, x := range es {
							args = append(args, "--events", x)
						}
						c, out := run(home, args...)
						var b string
						select {
						case b = <-got:
						default:
							e.Fail("C24", "subscribe", "nothing is sent to the daemon: %d %s", c, out)
						}
						if p := <-paths; p != path {
							e.Fail("C24", "subscribe", "the path %q is used instead of %q", p, path)
						}
						var r request
						if err := json.Unmarshal([]byte(b), &r); err != nil {
							e.Fail("C24", "subscribe", "the request is %q", b)
						}
						w := request{"register", es, d, h}
						if len(r.EventTypes) == 0 {
							r.EventTypes = nil
						}
						if !reflect.DeepEqual(r, w) {
							e.Fail("C24", "subscribe", "the request is %+v instead of %+v", r, w)
						}
						if c == 0 {
							e.Fail("C24", "subscribe", "the lost connection to the daemon is not reported")
						}
						at := 0
						for _, s := range sc {
							m := map[string]string{}
							if json.Unmarshal([]byte(s), &m) != nil {
								continue
							}
							for _, k := range []string{"txId", "message", "errorMessage"} {
								if v, ok := m[k]; ok {
									i := strings.Index(out[at:], v)
									if i < 0 {
										e.Fail("C24", "output", "the daemon sends %q and %q is not shown, or not in order: %s", sc, v, out)
									}
									at += i + len(v)
								}
							}
						}
						for _, id := range []string{"aa11", "bb22", "cc33", "dd44", "ee55", "ff66", "no such wallet", "late error", "hello"} {
							n := 0
							for _, s := range sc {
								n += strings.Count(s, id)
							}
							if strings.Count(out, id) != n {
								e.Fail("C24", "output", "the daemon sends %q; %q is shown %d times: %s", sc, id, strings.Count(out, id), out)
							}
						}
						e.Distinct(b)
					})
				}
			}
		}
	}
	// many messages, long messages, messages in several frames, pings and pauses
	long := strings.Repeat("0123456789abcdef", 1<<15)
	for _, n := range []int{300, 3000} {
		for _, size := range []int{64, 600, 70000, len(long)} {
			for _, frames := range []bool{false, true} {
				n, size, frames := n, size, frames
				if size > 600 {
					n /= 100
				}
				e.Case(func() string { return fmt.Sprintf("%d events with a message of %d bytes after each, frames %v", n, size, frames) }, func() {
					home := newHome()
					defer os.RemoveAll(home)
					up := websocket.Upgrader{WriteBufferSize: 256}
					srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
						c, err := up.Upgrade(w, r, nil)
						if err != nil {
							return
						}
						defer c.Close()
						c.ReadMessage()
						write := func(s string) {
							if !frames {
								c.WriteMessage(websocket.TextMessage, []byte(s))
								return
							}
							w, err := c.NextWriter(websocket.TextMessage) // a frame per buffer
							if err == nil {
								w.Write([]byte(s))
								w.Close()
							}
						}
						for i := 0; i < n; i++ {
							write(ev("unspentUtxo", fmt.Sprintf("tx%06d", i)))
							write(fmt.Sprintf(`{"message":"%s<%06d>"}`, long[:size], i))
							if i%50 == 0 {
								c.WriteControl(websocket.PingMessage, []byte("x"), time.Time{})
							}
							if i == n/2 && size == 64 {
								time.Sleep(3 * time.Second)
							}
						}
						// what is not read when the connection closes would be lost
						c.WriteControl(websocket.CloseMessage, websocket.FormatCloseMessage(websocket.CloseNormalClosure, ""), time.Time{})
						for {
							if _, _, err := c.NextReader(); err != nil {
								return
							}
						}
					}))
					defer srv.Close()
					run(home, "config", "--url", strings.TrimPrefix(srv.URL, "http://"))
					_, out := run(home, "subscribe", "--descriptor", descs[0], "--block_height=0", "--events", "unspentUtxo")
					at := 0
					for i := 0; i < n; i++ {
						for _, v := range []string{fmt.Sprintf("tx%06d", i), fmt.Sprintf("%s<%06d>", long[:size], i)} {
							j := strings.Index(out[at:], v)
							if j < 0 {
								if len(v) > 100 {
									v = v[:40] + "..." + v[len(v)-40:]
								}
								end := out[at:]
								if len(end) > 300 {
									end = end[:300]
								}
								e.Fail("C24", "output", "%q, part %d of %d, is not shown, or not in order: %s", v, i, n, end)
								return
							}
							at += j + len(v)
						}
					}
					e.Distinct(fmt.Sprint(n, size, frames))
				})
			}
		}
	}
	e.Case(func() string { return "subscribe without a daemon or configuration" }, func() {
		home := newHome()
		defer os.RemoveAll(home)
		if c, out := run(home, "subscribe", "--descriptor", "x", "--block_height", "0"); c == 0 {
			e.Fail("C24", "subscribe", "subscribe works without a configuration: %s", out)
		}
		run(home, "config", "--url", "127.0.0.1:1")
		if c, out := run(home, "subscribe", "--descriptor", "x", "--block_height", "0"); c == 0 {
			e.Fail("C24", "subscribe", "subscribe works without a daemon: %s", out)
		}
		if c, out := run(home, "subscribe", "--descriptor", "x"); c == 0 {
			e.Fail("C24", "subscribe", "subscribe works without a height: %s", out)
		}
	})
}

func main() {
	vs.Main([]*vs.Scenario{
		{Name: "config", Props: []string{"C24"}, Weight: 2, Enum: enumOps, Desc: "all sequences of up to three configuration commands, valid and not, against a map"},
		{Name: "crash", Props: []string{"C24"}, Weight: 2, Enum: enumCrash, Desc: "the command is killed before every file operation and within every write; every file operation fails (ptrace on the real program)"},
		{Name: "two", Props: []string{"C24"}, Weight: 2, Enum: enumTwo, Desc: "two commands at the same time: all interleavings of their file operations up to two context switches"},
		{Name: "damaged", Props: []string{"C24"}, Enum: enumDamaged, Desc: "every truncation and other damage of the state file is reported"},
		{Name: "subscribe", Props: []string{"C24"}, Enum: enumSubscribe, Desc: "subscribe against a daemon on the loopback: descriptors x heights x events x what the daemon sends"},
	})
}
