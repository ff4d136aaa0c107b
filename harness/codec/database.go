package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"

	dbpg "github.com/vulpemventures/neutrino-elements/internal/infrastructure/storage/db/pg"

	"verif/vs"
)

// login accepts one connection of a Postgres client, takes its startup message
// and its password and refuses it.
func login(l net.Listener, auth bool) (user, name, pass string, err error) {
	c, err := l.Accept()
	if err != nil {
		return
	}
	defer c.Close()
	var n [4]byte
	if _, err = io.ReadFull(c, n[:]); err != nil {
		return
	}
	b := make([]byte, binary.BigEndian.Uint32(n[:])-4)
	if _, err = io.ReadFull(c, b); err != nil {
		return
	}
	f := bytes.Split(b[4:], []byte{0})
	for i := 0; i+1 < len(f) && len(f[i]) > 0; i += 2 {
		switch string(f[i]) {
		case "user":
			user = string(f[i+1])
		case "database":
			name = string(f[i+1])
		}
	}
	if auth {
		c.Write([]byte{'R', 0, 0, 0, 8, 0, 0, 0, 3})
		var h [5]byte
		if _, err = io.ReadFull(c, h[:]); err != nil {
			return
		}
		b := make([]byte, binary.BigEndian.Uint32(h[1:])-4)
		if _, err = io.ReadFull(c, b); err != nil {
			return
		}
		pass = string(bytes.TrimSuffix(b, []byte{0}))
	}
	e := []byte("SFATAL\x00C28P01\x00Mrefused\x00\x00")
	m := make([]byte, 5)
	m[0] = 'E'
	binary.BigEndian.PutUint32(m[1:], uint32(len(e)+4))
	c.Write(append(m, e...))
	return
}

// enumDatabase makes the daemon's database client with every printable
// character in every one of its settings.
func enumDatabase(e *vs.Enum) {
	var words []string
	for c := byte(0x20); c < 0x7f; c++ {
		words = append(words, "a"+string([]byte{c})+"b", string([]byte{c}), string([]byte{c})+"%41")
	}
	words = append(words, "é", "p@ss:w/o?r#d", "a%2Fb", "''", "\\'", "a b=c", "postgres://x", "secret")
	check := func(user, pass, name, host string, auth bool) {
		e.Case(func() string {
			return fmt.Sprintf("user %q password %q database %q host %q, asked for the password: %v", user, pass, name, host, auth)
		}, func() {
			l, err := net.Listen("tcp", net.JoinHostPort(host, "0"))
			if err != nil {
				return // no such address here
			}
			defer l.Close()
			type got struct {
				user, name, pass string
				err              error
			}
			res := make(chan got, 1)
			go func() {
				var g got
				g.user, g.name, g.pass, g.err = login(l, auth)
				l.Close()
				res <- g
			}()
			svc, err := dbpg.NewDbService(dbpg.DbConfig{DbUser: user, DbPassword: pass, DbHost: host, DbPort: l.Addr().(*net.TCPAddr).Port, DbName: name, MigrationSourceURL: "file:///nonexistent"})
			l.Close()
			if err == nil || svc != nil {
				e.Fail("C26", "database", "no error although the server refused the connection")
			}
			g := <-res
			if g.err != nil {
				e.Fail("C26", "database", "the server at the configured address was not logged in to: %v; the daemon reports: %v", g.err, err)
			}
			if !auth {
				pass = ""
			}
			if g.user != user || g.name != name || g.pass != pass {
				e.Fail("C26", "database", "the server was sent user %q password %q database %q", g.user, g.pass, g.name)
			}
			e.Distinct(fmt.Sprint(g))
		})
	}
	for _, w := range words {
		check("root", w, "neutrino-elements", "127.0.0.1", true)
		check(w, "secret", "neutrino-elements", "127.0.0.1", true)
		check("root", "secret", w, "127.0.0.1", true)
		check(w, w, w, "127.0.0.1", true)
	}
	for _, h := range []string{"localhost", "127.0.0.2", "::1"} {
		check("root", "secret", "n", h, true)
		check("root", "secret", "n", h, false)
	}
}
