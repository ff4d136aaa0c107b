package main

import (
	"bufio"
	"bytes"
	"database/sql/driver"
	"encoding/binary"
	"encoding/hex"
	"fmt"
	"io"
	"net"
	"strconv"
	"strings"
	"sync"

	"github.com/lib/pq"
)

// A database server on the loopback that speaks the wire protocol of Postgres
// and executes statements with the engine of the store checks.

type pgServer struct {
	l net.Listener
	e *engine
	w *world

	mu       sync.Mutex
	cond     *sync.Cond
	conns    int
	advisory *pgConn
	// the table of the migrations
	hasTable bool
	version  string
	dirty    bool
	ddl      int // migrations executed
	unknown  string
}

func newPg(w *world) *pgServer {
	l := listen()
	e := &engine{tables: map[string]*table{}}
	e.cond = sync.NewCond(&e.mu)
	s := &pgServer{l: l, e: e, w: w}
	s.cond = sync.NewCond(&s.mu)
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			s.conns++
			s.mu.Unlock()
			go s.serve(c)
		}
	}()
	return s
}

// odd is a statement the stand-in does not understand.
func (s *pgServer) odd() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.unknown != "" {
		return s.unknown
	}
	s.e.mu.Lock()
	defer s.e.mu.Unlock()
	return s.e.odd
}

// quiet waits until no client is connected.
func (s *pgServer) quiet() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for s.conns > 0 {
		s.cond.Wait()
	}
}

type pgConn struct {
	s   *pgServer
	c   net.Conn
	out bytes.Buffer
	tx  *txn
	// of the open transaction
	mig    func()
	failed bool

	sql  string
	args []driver.NamedValue
	fmts []int // formats of the result columns
}

func (k *pgConn) msg(t byte, b ...[]byte) {
	n := 4
	for _, x := range b {
		n += len(x)
	}
	k.out.WriteByte(t)
	var l [4]byte
	binary.BigEndian.PutUint32(l[:], uint32(n))
	k.out.Write(l[:])
	for _, x := range b {
		k.out.Write(x)
	}
}

func z(s string) []byte { return append([]byte(s), 0) }

func be16(n int) []byte { return []byte{byte(n >> 8), byte(n)} }
func be32(n int) []byte { return []byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)} }

func (k *pgConn) flush() error {
	_, err := k.c.Write(k.out.Bytes())
	k.out.Reset()
	return err
}

func (k *pgConn) ready() {
	st := byte('I')
	if k.tx != nil {
		st = 'T'
		if k.tx.aborted || k.failed {
			st = 'E'
		}
	}
	k.msg('Z', []byte{st})
}

func (k *pgConn) error(err error) {
	code, text := "XX000", err.Error()
	if p, ok := err.(*pq.Error); ok {
		code, text = string(p.Code), p.Message
	}
	k.failed = k.tx != nil
	k.msg('E', z("SERROR"), z("C"+code), z("M"+text), []byte{0})
}

func (s *pgServer) serve(c net.Conn) {
	k := &pgConn{s: s, c: c}
	defer func() {
		c.Close()
		s.mu.Lock()
		if k.tx != nil {
			s.e.mu.Lock()
			s.e.finish(k.tx, false)
			s.e.mu.Unlock()
		}
		if s.advisory == k {
			s.advisory = nil
		}
		s.conns--
		s.mu.Unlock()
		s.cond.Broadcast()
	}()
	r := bufio.NewReader(c)
	var n [4]byte
	if _, err := io.ReadFull(r, n[:]); err != nil {
		return
	}
	b := make([]byte, binary.BigEndian.Uint32(n[:])-4)
	if _, err := io.ReadFull(r, b); err != nil || binary.BigEndian.Uint32(b) != 196608 {
		return
	}
	k.msg('R', be32(0))
	for _, p := range [][2]string{{"server_version", "14.0"}, {"client_encoding", "UTF8"}, {"integer_datetimes", "on"}, {"TimeZone", "UTC"}, {"standard_conforming_strings", "on"}} {
		k.msg('S', z(p[0]), z(p[1]))
	}
	k.msg('K', be32(1), be32(1))
	k.ready()
	if k.flush() != nil {
		return
	}
	skip := false
	for {
		var h [5]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return
		}
		b := make([]byte, binary.BigEndian.Uint32(h[1:])-4)
		if _, err := io.ReadFull(r, b); err != nil {
			return
		}
		if skip && h[0] != 'S' {
			continue
		}
		var err error
		switch h[0] {
		case 'X':
			return
		case 'Q':
			k.simple(strings.TrimSuffix(string(b), "\x00"))
			k.ready()
			err = k.flush()
		case 'P':
			f := bytes.SplitN(b, []byte{0}, 3)
			k.sql = string(f[1])
			k.msg('1')
		case 'D':
			if e := k.describe(); e != nil {
				k.error(e)
				skip = true
			}
		case 'B':
			k.bind(b)
			k.msg('2')
		case 'E':
			if e := k.execute(k.sql, k.args, false); e != nil {
				k.error(e)
				skip = true
			}
		case 'C':
			k.msg('3')
		case 'S':
			skip = false
			k.ready()
			err = k.flush()
		default:
			s.note("message " + string(h[0]))
			return
		}
		if err != nil {
			return
		}
	}
}

func (s *pgServer) note(q string) {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.unknown = q
}

func params(q string) (n int) {
	for i := 0; i+1 < len(q); i++ {
		if q[i] == '$' {
			j := i + 1
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			if x, _ := strconv.Atoi(q[i+1 : j]); x > n {
				n = x
			}
		}
	}
	return
}

// bind: all parameters are announced as bytea, so that texts and bytes come as
// \x and everything else does not.
func (k *pgConn) bind(b []byte) {
	b = b[bytes.IndexByte(b, 0)+1:]
	b = b[bytes.IndexByte(b, 0)+1:]
	u16 := func() int { n := int(binary.BigEndian.Uint16(b)); b = b[2:]; return n }
	for i := u16(); i > 0; i-- {
		u16()
	}
	k.args = nil
	for i := u16(); i > 0; i-- {
		n := int(int32(binary.BigEndian.Uint32(b)))
		b = b[4:]
		var v driver.Value
		if n >= 0 {
			v = param(string(b[:n]))
			b = b[n:]
		}
		k.args = append(k.args, driver.NamedValue{Ordinal: len(k.args) + 1, Value: v})
	}
	k.fmts = nil
	for i := u16(); i > 0; i-- {
		k.fmts = append(k.fmts, u16())
	}
}

func param(s string) driver.Value {
	if strings.HasPrefix(s, `\x`) {
		if x, err := hex.DecodeString(s[2:]); err == nil {
			return x
		}
	}
	if n, err := strconv.ParseInt(s, 10, 64); err == nil {
		return n
	}
	return s
}

func text(v driver.Value) []byte {
	switch x := v.(type) {
	case nil:
		return nil
	case []byte:
		return []byte(`\x` + hex.EncodeToString(x))
	case bool:
		if x {
			return []byte("t")
		}
		return []byte("f")
	}
	return []byte(fmt.Sprint(v))
}

func oid(v driver.Value) int {
	switch v.(type) {
	case []byte:
		return 17
	case string:
		return 25
	case bool:
		return 16
	}
	return 20
}

func (k *pgConn) rowDesc(names []string, oids []int) {
	b := be16(len(names))
	for i, n := range names {
		b = append(b, z(n)...)
		b = append(b, be32(0)...)
		b = append(b, be16(0)...)
		b = append(b, be32(oids[i])...)
		b = append(b, be16(-1)...)
		b = append(b, be32(-1)...)
		b = append(b, be16(0)...)
	}
	k.msg('T', b)
}

func (k *pgConn) row(vs []driver.Value) {
	b := be16(len(vs))
	for i, v := range vs {
		t := text(v)
		if x, ok := v.([]byte); ok && x == nil {
			t = []byte(`\x`)
		}
		if t != nil && (len(k.fmts) == 1 && k.fmts[0] == 1 || i < len(k.fmts) && k.fmts[i] == 1) {
			switch x := v.(type) {
			case []byte:
				t = x
			case int64:
				t = make([]byte, 8)
				binary.BigEndian.PutUint64(t, uint64(x))
			}
		}
		if t == nil {
			b = append(b, be32(-1)...)
			continue
		}
		b = append(b, be32(len(t))...)
		b = append(b, t...)
	}
	k.msg('D', b)
}

func lower(q string) string { return strings.ToLower(strings.TrimSpace(q)) }

// columns finds the columns of a result by running the query with zeros.
func (k *pgConn) columns(q string) (names []string, oids []int, err error) {
	if names, vs, ok := k.internal(q, nil, true); ok {
		for _, v := range vs {
			oids = append(oids, oid(v))
		}
		return names, oids, nil
	}
	if !strings.HasPrefix(lower(q), "select") {
		return nil, nil, nil
	}
	var args []driver.NamedValue
	for i := 0; i < params(q); i++ {
		args = append(args, driver.NamedValue{Ordinal: i + 1, Value: "0"})
	}
	names, rows, _, err := k.s.e.run(k.tx, q, args)
	if err != nil {
		return nil, nil, err
	}
	k.s.e.mu.Lock()
	defer k.s.e.mu.Unlock()
	for i, n := range names {
		o := 20
		if len(rows) > 0 && rows[0][i] != nil {
			o = oid(rows[0][i])
		} else {
			for _, t := range k.s.e.tables {
				if j := t.col(n); j >= 0 {
					switch {
					case t.cols[j].typ == "bytea":
						o = 17
					case !strings.Contains(t.cols[j].typ, "int"):
						o = 25
					}
				}
			}
		}
		oids = append(oids, o)
	}
	return
}

func (k *pgConn) describe() error {
	if k.failed {
		return &pq.Error{Code: "25P02", Message: "current transaction is aborted"}
	}
	n := params(k.sql)
	b := be16(n)
	for i := 0; i < n; i++ {
		b = append(b, be32(17)...)
	}
	names, oids, err := k.columns(k.sql)
	if err != nil {
		return err
	}
	k.msg('t', b)
	if names == nil {
		k.msg('n')
	} else {
		k.rowDesc(names, oids)
	}
	return nil
}

// internal answers what only the migrations ask for.
func (k *pgConn) internal(q string, args []driver.NamedValue, dry bool) (names []string, row []driver.Value, ok bool) {
	s := k.s
	l := lower(q)
	is := func(p string) bool { return strings.HasPrefix(l, p) }
	switch {
	case is("select current_database()"):
		return []string{"current_database"}, []driver.Value{"neutrino"}, true
	case is("select current_schema()"):
		return []string{"current_schema"}, []driver.Value{"public"}, true
	case is("select pg_advisory_lock("):
		if !dry {
			s.mu.Lock()
			for s.advisory != nil && s.advisory != k {
				s.cond.Wait()
			}
			s.advisory = k
			s.mu.Unlock()
		}
		return []string{"pg_advisory_lock"}, []driver.Value{""}, true
	case is("select pg_advisory_unlock("):
		if !dry {
			s.mu.Lock()
			if s.advisory == k {
				s.advisory = nil
			}
			s.mu.Unlock()
			s.cond.Broadcast()
		}
		return []string{"pg_advisory_unlock"}, []driver.Value{true}, true
	case is("select count(1) from information_schema.tables"):
		n := int64(0)
		s.mu.Lock()
		defer s.mu.Unlock()
		if s.hasTable {
			n = 1
		}
		return []string{"count"}, []driver.Value{n}, true
	case is("select version, dirty from"):
		s.mu.Lock()
		defer s.mu.Unlock()
		names = []string{"version", "dirty"}
		if dry {
			return names, []driver.Value{int64(0), true}, true
		}
		if s.version == "" {
			return names, nil, true
		}
		return names, []driver.Value{param(s.version), s.dirty}, true
	}
	return nil, nil, false
}

// migration executes what only the migrations change.
func (k *pgConn) migration(q string, args []driver.NamedValue) (ok bool, err error) {
	s := k.s
	l := lower(q)
	var f func()
	switch {
	case strings.HasPrefix(l, "create table") && strings.Contains(l, "schema_migrations"):
		f = func() { s.hasTable = true }
	case strings.HasPrefix(l, "truncate") && strings.Contains(l, "schema_migrations"):
		f = func() { s.version = "" }
	case strings.HasPrefix(l, "insert into") && strings.Contains(l, "schema_migrations"):
		if len(args) != 2 {
			return false, nil
		}
		v, d := fmt.Sprint(args[0].Value), fmt.Sprint(args[1].Value)
		f = func() { s.version, s.dirty = v, strings.HasPrefix(d, "t") }
	case strings.HasPrefix(l, "create"):
		f = nil
		if err := k.ddl(q); err != nil {
			return true, err
		}
		return true, nil
	default:
		return false, nil
	}
	if k.tx != nil {
		g := k.mig
		k.mig = func() {
			if g != nil {
				g()
			}
			f()
		}
		return true, nil
	}
	s.mu.Lock()
	f()
	s.mu.Unlock()
	return true, nil
}

// ddl creates tables, all or none.
func (k *pgConn) ddl(text string) (err error) {
	e := k.s.e
	e.mu.Lock()
	defer e.mu.Unlock()
	old := map[string]*table{}
	for n, t := range e.tables {
		old[n] = t
	}
	defer func() {
		if r := recover(); r != nil {
			e.tables = old
			e.odd = text
			err = fmt.Errorf("not understood: %v", r)
		}
	}()
	tok, err := lex(text)
	if err != nil {
		e.odd = text
		return err
	}
	e.tables = map[string]*table{}
	q := &stmt{e: e, tok: tok}
	for q.p < len(q.tok) {
		q.create()
	}
	fresh := e.tables
	e.tables = old
	for n := range fresh {
		if old[n] != nil {
			if strings.Contains(lower(text), "if not exists") {
				continue
			}
			return &pq.Error{Code: "42P07", Message: "relation " + n + " already exists"}
		}
	}
	e.tables = map[string]*table{}
	for n, t := range fresh {
		e.tables[n] = t
	}
	for n, t := range old {
		e.tables[n] = t
	}
	k.s.mu.Lock()
	k.s.ddl++
	k.s.mu.Unlock()
	return nil
}

func short(q string) string {
	q = strings.Join(strings.Fields(q), " ")
	if len(q) > 40 {
		q = q[:40]
	}
	return q
}

// execute runs one statement; withDesc sends the row description too.
func (k *pgConn) execute(q string, args []driver.NamedValue, withDesc bool) (err error) {
	l := strings.TrimRight(lower(q), "; \n")
	if l == "" {
		k.msg('I')
		return nil
	}
	e := k.s.e
	if _, _, ok := k.internal(q, args, true); ok || !strings.HasPrefix(l, "select") {
		// a query changes nothing: a moment after the previous event; so is a
		// moment before a statement, unless the daemon goes on
		if k.s.w.cs.Mode == "drop" {
			k.s.w.event("before "+short(q), k.c)
		}
		defer func() {
			if err == nil {
				k.s.w.event("after "+short(q), k.c)
			}
		}()
	}
	switch {
	case strings.HasPrefix(l, "begin") || strings.HasPrefix(l, "start transaction"):
		e.mu.Lock()
		k.tx = e.begin()
		e.mu.Unlock()
		k.failed, k.mig = false, nil
		k.msg('C', z("BEGIN"))
		return nil
	case l == "commit" || l == "rollback" || l == "end":
		tag := "ROLLBACK"
		if k.tx != nil {
			ok := l != "rollback" && !k.tx.aborted && !k.failed
			e.mu.Lock()
			e.finish(k.tx, ok)
			e.mu.Unlock()
			if ok {
				tag = "COMMIT"
				if k.mig != nil {
					k.s.mu.Lock()
					k.mig()
					k.s.mu.Unlock()
				}
			}
		}
		k.tx, k.failed, k.mig = nil, false, nil
		k.msg('C', z(tag))
		return nil
	case k.failed:
		return &pq.Error{Code: "25P02", Message: "current transaction is aborted"}
	}
	if names, row, ok := k.internal(q, args, false); ok {
		if withDesc {
			_, oids, _ := k.columns(q)
			k.rowDesc(names, oids)
		}
		n := 0
		if row != nil {
			n = 1
			k.row(row)
		}
		k.msg('C', z(fmt.Sprintf("SELECT %d", n)))
		return nil
	}
	if ok, err := k.migration(q, args); ok {
		if err == nil {
			k.msg('C', z(strings.ToUpper(strings.Fields(l)[0])))
		}
		return err
	}
	var names []string
	var oids []int
	if withDesc {
		if names, oids, err = k.columns(q); err != nil {
			return err
		}
	}
	_, rows, n, err := e.run(k.tx, q, args)
	if err != nil {
		return err
	}
	if strings.HasPrefix(l, "select") {
		if withDesc {
			k.rowDesc(names, oids)
		}
		for _, r := range rows {
			k.row(r)
		}
		k.msg('C', z(fmt.Sprintf("SELECT %d", len(rows))))
		return nil
	}
	verb := strings.ToUpper(strings.Fields(l)[0])
	if verb == "INSERT" {
		verb = "INSERT 0"
	}
	k.msg('C', z(fmt.Sprintf("%s %d", verb, n)))
	return nil
}

// simple runs the statements of a simple query.
func (k *pgConn) simple(q string) {
	k.fmts = nil
	if err := k.execute(q, nil, true); err != nil {
		k.error(err)
	}
}
