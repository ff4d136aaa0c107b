package main

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"unicode"

	"github.com/jmoiron/sqlx"
	"github.com/lib/pq"

	"verif/vs"
)

// A small transactional SQL engine standing in for the Postgres server: the
// schema comes from the repository's migration, statements are parsed and
// executed, constraints, read committed visibility, waiting for the keys of
// open transactions and aborted transactions behave as in Postgres.

type column struct {
	name    string
	typ     string
	notNull bool
	unique  bool
}

type table struct {
	cols []column
	rows [][]driver.Value
}

func (t *table) col(n string) int {
	for i, c := range t.cols {
		if c.name == n {
			return i
		}
	}
	return -1
}

type engine struct {
	mu      sync.Mutex
	cond    *sync.Cond
	tables  map[string]*table
	open    []*txn
	reverse bool // unordered results come in reverse order
	calls   int
	fault   func(n int, kind string) (error, bool) // error, and whether the effect happens nevertheless
	odd     string                                 // a statement the engine does not know
}

type txn struct {
	adds    map[string][][]driver.Value
	dels    map[string]map[int]bool
	aborted bool
	done    bool
	owner   *engine
}

var errUnknown = errors.New("statement not understood by the stand-in")

// ---- tokens and grammar

func lex(s string) ([]string, error) {
	var out []string
	for i := 0; i < len(s); {
		c := rune(s[i])
		switch {
		case unicode.IsSpace(c):
			i++
		case strings.HasPrefix(s[i:], "--"):
			for i < len(s) && s[i] != '\n' {
				i++
			}
		case unicode.IsLetter(c) || c == '_':
			j := i
			for j < len(s) && (unicode.IsLetter(rune(s[j])) || unicode.IsDigit(rune(s[j])) || s[j] == '_') {
				j++
			}
			out = append(out, strings.ToLower(s[i:j]))
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(s) && unicode.IsDigit(rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case c == '$':
			j := i + 1
			for j < len(s) && unicode.IsDigit(rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		case c == '"':
			j := strings.IndexByte(s[i+1:], '"')
			if j < 0 {
				return nil, errUnknown
			}
			out = append(out, strings.ToLower(s[i+1:i+1+j]))
			i += j + 2
		case c == '\'':
			j := strings.IndexByte(s[i+1:], '\'')
			if j < 0 {
				return nil, errUnknown
			}
			out = append(out, s[i:i+2+j])
			i += j + 2
		default:
			if i+1 < len(s) {
				if t := s[i : i+2]; t == "<=" || t == ">=" || t == "<>" || t == "!=" {
					out = append(out, t)
					i += 2
					continue
				}
			}
			out = append(out, string(c))
			i++
		}
	}
	return out, nil
}

type stmt struct {
	e    *engine
	tx   *txn
	tok  []string
	p    int
	args []driver.Value
}

func (q *stmt) peek() string {
	if q.p < len(q.tok) {
		return q.tok[q.p]
	}
	return ""
}

func (q *stmt) next() string {
	t := q.peek()
	q.p++
	return t
}

func (q *stmt) accept(ts ...string) bool {
	for i, t := range ts {
		if q.p+i >= len(q.tok) || q.tok[q.p+i] != t {
			return false
		}
	}
	q.p += len(ts)
	return true
}

func (q *stmt) need(ts ...string) {
	if !q.accept(ts...) {
		panic(errUnknown)
	}
}

func (q *stmt) tab() (string, *table) {
	n := q.next()
	if q.accept(".") {
		n = q.next()
	}
	t := q.e.tables[n]
	if t == nil {
		panic(&pq.Error{Code: "42P01", Severity: "ERROR", Message: "relation " + n + " does not exist"})
	}
	return n, t
}

func (q *stmt) value() driver.Value {
	t := q.next()
	switch {
	case t == "null":
		return nil
	case strings.HasPrefix(t, "$"):
		n, err := strconv.Atoi(t[1:])
		if err != nil || n < 1 || n > len(q.args) {
			panic(&pq.Error{Code: "08P01", Severity: "ERROR", Message: "bind parameters"})
		}
		return q.args[n-1]
	case t != "" && t[0] == '\'':
		return t[1 : len(t)-1]
	default:
		n, err := strconv.ParseInt(t, 10, 64)
		if err != nil {
			panic(errUnknown)
		}
		return n
	}
}

func compare(a, b driver.Value) int {
	if x, ok := a.([]byte); ok {
		a = string(x)
	}
	if x, ok := b.([]byte); ok {
		b = string(x)
	}
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		if !ok {
			if s, is := b.(string); is {
				n, err := strconv.ParseInt(s, 10, 64)
				if err != nil {
					panic(&pq.Error{Code: "22P02", Severity: "ERROR", Message: "invalid input syntax for type integer"})
				}
				y = n
			}
		}
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case string:
		y, ok := b.(string)
		if !ok {
			y = fmt.Sprint(b)
		}
		return strings.Compare(x, y)
	}
	return -2
}

// visible lists the rows the statement sees.
func (q *stmt) visible(n string) (rows [][]driver.Value, committed []int) {
	for i, r := range q.e.tables[n].rows {
		if q.tx != nil && q.tx.dels[n][i] {
			continue
		}
		rows = append(rows, r)
		committed = append(committed, i)
	}
	if q.tx != nil {
		for _, r := range q.tx.adds[n] {
			rows = append(rows, r)
			committed = append(committed, -1)
		}
	}
	return
}

type cond func(r []driver.Value) bool

// ex is an expression: r is the row, g the rows an aggregate is over.
type ex func(g [][]driver.Value, r []driver.Value) driver.Value

// scope is the table whose columns an expression may use.
type scope struct {
	t     *table
	name  string
	alias string
	agg   bool // an aggregate was used
}

func (q *stmt) where(sc *scope) cond {
	if !q.accept("where") {
		return func([]driver.Value) bool { return true }
	}
	f := q.or(sc)
	if sc.agg {
		panic(errUnknown)
	}
	return func(r []driver.Value) bool { return f(nil, r) == true }
}

func (q *stmt) or(sc *scope) ex {
	a := q.and(sc)
	for q.accept("or") {
		b, l := q.and(sc), a
		a = func(g [][]driver.Value, r []driver.Value) driver.Value {
			x, y := l(g, r), b(g, r)
			if x == true || y == true {
				return true
			}
			if x == nil || y == nil {
				return nil
			}
			return false
		}
	}
	return a
}

func (q *stmt) and(sc *scope) ex {
	a := q.not(sc)
	for q.accept("and") {
		b, l := q.not(sc), a
		a = func(g [][]driver.Value, r []driver.Value) driver.Value {
			x, y := l(g, r), b(g, r)
			if x == false || y == false {
				return false
			}
			if x == nil || y == nil {
				return nil
			}
			return true
		}
	}
	return a
}

func (q *stmt) not(sc *scope) ex {
	if q.accept("not") {
		f := q.not(sc)
		return func(g [][]driver.Value, r []driver.Value) driver.Value { return invert(f(g, r)) }
	}
	return q.comparison(sc)
}

func invert(v driver.Value) driver.Value {
	if b, ok := v.(bool); ok {
		return !b
	}
	return nil
}

func constant(v driver.Value) ex {
	return func([][]driver.Value, []driver.Value) driver.Value { return v }
}

func member(v driver.Value, set []driver.Value) driver.Value {
	var out driver.Value = false
	for _, w := range set {
		if v == nil || w == nil {
			out = nil
		} else if compare(v, w) == 0 {
			return true
		}
	}
	return out
}

// elements splits the text of an array parameter.
func elements(v driver.Value) (out []driver.Value) {
	if b, ok := v.([]byte); ok {
		v = string(b)
	}
	s, ok := v.(string)
	if !ok || len(s) < 2 || s[0] != '{' || strings.ContainsAny(s, "\\") {
		panic(errUnknown)
	}
	if s = s[1 : len(s)-1]; s == "" {
		return nil
	}
	for _, x := range strings.Split(s, ",") {
		out = append(out, strings.Trim(x, `"`))
	}
	return
}

func first(rows [][]driver.Value) (out []driver.Value) {
	for _, r := range rows {
		out = append(out, r[0])
	}
	return
}

func (q *stmt) comparison(sc *scope) ex {
	a := q.sum(sc)
	neg := false
	if q.accept("not") {
		neg = true
		if p := q.peek(); p != "in" && p != "between" {
			panic(errUnknown)
		}
	}
	flip := func(f ex) ex {
		if !neg {
			return f
		}
		return func(g [][]driver.Value, r []driver.Value) driver.Value { return invert(f(g, r)) }
	}
	switch op := q.peek(); op {
	case "is":
		q.next()
		neg = q.accept("not")
		if q.accept("null") {
			return flip(func(g [][]driver.Value, r []driver.Value) driver.Value { return a(g, r) == nil })
		}
		panic(errUnknown)
	case "in":
		q.next()
		q.need("(")
		var set []driver.Value
		var more []ex
		if q.peek() == "select" {
			_, rows := q.sel()
			set = first(rows)
		} else {
			more = append(more, q.sum(sc))
			for q.accept(",") {
				more = append(more, q.sum(sc))
			}
		}
		q.need(")")
		return flip(func(g [][]driver.Value, r []driver.Value) driver.Value {
			l := set
			for _, m := range more {
				l = append(l[:len(l):len(l)], m(g, r))
			}
			return member(a(g, r), l)
		})
	case "between":
		q.next()
		b := q.sum(sc)
		q.need("and")
		c := q.sum(sc)
		return flip(func(g [][]driver.Value, r []driver.Value) driver.Value {
			x, y, z := a(g, r), b(g, r), c(g, r)
			if x == nil || y == nil || z == nil {
				return nil
			}
			return compare(x, y) >= 0 && compare(x, z) <= 0
		})
	case "=", "<", ">", "<=", ">=", "<>", "!=":
		q.next()
		if op == "=" && q.accept("any", "(") {
			var set []driver.Value
			if q.peek() == "select" {
				_, rows := q.sel()
				set = first(rows)
			} else {
				set = elements(q.sum(sc)(nil, nil))
			}
			q.need(")")
			return func(g [][]driver.Value, r []driver.Value) driver.Value { return member(a(g, r), set) }
		}
		b := q.sum(sc)
		return func(g [][]driver.Value, r []driver.Value) driver.Value {
			x, y := a(g, r), b(g, r)
			if x == nil || y == nil {
				return nil
			}
			c := compare(x, y)
			switch op {
			case "=":
				return c == 0
			case "<":
				return c < 0
			case ">":
				return c > 0
			case "<=":
				return c <= 0
			case ">=":
				return c >= 0
			}
			return c != 0
		}
	}
	return a
}

func (q *stmt) sum(sc *scope) ex {
	a := q.product(sc)
	for q.peek() == "+" || q.peek() == "-" {
		op := q.next()
		b, l := q.product(sc), a
		a = func(g [][]driver.Value, r []driver.Value) driver.Value { return calc(op, l(g, r), b(g, r)) }
	}
	return a
}

func (q *stmt) product(sc *scope) ex {
	a := q.term(sc)
	for q.peek() == "*" {
		op := q.next()
		b, l := q.term(sc), a
		a = func(g [][]driver.Value, r []driver.Value) driver.Value { return calc(op, l(g, r), b(g, r)) }
	}
	return a
}

func integer(v driver.Value) int64 {
	switch x := v.(type) {
	case int64:
		return x
	case string:
		if n, err := strconv.ParseInt(x, 10, 64); err == nil {
			return n
		}
		panic(&pq.Error{Code: "22P02", Severity: "ERROR", Message: "invalid input syntax for type integer"})
	}
	panic(errUnknown)
}

func calc(op string, a, b driver.Value) driver.Value {
	if a == nil || b == nil {
		return nil
	}
	x, y := integer(a), integer(b)
	switch op {
	case "+":
		return x + y
	case "-":
		return x - y
	}
	return x * y
}

func (q *stmt) term(sc *scope) ex {
	f := q.factor(sc)
	for q.accept(":", ":") {
		if t := q.next(); !strings.HasPrefix(t, "int") && t != "bigint" && t != "text" {
			panic(errUnknown)
		}
	}
	return f
}

func (q *stmt) factor(sc *scope) ex {
	p := q.peek()
	switch {
	case p == "":
		panic(errUnknown)
	case p == "(":
		q.next()
		if q.peek() == "select" {
			_, rows := q.sel()
			q.need(")")
			if len(rows) > 1 {
				panic(&pq.Error{Code: "21000", Severity: "ERROR", Message: "more than one row returned by a subquery used as an expression"})
			}
			if len(rows) == 0 {
				return constant(nil)
			}
			return constant(rows[0][0])
		}
		f := q.or(sc)
		q.need(")")
		return f
	case p == "true" || p == "false":
		q.next()
		return constant(p == "true")
	case p == "-":
		q.next()
		f := q.term(sc)
		return func(g [][]driver.Value, r []driver.Value) driver.Value { return calc("-", int64(0), f(g, r)) }
	case p == "null" || p[0] == '$' || p[0] == '\'' || unicode.IsDigit(rune(p[0])):
		return constant(q.value())
	}
	if q.p+1 < len(q.tok) && q.tok[q.p+1] == "(" {
		fn := q.next()
		q.need("(")
		switch fn {
		case "exists":
			_, rows := q.sel()
			q.need(")")
			return constant(len(rows) > 0)
		case "coalesce":
			fs := []ex{q.or(sc)}
			for q.accept(",") {
				fs = append(fs, q.or(sc))
			}
			q.need(")")
			return func(g [][]driver.Value, r []driver.Value) driver.Value {
				for _, f := range fs {
					if v := f(g, r); v != nil {
						return v
					}
				}
				return nil
			}
		case "count", "max", "min":
			var f ex = constant(int64(1))
			if fn != "count" || !q.accept("*") {
				in := *sc
				in.agg = false
				if f = q.or(&in); in.agg {
					panic(errUnknown)
				}
			}
			q.need(")")
			sc.agg = true
			return func(g [][]driver.Value, _ []driver.Value) driver.Value {
				var v driver.Value
				n := int64(0)
				for _, r := range g {
					x := f(nil, r)
					if x == nil {
						continue
					}
					n++
					if v == nil || (compare(x, v) > 0) == (fn == "max") {
						v = x
					}
				}
				if fn == "count" {
					return n
				}
				return v
			}
		}
		panic(errUnknown)
	}
	i := q.colName(sc)
	return func(_ [][]driver.Value, r []driver.Value) driver.Value {
		if r == nil {
			panic(errUnknown)
		}
		return r[i]
	}
}

// colName reads a column of the table.
func (q *stmt) colName(sc *scope) int {
	n := q.next()
	if q.accept(".") {
		if n != sc.name && n != sc.alias {
			panic(errUnknown)
		}
		n = q.next()
	}
	if sc.t == nil {
		panic(errUnknown)
	}
	i := sc.t.col(n)
	if i < 0 {
		panic(&pq.Error{Code: "42703", Severity: "ERROR", Message: "column " + n + " does not exist"})
	}
	return i
}

var keywords = map[string]bool{"where": true, "order": true, "limit": true, "offset": true, "for": true, "set": true, "values": true, "on": true,
	"join": true, "left": true, "inner": true, "group": true, "having": true, "union": true, "returning": true, "select": true, "using": true, "cross": true, "fetch": true}

// from reads the name of a table and the name it gets.
func (q *stmt) from() *scope {
	n, t := q.tab()
	sc := &scope{t: t, name: n}
	if q.accept("as") {
		sc.alias = q.next()
	} else if p := q.peek(); p != "" && !keywords[p] && (unicode.IsLetter(rune(p[0])) || p[0] == '_') {
		sc.alias = q.next()
	}
	return sc
}

func (q *stmt) sel() (names []string, out [][]driver.Value) {
	q.need("select")
	if q.peek() == "distinct" {
		panic(errUnknown)
	}
	// what is selected uses the table, which comes later
	start, depth := q.p, 0
	for q.p < len(q.tok) {
		p := q.peek()
		if depth == 0 && (keywords[p] || p == "from" || p == ")" || p == ";") {
			break
		}
		switch p {
		case "(":
			depth++
		case ")":
			depth--
		}
		q.p++
	}
	sc := &scope{}
	hit := [][]driver.Value{{}}
	if q.accept("from") {
		sc = q.from()
	}
	after := q.p
	q.p = start
	type item struct {
		name string
		f    ex
	}
	var items []item
	for {
		star := q.accept("*")
		if !star && sc.t != nil && q.p+2 < len(q.tok) && q.tok[q.p+1] == "." && q.tok[q.p+2] == "*" {
			if n := q.next(); n != sc.name && n != sc.alias {
				panic(errUnknown)
			}
			q.p += 2
			star = true
		}
		if star {
			if sc.t == nil {
				panic(errUnknown)
			}
			for i, c := range sc.t.cols {
				i := i
				items = append(items, item{c.name, func(_ [][]driver.Value, r []driver.Value) driver.Value { return r[i] }})
			}
		} else {
			name := "?column?"
			if p := q.peek(); p != "" && unicode.IsLetter(rune(p[0])) {
				name = p
				if q.p+2 < len(q.tok) && q.tok[q.p+1] == "." {
					name = q.tok[q.p+2]
				}
			}
			f := q.or(sc)
			if q.accept("as") {
				name = q.next()
			}
			items = append(items, item{name, f})
		}
		if !q.accept(",") {
			break
		}
	}
	if p := q.peek(); !keywords[p] && p != "from" && p != "" && p != ")" && p != ";" {
		panic(errUnknown)
	}
	q.p = after
	agg := sc.agg
	if sc.t == nil {
		if !q.where(sc)(nil) {
			hit = nil
		}
	} else {
		if p := q.peek(); p != "" && p != "where" && p != "order" && p != "limit" && p != ")" && p != ";" && p != "offset" && p != "for" {
			panic(errUnknown)
		}
		sc.agg = false
		c := q.where(sc)
		rows, _ := q.visible(sc.name)
		hit = nil
		for _, r := range rows {
			if c(r) {
				hit = append(hit, r)
			}
		}
		if q.e.reverse {
			for i, j := 0, len(hit)-1; i < j; i, j = i+1, j-1 {
				hit[i], hit[j] = hit[j], hit[i]
			}
		}
	}
	if sc.t != nil && q.accept("order", "by") {
		type key struct {
			f    ex
			desc bool
		}
		var ks []key
		for {
			if p := q.peek(); p == "" || unicode.IsDigit(rune(p[0])) {
				panic(errUnknown)
			}
			k := key{f: q.sum(sc)}
			if q.accept("desc") {
				k.desc = true
			} else {
				q.accept("asc")
			}
			ks = append(ks, k)
			if !q.accept(",") {
				break
			}
		}
		sort.SliceStable(hit, func(a, b int) bool {
			for _, k := range ks {
				if d := compare(k.f(nil, hit[a]), k.f(nil, hit[b])); d != 0 {
					return (d < 0) != k.desc
				}
			}
			return false
		})
	}
	limit := int64(-1)
	off := int64(0)
	for {
		if q.accept("limit") {
			limit = integer(q.sum(&scope{})(nil, nil))
		} else if q.accept("offset") {
			off = integer(q.sum(&scope{})(nil, nil))
		} else if q.accept("for", "update") || q.accept("for", "share") {
		} else {
			break
		}
	}
	for _, o := range items {
		names = append(names, o.name)
	}
	all := hit
	if agg {
		hit = [][]driver.Value{nil}
	}
	for k, r := range hit {
		if int64(k) < off || limit >= 0 && int64(k) >= off+limit {
			continue
		}
		var row []driver.Value
		for _, o := range items {
			v := o.f(all, r)
			if b, ok := v.([]byte); ok {
				v = append([]byte{}, b...)
			}
			row = append(row, v)
		}
		out = append(out, row)
	}
	return
}

func (c column) check(v driver.Value) driver.Value {
	if v == nil {
		if c.notNull {
			panic(&pq.Error{Code: "23502", Severity: "ERROR", Message: "null value in column " + c.name})
		}
		return nil
	}
	switch {
	case strings.HasPrefix(c.typ, "int") || c.typ == "integer" || c.typ == "bigint":
		n, ok := v.(int64)
		if !ok {
			panic(&pq.Error{Code: "22P02", Severity: "ERROR", Message: "invalid input syntax for type integer"})
		}
		if c.typ != "bigint" && (n > 1<<31-1 || n < -1<<31) {
			panic(&pq.Error{Code: "22003", Severity: "ERROR", Message: "integer out of range"})
		}
		return n
	case c.typ == "bytea":
		switch x := v.(type) {
		case []byte:
			return append([]byte{}, x...)
		case string:
			return []byte(x)
		}
		panic(errUnknown)
	default:
		switch x := v.(type) {
		case []byte:
			return string(x)
		case string:
			return x
		}
		return fmt.Sprint(v)
	}
}

// clash finds a row that a unique column forbids: 1 visible, 2 of another open
// transaction.
func (q *stmt) clash(n string, row []driver.Value, only int) int {
	t := q.e.tables[n]
	same := func(r []driver.Value) bool {
		for i, c := range t.cols {
			if c.unique && (only < 0 || only == i) && compare(r[i], row[i]) == 0 {
				return true
			}
		}
		return false
	}
	rows, _ := q.visible(n)
	for _, r := range rows {
		if same(r) {
			return 1
		}
	}
	for _, x := range q.e.open {
		if x != q.tx {
			for _, r := range x.adds[n] {
				if same(r) {
					return 2
				}
			}
		}
	}
	return 0
}

func (q *stmt) insert() int64 {
	q.need("insert", "into")
	sc := q.from()
	n, t := sc.name, sc.t
	cols := []int{}
	if q.accept("(") {
		for {
			cols = append(cols, q.colName(sc))
			if !q.accept(",") {
				break
			}
		}
		q.need(")")
	} else {
		for i := range t.cols {
			cols = append(cols, i)
		}
	}
	var rows [][]driver.Value
	if q.peek() == "select" {
		_, sel := q.sel()
		for _, r := range sel {
			row := make([]driver.Value, len(t.cols))
			for k, i := range cols {
				if k < len(r) {
					row[i] = r[k]
				}
			}
			for i := range row {
				row[i] = t.cols[i].check(row[i])
			}
			rows = append(rows, row)
		}
	} else {
		q.need("values")
		for {
			q.need("(")
			row := make([]driver.Value, len(t.cols))
			for k, i := range cols {
				if k > 0 {
					q.need(",")
				}
				row[i] = q.sum(&scope{})(nil, nil)
			}
			q.need(")")
			for i := range row {
				row[i] = t.cols[i].check(row[i])
			}
			rows = append(rows, row)
			if !q.accept(",") {
				break
			}
		}
	}
	nothing, update := false, false
	on := -1
	var set []func(old, row []driver.Value)
	if q.accept("on", "conflict") {
		if q.accept("(") {
			on = q.colName(sc)
			q.need(")")
		}
		q.need("do")
		if q.accept("nothing") {
			nothing = true
		} else {
			q.need("update", "set")
			update = true
			for {
				i := q.colName(sc)
				q.need("=")
				if q.accept("excluded", ".") {
					j := q.colName(sc)
					set = append(set, func(old, row []driver.Value) { old[i] = row[j] })
				} else {
					v := q.value()
					set = append(set, func(old, row []driver.Value) { old[i] = t.cols[i].check(v) })
				}
				if !q.accept(",") {
					break
				}
			}
		}
	}
	q.end()
	var done int64
	for _, row := range rows {
		for q.clash(n, row, -1) == 2 {
			q.e.cond.Wait()
		}
		if q.clash(n, row, -1) == 1 {
			if nothing && (on < 0 || q.clash(n, row, on) == 1) {
				continue
			}
			if update && q.clash(n, row, on) == 1 {
				vis, ix := q.visible(n)
				for k, r := range vis {
					if compare(r[on], row[on]) == 0 {
						nr := append([]driver.Value{}, r...)
						for _, f := range set {
							f(nr, row)
						}
						q.drop(n, k, ix)
						q.tx.adds[n] = append(q.tx.adds[n], nr)
					}
				}
				done++
				continue
			}
			panic(&pq.Error{Code: "23505", Severity: "ERROR", Message: "duplicate key value violates unique constraint"})
		}
		q.tx.adds[n] = append(q.tx.adds[n], row)
		done++
	}
	return done
}

func (q *stmt) drop(n string, k int, ix []int) {
	if ix[k] >= 0 {
		if q.tx.dels[n] == nil {
			q.tx.dels[n] = map[int]bool{}
		}
		q.tx.dels[n][ix[k]] = true
		return
	}
	own := 0
	for j := 0; j < k; j++ {
		if ix[j] < 0 {
			own++
		}
	}
	a := q.tx.adds[n]
	q.tx.adds[n] = append(append([][]driver.Value{}, a[:own]...), a[own+1:]...)
}

func (q *stmt) change() int64 {
	del := q.accept("delete", "from")
	if !del {
		q.need("update")
	}
	sc := q.from()
	n, t := sc.name, sc.t
	type asg struct {
		i int
		v driver.Value
	}
	var set []asg
	if !del {
		q.need("set")
		for {
			a := asg{i: q.colName(sc)}
			q.need("=")
			a.v = q.value()
			set = append(set, a)
			if !q.accept(",") {
				break
			}
		}
	}
	c := q.where(sc)
	q.end()
	var done int64
	rows, ix := q.visible(n)
	for k := len(rows) - 1; k >= 0; k-- {
		if !c(rows[k]) {
			continue
		}
		nr := append([]driver.Value{}, rows[k]...)
		for _, a := range set {
			nr[a.i] = t.cols[a.i].check(a.v)
		}
		q.drop(n, k, ix)
		if !del {
			q.tx.adds[n] = append(q.tx.adds[n], nr)
		}
		done++
	}
	return done
}

func (q *stmt) end() {
	for q.accept(";") {
	}
	if q.p < len(q.tok) {
		panic(errUnknown)
	}
}

func (q *stmt) create() {
	q.need("create", "table")
	q.accept("if", "not", "exists")
	n := q.next()
	if q.accept(".") {
		n = q.next()
	}
	q.need("(")
	t := &table{}
	for {
		if (q.peek() == "unique" || q.peek() == "primary") && q.p+1 < len(q.tok) {
			pk := q.next() == "primary"
			if pk {
				q.need("key")
			}
			q.need("(")
			i := q.colName(&scope{t: t})
			q.need(")")
			t.cols[i].unique = true
			t.cols[i].notNull = t.cols[i].notNull || pk
		} else {
			c := column{name: q.next(), typ: q.next()}
			if q.accept("(") {
				q.next()
				q.need(")")
			}
		attrs:
			for {
				switch {
				case q.accept("primary", "key"):
					c.unique, c.notNull = true, true
				case q.accept("unique"):
					c.unique = true
				case q.accept("not", "null"):
					c.notNull = true
				case q.accept("null"):
				default:
					break attrs
				}
			}
			t.cols = append(t.cols, c)
		}
		if !q.accept(",") {
			break
		}
	}
	q.need(")")
	if q.p < len(q.tok) {
		q.need(";")
	}
	q.e.tables[n] = t
}

const fallbackSchema = `CREATE TABLE block_header (hash varchar(100) PRIMARY KEY, height int NOT NULL UNIQUE, header_bytes bytea NOT NULL);
CREATE TABLE filter (filter_key varchar(100) PRIMARY KEY, filter_value bytea NOT NULL);`

var schemaText = func() string {
	_, me, _, _ := runtime.Caller(0)
	dir := filepath.Join(filepath.Dir(me), "../../internal/infrastructure/storage/db/pg/migration")
	fs, _ := filepath.Glob(filepath.Join(dir, "*.up.sql"))
	sort.Strings(fs)
	var b strings.Builder
	for _, f := range fs {
		x, err := os.ReadFile(f)
		if err == nil {
			b.Write(x)
			b.WriteString("\n")
		}
	}
	return b.String()
}()

func newEngine() *engine {
	e := &engine{}
	e.cond = sync.NewCond(&e.mu)
	if !e.schema(schemaText) || e.tables["block_header"] == nil || e.tables["filter"] == nil {
		e.schema(fallbackSchema)
	}
	return e
}

func (e *engine) schema(s string) (ok bool) {
	e.tables = map[string]*table{}
	tok, err := lex(s)
	if err != nil {
		return false
	}
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	q := &stmt{e: e, tok: tok}
	for q.p < len(q.tok) {
		q.create()
	}
	return true
}

// ---- transactions

func (e *engine) begin() *txn {
	t := &txn{adds: map[string][][]driver.Value{}, dels: map[string]map[int]bool{}, owner: e}
	e.open = append(e.open, t)
	return t
}

func (e *engine) finish(t *txn, commit bool) {
	if t.done {
		return
	}
	t.done = true
	for i, x := range e.open {
		if x == t {
			e.open = append(append([]*txn{}, e.open[:i]...), e.open[i+1:]...)
			break
		}
	}
	if commit && !t.aborted {
		for n, tb := range e.tables {
			if d := t.dels[n]; len(d) > 0 {
				var keep [][]driver.Value
				for i, r := range tb.rows {
					if !d[i] {
						keep = append(keep, r)
					}
				}
				tb.rows = keep
			}
			tb.rows = append(tb.rows, t.adds[n]...)
		}
	}
	e.cond.Broadcast()
}

// call is the scheduling point and fault decision before every driver call.
func (e *engine) call(kind string) (error, bool) {
	vs.Point()
	e.mu.Lock()
	defer e.mu.Unlock()
	e.calls++
	if e.fault != nil {
		return e.fault(e.calls, kind)
	}
	return nil, false
}

func (e *engine) run(t *txn, text string, args []driver.NamedValue) (names []string, rows [][]driver.Value, n int64, err error) {
	e.mu.Lock()
	defer e.mu.Unlock()
	tok, err := lex(text)
	if err != nil {
		e.odd = text
		return nil, nil, 0, err
	}
	auto := t == nil
	if auto {
		t = e.begin()
		defer func() { e.finish(t, err == nil) }()
	}
	if t.aborted {
		return nil, nil, 0, &pq.Error{Code: "25P02", Severity: "ERROR", Message: "current transaction is aborted"}
	}
	defer func() {
		if r := recover(); r != nil {
			switch x := r.(type) {
			case *pq.Error:
				err = x
			case error:
				if x == errUnknown {
					e.odd = text
					err = x
				} else {
					panic(r)
				}
			default:
				panic(r)
			}
			t.aborted = true
		}
	}()
	q := &stmt{e: e, tx: t, tok: tok}
	for _, a := range args {
		q.args = append(q.args, a.Value)
	}
	switch q.peek() {
	case "select":
		names, rows = q.sel()
		q.end()
	case "insert":
		n = q.insert()
	case "update", "delete":
		n = q.change()
	default:
		panic(errUnknown)
	}
	return
}

// ---- driver

type drv struct{ e *engine }

func (d drv) Connect(context.Context) (driver.Conn, error) { return &conn{e: d.e}, nil }
func (d drv) Driver() driver.Driver                        { return d }
func (d drv) Open(string) (driver.Conn, error)             { return &conn{e: d.e}, nil }

type conn struct {
	e  *engine
	tx *txn
}

func (c *conn) Prepare(q string) (driver.Stmt, error) { return &prep{c, q}, nil }
func (c *conn) Close() error {
	c.e.mu.Lock()
	defer c.e.mu.Unlock()
	if c.tx != nil {
		c.e.finish(c.tx, false)
		c.tx = nil
	}
	return nil
}
func (c *conn) Begin() (driver.Tx, error) { return c.BeginTx(context.Background(), driver.TxOptions{}) }

func (c *conn) BeginTx(context.Context, driver.TxOptions) (driver.Tx, error) {
	if err, _ := c.e.call("begin"); err != nil {
		return nil, err
	}
	c.e.mu.Lock()
	defer c.e.mu.Unlock()
	c.tx = c.e.begin()
	return &tx{c}, nil
}

type tx struct{ c *conn }

func (t *tx) end(commit bool) error {
	e := t.c.e
	e.mu.Lock()
	defer e.mu.Unlock()
	x := t.c.tx
	t.c.tx = nil
	if x == nil {
		return nil
	}
	bad := x.aborted && commit
	e.finish(x, commit)
	if bad {
		return errors.New("pq: Could not complete operation in a failed transaction")
	}
	return nil
}

func (t *tx) Commit() error {
	if err, nevertheless := t.c.e.call("commit"); err != nil {
		_ = t.end(nevertheless)
		return err
	}
	return t.end(true)
}

func (t *tx) Rollback() error {
	_, _ = t.c.e.call("rollback")
	return t.end(false)
}

func (c *conn) fail(err error, nevertheless bool, q string, args []driver.NamedValue) error {
	if nevertheless {
		_, _, _, _ = c.e.run(c.tx, q, args)
	}
	if c.tx != nil {
		c.e.mu.Lock()
		c.tx.aborted = true
		c.e.mu.Unlock()
	}
	return err
}

func (c *conn) ExecContext(_ context.Context, q string, args []driver.NamedValue) (driver.Result, error) {
	if err, n := c.e.call("exec"); err != nil {
		return nil, c.fail(err, n, q, args)
	}
	_, _, n, err := c.e.run(c.tx, q, args)
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(n), nil
}

func (c *conn) QueryContext(_ context.Context, q string, args []driver.NamedValue) (driver.Rows, error) {
	if err, n := c.e.call("query"); err != nil {
		return nil, c.fail(err, n, q, args)
	}
	names, rows, _, err := c.e.run(c.tx, q, args)
	if err != nil {
		return nil, err
	}
	return &result{c.e, names, rows, 0}, nil
}

func (c *conn) ResetSession(context.Context) error { return nil }

type prep struct {
	c *conn
	q string
}

func named(a []driver.Value) (out []driver.NamedValue) {
	for i, v := range a {
		out = append(out, driver.NamedValue{Ordinal: i + 1, Value: v})
	}
	return
}

func (p *prep) Close() error  { return nil }
func (p *prep) NumInput() int { return -1 }
func (p *prep) Exec(a []driver.Value) (driver.Result, error) {
	return p.c.ExecContext(context.Background(), p.q, named(a))
}
func (p *prep) Query(a []driver.Value) (driver.Rows, error) {
	return p.c.QueryContext(context.Background(), p.q, named(a))
}

type result struct {
	e     *engine
	names []string
	rows  [][]driver.Value
	i     int
}

func (r *result) Columns() []string { return r.names }
func (r *result) Close() error      { return nil }
func (r *result) Next(dst []driver.Value) error {
	if len(r.rows) > 0 && r.i <= len(r.rows) {
		if err, _ := r.e.call("next"); err != nil {
			return err
		}
	}
	if r.i >= len(r.rows) {
		return io.EOF
	}
	copy(dst, r.rows[r.i])
	r.i++
	return nil
}

func (e *engine) db() *sqlx.DB {
	return sqlx.NewDb(sql.OpenDB(drv{e}), "postgres")
}

// idle tells whether no transaction is open.
func (e *engine) idle() bool {
	e.mu.Lock()
	defer e.mu.Unlock()
	return len(e.open) == 0
}
