package env

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/inklabs/rangedb/provider/postgresstore"
)

// PgFake is a server that speaks the PostgreSQL protocol.
type PgFake struct {
	lis net.Listener
	db  *pgDB

	mu    sync.Mutex
	conns map[*pgConn]bool
	next  int32

	fmu    sync.Mutex
	fault  func(sql string) string
	rnd    *rand.Rand
	delay  time.Duration
	faults map[string]int
}

// SetFault has f asked before every statement: "" lets it run, "error" refuses
// it, "drop" breaks the connection before it ran and "lost" after it ran.
func (f *PgFake) SetFault(ask func(sql string) string) {
	f.fmu.Lock()
	defer f.fmu.Unlock()
	f.fault = ask
}

// SetFaults makes rate of 1000 statements fail in one of the given ways, and
// every statement take up to the given time.
func (f *PgFake) SetFaults(rate int, delay time.Duration, kinds ...string) {
	f.fmu.Lock()
	defer f.fmu.Unlock()
	f.delay = delay
	f.fault = nil
	if rate > 0 && len(kinds) > 0 {
		f.fault = func(string) string {
			if f.rnd.Intn(1000) < rate {
				return kinds[f.rnd.Intn(len(kinds))]
			}
			return ""
		}
	}
}

// Faults tells how many faults of each kind there were.
func (f *PgFake) Faults() map[string]int {
	f.fmu.Lock()
	defer f.fmu.Unlock()
	m := map[string]int{}
	for k, n := range f.faults {
		m[k] = n
	}
	return m
}

func (f *PgFake) plan(sql string) (fault string, d time.Duration) {
	f.fmu.Lock()
	defer f.fmu.Unlock()
	if f.delay > 0 {
		d = time.Duration(f.rnd.Int63n(int64(f.delay)))
	}
	if f.fault != nil {
		if fault = f.fault(sql); fault != "" {
			f.faults[fault]++
		}
	}
	return
}

type pgDB struct {
	mu     sync.Mutex
	cond   *sync.Cond
	tables map[string]*pgTable
	locks  map[int64]*pgLock
	rnd    *rand.Rand
	f      *PgFake

	unsupported []string
	statements  int
	waits       int
}

type pgLock struct {
	tx *pgTx
	n  int
}

type pgConn struct {
	f      *PgFake
	c      net.Conn
	w      *bufio.Writer
	wmu    sync.Mutex
	pid    int32
	secret int32
	tx     *pgTx
	failed bool
	listen map[string]bool

	stopped bool // cancel requested; guarded by db.mu
	busy    bool
	gone    bool

	stmts   map[string]*pgPrep
	portals map[string]*pgPortal
}

type pgPrep struct {
	s       *pgStmt
	sql     string
	results []string
}

type pgPortal struct {
	p      *pgPrep
	params []interface{}
	binary []bool
}

// NewPg starts a server.
func NewPg(seed int64) *PgFake {
	lis, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		panic("harness: " + err.Error())
	}
	f := &PgFake{lis: lis, conns: map[*pgConn]bool{}, rnd: rand.New(rand.NewSource(seed + 1)), faults: map[string]int{}}
	f.db = &pgDB{tables: map[string]*pgTable{}, locks: map[int64]*pgLock{}, rnd: rand.New(rand.NewSource(seed)), f: f}
	f.db.cond = sync.NewCond(&f.db.mu)
	go func() {
		for {
			c, err := lis.Accept()
			if err != nil {
				return
			}
			go f.serve(c)
		}
	}()
	return f
}

// Config points at the server.
func (f *PgFake) Config() *postgresstore.Config {
	return &postgresstore.Config{Host: "127.0.0.1", Port: f.lis.Addr().(*net.TCPAddr).Port, User: "verif", Password: "verif", DBName: "verif"}
}

// Close stops the server.
func (f *PgFake) Close() {
	_ = f.lis.Close()
	f.Drop()
}

// Drop breaks every connection.
func (f *PgFake) Drop() {
	for _, c := range f.all() {
		_ = c.c.Close()
		f.db.mu.Lock()
		c.stopped, c.gone = true, true
		f.db.cond.Broadcast()
		f.db.mu.Unlock()
	}
}

func (f *PgFake) all() (out []*pgConn) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for c := range f.conns {
		out = append(out, c)
	}
	return out
}

// Unsupported lists the statements the server did not understand.
func (f *PgFake) Unsupported() []string {
	f.db.mu.Lock()
	defer f.db.mu.Unlock()
	return append([]string(nil), f.db.unsupported...)
}

// Stats tells the number of statements, of waits for other transactions and of open transactions.
func (f *PgFake) Stats() (statements, waits, open int) {
	conns := f.all()
	f.db.mu.Lock()
	defer f.db.mu.Unlock()
	for _, c := range conns {
		if c.tx != nil {
			open++
		}
	}
	return f.db.statements, f.db.waits, open
}

// wait releases the database until something changed.
func (db *pgDB) wait(c *pgConn) {
	if c.stopped {
		panic(pgFail("57014", "canceling statement due to user request"))
	}
	db.waits++
	db.cond.Wait()
	if c.stopped {
		panic(pgFail("57014", "canceling statement due to user request"))
	}
}

func (db *pgDB) lock(c *pgConn, tx *pgTx, k int64) {
	for {
		l := db.locks[k]
		if l == nil {
			db.locks[k] = &pgLock{tx: tx, n: 1}
			tx.locks = append(tx.locks, k)
			return
		}
		if l.tx == tx {
			return
		}
		db.wait(c)
	}
}

func (db *pgDB) note(tx *pgTx, channel, payload string) {
	if len(payload) >= 8000 {
		panic(pgFail("22023", "payload string too long"))
	}
	tx.notes = append(tx.notes, pgNote{channel, payload})
}

func (v *pgEval) rowJSON(vals []interface{}) string {
	var b strings.Builder
	b.WriteByte('{')
	for i, c := range v.t.cols {
		if i > 0 {
			b.WriteByte(',')
		}
		fmt.Fprintf(&b, "%q:", c.name)
		switch x := vals[i].(type) {
		case nil:
			b.WriteString("null")
		case int64:
			b.WriteString(strconv.FormatInt(x, 10))
		case string:
			var j strings.Builder
			e := json.NewEncoder(&j)
			e.SetEscapeHTML(false)
			_ = e.Encode(x)
			b.WriteString(strings.TrimSuffix(j.String(), "\n"))
		}
	}
	b.WriteByte('}')
	return b.String()
}

func newPgTx() *pgTx { return &pgTx{tables: map[*pgTable]bool{}} }

// finish ends a transaction; db.mu is held.
func (db *pgDB) finish(tx *pgTx, commit bool) {
	if tx.done {
		return
	}
	tx.done = true
	for _, r := range tx.rows {
		if commit {
			if r.by == tx {
				r.by = nil
			}
			if r.del == tx {
				r.dead = true
			}
		} else {
			if r.by == tx {
				r.dead = true
			}
			if r.del == tx {
				r.del = nil
			}
		}
	}
	for t := range tx.tables {
		keep := t.rows[:0:0]
		for _, r := range t.rows {
			if !r.dead {
				keep = append(keep, r)
			}
		}
		t.rows = keep
	}
	for _, k := range tx.locks {
		delete(db.locks, k)
	}
	db.cond.Broadcast()
	if commit && len(tx.notes) > 0 {
		db.f.deliver(tx.notes)
	}
}

func (f *PgFake) deliver(notes []pgNote) {
	f.mu.Lock()
	defer f.mu.Unlock()
	for c := range f.conns {
		for _, n := range notes {
			if c.listen[n.channel] {
				b := append([]byte{0, 0, 0, 1}, n.channel...)
				b = append(b, 0)
				b = append(b, n.payload...)
				c.wmu.Lock()
				c.send('A', append(b, 0))
				_ = c.w.Flush()
				c.wmu.Unlock()
			}
		}
	}
}

func (c *pgConn) send(t byte, b []byte) {
	h := []byte{t, 0, 0, 0, 0}
	binary.BigEndian.PutUint32(h[1:], uint32(len(b)+4))
	_, _ = c.w.Write(h)
	_, _ = c.w.Write(b)
}

func (c *pgConn) put(t byte, b []byte) {
	c.wmu.Lock()
	c.send(t, b)
	c.wmu.Unlock()
}

func (c *pgConn) flush() {
	c.wmu.Lock()
	_ = c.w.Flush()
	c.wmu.Unlock()
}

func (c *pgConn) ready() {
	s := byte('I')
	if c.failed {
		s = 'E'
	} else if c.tx != nil {
		s = 'T'
	}
	c.put('Z', []byte{s})
	c.flush()
}

func (c *pgConn) error(e *pgErr) {
	var b []byte
	f := func(k byte, s string) { b = append(append(append(b, k), s...), 0) }
	f('S', "ERROR")
	f('C', e.code)
	f('M', e.msg)
	if e.constraint != "" {
		f('n', e.constraint)
	}
	c.put('E', append(b, 0))
	if c.tx != nil {
		c.failed = true
	}
}

func pgOID(ty string) (oid uint32, size int16) {
	switch ty {
	case "int8":
		return 20, 8
	case "int4":
		return 23, 4
	case "bool":
		return 16, 1
	case "text[]":
		return 1009, -1
	case "void":
		return 2278, 4
	}
	return 25, -1
}

func u16(b []byte, n int) []byte    { return append(b, byte(n>>8), byte(n)) }
func u32(b []byte, n uint32) []byte { return append(b, byte(n>>24), byte(n>>16), byte(n>>8), byte(n)) }

func (c *pgConn) describe(p *pgPrep, bin []bool) {
	if len(p.results) == 0 {
		c.put('n', nil)
		return
	}
	b := u16(nil, len(p.results))
	for i, ty := range p.results {
		o, sz := pgOID(ty)
		b = append(append(b, p.s.names[i]...), 0)
		b = u32(b, 0)
		b = u16(b, 0)
		b = u32(b, o)
		b = u16(b, int(sz))
		b = u32(b, 0xffffffff)
		f := 0
		if i < len(bin) && bin[i] {
			f = 1
		}
		b = u16(b, f)
	}
	c.put('T', b)
}

func (c *pgConn) rows(p *pgPrep, rows [][]interface{}, bin []bool) {
	for _, r := range rows {
		b := u16(nil, len(r))
		for i, x := range r {
			var d []byte
			binary := i < len(bin) && bin[i]
			switch v := x.(type) {
			case nil:
				b = u32(b, 0xffffffff)
				continue
			case int64:
				if binary {
					if p.results[i] == "int8" {
						d = u32(u32(nil, uint32(uint64(v)>>32)), uint32(v))
					} else {
						d = u32(nil, uint32(v))
					}
				} else {
					d = strconv.AppendInt(nil, v, 10)
				}
			case string:
				d = []byte(v)
			case bool:
				d = []byte("f")
				if v {
					d = []byte("t")
				}
			}
			b = append(u32(b, uint32(len(d))), d...)
		}
		c.put('D', b)
	}
}

func (f *PgFake) serve(nc net.Conn) {
	defer nc.Close()
	c := &pgConn{f: f, c: nc, w: bufio.NewWriterSize(nc, 1<<16), listen: map[string]bool{}, stmts: map[string]*pgPrep{}, portals: map[string]*pgPortal{}}
	r := bufio.NewReaderSize(nc, 1<<16)
	for {
		var h [8]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return
		}
		n := int(binary.BigEndian.Uint32(h[:4])) - 8
		code := binary.BigEndian.Uint32(h[4:])
		if n < 0 || n > 1<<16 {
			return
		}
		rest := make([]byte, n)
		if _, err := io.ReadFull(r, rest); err != nil {
			return
		}
		switch code {
		case 80877103: // SSL
			_, _ = nc.Write([]byte("N"))
			continue
		case 80877102: // cancel
			if n >= 8 {
				f.cancel(int32(binary.BigEndian.Uint32(rest)), int32(binary.BigEndian.Uint32(rest[4:])))
			}
			return
		case 196608:
		default:
			return
		}
		break
	}
	f.mu.Lock()
	f.next++
	c.pid, c.secret = f.next, f.next*7919
	f.conns[c] = true
	f.mu.Unlock()
	defer func() {
		f.mu.Lock()
		delete(f.conns, c)
		f.mu.Unlock()
		f.db.mu.Lock()
		if c.tx != nil {
			f.db.finish(c.tx, false)
			c.tx = nil
		}
		f.db.mu.Unlock()
	}()
	c.put('R', []byte{0, 0, 0, 0})
	c.put('S', []byte("server_version\x0013.2.0\x00"))
	c.put('S', []byte("client_encoding\x00UTF8\x00"))
	c.put('K', u32(u32(nil, uint32(c.pid)), uint32(c.secret)))
	c.ready()
	skip := false
	for {
		var h [5]byte
		if _, err := io.ReadFull(r, h[:]); err != nil {
			return
		}
		body := make([]byte, int(binary.BigEndian.Uint32(h[1:]))-4)
		if _, err := io.ReadFull(r, body); err != nil {
			return
		}
		switch {
		case h[0] == 'X':
			return
		case h[0] == 'S':
			skip = false
			c.ready()
			continue
		case skip:
			continue
		}
		ok, gone := c.message(h[0], body)
		if gone {
			return
		}
		if !ok && h[0] != 'Q' {
			skip = true
		}
		f.db.mu.Lock()
		gone = c.gone
		f.db.mu.Unlock()
		if gone {
			return
		}
	}
}

func (f *PgFake) cancel(pid, secret int32) {
	for _, c := range f.all() {
		if c.pid == pid && c.secret == secret {
			f.db.mu.Lock()
			if c.busy {
				c.stopped = true
				f.db.cond.Broadcast()
			}
			f.db.mu.Unlock()
		}
	}
}

var (
	unsupportedMu  sync.Mutex
	unsupportedSQL string
)

// UnsupportedSQL tells what SQL the server met that it does not understand ("" if none).
func UnsupportedSQL() string {
	unsupportedMu.Lock()
	defer unsupportedMu.Unlock()
	return unsupportedSQL
}

type pgReader struct{ b []byte }

func (r *pgReader) str() string {
	for i, c := range r.b {
		if c == 0 {
			s := string(r.b[:i])
			r.b = r.b[i+1:]
			return s
		}
	}
	panic(pgFail("08P01", "invalid message"))
}
func (r *pgReader) n(k int) []byte {
	if k > len(r.b) || k < 0 {
		panic(pgFail("08P01", "invalid message"))
	}
	x := r.b[:k]
	r.b = r.b[k:]
	return x
}
func (r *pgReader) i16() int { return int(binary.BigEndian.Uint16(r.n(2))) }
func (r *pgReader) i32() int { return int(int32(binary.BigEndian.Uint32(r.n(4)))) }

var errPgDropped = &pgErr{code: "drop"}

// message handles one message of the client.
func (c *pgConn) message(t byte, body []byte) (ok, gone bool) {
	defer func() {
		p := recover()
		if p == nil {
			return
		}
		switch e := p.(type) {
		case *pgErr:
			if e == errPgDropped {
				gone = true
				return
			}
			c.error(e)
		case *pgUnsupported:
			unsupportedMu.Lock()
			unsupportedSQL = e.what
			unsupportedMu.Unlock()
			c.f.db.mu.Lock()
			c.f.db.unsupported = append(c.f.db.unsupported, e.what)
			c.f.db.mu.Unlock()
			c.error(pgFail("0A000", "not supported by the harness: %s", e.what))
		default:
			panic(p)
		}
		if t == 'Q' {
			c.ready()
		}
	}()
	r := &pgReader{body}
	switch t {
	case 'Q':
		sql := r.str()
		p := &pgParser{t: pgTokens(sql)}
		for p.eat(";") {
		}
		if p.peek().k == "end" {
			c.put('I', nil)
		}
		for p.peek().k != "end" {
			s := p.stmt()
			for p.eat(";") {
			}
			x := c.prepare(s, sql)
			rows, tag := c.execute(x, nil)
			if len(x.results) > 0 {
				c.describe(x, nil)
				c.rows(x, rows, nil)
			}
			c.put('C', append([]byte(tag), 0))
		}
		c.ready()
	case 'P':
		name, sql := r.str(), r.str()
		p := &pgParser{t: pgTokens(sql)}
		for p.eat(";") {
		}
		x := c.prepare(p.stmt(), sql)
		if p.peek().k != "end" {
			panic(pgFail("42601", "cannot insert multiple commands into a prepared statement"))
		}
		c.stmts[name] = x
		c.put('1', nil)
	case 'D':
		kind, name := r.n(1)[0], r.str()
		if kind == 'S' {
			x := c.stmt(name)
			b := u16(nil, len(x.s.params))
			for _, ty := range x.s.params {
				o, _ := pgOID(ty)
				b = u32(b, o)
			}
			c.put('t', b)
			c.describe(x, nil)
		} else {
			q := c.portal(name)
			c.describe(q.p, q.binary)
		}
	case 'B':
		portal, name := r.str(), r.str()
		x := c.stmt(name)
		q := &pgPortal{p: x}
		var fm []int
		for i := r.i16(); i > 0; i-- {
			fm = append(fm, r.i16())
		}
		n := r.i16()
		if n != len(x.s.params) {
			panic(pgFail("08P01", "bind message supplies %d parameters, but prepared statement requires %d", n, len(x.s.params)))
		}
		for i := 0; i < n; i++ {
			var d []byte
			if k := r.i32(); k >= 0 {
				d = append([]byte{}, r.n(k)...)
			}
			if bin := len(fm) == 1 && fm[0] == 1 || i < len(fm) && fm[i] == 1; bin && d != nil && x.s.params[i] != "text" {
				panic(&pgUnsupported{"binary parameter"})
			}
			q.params = append(q.params, pgParam(d, x.s.params[i]))
		}
		var rf []int
		for i := r.i16(); i > 0; i-- {
			rf = append(rf, r.i16())
		}
		for i := range x.results {
			q.binary = append(q.binary, len(rf) == 1 && rf[0] == 1 || i < len(rf) && rf[i] == 1)
		}
		c.portals[portal] = q
		c.put('2', nil)
	case 'E':
		q := c.portal(r.str())
		rows, tag := c.execute(q.p, q.params)
		c.rows(q.p, rows, q.binary)
		c.put('C', append([]byte(tag), 0))
	case 'C':
		kind, name := r.n(1)[0], r.str()
		if kind == 'S' {
			delete(c.stmts, name)
		} else {
			delete(c.portals, name)
		}
		c.put('3', nil)
	case 'H':
		c.flush()
	default:
		panic(&pgUnsupported{"message " + string(t)})
	}
	return true, false
}

func (c *pgConn) stmt(n string) *pgPrep {
	x, ok := c.stmts[n]
	if !ok {
		panic(pgFail("26000", "prepared statement \"%s\" does not exist", n))
	}
	return x
}

func (c *pgConn) portal(n string) *pgPortal {
	x, ok := c.portals[n]
	if !ok {
		panic(pgFail("34000", "portal \"%s\" does not exist", n))
	}
	return x
}

func (c *pgConn) prepare(s *pgStmt, sql string) *pgPrep {
	if c.failed && s.kind != "rollback" && s.kind != "commit" {
		panic(pgFail("25P02", "current transaction is aborted, commands ignored until end of transaction block"))
	}
	db := c.f.db
	db.mu.Lock()
	defer db.mu.Unlock()
	return &pgPrep{s: s, sql: sql, results: db.analyse(s)}
}

func (c *pgConn) execute(x *pgPrep, params []interface{}) (rows [][]interface{}, tag string) {
	if c.failed && x.s.kind != "rollback" && x.s.kind != "commit" {
		panic(pgFail("25P02", "current transaction is aborted, commands ignored until end of transaction block"))
	}
	db := c.f.db
	fault, d := c.f.plan(x.sql)
	if d > 0 {
		time.Sleep(d)
	}
	switch fault {
	case "error":
		switch x.s.kind {
		case "rollback": // cannot fail
		case "commit": // rolls back when it fails
			if c.tx != nil {
				db.mu.Lock()
				db.finish(c.tx, false)
				c.tx, c.failed = nil, false
				db.mu.Unlock()
			}
			panic(pgFail("53100", "could not extend file: No space left on device"))
		default:
			panic(pgFail("53100", "could not extend file: No space left on device"))
		}
	case "drop":
		panic(errPgDropped)
	}
	db.mu.Lock()
	defer db.mu.Unlock()
	db.statements++
	c.stopped, c.busy = c.gone, true
	defer func() { c.busy = false }()
	defer func() {
		if fault == "lost" {
			panic(errPgDropped)
		}
	}()
	switch x.s.kind {
	case "begin":
		if c.tx == nil {
			c.tx = newPgTx()
		}
		return nil, "BEGIN"
	case "commit", "rollback":
		tag := strings.ToUpper(x.s.kind)
		if c.tx != nil {
			if c.failed {
				tag = "ROLLBACK"
			}
			db.finish(c.tx, tag == "COMMIT")
			c.tx, c.failed = nil, false
		}
		return nil, tag
	}
	tx := c.tx
	if tx == nil {
		tx = newPgTx()
		done := false
		defer func() {
			db.finish(tx, done)
		}()
		rows, tag = db.run(c, tx, x.s, params)
		done = true
		return rows, tag
	}
	return db.run(c, tx, x.s, params)
}
