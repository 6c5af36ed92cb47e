package env

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// A small SQL interpreter with PostgreSQL's semantics for the statements an
// event store needs: single-table reads and writes, read committed
// transactions, row and advisory locks, unique constraints, sequences.
// Anything it does not know is reported as unsupported, which makes the case
// that met it inconclusive.

type pgErr struct {
	code, msg, constraint string
}

func (e *pgErr) Error() string { return e.code + " " + e.msg }

func pgFail(code, format string, args ...interface{}) *pgErr {
	return &pgErr{code: code, msg: fmt.Sprintf(format, args...)}
}

type pgUnsupported struct{ what string }

func (e *pgUnsupported) Error() string { return "unsupported: " + e.what }

// ---- tokens ----

type pgTok struct {
	k string // id, num, str, param, op, end
	s string
}

func pgTokens(q string) []pgTok {
	var out []pgTok
	i := 0
	for i < len(q) {
		c := q[i]
		switch {
		case c == ' ' || c == '\t' || c == '\n' || c == '\r':
			i++
		case c == '-' && strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case strings.HasPrefix(q[i:], "/*"):
			e := strings.Index(q[i:], "*/")
			if e < 0 {
				panic(&pgUnsupported{"open comment"})
			}
			i += e + 2
		case c == '\'':
			var b strings.Builder
			i++
			for {
				if i >= len(q) {
					panic(pgFail("42601", "unterminated quoted string"))
				}
				if q[i] == '\'' {
					if i+1 < len(q) && q[i+1] == '\'' {
						b.WriteByte('\'')
						i += 2
						continue
					}
					i++
					break
				}
				b.WriteByte(q[i])
				i++
			}
			out = append(out, pgTok{"str", b.String()})
		case c == '"':
			e := strings.IndexByte(q[i+1:], '"')
			if e < 0 {
				panic(pgFail("42601", "unterminated quoted identifier"))
			}
			out = append(out, pgTok{"id", q[i+1 : i+1+e]})
			i += e + 2
		case c == '$' && i+1 < len(q) && q[i+1] >= '0' && q[i+1] <= '9':
			j := i + 1
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			out = append(out, pgTok{"param", q[i+1 : j]})
			i = j
		case c == '$':
			e := strings.IndexByte(q[i+1:], '$')
			if e < 0 {
				panic(pgFail("42601", "syntax error"))
			}
			tag := q[i : i+e+2]
			f := strings.Index(q[i+len(tag):], tag)
			if f < 0 {
				panic(pgFail("42601", "unterminated dollar-quoted string"))
			}
			out = append(out, pgTok{"str", q[i+len(tag) : i+len(tag)+f]})
			i += 2*len(tag) + f
		case c >= '0' && c <= '9':
			j := i
			for j < len(q) && q[j] >= '0' && q[j] <= '9' {
				j++
			}
			out = append(out, pgTok{"num", q[i:j]})
			i = j
		case c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z':
			j := i
			for j < len(q) && (q[j] == '_' || q[j] >= 'a' && q[j] <= 'z' || q[j] >= 'A' && q[j] <= 'Z' || q[j] >= '0' && q[j] <= '9') {
				j++
			}
			out = append(out, pgTok{"id", strings.ToLower(q[i:j])})
			i = j
		default:
			for _, op := range []string{"<=", ">=", "<>", "!=", "::", "||", "(", ")", ",", ";", "=", "<", ">", "*", ".", "+", "-", "%", ":"} {
				if strings.HasPrefix(q[i:], op) {
					out = append(out, pgTok{"op", op})
					i += len(op)
					goto next
				}
			}
			panic(&pgUnsupported{"character " + strconv.Quote(q[i:i+1])})
		next:
		}
	}
	return out
}

// ---- syntax ----

type pgEx struct {
	op    string // col param lit call any cmp and or not isnull
	name  string
	args  []*pgEx
	val   interface{}
	param int
}

type pgOrder struct {
	e    *pgEx
	desc bool
}

type pgStmt struct {
	kind     string
	table    string
	cols     []string
	list     []*pgEx
	names    []string
	rows     [][]*pgEx
	where    *pgEx
	group    []*pgEx
	order    []pgOrder
	limit    *pgEx
	sets     []*pgEx
	conflict string // "", "nothing", "update"
	target   string
	create   *pgTable
	arg      string
	params   []string // types
}

type pgParser struct {
	t []pgTok
	i int
}

func (p *pgParser) peek() pgTok {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return pgTok{"end", ""}
}
func (p *pgParser) next() pgTok { x := p.peek(); p.i++; return x }
func (p *pgParser) is(words ...string) bool {
	for k, w := range words {
		if p.i+k >= len(p.t) || p.t[p.i+k].k == "str" || p.t[p.i+k].s != w {
			return false
		}
	}
	return true
}
func (p *pgParser) eat(words ...string) bool {
	if p.is(words...) {
		p.i += len(words)
		return true
	}
	return false
}
func (p *pgParser) must(words ...string) {
	if !p.eat(words...) {
		panic(&pgUnsupported{fmt.Sprintf("%q where %q was expected", p.peek().s, strings.Join(words, " "))})
	}
}
func (p *pgParser) id() string {
	t := p.next()
	if t.k != "id" {
		panic(&pgUnsupported{fmt.Sprintf("%q where a name was expected", t.s)})
	}
	return t.s
}
func (p *pgParser) atEnd() bool { t := p.peek(); return t.k == "end" || t.k == "op" && t.s == ";" }

func (p *pgParser) expr() *pgEx {
	l := p.and()
	for p.eat("or") {
		l = &pgEx{op: "or", args: []*pgEx{l, p.and()}}
	}
	return l
}
func (p *pgParser) and() *pgEx {
	l := p.not()
	for p.eat("and") {
		l = &pgEx{op: "and", args: []*pgEx{l, p.not()}}
	}
	return l
}
func (p *pgParser) not() *pgEx {
	if p.eat("not") {
		return &pgEx{op: "not", args: []*pgEx{p.not()}}
	}
	l := p.sum()
	if p.eat("is", "null") {
		return &pgEx{op: "isnull", args: []*pgEx{l}}
	}
	if p.eat("is", "not", "null") {
		return &pgEx{op: "not", args: []*pgEx{{op: "isnull", args: []*pgEx{l}}}}
	}
	if p.eat("between") {
		a := p.sum()
		p.must("and")
		b := p.sum()
		return &pgEx{op: "and", args: []*pgEx{{op: "cmp", name: ">=", args: []*pgEx{l, a}}, {op: "cmp", name: "<=", args: []*pgEx{l, b}}}}
	}
	if p.eat("in") {
		p.must("(")
		var o *pgEx
		for {
			c := &pgEx{op: "cmp", name: "=", args: []*pgEx{l, p.sum()}}
			if o == nil {
				o = c
			} else {
				o = &pgEx{op: "or", args: []*pgEx{o, c}}
			}
			if !p.eat(",") {
				break
			}
		}
		p.must(")")
		return o
	}
	for _, c := range []string{"=", "<=", ">=", "<>", "!=", "<", ">"} {
		if p.peek().k == "op" && p.peek().s == c {
			p.next()
			if c == "!=" {
				c = "<>"
			}
			if c == "=" && (p.eat("any", "(") || p.eat("some", "(")) {
				r := p.sum()
				p.must(")")
				return &pgEx{op: "any", args: []*pgEx{l, r}}
			}
			return &pgEx{op: "cmp", name: c, args: []*pgEx{l, p.sum()}}
		}
	}
	return l
}
func (p *pgParser) sum() *pgEx {
	l := p.prim()
	for p.peek().k == "op" && (p.peek().s == "+" || p.peek().s == "-") {
		o := p.next().s
		l = &pgEx{op: "arith", name: o, args: []*pgEx{l, p.prim()}}
	}
	return l
}
func (p *pgParser) prim() *pgEx {
	var e *pgEx
	t := p.next()
	switch {
	case t.k == "op" && t.s == "(":
		e = p.expr()
		p.must(")")
	case t.k == "op" && t.s == "-" && p.peek().k == "num":
		n, _ := strconv.ParseInt("-"+p.next().s, 10, 64)
		e = &pgEx{op: "lit", val: n}
	case t.k == "num":
		n, err := strconv.ParseInt(t.s, 10, 64)
		if err != nil {
			panic(&pgUnsupported{"number " + t.s})
		}
		e = &pgEx{op: "lit", val: n}
	case t.k == "str":
		e = &pgEx{op: "lit", val: t.s}
	case t.k == "param":
		n, _ := strconv.Atoi(t.s)
		e = &pgEx{op: "param", param: n}
	case t.k == "id" && t.s == "null":
		e = &pgEx{op: "lit"}
	case t.k == "id" && (t.s == "true" || t.s == "false"):
		e = &pgEx{op: "lit", val: t.s == "true"}
	case t.k == "id" && p.is("("):
		p.next()
		e = &pgEx{op: "call", name: t.s}
		if p.eat("*") {
			e.args = []*pgEx{{op: "lit", val: int64(1)}}
		} else if !p.is(")") {
			for {
				e.args = append(e.args, p.expr())
				if !p.eat(",") {
					break
				}
			}
		}
		p.must(")")
	case t.k == "id":
		e = &pgEx{op: "col", name: t.s}
		if p.eat(".") {
			e.name = p.id()
			if t.s == "excluded" {
				e.op = "excluded"
			}
		}
	default:
		panic(&pgUnsupported{fmt.Sprintf("%q in an expression", t.s)})
	}
	for p.eat("::") {
		e = &pgEx{op: "cast", name: pgTypeName(p.id()), args: []*pgEx{e}}
	}
	return e
}

func pgTypeName(s string) string {
	switch s {
	case "text", "varchar":
		return "text"
	case "bigint", "int8", "bigserial":
		return "int8"
	case "integer", "int", "int4", "serial":
		return "int4"
	}
	panic(&pgUnsupported{"type " + s})
}

// skip moves to the end of the statement.
func (p *pgParser) skip() {
	for !p.atEnd() {
		p.next()
	}
}

func (p *pgParser) stmt() *pgStmt {
	s := &pgStmt{}
	switch w := p.id(); w {
	case "begin", "start":
		s.kind = "begin"
		for !p.atEnd() {
			if x := p.next().s; x == "serializable" || x == "repeatable" {
				panic(&pgUnsupported{"isolation level " + x})
			}
		}
	case "commit", "end":
		s.kind = "commit"
		p.skip()
	case "rollback", "abort":
		s.kind = "rollback"
		if p.is("to") {
			panic(&pgUnsupported{"savepoints"})
		}
		p.skip()
	case "set", "discard", "reset", "drop":
		s.kind, s.arg = "nop", strings.ToUpper(w)
		if w == "drop" {
			if !p.is("trigger") && !p.is("function") && !p.is("index") {
				panic(&pgUnsupported{"drop " + p.peek().s})
			}
			if p.eat("trigger") {
				s.kind, s.arg = "drop-trigger", "DROP TRIGGER"
				p.eat("if", "exists")
				p.id()
				p.must("on")
				s.table = p.id()
			}
		}
		p.skip()
	case "listen":
		s.kind, s.arg = "listen", p.id()
	case "unlisten":
		s.kind, s.arg = "unlisten", p.next().s
	case "create":
		p.createStmt(s)
	case "select":
		p.selectStmt(s)
	case "insert":
		p.insertStmt(s)
	case "delete":
		s.kind = "delete"
		p.must("from")
		s.table = p.id()
		if p.eat("where") {
			s.where = p.expr()
		}
		p.returning(s)
	case "update":
		s.kind = "update"
		s.table = p.id()
		p.must("set")
		s.cols, s.sets = p.setList()
		if p.eat("where") {
			s.where = p.expr()
		}
		p.returning(s)
	default:
		panic(&pgUnsupported{"statement " + w})
	}
	if !p.atEnd() {
		panic(&pgUnsupported{fmt.Sprintf("%q after the %s statement", p.peek().s, s.kind)})
	}
	p.next()
	return s
}

func (p *pgParser) setList() (cols []string, sets []*pgEx) {
	for {
		cols = append(cols, p.id())
		p.must("=")
		sets = append(sets, p.sum())
		if !p.eat(",") {
			return
		}
	}
}

func (p *pgParser) returning(s *pgStmt) {
	if p.eat("returning") {
		p.items(s)
	}
}

func (p *pgParser) items(s *pgStmt) {
	for {
		if p.eat("*") {
			s.list = append(s.list, &pgEx{op: "star"})
			s.names = append(s.names, "*")
		} else {
			e := p.expr()
			s.list = append(s.list, e)
			n := "?column?"
			if e.op == "col" || e.op == "call" {
				n = e.name
			}
			if p.eat("as") {
				n = p.id()
			}
			s.names = append(s.names, n)
		}
		if !p.eat(",") {
			return
		}
	}
}

func (p *pgParser) selectStmt(s *pgStmt) {
	s.kind = "select"
	p.items(s)
	if p.eat("from") {
		s.table = p.id()
	}
	if p.eat("where") {
		s.where = p.expr()
	}
	if p.eat("group", "by") {
		for {
			s.group = append(s.group, p.sum())
			if !p.eat(",") {
				break
			}
		}
	}
	if p.eat("order", "by") {
		for {
			o := pgOrder{e: p.sum()}
			if p.eat("desc") {
				o.desc = true
			} else {
				p.eat("asc")
			}
			s.order = append(s.order, o)
			if !p.eat(",") {
				break
			}
		}
	}
	if p.eat("limit") {
		s.limit = p.sum()
	}
}

func (p *pgParser) insertStmt(s *pgStmt) {
	s.kind = "insert"
	p.must("into")
	s.table = p.id()
	p.must("(")
	for {
		s.cols = append(s.cols, p.id())
		if !p.eat(",") {
			break
		}
	}
	p.must(")")
	p.must("values")
	for {
		p.must("(")
		var r []*pgEx
		for {
			r = append(r, p.expr())
			if !p.eat(",") {
				break
			}
		}
		p.must(")")
		if len(r) != len(s.cols) {
			panic(pgFail("42601", "INSERT has a different number of expressions than target columns"))
		}
		s.rows = append(s.rows, r)
		if !p.eat(",") {
			break
		}
	}
	if p.eat("on", "conflict") {
		if p.eat("(") {
			s.target = p.id()
			p.must(")")
		}
		p.must("do")
		if p.eat("nothing") {
			s.conflict = "nothing"
		} else {
			p.must("update")
			p.must("set")
			s.conflict = "update"
			cols, sets := p.setList()
			for i, c := range cols {
				s.sets = append(s.sets, &pgEx{op: "assign", name: c, args: []*pgEx{sets[i]}})
			}
			if p.eat("where") {
				s.where = p.expr()
			}
		}
	}
	p.returning(s)
}

func (p *pgParser) createStmt(s *pgStmt) {
	p.eat("or", "replace")
	switch w := p.id(); w {
	case "index", "unique":
		if w == "unique" {
			panic(&pgUnsupported{"unique index"})
		}
		s.kind, s.arg = "nop", "CREATE INDEX"
		p.skip()
	case "function":
		s.kind, s.arg = "nop", "CREATE FUNCTION"
		for !p.atEnd() {
			if t := p.next(); t.k == "str" && !(strings.Contains(t.s, "pg_notify('records'") && strings.Contains(t.s, "row_to_json(NEW)")) {
				panic(&pgUnsupported{"function body"})
			}
		}
	case "trigger":
		s.kind, s.arg = "create-trigger", "CREATE TRIGGER"
		p.id()
		p.must("after", "insert", "on")
		s.table = p.id()
		p.skip()
	case "table":
		s.kind, s.arg = "create-table", "CREATE TABLE"
		p.must("if", "not", "exists")
		t := &pgTable{name: p.id(), seq: map[string]int64{}}
		p.must("(")
		for {
			if p.eat("unique", "(") || p.eat("primary", "key", "(") {
				panic(&pgUnsupported{"table constraint"})
			}
			c := pgCol{name: p.id()}
			ty := p.id()
			c.typ = pgTypeName(ty)
			c.serial = strings.HasSuffix(ty, "serial")
			c.notnull = c.serial
			for !p.is(",") && !p.is(")") {
				switch {
				case p.eat("primary", "key"):
					c.unique, c.notnull, c.constraint = true, true, t.name+"_pkey"
				case p.eat("unique"):
					c.unique, c.constraint = true, t.name+"_"+c.name+"_key"
				case p.eat("not", "null"):
					c.notnull = true
				case p.eat("null"):
				default:
					panic(&pgUnsupported{"column option " + p.peek().s})
				}
			}
			t.cols = append(t.cols, c)
			if !p.eat(",") {
				break
			}
		}
		p.must(")")
		s.create = t
	default:
		panic(&pgUnsupported{"create " + w})
	}
}

// ---- data ----

type pgCol struct {
	name, typ, constraint   string
	serial, unique, notnull bool
}

type pgTable struct {
	name   string
	cols   []pgCol
	rows   []*pgRow
	seq    map[string]int64
	notify bool
}

func (t *pgTable) col(n string) int {
	for i, c := range t.cols {
		if c.name == n {
			return i
		}
	}
	panic(pgFail("42703", "column \"%s\" does not exist", n))
}

type pgRow struct {
	v       []interface{} // nil, int64 or string
	by, del *pgTx         // uncommitted creator and deleter
	dead    bool
}

type pgTx struct {
	rows   []*pgRow // created or deleted
	tables map[*pgTable]bool
	locks  []int64
	notes  []pgNote
	done   bool
}

type pgNote struct{ channel, payload string }

func (r *pgRow) visible(tx *pgTx) bool {
	return !r.dead && (r.by == nil || r.by == tx) && (r.del == nil || r.del != tx)
}

// ---- types of parameters and results ----

func (db *pgDB) table(n string) *pgTable {
	t, ok := db.tables[n]
	if !ok {
		panic(pgFail("42P01", "relation \"%s\" does not exist", n))
	}
	return t
}

// analyse finds the types of the parameters and of the results.
func (db *pgDB) analyse(s *pgStmt) (results []string) {
	var t *pgTable
	if s.table != "" {
		t = db.table(s.table)
	}
	setParam := func(e *pgEx, ty string) {
		if e.op != "param" {
			return
		}
		for len(s.params) < e.param {
			s.params = append(s.params, "")
		}
		if s.params[e.param-1] == "" {
			s.params[e.param-1] = ty
		}
	}
	var typ func(e *pgEx) string
	typ = func(e *pgEx) string {
		switch e.op {
		case "col", "excluded":
			if t == nil {
				panic(pgFail("42703", "column \"%s\" does not exist", e.name))
			}
			return t.cols[t.col(e.name)].typ
		case "param":
			setParam(e, "")
			return s.params[e.param-1]
		case "cast":
			if e.args[0].op == "param" {
				setParam(e.args[0], e.name)
			}
			typ(e.args[0])
			return e.name
		case "lit":
			switch e.val.(type) {
			case int64:
				return "int4"
			case string:
				return "text"
			case bool:
				return "bool"
			}
			return ""
		case "cmp", "arith":
			a, b := typ(e.args[0]), typ(e.args[1])
			if a == "" {
				setParam(e.args[0], b)
				a = b
			}
			if b == "" {
				setParam(e.args[1], a)
			}
			if (a == "text") != (b == "text") && a != "" && b != "" {
				panic(pgFail("42883", "operator does not exist: %s %s %s", a, e.name, b))
			}
			if e.op == "cmp" {
				return "bool"
			}
			if a == "int8" || b == "int8" {
				return "int8"
			}
			return a
		case "any":
			a := typ(e.args[0])
			setParam(e.args[1], a+"[]")
			return "bool"
		case "and", "or", "not", "isnull":
			for _, x := range e.args {
				typ(x)
			}
			return "bool"
		case "assign":
			ty := t.cols[t.col(e.name)].typ
			setParam(e.args[0], ty)
			typ(e.args[0])
			return ty
		case "call":
			switch e.name {
			case "max", "min":
				return typ(e.args[0])
			case "count":
				typ(e.args[0])
				return "int8"
			case "coalesce":
				ty := ""
				for _, x := range e.args {
					if y := typ(x); ty == "" || y == "int8" {
						ty = y
					}
				}
				for _, x := range e.args {
					setParam(x, ty)
				}
				return ty
			case "pg_advisory_xact_lock":
				if len(e.args) != 1 {
					panic(&pgUnsupported{"two-key advisory lock"})
				}
				setParam(e.args[0], "int8")
				typ(e.args[0])
				return "void"
			case "pg_notify":
				for _, x := range e.args {
					setParam(x, "text")
					typ(x)
				}
				return "void"
			}
			panic(&pgUnsupported{"function " + e.name})
		case "star":
			return "*"
		}
		panic(&pgUnsupported{"expression " + e.op})
	}
	for _, c := range s.cols {
		t.col(c)
	}
	for _, r := range s.rows {
		for i, e := range r {
			setParam(e, t.cols[t.col(s.cols[i])].typ)
			typ(e)
		}
	}
	for i, e := range s.sets {
		if e.op == "assign" {
			typ(e)
			continue
		}
		setParam(e, t.cols[t.col(s.cols[i])].typ)
		typ(e)
	}
	if s.where != nil {
		typ(s.where)
	}
	for _, e := range s.group {
		typ(e)
	}
	for _, o := range s.order {
		typ(o.e)
	}
	if s.limit != nil {
		setParam(s.limit, "int8")
		typ(s.limit)
	}
	var list []*pgEx
	var names []string
	for i, e := range s.list {
		if e.op == "star" {
			for _, c := range t.cols {
				list = append(list, &pgEx{op: "col", name: c.name})
				names = append(names, c.name)
			}
			continue
		}
		list = append(list, e)
		names = append(names, s.names[i])
	}
	s.list, s.names = list, names
	for _, e := range s.list {
		results = append(results, typ(e))
	}
	for i, ty := range s.params {
		if ty == "" {
			s.params[i] = "text"
		}
	}
	return results
}

// pgParam decodes a text parameter.
func pgParam(text []byte, ty string) interface{} {
	if text == nil {
		return nil
	}
	s := string(text)
	if strings.IndexByte(s, 0) >= 0 || !utf8.ValidString(s) {
		panic(pgFail("22021", "invalid byte sequence for encoding \"UTF8\""))
	}
	switch ty {
	case "int4", "int8":
		bits := map[string]int{"int4": 32, "int8": 64}[ty]
		n, err := strconv.ParseInt(strings.TrimSpace(s), 10, bits)
		if err != nil {
			if ne, ok := err.(*strconv.NumError); ok && ne.Err == strconv.ErrRange {
				panic(pgFail("22003", "value \"%s\" is out of range for type %s", s, map[string]string{"int4": "integer", "int8": "bigint"}[ty]))
			}
			panic(pgFail("22P02", "invalid input syntax for type integer: \"%s\"", s))
		}
		return n
	case "text", "":
		return s
	case "text[]":
		return pgArray(s)
	}
	panic(&pgUnsupported{"parameter of type " + ty})
}

// pgArray decodes an array literal.
func pgArray(s string) []interface{} {
	bad := func() { panic(pgFail("22P02", "malformed array literal: \"%s\"", s)) }
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		bad()
	}
	in := s[1 : len(s)-1]
	out := []interface{}{}
	if strings.TrimSpace(in) == "" {
		return out
	}
	i := 0
	for {
		var b strings.Builder
		if i < len(in) && in[i] == '"' {
			i++
			for {
				if i >= len(in) {
					bad()
				}
				if in[i] == '"' {
					i++
					break
				}
				if in[i] == '\\' {
					i++
					if i >= len(in) {
						bad()
					}
				}
				b.WriteByte(in[i])
				i++
			}
			out = append(out, b.String())
		} else {
			for i < len(in) && in[i] != ',' {
				if in[i] == '"' || in[i] == '{' || in[i] == '}' {
					bad()
				}
				if in[i] == '\\' {
					i++
					if i >= len(in) {
						bad()
					}
				}
				b.WriteByte(in[i])
				i++
			}
			x := strings.TrimSpace(b.String())
			if x == "" {
				bad()
			}
			if strings.EqualFold(x, "null") {
				out = append(out, nil)
			} else {
				out = append(out, x)
			}
		}
		if i == len(in) {
			return out
		}
		if in[i] != ',' {
			bad()
		}
		i++
	}
}

// ---- evaluation ----

type pgEval struct {
	db       *pgDB
	conn     *pgConn
	tx       *pgTx
	t        *pgTable
	params   []interface{}
	excluded []interface{}
}

func pgCmp(a, b interface{}) int {
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		if !ok {
			panic(&pgUnsupported{"comparison of number and text"})
		}
		switch {
		case x < y:
			return -1
		case x > y:
			return 1
		}
		return 0
	case string:
		y, ok := b.(string)
		if !ok {
			panic(&pgUnsupported{"comparison of text and number"})
		}
		return strings.Compare(x, y)
	}
	panic(&pgUnsupported{"comparison"})
}

func (v *pgEval) eval(e *pgEx, row []interface{}, group [][]interface{}) interface{} {
	switch e.op {
	case "lit":
		return e.val
	case "param":
		if e.param > len(v.params) {
			panic(pgFail("08P01", "bind message supplies too few parameters"))
		}
		return v.params[e.param-1]
	case "col":
		if row == nil {
			return nil
		}
		return row[v.t.col(e.name)]
	case "excluded":
		return v.excluded[v.t.col(e.name)]
	case "cast":
		x := v.eval(e.args[0], row, group)
		switch y := x.(type) {
		case string:
			if e.name != "text" {
				return pgParam([]byte(y), e.name)
			}
		case int64:
			if e.name == "text" {
				return strconv.FormatInt(y, 10)
			}
		}
		return x
	case "cmp":
		a, b := v.eval(e.args[0], row, group), v.eval(e.args[1], row, group)
		if a == nil || b == nil {
			return nil
		}
		c := pgCmp(a, b)
		switch e.name {
		case "=":
			return c == 0
		case "<":
			return c < 0
		case ">":
			return c > 0
		case "<=":
			return c <= 0
		case ">=":
			return c >= 0
		}
		return c != 0
	case "arith":
		a, aok := v.eval(e.args[0], row, group).(int64)
		b, bok := v.eval(e.args[1], row, group).(int64)
		if !aok || !bok {
			return nil
		}
		if e.name == "+" {
			return a + b
		}
		return a - b
	case "any":
		a := v.eval(e.args[0], row, group)
		l, ok := v.eval(e.args[1], row, group).([]interface{})
		if !ok || a == nil {
			return nil
		}
		for _, x := range l {
			if x != nil && pgCmp(a, x) == 0 {
				return true
			}
		}
		return false
	case "and":
		return v.eval(e.args[0], row, group) == true && v.eval(e.args[1], row, group) == true
	case "or":
		return v.eval(e.args[0], row, group) == true || v.eval(e.args[1], row, group) == true
	case "not":
		x := v.eval(e.args[0], row, group)
		if x == nil {
			return nil
		}
		return x != true
	case "isnull":
		return v.eval(e.args[0], row, group) == nil
	case "call":
		switch e.name {
		case "max", "min", "count":
			var best interface{}
			n := int64(0)
			for _, r := range group {
				x := v.eval(e.args[0], r, nil)
				if x == nil {
					continue
				}
				n++
				if best == nil || (pgCmp(x, best) > 0) == (e.name == "max") {
					best = x
				}
			}
			if e.name == "count" {
				return n
			}
			return best
		case "coalesce":
			for _, a := range e.args {
				if x := v.eval(a, row, group); x != nil {
					return x
				}
			}
			return nil
		case "pg_advisory_xact_lock":
			k, ok := v.eval(e.args[0], row, group).(int64)
			if !ok {
				return nil
			}
			v.db.lock(v.conn, v.tx, k)
			return ""
		case "pg_notify":
			c, _ := v.eval(e.args[0], row, group).(string)
			x, _ := v.eval(e.args[1], row, group).(string)
			v.db.note(v.tx, c, x)
			return ""
		}
	}
	panic(&pgUnsupported{"expression " + e.op + " " + e.name})
}

func pgAggregate(e *pgEx) bool {
	if e.op == "call" && (e.name == "max" || e.name == "min" || e.name == "count") {
		return true
	}
	for _, a := range e.args {
		if pgAggregate(a) {
			return true
		}
	}
	return false
}

// run executes a statement within tx; db.mu is held (and released while waiting).
func (db *pgDB) run(c *pgConn, tx *pgTx, s *pgStmt, params []interface{}) (rows [][]interface{}, tag string) {
	v := &pgEval{db: db, conn: c, tx: tx, params: params}
	if s.table != "" {
		v.t = db.table(s.table)
	}
	switch s.kind {
	case "nop":
		return nil, s.arg
	case "create-table":
		if db.tables[s.create.name] == nil {
			db.tables[s.create.name] = s.create
		}
		return nil, s.arg
	case "create-trigger":
		v.t.notify = true
		return nil, s.arg
	case "drop-trigger":
		v.t.notify = false
		return nil, s.arg
	case "listen":
		c.listen[s.arg] = true
		return nil, "LISTEN"
	case "unlisten":
		if s.arg == "*" {
			c.listen = map[string]bool{}
		}
		delete(c.listen, s.arg)
		return nil, "UNLISTEN"
	case "select":
		rows = v.query(s)
		return rows, fmt.Sprintf("SELECT %d", len(rows))
	case "insert":
		n := 0
		for _, r := range s.rows {
			vals := make([]interface{}, len(v.t.cols))
			given := map[string]bool{}
			for i, e := range r {
				vals[v.t.col(s.cols[i])] = v.eval(e, nil, nil)
				given[s.cols[i]] = true
			}
			for i, col := range v.t.cols {
				if col.serial && !given[col.name] {
					v.t.seq[col.name]++ // never undone
					if vals[i] = v.t.seq[col.name]; col.typ == "int4" && v.t.seq[col.name] > 1<<31-1 {
						panic(pgFail("2200H", "nextval: reached maximum value of sequence"))
					}
				}
				if col.notnull && vals[i] == nil {
					panic(pgFail("23502", "null value in column \"%s\" violates not-null constraint", col.name))
				}
				if n, ok := vals[i].(int64); ok && col.typ == "int4" && (n > 1<<31-1 || n < -1<<31) {
					panic(pgFail("22003", "integer out of range"))
				}
				if _, ok := vals[i].(int64); ok && col.typ == "text" {
					panic(pgFail("42804", "column \"%s\" is of type text but expression is of type integer", col.name))
				}
			}
			if old, col := v.conflict(vals, nil); old != nil {
				if s.conflict == "" || s.target != "" && s.target != col.name {
					e := pgFail("23505", "duplicate key value violates unique constraint \"%s\"", col.constraint)
					e.constraint = col.constraint
					panic(e)
				}
				if s.conflict == "nothing" {
					continue
				}
				v.excluded = vals
				if s.where != nil && v.eval(s.where, old.v, nil) != true {
					continue
				}
				nv := append([]interface{}(nil), old.v...)
				for _, a := range s.sets {
					nv[v.t.col(a.name)] = v.eval(a.args[0], old.v, nil)
				}
				v.replace(old, nv)
				n++
				if len(s.list) > 0 {
					rows = append(rows, v.project(s, nv))
				}
				continue
			}
			v.insert(vals)
			n++
			if v.t.notify {
				db.note(tx, "records", v.rowJSON(vals))
			}
			if len(s.list) > 0 {
				rows = append(rows, v.project(s, vals))
			}
		}
		return rows, fmt.Sprintf("INSERT 0 %d", n)
	case "delete", "update":
		n := 0
		for _, r := range v.matching(s.where) {
			n++
			if s.kind == "delete" {
				r.del = tx
				tx.touch(v.t, r)
				if len(s.list) > 0 {
					rows = append(rows, v.project(s, r.v))
				}
				continue
			}
			nv := append([]interface{}(nil), r.v...)
			for i, c := range s.cols {
				nv[v.t.col(c)] = v.eval(s.sets[i], r.v, nil)
			}
			if old, col := v.conflict(nv, r); old != nil {
				e := pgFail("23505", "duplicate key value violates unique constraint \"%s\"", col.constraint)
				e.constraint = col.constraint
				panic(e)
			}
			v.replace(r, nv)
			if len(s.list) > 0 {
				rows = append(rows, v.project(s, nv))
			}
		}
		return rows, fmt.Sprintf("%s %d", strings.ToUpper(s.kind), n)
	}
	panic(&pgUnsupported{s.kind})
}

func (tx *pgTx) touch(t *pgTable, r *pgRow) {
	tx.rows = append(tx.rows, r)
	tx.tables[t] = true
}

func (v *pgEval) insert(vals []interface{}) {
	r := &pgRow{v: vals, by: v.tx}
	v.t.rows = append(v.t.rows, r)
	v.tx.touch(v.t, r)
}

func (v *pgEval) replace(old *pgRow, vals []interface{}) {
	old.del = v.tx
	v.tx.touch(v.t, old)
	v.insert(vals)
}

// conflict finds a row with the same unique value, waiting for transactions that decide about one.
func (v *pgEval) conflict(vals []interface{}, except *pgRow) (*pgRow, pgCol) {
again:
	for i, col := range v.t.cols {
		if !col.unique || vals[i] == nil {
			continue
		}
		for _, r := range v.t.rows {
			if r.dead || r == except || r.v[i] == nil || pgCmp(r.v[i], vals[i]) != 0 || r.del == v.tx {
				continue
			}
			if r.by != nil && r.by != v.tx || r.del != nil {
				v.db.wait(v.conn)
				goto again
			}
			return r, col
		}
	}
	return nil, pgCol{}
}

// matching finds the rows to change, waiting for transactions that changed them first.
func (v *pgEval) matching(where *pgEx) []*pgRow {
again:
	var out []*pgRow
	for _, r := range v.t.rows {
		if !r.visible(v.tx) || where != nil && v.eval(where, r.v, nil) != true {
			continue
		}
		if r.del != nil {
			v.db.wait(v.conn)
			goto again
		}
		out = append(out, r)
	}
	return out
}

func (v *pgEval) project(s *pgStmt, row []interface{}) []interface{} {
	var out []interface{}
	for _, e := range s.list {
		out = append(out, v.eval(e, row, nil))
	}
	return out
}

func (v *pgEval) query(s *pgStmt) [][]interface{} {
	var out [][]interface{}
	if v.t == nil {
		return [][]interface{}{v.project(s, nil)}
	}
	var src [][]interface{}
	for _, r := range v.t.rows {
		if r.visible(v.tx) && (s.where == nil || v.eval(s.where, r.v, nil) == true) {
			src = append(src, r.v)
		}
	}
	agg := len(s.group) > 0
	for _, e := range s.list {
		agg = agg || pgAggregate(e)
	}
	type res struct{ row, keys []interface{} }
	var rs []res
	add := func(row []interface{}, group [][]interface{}) {
		x := res{}
		for _, e := range s.list {
			x.row = append(x.row, v.eval(e, row, group))
		}
		for _, o := range s.order {
			x.keys = append(x.keys, v.eval(o.e, row, group))
		}
		rs = append(rs, x)
	}
	if agg {
		groups := map[string][][]interface{}{}
		var names []string
		for _, r := range src {
			k := ""
			for _, g := range s.group {
				k += fmt.Sprintf("%T%v\x00", v.eval(g, r, nil), v.eval(g, r, nil))
			}
			if groups[k] == nil {
				names = append(names, k)
			}
			groups[k] = append(groups[k], r)
		}
		if len(s.group) == 0 && len(src) == 0 {
			add(nil, nil)
		}
		for _, k := range names {
			add(groups[k][0], groups[k])
		}
	} else {
		for _, r := range src {
			add(r, nil)
		}
	}
	sort.SliceStable(rs, func(i, j int) bool {
		for k, o := range s.order {
			a, b := rs[i].keys[k], rs[j].keys[k]
			var c int
			switch {
			case a == nil && b == nil:
			case a == nil:
				c = 1
			case b == nil:
				c = -1
			default:
				c = pgCmp(a, b)
			}
			if o.desc {
				c = -c
			}
			if c != 0 {
				return c < 0
			}
		}
		return false
	})
	if len(s.order) == 0 && len(rs) > 1 && !agg {
		// the order is not specified: a scan may start anywhere
		n := v.db.rnd.Intn(len(rs))
		rs = append(rs[n:len(rs):len(rs)], rs[:n]...)
	}
	limit := int64(len(rs))
	if s.limit != nil {
		if n, ok := v.eval(s.limit, nil, nil).(int64); ok && n < limit {
			limit = n
		}
	}
	for _, x := range rs[:limit] {
		out = append(out, x.row)
	}
	return out
}
