package verifpersist_test

// A fake Postgres: database/sql driver over a small SQL interpreter with transactions.
// Statements it does not understand end the check as broken.

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"strconv"
	"strings"
	"sync"

	kit "vsa/internal/verifkit"
)

type sval any // nil, int64, string, bool
type srow map[string]sval

type stable struct {
	cols []string
	pk   string
	rows []srow
	def  srow
	nn   []string
}

func (t *stable) clone() *stable {
	n := &stable{cols: t.cols, pk: t.pk, def: t.def, nn: t.nn}
	for _, r := range t.rows {
		c := srow{}
		for k, v := range r {
			c[k] = v
		}
		n.rows = append(n.rows, c)
	}
	return n
}

type sdb map[string]*stable

func (d sdb) clone() sdb {
	n := sdb{}
	for k, t := range d {
		n[k] = t.clone()
	}
	return n
}

func newSdb() sdb {
	return sdb{
		"counters":        {cols: []string{"key", "scalar", "last_token"}, pk: "key", nn: []string{"key", "scalar"}},
		"applied_commits": {cols: []string{"commit_id", "key", "vc", "ts"}, pk: "commit_id", nn: []string{"commit_id", "key", "vc"}},
	}
}

type sqlErr struct{ msg string }

func sqlFail(f string, a ...any)        { panic(sqlErr{"pq: " + fmt.Sprintf(f, a...)}) }
func sqlUnsupported(f string, a ...any) { kit.Broken("sql: "+f, a...) }

type stok struct{ kind, s string }

func lexSQL(q string) []stok {
	var out []stok
	isAl := func(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	isD := func(c byte) bool { return c >= '0' && c <= '9' }
	for i := 0; i < len(q); {
		c := q[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
		case isAl(c):
			j := i
			for j < len(q) && (isAl(q[j]) || isD(q[j])) {
				j++
			}
			out = append(out, stok{"id", strings.ToLower(q[i:j])})
			i = j
		case c == '"':
			j := strings.IndexByte(q[i+1:], '"')
			out = append(out, stok{"id", q[i+1 : i+1+j]})
			i += j + 2
		case isD(c):
			j := i
			for j < len(q) && isD(q[j]) {
				j++
			}
			out = append(out, stok{"num", q[i:j]})
			i = j
		case c == '$':
			j := i + 1
			for j < len(q) && isD(q[j]) {
				j++
			}
			out = append(out, stok{"par", q[i+1 : j]})
			i = j
		case c == '\'':
			j := strings.IndexByte(q[i+1:], '\'')
			if j < 0 {
				sqlUnsupported("string in %q", q)
			}
			out = append(out, stok{"str", q[i+1 : i+1+j]})
			i += j + 2
		default:
			ok := false
			for _, op := range []string{"::", "<=", ">=", "<>", "!=", "||", "<", ">", "=", "+", "-", "*", "/", "(", ")", ",", ".", ";"} {
				if strings.HasPrefix(q[i:], op) {
					if op != ";" {
						out = append(out, stok{"op", op})
					}
					i += len(op)
					ok = true
					break
				}
			}
			if !ok {
				sqlUnsupported("character %q in %q", c, q)
			}
		}
	}
	return append(out, stok{"eof", ""})
}

type sctx struct {
	db   sdb
	args []sval
	row  srow            // current row
	tabs map[string]srow // qualified rows (table name, "excluded")
	up   *sctx
}

type sexpr func(c *sctx) sval

type sparser struct {
	q string
	t []stok
	i int
}

func (p *sparser) is(s string) bool {
	return (p.t[p.i].kind == "id" || p.t[p.i].kind == "op") && p.t[p.i].s == s
}
func (p *sparser) eat(ss ...string) bool {
	for k, s := range ss {
		if p.i+k >= len(p.t) || !((p.t[p.i+k].kind == "id" || p.t[p.i+k].kind == "op") && p.t[p.i+k].s == s) {
			return false
		}
	}
	p.i += len(ss)
	return true
}
func (p *sparser) want(ss ...string) {
	if !p.eat(ss...) {
		sqlUnsupported("expected %v near %v in %q", ss, p.t[p.i], p.q)
	}
}
func (p *sparser) ident() string {
	if p.t[p.i].kind != "id" {
		sqlUnsupported("name expected near %v in %q", p.t[p.i], p.q)
	}
	p.i++
	return p.t[p.i-1].s
}

func (c *sctx) lookup(q, n string) sval {
	for x := c; x != nil; x = x.up {
		if q != "" {
			if r, ok := x.tabs[q]; ok {
				if v, ok := r[n]; ok {
					return v
				}
				return nil
			}
			continue
		}
		if x.row != nil {
			if v, ok := x.row[n]; ok {
				return v
			}
		}
	}
	sqlFail("column %q does not exist", n)
	return nil
}

func (p *sparser) expr() sexpr { return p.or() }
func (p *sparser) or() sexpr {
	l := p.and()
	for p.eat("or") {
		a, b := l, p.and()
		l = func(c *sctx) sval {
			x, y := a(c), b(c)
			if x == true || y == true {
				return true
			}
			if x == nil || y == nil {
				return nil
			}
			return false
		}
	}
	return l
}
func (p *sparser) and() sexpr {
	l := p.not()
	for p.eat("and") {
		a, b := l, p.not()
		l = func(c *sctx) sval {
			x, y := a(c), b(c)
			if x == false || y == false {
				return false
			}
			if x == nil || y == nil {
				return nil
			}
			return true
		}
	}
	return l
}
func (p *sparser) not() sexpr {
	if p.eat("not") {
		a := p.not()
		return func(c *sctx) sval {
			if x := a(c); x != nil {
				return x != true
			}
			return nil
		}
	}
	return p.cmp()
}
func (p *sparser) cmp() sexpr {
	l := p.sum()
	switch {
	case p.eat("is", "not", "null"):
		return func(c *sctx) sval { return l(c) != nil }
	case p.eat("is", "null"):
		return func(c *sctx) sval { return l(c) == nil }
	case p.eat("is", "distinct", "from"):
		r := p.sum()
		return func(c *sctx) sval { return l(c) != r(c) }
	case p.eat("is", "not", "distinct", "from"):
		r := p.sum()
		return func(c *sctx) sval { return l(c) == r(c) }
	case p.eat("in"):
		p.want("(")
		var xs []sexpr
		for {
			xs = append(xs, p.sum())
			if !p.eat(",") {
				break
			}
		}
		p.want(")")
		return func(c *sctx) sval {
			v := l(c)
			for _, x := range xs {
				if v != nil && x(c) == v {
					return true
				}
			}
			return false
		}
	}
	for _, op := range []string{"<=", ">=", "<>", "!=", "<", ">", "="} {
		if p.eat(op) {
			r := p.sum()
			return func(c *sctx) sval {
				x, y := l(c), r(c)
				if x == nil || y == nil {
					return nil
				}
				switch op {
				case "=":
					return same(x, y)
				case "<>", "!=":
					return !same(x, y)
				}
				d := 0
				if xs, ok := x.(string); ok {
					d = strings.Compare(xs, y.(string))
				} else {
					a, b := snum(x), snum(y)
					if a < b {
						d = -1
					} else if a > b {
						d = 1
					}
				}
				switch op {
				case "<=":
					return d <= 0
				case ">=":
					return d >= 0
				case "<":
					return d < 0
				}
				return d > 0
			}
		}
	}
	return l
}

func same(x, y sval) bool {
	if xs, ok := x.(string); ok {
		if ys, ok := y.(string); ok {
			return xs == ys
		}
		sqlFail("operator does not exist: text = %T", y)
	}
	return x == y
}

func snum(v sval) int64 {
	n, ok := v.(int64)
	if !ok {
		sqlFail("%T where a number is needed", v)
	}
	return n
}

func (p *sparser) sum() sexpr {
	l := p.term()
	for {
		switch {
		case p.eat("+"):
			a, b := l, p.term()
			l = func(c *sctx) sval { return arith(a(c), b(c), func(x, y int64) int64 { return x + y }) }
		case p.eat("-"):
			a, b := l, p.term()
			l = func(c *sctx) sval { return arith(a(c), b(c), func(x, y int64) int64 { return x - y }) }
		case p.eat("||"):
			a, b := l, p.term()
			l = func(c *sctx) sval { return fmt.Sprint(a(c)) + fmt.Sprint(b(c)) }
		default:
			return l
		}
	}
}
func arith(x, y sval, f func(x, y int64) int64) sval {
	if x == nil || y == nil {
		return nil
	}
	return f(snum(x), snum(y))
}
func (p *sparser) term() sexpr {
	l := p.unary()
	for {
		if p.eat("*") {
			a, b := l, p.unary()
			l = func(c *sctx) sval { return arith(a(c), b(c), func(x, y int64) int64 { return x * y }) }
			continue
		}
		return l
	}
}
func (p *sparser) unary() sexpr {
	if p.eat("-") {
		a := p.unary()
		return func(c *sctx) sval { return arith(int64(0), a(c), func(x, y int64) int64 { return x - y }) }
	}
	l := p.prim()
	for p.eat("::") {
		p.ident()
	}
	return l
}
func (p *sparser) prim() sexpr {
	k := p.t[p.i]
	switch k.kind {
	case "num":
		p.i++
		n, _ := strconv.ParseInt(k.s, 10, 64)
		return func(*sctx) sval { return n }
	case "str":
		p.i++
		return func(*sctx) sval { return k.s }
	case "par":
		p.i++
		n, _ := strconv.Atoi(k.s)
		return func(c *sctx) sval {
			if n < 1 || n > len(c.args) {
				sqlFail("there is no parameter $%d", n)
			}
			return c.args[n-1]
		}
	}
	switch {
	case p.eat("("):
		if p.is("select") {
			s := p.sel()
			p.want(")")
			return func(c *sctx) sval {
				rs := s(c)
				if len(rs) == 0 {
					return nil
				}
				return rs[0][0]
			}
		}
		e := p.expr()
		p.want(")")
		return e
	case p.eat("null"):
		return func(*sctx) sval { return nil }
	case p.eat("true"):
		return func(*sctx) sval { return true }
	case p.eat("false"):
		return func(*sctx) sval { return false }
	case p.eat("exists"):
		p.want("(")
		s := p.sel()
		p.want(")")
		return func(c *sctx) sval { return len(s(c)) > 0 }
	case p.eat("case"):
		type arm struct{ c, v sexpr }
		var arms []arm
		var els sexpr
		for p.eat("when") {
			c := p.expr()
			p.want("then")
			arms = append(arms, arm{c, p.expr()})
		}
		if p.eat("else") {
			els = p.expr()
		}
		p.want("end")
		return func(c *sctx) sval {
			for _, a := range arms {
				if a.c(c) == true {
					return a.v(c)
				}
			}
			if els != nil {
				return els(c)
			}
			return nil
		}
	}
	n := p.ident()
	if p.eat("(") {
		var args []sexpr
		for !p.eat(")") {
			if p.eat("*") {
				continue
			}
			args = append(args, p.expr())
			p.eat(",")
		}
		return func(c *sctx) sval {
			var vs []sval
			for _, a := range args {
				vs = append(vs, a(c))
			}
			switch n {
			case "now":
				return "now"
			case "coalesce":
				for _, v := range vs {
					if v != nil {
						return v
					}
				}
				return nil
			case "greatest", "least":
				var best sval
				for _, v := range vs {
					if v == nil {
						continue
					}
					if best == nil || (n == "greatest") == (snum(v) > snum(best)) {
						best = v
					}
				}
				return best
			}
			sqlUnsupported("function %s", n)
			return nil
		}
	}
	if p.eat(".") {
		col := p.ident()
		return func(c *sctx) sval { return c.lookup(n, col) }
	}
	return func(c *sctx) sval { return c.lookup("", n) }
}

// sel parses SELECT exprs [FROM t [alias] [WHERE cond]] [LIMIT n] [FOR UPDATE].
func (p *sparser) sel() func(c *sctx) [][]sval {
	p.want("select")
	var ex []sexpr
	star := false
	for {
		if p.eat("*") {
			star = true
		} else {
			ex = append(ex, p.expr())
			if p.eat("as") {
				p.ident()
			}
		}
		if !p.eat(",") {
			break
		}
	}
	tab, alias := "", ""
	var where sexpr
	if p.eat("from") {
		tab = p.ident()
		alias = tab
		if p.t[p.i].kind == "id" && !p.is("where") && !p.is("for") && !p.is("limit") {
			p.eat("as")
			alias = p.ident()
		}
		if p.eat("where") {
			where = p.expr()
		}
	}
	if p.eat("limit") {
		p.i++
	}
	if p.eat("for", "update") || p.eat("for", "share") || p.eat("for", "no", "key", "update") {
	}
	return func(c *sctx) [][]sval {
		var out [][]sval
		emit := func(x *sctx) {
			var r []sval
			for _, e := range ex {
				r = append(r, e(x))
			}
			if star {
				for _, col := range c.db[tab].cols {
					r = append(r, x.row[col])
				}
			}
			out = append(out, r)
		}
		if tab == "" {
			emit(&sctx{db: c.db, args: c.args, up: c})
			return out
		}
		t := c.db[tab]
		if t == nil {
			sqlFail("relation %q does not exist", tab)
		}
		for _, r := range t.rows {
			x := &sctx{db: c.db, args: c.args, row: r, tabs: map[string]srow{alias: r}, up: c}
			if where == nil || where(x) == true {
				emit(x)
			}
		}
		return out
	}
}

type stmtResult struct {
	n    int64
	rows [][]sval
	cols []string
}

func (p *sparser) sets() (cols []string, exs []sexpr) {
	for {
		c := p.ident()
		if p.eat(".") {
			c = p.ident()
		}
		cols = append(cols, c)
		p.want("=")
		exs = append(exs, p.expr())
		if !p.eat(",") {
			return
		}
	}
}

func (p *sparser) returning() []sexpr {
	if !p.eat("returning") {
		return nil
	}
	var ex []sexpr
	for {
		ex = append(ex, p.expr())
		if !p.eat(",") {
			return ex
		}
	}
}

func sqlExec(db sdb, q string, args []sval) (res stmtResult, err error) {
	defer func() {
		if r := recover(); r != nil {
			se, ok := r.(sqlErr)
			if !ok {
				panic(r)
			}
			err = errors.New(se.msg)
		}
	}()
	p := &sparser{q: q, t: lexSQL(q)}
	c := &sctx{db: db, args: args}
	end := func() {
		if p.t[p.i].kind != "eof" {
			sqlUnsupported("unexpected %v in %q", p.t[p.i], q)
		}
	}
	put := func(t *stable, col string, r srow, v sval) {
		ok := false
		for _, x := range t.cols {
			ok = ok || x == col
		}
		if !ok {
			sqlFail("column %q does not exist", col)
		}
		r[col] = v
	}
	check := func(t *stable, r srow) {
		for _, n := range t.nn {
			if r[n] == nil {
				sqlFail("null value in column %q", n)
			}
		}
		for _, n := range []string{"scalar", "last_token", "vc"} {
			if v, ok := r[n]; ok && v != nil {
				snum(v)
			}
		}
	}
	switch {
	case p.is("select"):
		s := p.sel()
		end()
		res.rows = s(c)
		res.n = int64(len(res.rows))
		return
	case p.eat("insert", "into"):
		name := p.ident()
		t := db[name]
		if t == nil {
			sqlFail("relation %q does not exist", name)
		}
		p.want("(")
		var cols []string
		for {
			cols = append(cols, p.ident())
			if !p.eat(",") {
				break
			}
		}
		p.want(")")
		var tuples [][]sval
		if p.eat("values") {
			for {
				p.want("(")
				var vs []sval
				for {
					vs = append(vs, p.expr()(c))
					if !p.eat(",") {
						break
					}
				}
				p.want(")")
				tuples = append(tuples, vs)
				if !p.eat(",") {
					break
				}
			}
		} else {
			tuples = p.sel()(c)
		}
		conflict := ""
		var scols []string
		var sexs []sexpr
		var swhere sexpr
		if p.eat("on", "conflict") {
			if p.eat("(") {
				if col := p.ident(); col != t.pk {
					sqlFail("there is no unique constraint matching the ON CONFLICT specification (%s)", col)
				}
				p.want(")")
			}
			p.want("do")
			if p.eat("nothing") {
				conflict = "nothing"
			} else {
				p.want("update", "set")
				conflict = "update"
				scols, sexs = p.sets()
				if p.eat("where") {
					swhere = p.expr()
				}
			}
		}
		ret := p.returning()
		end()
		back := func(r srow) {
			if ret != nil {
				x := &sctx{db: db, args: args, row: r, tabs: map[string]srow{name: r}}
				var vs []sval
				for _, e := range ret {
					vs = append(vs, e(x))
				}
				res.rows = append(res.rows, vs)
			}
		}
		for _, vs := range tuples {
			if len(vs) != len(cols) {
				sqlFail("INSERT has a different number of expressions than target columns")
			}
			r := srow{}
			for _, col := range t.cols {
				r[col] = nil
			}
			for i, col := range cols {
				put(t, col, r, vs[i])
			}
			check(t, r)
			var old srow
			for _, o := range t.rows {
				if o[t.pk] == r[t.pk] {
					old = o
				}
			}
			switch {
			case old == nil:
				t.rows = append(t.rows, r)
				res.n++
				back(r)
			case conflict == "nothing":
			case conflict == "update":
				x := &sctx{db: db, args: args, row: old, tabs: map[string]srow{name: old, "excluded": r}}
				if swhere != nil && swhere(x) != true {
					continue
				}
				var nv []sval
				for _, e := range sexs {
					nv = append(nv, e(x))
				}
				for i, col := range scols {
					put(t, col, old, nv[i])
				}
				check(t, old)
				res.n++
				back(old)
			default:
				sqlFail("duplicate key value violates unique constraint \"%s_pkey\"", name)
			}
		}
		return
	case p.eat("update"):
		name := p.ident()
		alias := name
		if !p.is("set") {
			p.eat("as")
			alias = p.ident()
		}
		t := db[name]
		if t == nil {
			sqlFail("relation %q does not exist", name)
		}
		p.want("set")
		cols, exs := p.sets()
		var where sexpr
		if p.eat("where") {
			where = p.expr()
		}
		ret := p.returning()
		end()
		for _, r := range t.rows {
			x := &sctx{db: db, args: args, row: r, tabs: map[string]srow{alias: r}}
			if where != nil && where(x) != true {
				continue
			}
			var nv []sval
			for _, e := range exs {
				nv = append(nv, e(x))
			}
			for i, col := range cols {
				put(t, col, r, nv[i])
			}
			check(t, r)
			res.n++
			if ret != nil {
				var vs []sval
				for _, e := range ret {
					vs = append(vs, e(x))
				}
				res.rows = append(res.rows, vs)
			}
		}
		return
	case p.eat("delete", "from"):
		name := p.ident()
		t := db[name]
		if t == nil {
			sqlFail("relation %q does not exist", name)
		}
		var where sexpr
		if p.eat("where") {
			where = p.expr()
		}
		end()
		var keep []srow
		for _, r := range t.rows {
			x := &sctx{db: db, args: args, row: r, tabs: map[string]srow{name: r}}
			if where == nil || where(x) == true {
				res.n++
			} else {
				keep = append(keep, r)
			}
		}
		t.rows = keep
		return
	}
	sqlUnsupported("statement %q", q)
	return
}

// ---- the driver ----

// pgServer is the shared database; one transaction at a time (the strictest isolation).
type pgServer struct {
	mu     sync.Mutex // guards everything below
	db     sdb
	txLock chan struct{}
	// faults of the next call: statement number (1-based, counting the commit), and how
	failAt    int
	err       error  // what a failure looks like; nil: as usual
	failMode  string // error, dead (connection lost), lostcommit (applied, reported as failed), cancel
	cancel    func()
	stmts     int
	hit       bool
	commits   int
	rollbacks int
}

func (s *pgServer) fault(usual string) error {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.err != nil {
		return s.err
	}
	return errors.New(usual)
}

func newPgServer() *pgServer {
	s := &pgServer{db: newSdb(), txLock: make(chan struct{}, 1)}
	return s
}

type pgConnector struct{ s *pgServer }

func (c pgConnector) Connect(context.Context) (driver.Conn, error) { return &pgConn{s: c.s}, nil }
func (c pgConnector) Driver() driver.Driver                        { return nil }

type pgConn struct {
	s       *pgServer
	tx      sdb
	aborted bool
	dead    bool
}

func (c *pgConn) Prepare(q string) (driver.Stmt, error) { return &pgStmt{c, q}, nil }
func (c *pgConn) Close() error {
	if c.tx != nil {
		c.finish(false)
	}
	return nil
}
func (c *pgConn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}
func (c *pgConn) BeginTx(ctx context.Context, _ driver.TxOptions) (driver.Tx, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if mode := c.step(); mode == "error" || mode == "lostcommit" {
		return nil, errors.New("pq: too many connections")
	} else if mode == "dead" {
		c.dead = true
		return nil, errors.New("EOF")
	}
	select {
	case c.s.txLock <- struct{}{}:
	case <-ctx.Done():
		return nil, ctx.Err()
	}
	c.s.mu.Lock()
	c.tx = c.s.db.clone()
	c.s.mu.Unlock()
	c.aborted = false
	return pgTx{c}, nil
}

func (c *pgConn) finish(commit bool) {
	c.s.mu.Lock()
	if commit {
		c.s.db = c.tx
		c.s.commits++
	} else {
		c.s.rollbacks++
	}
	c.s.mu.Unlock()
	c.tx = nil
	<-c.s.txLock
}

// step counts a round trip and says whether it is to fail.
func (c *pgConn) step() string {
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	c.s.stmts++
	if c.s.stmts != c.s.failAt {
		return ""
	}
	c.s.hit = true
	if c.s.failMode == "cancel" {
		c.s.cancel()
		return ""
	}
	return c.s.failMode
}

func (c *pgConn) IsValid() bool { return !c.dead }

type pgTx struct{ c *pgConn }

func (t pgTx) Commit() error {
	switch t.c.step() {
	case "error": // e.g. serialization failure: nothing happened
		t.c.finish(false)
		return t.c.s.fault("pq: could not serialize access")
	case "dead": // connection lost before the server saw it
		t.c.dead = true
		t.c.finish(false)
		return t.c.s.fault("unexpected EOF")
	case "lostcommit": // the server committed, the reply was lost
		t.c.dead = true
		t.c.finish(true)
		return t.c.s.fault("unexpected EOF")
	}
	if t.c.aborted {
		t.c.finish(false)
		return errors.New("pq: Could not complete operation in a failed transaction")
	}
	t.c.finish(true)
	return nil
}
func (t pgTx) Rollback() error {
	if t.c.tx != nil {
		t.c.finish(false)
	}
	return nil
}

func (c *pgConn) run(ctx context.Context, q string, nv []driver.NamedValue) (stmtResult, error) {
	if err := ctx.Err(); err != nil {
		return stmtResult{}, err
	}
	args := make([]sval, len(nv))
	for i, a := range nv {
		switch x := a.Value.(type) {
		case nil, int64, string, bool:
			args[i] = x
		case []byte:
			args[i] = string(x)
		default:
			kit.Broken("query argument %T", a.Value)
		}
	}
	mode := c.step()
	db := c.tx
	auto := db == nil
	if auto { // outside a transaction: its own
		c.s.txLock <- struct{}{}
		c.s.mu.Lock()
		db = c.s.db.clone()
		c.s.mu.Unlock()
		c.tx = db
	}
	fin := func(ok bool) {
		if auto {
			c.finish(ok)
		}
	}
	if c.aborted && !auto {
		return stmtResult{}, errors.New("pq: current transaction is aborted, commands ignored until end of transaction block")
	}
	switch mode {
	case "error":
		c.aborted = !auto
		fin(false)
		return stmtResult{}, c.s.fault("pq: canceling statement due to lock timeout")
	case "dead", "lostcommit":
		c.dead = true
		c.aborted = !auto
		fin(mode == "lostcommit")
		return stmtResult{}, c.s.fault("unexpected EOF")
	}
	save := db.clone()
	r, err := sqlExec(db, q, args)
	if err != nil {
		for k := range db {
			db[k] = save[k]
		}
		c.aborted = !auto
		fin(false)
		return stmtResult{}, err
	}
	fin(true)
	return r, nil
}

func (c *pgConn) ExecContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Result, error) {
	r, err := c.run(ctx, q, a)
	if err != nil {
		return nil, err
	}
	return driver.RowsAffected(r.n), nil
}
func (c *pgConn) QueryContext(ctx context.Context, q string, a []driver.NamedValue) (driver.Rows, error) {
	r, err := c.run(ctx, q, a)
	if err != nil {
		return nil, err
	}
	return &pgRows{r.rows, 0}, nil
}

type pgStmt struct {
	c *pgConn
	q string
}

func (s *pgStmt) Close() error                               { return nil }
func (s *pgStmt) NumInput() int                              { return -1 }
func (s *pgStmt) Exec([]driver.Value) (driver.Result, error) { return nil, errors.New("unused") }
func (s *pgStmt) Query([]driver.Value) (driver.Rows, error)  { return nil, errors.New("unused") }
func (s *pgStmt) ExecContext(ctx context.Context, a []driver.NamedValue) (driver.Result, error) {
	return s.c.ExecContext(ctx, s.q, a)
}
func (s *pgStmt) QueryContext(ctx context.Context, a []driver.NamedValue) (driver.Rows, error) {
	return s.c.QueryContext(ctx, s.q, a)
}

type pgRows struct {
	rows [][]sval
	i    int
}

func (r *pgRows) Columns() []string {
	if len(r.rows) == 0 {
		return []string{"c"}
	}
	out := make([]string, len(r.rows[0]))
	for i := range out {
		out[i] = fmt.Sprintf("c%d", i)
	}
	return out
}
func (r *pgRows) Close() error { return nil }
func (r *pgRows) Next(d []driver.Value) error {
	if r.i >= len(r.rows) {
		return io.EOF
	}
	for i, v := range r.rows[r.i] {
		d[i] = v
	}
	r.i++
	return nil
}

func openPg(s *pgServer) *sql.DB { return sql.OpenDB(pgConnector{s}) }
