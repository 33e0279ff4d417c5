package verifpersist_test

// A small interpreter for the Lua subset that Redis scripts of this kind use. Anything it
// does not know ends the check as broken (never as a violation).

import (
	"fmt"
	"math"
	"regexp"
	"strconv"
	"strings"

	kit "vsa/internal/verifkit"
)

type lval any // nil, bool, float64, string, *ltable, lfunc

type ltable struct {
	arr []lval
	m   map[string]lval
}
type lfunc func(args []lval) []lval

type luaErr struct{ msg string } // error raised by a script at run time

type ltok struct {
	kind string // name num str op eof
	s    string
	n    float64
}

func luaUnsupported(f string, a ...any) { kit.Broken("lua: "+f, a...) }

func lexLua(src string) []ltok {
	var out []ltok
	i := 0
	isAl := func(c byte) bool { return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' }
	isD := func(c byte) bool { return c >= '0' && c <= '9' }
	for i < len(src) {
		c := src[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == ';':
			i++
		case strings.HasPrefix(src[i:], "--[["):
			j := strings.Index(src[i:], "]]")
			if j < 0 {
				luaUnsupported("unterminated comment")
			}
			i += j + 2
		case strings.HasPrefix(src[i:], "--"):
			j := strings.IndexByte(src[i:], '\n')
			if j < 0 {
				i = len(src)
			} else {
				i += j
			}
		case isAl(c):
			j := i
			for j < len(src) && (isAl(src[j]) || isD(src[j])) {
				j++
			}
			out = append(out, ltok{kind: "name", s: src[i:j]})
			i = j
		case isD(c) || c == '.' && i+1 < len(src) && isD(src[i+1]):
			j := i
			for j < len(src) && (isD(src[j]) || src[j] == '.' || src[j] == 'e' || src[j] == 'x' || isAl(src[j])) {
				j++
			}
			f, err := strconv.ParseFloat(src[i:j], 64)
			if err != nil {
				luaUnsupported("number %q", src[i:j])
			}
			out = append(out, ltok{kind: "num", n: f})
			i = j
		case c == '\'' || c == '"':
			var b []byte
			j := i + 1
			for {
				if j >= len(src) {
					luaUnsupported("unterminated string")
				}
				if src[j] == c {
					break
				}
				if src[j] == '\\' {
					j++
					switch src[j] {
					case 'n':
						b = append(b, '\n')
					case 't':
						b = append(b, '\t')
					case '\\', '\'', '"':
						b = append(b, src[j])
					case '0':
						b = append(b, 0)
					default:
						luaUnsupported("escape %q", src[j])
					}
					j++
					continue
				}
				b = append(b, src[j])
				j++
			}
			out = append(out, ltok{kind: "str", s: string(b)})
			i = j + 1
		default:
			ok := false
			for _, op := range []string{"...", "..", "==", "~=", "<=", ">=", "<", ">", "=", "+", "-", "*", "/", "%", "^", "#", "(", ")", "[", "]", "{", "}", ",", ".", ":"} {
				if strings.HasPrefix(src[i:], op) {
					out = append(out, ltok{kind: "op", s: op})
					i += len(op)
					ok = true
					break
				}
			}
			if !ok {
				luaUnsupported("character %q", c)
			}
		}
	}
	return append(out, ltok{kind: "eof"})
}

type lenv struct {
	vars map[string]*lval
	up   *lenv
}

func (e *lenv) find(n string) *lval {
	for x := e; x != nil; x = x.up {
		if p, ok := x.vars[n]; ok {
			return p
		}
	}
	return nil
}

type lexpr func(e *lenv) lval
type lstmt func(e *lenv) (ctl string, vals []lval)
type lparser struct {
	t []ltok
	i int
}

func (p *lparser) peek() ltok { return p.t[p.i] }
func (p *lparser) is(s string) bool {
	k := p.t[p.i]
	return (k.kind == "op" || k.kind == "name") && k.s == s
}
func (p *lparser) eat(s string) bool {
	if p.is(s) {
		p.i++
		return true
	}
	return false
}
func (p *lparser) want(s string) {
	if !p.eat(s) {
		luaUnsupported("expected %q near %v", s, p.peek())
	}
}

var luaKw = map[string]bool{"and": true, "break": true, "do": true, "else": true, "elseif": true, "end": true, "false": true, "for": true, "function": true, "if": true, "in": true, "local": true, "nil": true, "not": true, "or": true, "repeat": true, "return": true, "then": true, "true": true, "until": true, "while": true}

func (p *lparser) name() string {
	k := p.peek()
	if k.kind != "name" || luaKw[k.s] {
		luaUnsupported("name expected near %v", k)
	}
	p.i++
	return k.s
}

func (p *lparser) block() lstmt {
	var ss []lstmt
	for !(p.is("end") || p.is("else") || p.is("elseif") || p.is("until") || p.peek().kind == "eof") {
		ss = append(ss, p.stmt())
	}
	return func(e *lenv) (string, []lval) {
		in := &lenv{vars: map[string]*lval{}, up: e}
		for _, s := range ss {
			if c, v := s(in); c != "" {
				return c, v
			}
		}
		return "", nil
	}
}

// function parses what follows the word function (and its name): parameters and body.
func (p *lparser) function() lexpr {
	p.want("(")
	var params []string
	for !p.eat(")") {
		params = append(params, p.name())
		if !p.eat(",") && !p.is(")") {
			luaUnsupported("parameters")
		}
	}
	body := p.block()
	p.want("end")
	return func(e *lenv) lval {
		return lfunc(func(args []lval) []lval {
			in := &lenv{vars: map[string]*lval{}, up: e}
			for i, n := range params {
				var v lval
				if i < len(args) {
					v = args[i]
				}
				in.vars[n] = &v
			}
			c, vs := body(in)
			if c == "return" {
				return vs
			}
			return nil
		})
	}
}

func truthy(v lval) bool { return v != nil && v != false }

func (p *lparser) stmt() lstmt {
	switch {
	case p.eat("local"):
		if p.eat("function") {
			n := p.name()
			f := p.function()
			return func(e *lenv) (string, []lval) {
				var v lval
				e.vars[n] = &v
				v = f(e)
				return "", nil
			}
		}
		names := []string{p.name()}
		for p.eat(",") {
			names = append(names, p.name())
		}
		var ex []lexpr
		if p.eat("=") {
			ex = p.exprs()
		}
		return func(e *lenv) (string, []lval) {
			vs := evalAll(ex, e)
			for i, n := range names {
				var v lval
				if i < len(vs) {
					v = vs[i]
				}
				e.vars[n] = &v
			}
			return "", nil
		}
	case p.eat("if"):
		type arm struct {
			c lexpr
			b lstmt
		}
		var arms []arm
		var els lstmt
		c := p.expr(0)
		p.want("then")
		arms = append(arms, arm{c, p.block()})
		for {
			if p.eat("elseif") {
				c := p.expr(0)
				p.want("then")
				arms = append(arms, arm{c, p.block()})
				continue
			}
			if p.eat("else") {
				els = p.block()
			}
			p.want("end")
			break
		}
		return func(e *lenv) (string, []lval) {
			for _, a := range arms {
				if truthy(a.c(e)) {
					return a.b(e)
				}
			}
			if els != nil {
				return els(e)
			}
			return "", nil
		}
	case p.eat("for"):
		n := p.name()
		if !p.eat("=") {
			luaUnsupported("generic for")
		}
		a := p.expr(0)
		p.want(",")
		b := p.expr(0)
		var st lexpr
		if p.eat(",") {
			st = p.expr(0)
		}
		p.want("do")
		body := p.block()
		p.want("end")
		return func(e *lenv) (string, []lval) {
			step := 1.0
			if st != nil {
				step = lnum(st(e))
			}
			hi := lnum(b(e))
			for x := lnum(a(e)); step > 0 && x <= hi || step < 0 && x >= hi; x += step {
				var v lval = x
				in := &lenv{vars: map[string]*lval{n: &v}, up: e}
				if c, vs := body(in); c == "break" {
					break
				} else if c != "" {
					return c, vs
				}
			}
			return "", nil
		}
	case p.eat("while"):
		c := p.expr(0)
		p.want("do")
		body := p.block()
		p.want("end")
		return func(e *lenv) (string, []lval) {
			for k := 0; truthy(c(e)); k++ {
				if k > 100000 {
					luaUnsupported("endless loop")
				}
				if c, vs := body(e); c == "break" {
					break
				} else if c != "" {
					return c, vs
				}
			}
			return "", nil
		}
	case p.eat("do"):
		b := p.block()
		p.want("end")
		return b
	case p.eat("break"):
		return func(*lenv) (string, []lval) { return "break", nil }
	case p.eat("return"):
		var ex []lexpr
		if !(p.is("end") || p.is("else") || p.is("elseif") || p.peek().kind == "eof") {
			ex = p.exprs()
		}
		return func(e *lenv) (string, []lval) { return "return", evalAll(ex, e) }
	}
	// assignment or call
	start := p.i
	k := p.peek()
	if k.kind == "name" && p.t[p.i+1].kind == "op" && (p.t[p.i+1].s == "=" || p.t[p.i+1].s == ",") {
		names := []string{p.name()}
		for p.eat(",") {
			names = append(names, p.name())
		}
		p.want("=")
		ex := p.exprs()
		return func(e *lenv) (string, []lval) {
			vs := evalAll(ex, e)
			for i, n := range names {
				var v lval
				if i < len(vs) {
					v = vs[i]
				}
				t := e.find(n)
				if t == nil {
					panic(luaErr{"Script attempted to create global variable '" + n + "'"})
				}
				*t = v
			}
			return "", nil
		}
	}
	x, call := p.suffixed()
	if !call {
		luaUnsupported("statement near %v", p.t[start])
	}
	return func(e *lenv) (string, []lval) { x(e); return "", nil }
}

func evalAll(ex []lexpr, e *lenv) []lval {
	var out []lval
	for _, x := range ex {
		out = append(out, x(e))
	}
	return out
}

func (p *lparser) exprs() []lexpr {
	ex := []lexpr{p.expr(0)}
	for p.eat(",") {
		ex = append(ex, p.expr(0))
	}
	return ex
}

var luaPrec = map[string][2]int{"or": {1, 1}, "and": {2, 2}, "<": {3, 3}, ">": {3, 3}, "<=": {3, 3}, ">=": {3, 3}, "~=": {3, 3}, "==": {3, 3}, "..": {5, 4}, "+": {6, 6}, "-": {6, 6}, "*": {7, 7}, "/": {7, 7}, "%": {7, 7}}

func (p *lparser) expr(limit int) lexpr {
	var l lexpr
	switch {
	case p.eat("not"):
		x := p.expr(8)
		l = func(e *lenv) lval { return !truthy(x(e)) }
	case p.eat("-"):
		x := p.expr(8)
		l = func(e *lenv) lval { return -lnum(x(e)) }
	case p.eat("#"):
		x := p.expr(8)
		l = func(e *lenv) lval {
			switch v := x(e).(type) {
			case string:
				return float64(len(v))
			case *ltable:
				return float64(len(v.arr))
			}
			panic(luaErr{"attempt to get length"})
		}
	default:
		l, _ = p.suffixed()
	}
	for {
		k := p.peek()
		pr, ok := luaPrec[k.s]
		if !ok || k.kind == "str" || k.kind == "num" || pr[0] <= limit {
			return l
		}
		p.i++
		r := p.expr(pr[1])
		a, op := l, k.s
		l = func(e *lenv) lval {
			switch op {
			case "and":
				if v := a(e); !truthy(v) {
					return v
				}
				return r(e)
			case "or":
				if v := a(e); truthy(v) {
					return v
				}
				return r(e)
			}
			x, y := a(e), r(e)
			switch op {
			case "==":
				return leq(x, y)
			case "~=":
				return !leq(x, y)
			case "..":
				return lstr(x) + lstr(y)
			case "+":
				return lnum(x) + lnum(y)
			case "-":
				return lnum(x) - lnum(y)
			case "*":
				return lnum(x) * lnum(y)
			case "/":
				return lnum(x) / lnum(y)
			case "%":
				m := math.Mod(lnum(x), lnum(y))
				if m != 0 && (m < 0) != (lnum(y) < 0) {
					m += lnum(y)
				}
				return m
			}
			if xs, ok := x.(string); ok {
				if ys, ok := y.(string); ok {
					switch op {
					case "<":
						return xs < ys
					case ">":
						return xs > ys
					case "<=":
						return xs <= ys
					case ">=":
						return xs >= ys
					}
				}
			}
			xn, ok1 := x.(float64)
			yn, ok2 := y.(float64)
			if !ok1 || !ok2 {
				panic(luaErr{"attempt to compare"})
			}
			switch op {
			case "<":
				return xn < yn
			case ">":
				return xn > yn
			case "<=":
				return xn <= yn
			}
			return xn >= yn
		}
	}
}

func leq(x, y lval) bool {
	switch a := x.(type) {
	case *ltable:
		b, ok := y.(*ltable)
		return ok && a == b
	case lfunc:
		return false
	}
	if _, ok := y.(*ltable); ok {
		return false
	}
	return x == y
}

func lnum(v lval) float64 {
	switch x := v.(type) {
	case float64:
		return x
	case string:
		if f, err := strconv.ParseFloat(strings.TrimSpace(x), 64); err == nil {
			return f
		}
	}
	panic(luaErr{fmt.Sprintf("attempt to perform arithmetic on %T", v)})
}

// lstr is Lua 5.1's conversion (%.14g).
func lstr(v lval) string {
	switch x := v.(type) {
	case string:
		return x
	case float64:
		return fmtG(x, 14)
	}
	panic(luaErr{fmt.Sprintf("attempt to concatenate %T", v)})
}

// fmtG is C's %.<p>g.
func fmtG(x float64, p int) string {
	if x == 0 {
		if math.Signbit(x) {
			return "-0"
		}
		return "0"
	}
	e := strconv.FormatFloat(x, 'e', p-1, 64)
	i := strings.IndexByte(e, 'e')
	ex, _ := strconv.Atoi(e[i+1:])
	if ex < -4 || ex >= p {
		m := e[:i]
		if strings.Contains(m, ".") {
			m = strings.TrimRight(strings.TrimRight(m, "0"), ".")
		}
		return fmt.Sprintf("%se%+03d", m, ex)
	}
	s := strconv.FormatFloat(x, 'f', p-1-ex, 64)
	if strings.Contains(s, ".") {
		s = strings.TrimRight(strings.TrimRight(s, "0"), ".")
	}
	return s
}

func (p *lparser) suffixed() (x lexpr, call bool) {
	k := p.peek()
	switch {
	case k.kind == "num":
		p.i++
		return func(*lenv) lval { return k.n }, false
	case k.kind == "str":
		p.i++
		return func(*lenv) lval { return k.s }, false
	case p.eat("true"):
		return func(*lenv) lval { return true }, false
	case p.eat("false"):
		return func(*lenv) lval { return false }, false
	case p.eat("nil"):
		return func(*lenv) lval { return nil }, false
	case p.eat("function"):
		return p.function(), false
	case p.eat("{"):
		var items []lexpr
		keys := []string{}
		for !p.eat("}") {
			if p.peek().kind == "name" && p.t[p.i+1].s == "=" && p.t[p.i+1].kind == "op" {
				keys = append(keys, p.name())
				p.want("=")
			} else {
				keys = append(keys, "")
			}
			items = append(items, p.expr(0))
			if !p.eat(",") && !p.is("}") {
				luaUnsupported("table constructor")
			}
		}
		return func(e *lenv) lval {
			t := &ltable{m: map[string]lval{}}
			for i, it := range items {
				if keys[i] != "" {
					t.m[keys[i]] = it(e)
				} else {
					t.arr = append(t.arr, it(e))
				}
			}
			return t
		}, false
	case p.eat("("):
		x = p.expr(0)
		p.want(")")
	case k.kind == "name" && !luaKw[k.s]:
		n := p.name()
		x = func(e *lenv) lval {
			if v := e.find(n); v != nil {
				return *v
			}
			panic(luaErr{"Script attempted to access nonexistent global variable '" + n + "'"})
		}
	default:
		luaUnsupported("expression near %v", k)
	}
	for {
		switch {
		case p.is("[") || p.is("."):
			var key lexpr
			if p.eat(".") {
				n := p.name()
				key = func(*lenv) lval { return n }
			} else {
				p.want("[")
				key = p.expr(0)
				p.want("]")
			}
			obj := x
			x = func(e *lenv) lval {
				t, ok := obj(e).(*ltable)
				if !ok {
					panic(luaErr{"attempt to index a non-table"})
				}
				switch kv := key(e).(type) {
				case string:
					return t.m[kv]
				case float64:
					if i := int(kv); float64(i) == kv && i >= 1 && i <= len(t.arr) {
						return t.arr[i-1]
					}
					return nil
				}
				return nil
			}
			call = false
		case p.is("("):
			p.i++
			var args []lexpr
			if !p.is(")") {
				args = p.exprs()
			}
			p.want(")")
			fn := x
			x = func(e *lenv) lval {
				f, ok := fn(e).(lfunc)
				if !ok {
					luaUnsupported("call of something that is not a known function")
				}
				r := f(evalAll(args, e))
				if len(r) == 0 {
					return nil
				}
				return r[0]
			}
			call = true
		case p.eat(":"):
			n := p.name()
			var args []lexpr
			switch {
			case p.eat("("):
				if !p.is(")") {
					args = p.exprs()
				}
				p.want(")")
			default:
				luaUnsupported("method call without parentheses")
			}
			obj := x
			x = func(e *lenv) lval {
				o := obj(e)
				var t *ltable
				switch v := o.(type) {
				case string:
					t, _ = (*e.find("string")).(*ltable)
				case *ltable:
					t = v
				}
				if t == nil {
					panic(luaErr{"attempt to index a non-table"})
				}
				f, ok := t.m[n].(lfunc)
				if !ok {
					luaUnsupported("method %q", n)
				}
				if r := f(append([]lval{o}, evalAll(args, e)...)); len(r) > 0 {
					return r[0]
				}
				return nil
			}
			call = true
		default:
			return x, call
		}
	}
}

// luaPattern translates a Lua pattern.
func luaPattern(p string) *regexp.Regexp {
	class := map[byte]string{'d': `[0-9]`, 'a': `[A-Za-z]`, 's': `[ \t\n\v\f\r]`, 'w': `[A-Za-z0-9]`, 'D': `[^0-9]`, 'S': `[^ \t\n\v\f\r]`, 'x': `[0-9A-Fa-f]`}
	out := "(?s)"
	i := 0
	if strings.HasPrefix(p, "^") {
		out += `\A`
		i++
	}
	for i < len(p) {
		item := ""
		switch c := p[i]; {
		case c == '$' && i == len(p)-1:
			out += `\z`
			i++
			continue
		case c == '(' || c == ')':
			out += string(c)
			i++
			continue
		case c == '.':
			item = "."
			i++
		case c == '%' && i+1 < len(p):
			d := p[i+1]
			if k, ok := class[d]; ok {
				item = k
			} else if d >= '0' && d <= '9' || d >= 'A' && d <= 'Z' || d >= 'a' && d <= 'z' {
				luaUnsupported("pattern %q", p)
			} else {
				item = regexp.QuoteMeta(string(d))
			}
			i += 2
		case c == '[':
			j := strings.IndexByte(p[i+1:], ']')
			if j <= 0 || strings.Contains(p[i:i+1+j], "%") {
				luaUnsupported("pattern %q", p)
			}
			item = strings.ReplaceAll(p[i:i+j+2], `\`, `\\`)
			i += j + 2
		default:
			item = regexp.QuoteMeta(string(c))
			i++
		}
		if i < len(p) {
			switch p[i] {
			case '*', '+', '?':
				item += string(p[i])
				i++
			case '-':
				item += "*?"
				i++
			}
		}
		out += item
	}
	re, err := regexp.Compile(out)
	if err != nil {
		luaUnsupported("pattern %q: %v", p, err)
	}
	return re
}

var luaCache = map[string]lstmt{}

// luaRun executes a script atomically against call (one Redis command).
func luaRun(src string, keys, argv []string, call func(args []string) (lval, error)) (res lval, err error) {
	prog := luaCache[src]
	if prog == nil {
		p := &lparser{t: lexLua(src)}
		prog = p.block()
		if p.peek().kind != "eof" {
			luaUnsupported("unexpected %v", p.peek())
		}
		luaCache[src] = prog
	}
	tbl := func(ss []string) *ltable {
		t := &ltable{m: map[string]lval{}}
		for _, s := range ss {
			t.arr = append(t.arr, s)
		}
		return t
	}
	conv := func(args []lval) []string {
		var out []string
		for _, a := range args {
			switch x := a.(type) {
			case string:
				out = append(out, x)
			case float64:
				out = append(out, fmtG(x, 17))
			default:
				panic(luaErr{"Lua redis lib command arguments must be strings or integers"})
			}
		}
		return out
	}
	rcall := lfunc(func(args []lval) []lval {
		v, err := call(conv(args))
		if err != nil {
			panic(luaErr{err.Error()})
		}
		return []lval{v}
	})
	pcall := lfunc(func(args []lval) []lval {
		v, err := call(conv(args))
		if err != nil {
			return []lval{&ltable{m: map[string]lval{"err": err.Error()}}}
		}
		return []lval{v}
	})
	fn := func(f func(v []lval) lval) lval { return lfunc(func(v []lval) []lval { return []lval{f(v)} }) }
	g := map[string]lval{
		"KEYS": tbl(keys), "ARGV": tbl(argv),
		"redis": &ltable{m: map[string]lval{"call": rcall, "pcall": pcall,
			"error_reply":  fn(func(v []lval) lval { return &ltable{m: map[string]lval{"err": lstr(v[0])}} }),
			"status_reply": fn(func(v []lval) lval { return &ltable{m: map[string]lval{"ok": lstr(v[0])}} })}},
		"tonumber": fn(func(v []lval) lval {
			switch x := v[0].(type) {
			case float64:
				return x
			case string:
				if f, err := strconv.ParseFloat(strings.TrimSpace(x), 64); err == nil {
					return f
				}
			}
			return nil
		}),
		"tostring": fn(func(v []lval) lval {
			switch x := v[0].(type) {
			case nil:
				return "nil"
			case bool:
				return strconv.FormatBool(x)
			}
			return lstr(v[0])
		}),
		"type": fn(func(v []lval) lval {
			switch v[0].(type) {
			case nil:
				return "nil"
			case bool:
				return "boolean"
			case float64:
				return "number"
			case string:
				return "string"
			case *ltable:
				return "table"
			}
			return "function"
		}),
		"math": &ltable{m: map[string]lval{
			"floor": fn(func(v []lval) lval { return math.Floor(lnum(v[0])) }),
			"ceil":  fn(func(v []lval) lval { return math.Ceil(lnum(v[0])) }),
			"abs":   fn(func(v []lval) lval { return math.Abs(lnum(v[0])) }),
			"max":   fn(func(v []lval) lval { return math.Max(lnum(v[0]), lnum(v[1])) }),
			"min":   fn(func(v []lval) lval { return math.Min(lnum(v[0]), lnum(v[1])) }),
		}},
		"string": &ltable{m: map[string]lval{
			"sub": fn(func(v []lval) lval {
				s := lstr(v[0])
				i, j := int(lnum(v[1])), len(s)
				if len(v) > 2 {
					j = int(lnum(v[2]))
				}
				if i < 0 {
					i = len(s) + i + 1
				}
				if j < 0 {
					j = len(s) + j + 1
				}
				i, j = max(i, 1), min(j, len(s))
				if i > j {
					return ""
				}
				return s[i-1 : j]
			}),
			"len":   fn(func(v []lval) lval { return float64(len(lstr(v[0]))) }),
			"lower": fn(func(v []lval) lval { return strings.ToLower(lstr(v[0])) }),
			"upper": fn(func(v []lval) lval { return strings.ToUpper(lstr(v[0])) }),
			"rep":   fn(func(v []lval) lval { return strings.Repeat(lstr(v[0]), max(0, int(lnum(v[1])))) }),
			"byte": fn(func(v []lval) lval {
				s, i := lstr(v[0]), 1
				if len(v) > 1 {
					i = int(lnum(v[1]))
				}
				if i < 0 {
					i = len(s) + i + 1
				}
				if i < 1 || i > len(s) {
					return nil
				}
				return float64(s[i-1])
			}),
			"char": fn(func(v []lval) lval {
				var b []byte
				for _, x := range v {
					b = append(b, byte(lnum(x)))
				}
				return string(b)
			}),
			"find": lfunc(func(v []lval) []lval {
				s, pat := lstr(v[0]), lstr(v[1])
				from := 0
				if len(v) > 2 && v[2] != nil {
					if from = int(lnum(v[2])) - 1; from < 0 || from > len(s) {
						luaUnsupported("string.find from %d", from+1)
					}
				}
				if len(v) > 3 && truthy(v[3]) {
					if i := strings.Index(s[from:], pat); i >= 0 {
						return []lval{float64(from + i + 1), float64(from + i + len(pat))}
					}
					return []lval{nil}
				}
				m := luaPattern(pat).FindStringSubmatchIndex(s[from:])
				if m == nil {
					return []lval{nil}
				}
				r := []lval{float64(from + m[0] + 1), float64(from + m[1])}
				for i := 2; i < len(m); i += 2 {
					r = append(r, s[from:][m[i]:m[i+1]])
				}
				return r
			}),
			"match": lfunc(func(v []lval) []lval {
				if len(v) > 2 {
					luaUnsupported("string.match with a start")
				}
				m := luaPattern(lstr(v[1])).FindStringSubmatch(lstr(v[0]))
				if m == nil {
					return []lval{nil}
				}
				if len(m) > 1 {
					m = m[1:]
				}
				var r []lval
				for _, x := range m {
					r = append(r, x)
				}
				return r
			}),
			"gsub": lfunc(func(v []lval) []lval {
				s, re := lstr(v[0]), luaPattern(lstr(v[1]))
				with, ok := v[2].(string)
				if !ok || strings.Contains(with, "%") {
					luaUnsupported("string.gsub with this replacement")
				}
				limit := -1
				if len(v) > 3 && v[3] != nil {
					limit = int(lnum(v[3]))
				}
				ms := re.FindAllStringIndex(s, limit)
				out, at := "", 0
				for _, m := range ms {
					out += s[at:m[0]] + with
					at = m[1]
				}
				return []lval{out + s[at:], float64(len(ms))}
			}),
			"format": fn(func(v []lval) lval {
				f := lstr(v[0])
				switch f {
				case "%d", "%.0f", "%i":
					return strconv.FormatFloat(math.Trunc(lnum(v[1])), 'f', 0, 64)
				case "%s":
					return lstr(v[1])
				}
				luaUnsupported("string.format %q", f)
				return nil
			}),
		}},
	}
	env := &lenv{vars: map[string]*lval{}}
	for k, v := range g {
		env.vars[k] = &v
	}
	defer func() {
		if r := recover(); r != nil {
			le, ok := r.(luaErr)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("ERR %s", le.msg)
		}
	}()
	_, vs := prog(env)
	if len(vs) > 0 {
		res = vs[0]
	}
	if t, ok := res.(*ltable); ok {
		if e, bad := t.m["err"]; bad {
			return nil, fmt.Errorf("%v", e)
		}
	}
	return res, nil
}
