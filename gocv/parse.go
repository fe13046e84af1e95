package main

// Parser of contract files.

import (
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

type Expr struct {
	op   string // int str id call field index un bin forall exists let type
	name string
	num  *big.Int
	args []*Expr
	bnd  []binder
	trig [][]*Expr
	at   string
	typ  string
}

type binder struct{ name, typ string }

type Clause struct {
	kind, label string
	e           *Expr
	src, at     string
	ph          []binder // placeholders of an invariant template
	props       []string
}

// Spec is the contract of one function.
type Spec struct {
	name     string
	params   []string
	results  []string
	arity    int
	inline   bool
	extern   bool
	trusted  bool
	conc     bool
	noframe  bool
	maxAlloc *Expr
	props    []string
	requires []*Clause
	ensures  []*Clause
	invs     []*Clause
	modifies []*Expr
	at       string
	why      string
	variants []string
	opts     map[string]bool
	depth    int
}

type Macro struct {
	name   string
	params []string
	body   *Expr
}

type Lemma struct {
	name   string
	bnd    []binder
	induct string
	e      *Expr
	trig   [][]*Expr
	props  []string
	at     string
}

type Theorem struct {
	sp  *Spec
	bnd []binder
}

type tok struct {
	k string // id num str op eof
	s string
}

type parser struct {
	toks []tok
	p    int
	at   string
}

type specErr struct{ msg string }

func lexSpec(s, at string) []tok {
	var out []tok
	isId := func(c byte) bool {
		return c == '_' || c == '#' || c == '?' || c == '$' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9'
	}
	ops := []string{"<==>", "==>", "::", "&&", "||", "==", "!=", "<=", ">=", "++", "..", "+", "-", "*", "/", "%", "!", "<", ">", "(", ")", "[", "]", "{", "}", ",", ":", ".", "="}
	for i := 0; i < len(s); {
		c := s[i]
		if c == ' ' || c == '\t' || c == '\n' || c == '\r' {
			i++
			continue
		}
		if c >= '0' && c <= '9' {
			j := i
			for j < len(s) && (isId(s[j])) {
				j++
			}
			out = append(out, tok{"num", s[i:j]})
			i = j
			continue
		}
		if isId(c) {
			j := i
			for j < len(s) && isId(s[j]) {
				j++
			}
			out = append(out, tok{"id", s[i:j]})
			i = j
			continue
		}
		if c == '"' {
			j := i + 1
			var sb strings.Builder
			for j < len(s) && s[j] != '"' {
				if s[j] == '\\' && j+1 < len(s) {
					j++
					switch s[j] {
					case 'n':
						sb.WriteByte('\n')
					case 'r':
						sb.WriteByte('\r')
					case 't':
						sb.WriteByte('\t')
					case 'x':
						var b int
						fmt.Sscanf(s[j+1:j+3], "%x", &b)
						sb.WriteByte(byte(b))
						j += 2
					default:
						sb.WriteByte(s[j])
					}
					j++
					continue
				}
				sb.WriteByte(s[j])
				j++
			}
			out = append(out, tok{"str", sb.String()})
			i = j + 1
			continue
		}
		if c == '\'' {
			out = append(out, tok{"num", fmt.Sprint(int(s[i+1]))})
			i += 3
			continue
		}
		found := false
		for _, o := range ops {
			if strings.HasPrefix(s[i:], o) {
				out = append(out, tok{"op", o})
				i += len(o)
				found = true
				break
			}
		}
		if !found {
			panic(specErr{fmt.Sprintf("%s: bad character %q", at, c)})
		}
	}
	return append(out, tok{"eof", ""})
}

func parseExpr(s, at string) *Expr {
	p := &parser{toks: lexSpec(s, at), at: at}
	e := p.expr(0)
	if p.peek().k != "eof" {
		p.err("trailing %q", p.peek().s)
	}
	return e
}

func (p *parser) err(f string, a ...any) {
	panic(specErr{p.at + ": " + fmt.Sprintf(f, a...)})
}
func (p *parser) peek() tok { return p.toks[p.p] }
func (p *parser) next() tok { t := p.toks[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	return p.peek().k == "op" && p.peek().s == s
}
func (p *parser) want(s string) {
	if t := p.next(); t.s != s {
		p.err("expected %q, got %q", s, t.s)
	}
}

var prec = map[string]int{"<==>": 1, "==>": 2, "||": 3, "&&": 4, "==": 5, "!=": 5, "<": 5, "<=": 5, ">": 5, ">=": 5, "in": 5, "++": 6, "+": 7, "-": 7, "*": 8, "/": 8, "%": 8}

func (p *parser) expr(min int) *Expr {
	l := p.unary()
	for {
		t := p.peek()
		pr, ok := prec[t.s]
		if !ok || pr < min || t.k != "op" {
			return l
		}
		p.next()
		var r *Expr
		if t.s == "==>" {
			r = p.expr(pr)
		} else {
			r = p.expr(pr + 1)
		}
		l = &Expr{op: "bin", name: t.s, args: []*Expr{l, r}, at: p.at}
		// chained comparisons a <= b < c
		if pr == 5 {
			for {
				t2 := p.peek()
				if t2.k != "op" || prec[t2.s] != 5 {
					break
				}
				p.next()
				r2 := p.expr(6)
				l = &Expr{op: "bin", name: "&&", args: []*Expr{l, {op: "bin", name: t2.s, args: []*Expr{r, r2}, at: p.at}}, at: p.at}
				r = r2
			}
		}
	}
}

func (p *parser) unary() *Expr {
	if p.is("!") || p.is("-") || p.is("*") {
		o := p.next().s
		return &Expr{op: "un", name: o, args: []*Expr{p.unary()}, at: p.at}
	}
	return p.postfix(p.atom())
}

func (p *parser) postfix(e *Expr) *Expr {
	for {
		switch {
		case p.is("."):
			p.next()
			e = &Expr{op: "field", name: p.next().s, args: []*Expr{e}, at: p.at}
		case p.is("["):
			p.next()
			i := p.expr(0)
			p.want("]")
			e = &Expr{op: "index", args: []*Expr{e, i}, at: p.at}
		default:
			return e
		}
	}
}

func (p *parser) typeName() string {
	var sb strings.Builder
	for {
		t := p.peek()
		if t.k == "eof" || t.s == "::" || t.s == "," || t.s == ")" || t.s == "=" {
			return sb.String()
		}
		sb.WriteString(t.s)
		p.next()
	}
}

func (p *parser) atom() *Expr {
	t := p.next()
	switch t.k {
	case "num":
		b := new(big.Int)
		if _, ok := b.SetString(strings.ReplaceAll(t.s, "_", ""), 0); !ok {
			p.err("bad number %q", t.s)
		}
		return &Expr{op: "int", num: b, at: p.at}
	case "str":
		return &Expr{op: "str", name: t.s, at: p.at}
	case "op":
		if t.s == "(" {
			e := p.expr(0)
			p.want(")")
			return e
		}
		p.err("unexpected %q", t.s)
	case "eof":
		p.err("unexpected end")
	}
	switch t.s {
	case "forall", "exists":
		e := &Expr{op: t.s, at: p.at}
		for {
			n := p.next().s
			p.want(":")
			e.bnd = append(e.bnd, binder{n, p.typeName()})
			if p.is(",") {
				p.next()
				continue
			}
			break
		}
		p.want("::")
		for p.is("{") {
			p.next()
			var tr []*Expr
			for {
				tr = append(tr, p.expr(0))
				if p.is(",") {
					p.next()
					continue
				}
				break
			}
			p.want("}")
			e.trig = append(e.trig, tr)
		}
		e.args = []*Expr{p.expr(0)}
		return e
	case "let":
		n := p.next().s
		p.want("=")
		v := p.expr(3)
		if in := p.next(); in.s != "in" {
			p.err("expected in, got %q", in.s)
		}
		return &Expr{op: "let", name: n, args: []*Expr{v, p.expr(0)}, at: p.at}
	}
	if p.is("(") {
		p.next()
		e := &Expr{op: "call", name: t.s, at: p.at}
		switch t.s {
		case "typeis", "as", "zero", "arr", "box", "domarr", "valarr", "deref":
			// last argument is a type
			if t.s == "typeis" || t.s == "as" || t.s == "deref" {
				e.args = append(e.args, p.expr(0))
				p.want(",")
			}
			var sb strings.Builder
			depth := 0
			for {
				q := p.peek()
				if q.k == "eof" {
					p.err("unterminated type")
				}
				if depth == 0 && q.s == ")" {
					break
				}
				if depth == 0 && q.s == "," {
					break
				}
				if q.s == "(" {
					depth++
				}
				if q.s == ")" {
					depth--
				}
				sb.WriteString(q.s)
				p.next()
			}
			e.typ = sb.String()
			if p.is(",") {
				p.next()
			}
		}
		for !p.is(")") {
			e.args = append(e.args, p.expr(0))
			if p.is(",") {
				p.next()
			}
		}
		p.want(")")
		return e
	}
	return &Expr{op: "id", name: t.s, at: p.at}
}

// ---- files ----

type block struct {
	head string
	body []string // clauses
	at   string
	ats  []string
}

func readBlocks(file string) []block {
	data, err := os.ReadFile(file)
	if err != nil {
		panic(specErr{err.Error()})
	}
	var out []block
	base := filepath.Base(file)
	cur := -1
	for n, line := range strings.Split(string(data), "\n") {
		if i := strings.Index(line, "//"); i >= 0 && (i == 0 || line[i-1] == ' ') {
			line = line[:i]
		}
		if strings.TrimSpace(line) == "" {
			continue
		}
		at := fmt.Sprintf("%s:%d", base, n+1)
		ind := len(line) - len(strings.TrimLeft(line, " "))
		line = strings.TrimSpace(line)
		if ind == 0 {
			out = append(out, block{head: line, at: at})
			cur = len(out) - 1
			continue
		}
		if cur < 0 {
			panic(specErr{at + ": text outside a block"})
		}
		b := &out[cur]
		if ind == 2 && !strings.HasPrefix(b.head, "define") && !strings.HasPrefix(b.head, "recdef") && !strings.HasPrefix(b.head, "axiom") && !strings.HasPrefix(b.head, "lemma") {
			b.body = append(b.body, line)
			b.ats = append(b.ats, at)
		} else if len(b.body) == 0 {
			b.head += " " + line
		} else {
			b.body[len(b.body)-1] += " " + line
		}
	}
	return out
}

func splitNames(s string) []string {
	var out []string
	d, from := 0, 0
	add := func(f string) {
		if f = strings.TrimSpace(f); f != "" {
			out = append(out, f)
		}
	}
	for i := range s {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				add(s[from:i])
				from = i + 1
			}
		}
	}
	add(s[from:])
	return out
}

// parenGroup splits "(a, b) rest" into "a, b" and "rest".
func parenGroup(s, at string) (string, string) {
	s = strings.TrimSpace(s)
	if !strings.HasPrefix(s, "(") {
		return "", s
	}
	d := 0
	for i := range s {
		if s[i] == '(' {
			d++
		}
		if s[i] == ')' {
			d--
			if d == 0 {
				return s[1:i], strings.TrimSpace(s[i+1:])
			}
		}
	}
	panic(specErr{at + ": unbalanced parentheses"})
}

func parseBinders(s, at string) []binder {
	var out []binder
	for _, f := range splitNames(s) {
		n, t, ok := strings.Cut(f, " ")
		if !ok {
			panic(specErr{at + ": binder " + f})
		}
		out = append(out, binder{n, strings.TrimSpace(t)})
	}
	return out
}

func (P *Program) loadContracts(dir string) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		for _, b := range readBlocks(f) {
			P.addBlock(b)
		}
	}
}

func splitLabel(s string) (string, string) {
	if i := strings.Index(s, ":"); i > 0 && !strings.HasPrefix(s[i:], "::") {
		l := s[:i]
		ok := true
		for _, c := range l {
			if !(c == '-' || c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9') {
				ok = false
			}
		}
		if ok {
			return l, strings.TrimSpace(s[i+1:])
		}
	}
	return "", s
}

func (P *Program) addBlock(b block) {
	word, rest, _ := strings.Cut(b.head, " ")
	switch word {
	case "define":
		name, r, _ := strings.Cut(rest, "(")
		ps, r2 := parenGroup("("+r, b.at)
		r2 = strings.TrimSpace(r2)
		if !strings.HasPrefix(r2, "=") {
			panic(specErr{b.at + ": define needs ="})
		}
		P.macros[strings.TrimSpace(name)] = &Macro{strings.TrimSpace(name), splitNames(ps), parseExpr(r2[1:], b.at)}
	case "logic":
		name, r, _ := strings.Cut(rest, "(")
		ps, r2 := parenGroup("("+r, b.at)
		var as []string
		for _, s := range splitNames(ps) {
			as = append(as, P.sortName(s))
		}
		rs, opt, _ := strings.Cut(r2, " fixed ")
		declFn(name, P.sortName(rs), as...)
		if opt != "" {
			var n int64
			fmt.Sscan(opt, &n)
			fixedLen[name] = n
		}
		P.logic[name] = true
	case "recdef":
		name, r, _ := strings.Cut(rest, "(")
		ps, r2 := parenGroup("("+r, b.at)
		rs, body, _ := strings.Cut(r2, "=")
		rs = strings.TrimSpace(rs)
		depth := 2
		if i := strings.Index(rs, " depth "); i >= 0 {
			fmt.Sscan(rs[i+7:], &depth)
			rs = rs[:i]
		}
		P.recSrc = append(P.recSrc, recSrc{name, parseBinders(ps, b.at), rs, depth, body, b.at})
		var as []string
		for _, x := range parseBinders(ps, b.at) {
			as = append(as, P.sortName(x.typ))
		}
		declFn(name, P.sortName(rs), as...)
		P.logic[name] = true
	case "axiom", "lemma":
		// axiom name (x T, ...) {trig} = expr        lemma name (x T..) induct n [props ..] {trig} = expr
		name, r, _ := strings.Cut(rest, "(")
		ps, r2 := parenGroup("("+r, b.at)
		l := &Lemma{name: strings.TrimSpace(name), bnd: parseBinders(ps, b.at), at: b.at}
		for {
			r2 = strings.TrimSpace(r2)
			if strings.HasPrefix(r2, "{") {
				i := strings.Index(r2, "}")
				var tr []*Expr
				pp := &parser{toks: lexSpec(r2[1:i], b.at), at: b.at}
				for pp.peek().k != "eof" {
					tr = append(tr, pp.expr(0))
					if pp.is(",") {
						pp.next()
					}
				}
				l.trig = append(l.trig, tr)
				r2 = r2[i+1:]
				continue
			}
			if strings.HasPrefix(r2, "induct ") {
				f := strings.Fields(r2)
				l.induct = f[1]
				r2 = strings.TrimSpace(strings.TrimPrefix(r2, "induct "))
				r2 = strings.TrimPrefix(r2, f[1])
				continue
			}
			break
		}
		if !strings.HasPrefix(r2, "=") {
			panic(specErr{b.at + ": needs ="})
		}
		l.e = parseExpr(r2[1:], b.at)
		if word == "axiom" {
			P.axiomSrc = append(P.axiomSrc, l)
		} else {
			P.lemmas = append(P.lemmas, l)
		}
	case "theorem": // a consequence of the definitions, proved but not assumed anywhere
		name, r, _ := strings.Cut(rest, "(")
		ps, _ := parenGroup("("+r, b.at)
		sp := &Spec{name: strings.TrimSpace(name), at: b.at, opts: map[string]bool{}}
		var ctx []string
		for k, c := range b.body {
			P.addClause(sp, c, b.ats[k], &ctx)
		}
		P.theorems = append(P.theorems, &Theorem{sp, parseBinders(ps, b.at)})
	case "ghost":
		n, s, _ := strings.Cut(rest, " ")
		P.ghosts[n] = P.sortName(s)
	case "ghostfield":
		f := strings.Fields(rest)
		P.ghostFields[f[0]] = append(P.ghostFields[f[0]], ghostField{f[1], P.sortName(strings.Join(f[2:], " "))})
	case "unframed": // counters nobody reasons about
		for _, f := range strings.Fields(rest) {
			P.unframed["G|"+f+"|"] = true
		}
	case "maphook":
		f := strings.Fields(rest)
		P.mapHooks[f[0]] = append(P.mapHooks[f[0]], mapHook{f[1], f[2]})
	case "globalfact":
		l, r := splitLabel(rest)
		P.globalSrc = append(P.globalSrc, &Clause{kind: "globalfact", label: l, e: parseExpr(r, b.at), src: r, at: b.at})
	case "template":
		// template inv ?i:int :: expr
		P.templates = append(P.templates, P.parseInv(strings.TrimPrefix(rest, "inv "), b.at))
	case "extern", "func", "trusted":
		sp := &Spec{at: b.at, opts: map[string]bool{}}
		if word != "func" {
			sp.extern = true
			rest = strings.TrimSpace(strings.TrimPrefix(rest, "func"))
		}
		// name may start with "(*T).m"
		i := 0
		if strings.HasPrefix(rest, "(") {
			i = strings.Index(rest, ")") + 1
		}
		j := strings.Index(rest[i:], "(")
		if j < 0 {
			panic(specErr{b.at + ": func needs parameters"})
		}
		sp.name = strings.TrimSpace(rest[:i+j])
		ps, r := parenGroup(rest[i+j:], b.at)
		if strings.TrimSpace(ps) == "..." {
			sp.arity = -1
		} else {
			sp.params = splitNames(ps)
			sp.arity = len(sp.params)
		}
		if r != "" {
			rs, _ := parenGroup(r, b.at)
			sp.results = splitNames(rs)
		}
		var ctx []string
		for k, c := range b.body {
			P.addClause(sp, c, b.ats[k], &ctx)
		}
		P.specs[sp.name] = append(P.specs[sp.name], sp)
	default:
		panic(specErr{b.at + ": unknown block " + word})
	}
}

func (P *Program) parseInv(rest, at string) *Clause {
	c := &Clause{kind: "inv", at: at, src: rest}
	l, r := splitLabel(rest)
	if l != "" {
		c.label, rest = l, r
	}
	if strings.HasPrefix(strings.TrimSpace(rest), "?") {
		i := strings.Index(rest, "::")
		for _, f := range strings.Fields(rest[:i]) {
			n, t, _ := strings.Cut(f, ":")
			c.ph = append(c.ph, binder{n, t})
		}
		rest = rest[i+2:]
	}
	c.e = parseExpr(rest, at)
	return c
}

func (P *Program) addClause(sp *Spec, s, at string, props *[]string) {
	word, rest, _ := strings.Cut(s, " ")
	rest = strings.TrimSpace(rest)
	switch word {
	case "props":
		for _, f := range strings.Fields(rest) {
			sp.props = append(sp.props, f)
		}
	case "for": // following ensures clauses belong to these properties only
		*props = strings.Fields(rest)
	case "requires", "ensures":
		l, r := splitLabel(rest)
		c := &Clause{kind: word, label: l, e: parseExpr(r, at), src: r, at: at, props: *props}
		if word == "requires" {
			sp.requires = append(sp.requires, c)
		} else {
			sp.ensures = append(sp.ensures, c)
		}
	case "inv":
		sp.invs = append(sp.invs, P.parseInv(rest, at))
	case "modifies":
		p := &parser{toks: lexSpec(rest, at), at: at}
		for p.peek().k != "eof" {
			if t := p.peek(); t.k == "id" && (t.s == "all" || t.s == "ghost" || t.s == "allmap" || t.s == "allmem") {
				p.next()
				var sb strings.Builder
				for p.peek().k != "eof" && p.peek().s != "," {
					sb.WriteString(p.next().s)
				}
				sp.modifies = append(sp.modifies, &Expr{op: t.s, name: sb.String(), at: at})
			} else {
				sp.modifies = append(sp.modifies, p.expr(0))
			}
			if p.is(",") {
				p.next()
			}
		}
	case "inline":
		sp.inline = true
	case "conc":
		sp.conc = true
	case "maxalloc":
		sp.maxAlloc = parseExpr(rest, at)
	case "why":
		sp.why = rest
	case "variants":
		sp.variants = strings.Fields(rest)
	case "opt":
		for _, o := range strings.Fields(rest) {
			sp.opts[o] = true
		}
	default:
		panic(specErr{at + ": unknown clause " + word})
	}
}
