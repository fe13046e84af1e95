package main

// Hash-consed SMT terms with light simplification.

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
	"sync"
)

type Term struct {
	Op   string // "int" "true" "false" "var" "bvar" "seqlit" "forall" "exists" or an SMT operator / function name
	Name string // variable name or literal bytes (seqlit)
	Args []*Term
	Sort string
	I    *big.Int
	id   int
	bnd  []*Term   // bound variables of a quantifier
	pats [][]*Term // patterns
	free int8      // 1: contains bound variables
}

const (
	SInt  = "Int"
	SBool = "Bool"
	SSeq  = "(Seq Int)"
	SBA   = "BA"
)

func arrSort(k, v string) string { return "(Array " + k + " " + v + ")" }

// splitArr returns the index and value sorts of an array sort.
func splitArr(s string) (string, string) {
	if !strings.HasPrefix(s, "(Array ") {
		panic("not an array sort: " + s)
	}
	body := s[7 : len(s)-1]
	depth := 0
	for i := 0; i < len(body); i++ {
		switch body[i] {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return body[:i], body[i+1:]
			}
		}
	}
	panic("bad array sort " + s)
}

var (
	internMu  sync.Mutex
	internTab = map[string]*Term{}
	termCount int
)

func mk(op, name, srt string, args []*Term) *Term {
	var sb strings.Builder
	sb.WriteString(op)
	sb.WriteByte(0)
	sb.WriteString(name)
	sb.WriteByte(0)
	sb.WriteString(srt)
	for _, a := range args {
		sb.WriteByte(0)
		sb.WriteString(strconv.Itoa(a.id))
	}
	return intern(sb.String(), func() *Term {
		t := &Term{Op: op, Name: name, Sort: srt, Args: args}
		for _, a := range args {
			if a.free == 1 {
				t.free = 1
			}
		}
		if op == "bvar" {
			t.free = 1
		}
		return t
	})
}

func intern(key string, f func() *Term) *Term {
	internMu.Lock()
	defer internMu.Unlock()
	if t, ok := internTab[key]; ok {
		return t
	}
	t := f()
	termCount++
	t.id = termCount
	internTab[key] = t
	return t
}

var (
	True  = mk("true", "", SBool, nil)
	False = mk("false", "", SBool, nil)
	Zero  = Int(0)
	One   = Int(1)
	Empty = SeqLit("")
)

func Int(i int64) *Term { return BigInt(big.NewInt(i)) }
func BigInt(b *big.Int) *Term {
	key := "int\x00" + b.String()
	return intern(key, func() *Term { return &Term{Op: "int", I: new(big.Int).Set(b), Sort: SInt} })
}
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Var(name, srt string) *Term  { return mk("var", name, srt, nil) }
func BVar(name, srt string) *Term { return mk("bvar", name, srt, nil) }
func App(fn, srt string, args ...*Term) *Term {
	return simplifyApp(fn, srt, args)
}
func SeqLit(s string) *Term { return mk("seqlit", s, SSeq, nil) }

func (t *Term) isInt() bool { return t.Op == "int" }
func (t *Term) isLitBool() (bool, bool) {
	if t == True {
		return true, true
	}
	if t == False {
		return false, true
	}
	return false, false
}

var freshMu sync.Mutex
var freshN = map[string]int{}

// fresh variable names are globally unique
func Fresh(prefix, srt string) *Term {
	freshMu.Lock()
	freshN[prefix]++
	n := freshN[prefix]
	freshMu.Unlock()
	return Var(fmt.Sprintf("%s!%d", prefix, n), srt)
}

// ---- arithmetic (linear normal form) ----

type lin struct {
	c  *big.Int
	ts map[*Term]*big.Int
}

func toLin(t *Term) lin {
	l := lin{c: new(big.Int), ts: map[*Term]*big.Int{}}
	l.add(t, big.NewInt(1))
	return l
}
func (l *lin) add(t *Term, k *big.Int) {
	switch t.Op {
	case "int":
		l.c.Add(l.c, new(big.Int).Mul(k, t.I))
	case "+":
		for _, a := range t.Args {
			l.add(a, k)
		}
	case "*":
		if t.Args[0].isInt() && len(t.Args) == 2 {
			l.add(t.Args[1], new(big.Int).Mul(k, t.Args[0].I))
			return
		}
		l.addAtom(t, k)
	default:
		l.addAtom(t, k)
	}
}
func (l *lin) addAtom(t *Term, k *big.Int) {
	if c, ok := l.ts[t]; ok {
		c.Add(c, k)
		if c.Sign() == 0 {
			delete(l.ts, t)
		}
		return
	}
	if k.Sign() != 0 {
		l.ts[t] = new(big.Int).Set(k)
	}
}
func (l lin) term() *Term {
	var args []*Term
	keys := make([]*Term, 0, len(l.ts))
	for t := range l.ts {
		keys = append(keys, t)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i].id < keys[j].id })
	for _, t := range keys {
		k := l.ts[t]
		if k.IsInt64() && k.Int64() == 1 {
			args = append(args, t)
		} else {
			args = append(args, mk("*", "", SInt, []*Term{BigInt(k), t}))
		}
	}
	if l.c.Sign() != 0 || len(args) == 0 {
		args = append(args, BigInt(l.c))
	}
	if len(args) == 1 {
		return args[0]
	}
	return mk("+", "", SInt, args)
}

func Add(ts ...*Term) *Term {
	l := lin{c: new(big.Int), ts: map[*Term]*big.Int{}}
	one := big.NewInt(1)
	for _, t := range ts {
		l.add(t, one)
	}
	return l.term()
}
func Sub(a, b *Term) *Term {
	l := toLin(a)
	l.add(b, big.NewInt(-1))
	return l.term()
}
func Neg(a *Term) *Term { return Sub(Zero, a) }
func Mul(a, b *Term) *Term {
	if b.isInt() {
		a, b = b, a
	}
	if a.isInt() {
		l := lin{c: new(big.Int), ts: map[*Term]*big.Int{}}
		l.add(b, a.I)
		return l.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("*", "", SInt, []*Term{a, b})
}

// Div and Mod are SMT-LIB (Euclidean) division.
func Div(a, b *Term) *Term {
	if b.isInt() && b.I.Sign() > 0 {
		if a.isInt() {
			return BigInt(new(big.Int).Div(a.I, b.I))
		}
		if b.I.IsInt64() && b.I.Int64() == 1 {
			return a
		}
	}
	return mk("div", "", SInt, []*Term{a, b})
}
func Mod(a, b *Term) *Term {
	if b.isInt() && b.I.Sign() > 0 {
		if a.isInt() {
			return BigInt(new(big.Int).Mod(a.I, b.I))
		}
	}
	return mk("mod", "", SInt, []*Term{a, b})
}

// constDiff returns a-b when it is a constant.
func constDiff(a, b *Term) (*big.Int, bool) {
	l := toLin(a)
	l.add(b, big.NewInt(-1))
	if len(l.ts) == 0 {
		return l.c, true
	}
	return nil, false
}

func Le(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return Bool(d.Sign() <= 0)
	}
	return mk("<=", "", SBool, []*Term{a, b})
}
func Lt(a, b *Term) *Term {
	if d, ok := constDiff(a, b); ok {
		return Bool(d.Sign() < 0)
	}
	return mk("<", "", SBool, []*Term{a, b})
}
func Ge(a, b *Term) *Term { return Le(b, a) }
func Gt(a, b *Term) *Term { return Lt(b, a) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("Eq of sorts %s and %s: %s = %s", a.Sort, b.Sort, a, b))
	}
	switch a.Sort {
	case SInt:
		if d, ok := constDiff(a, b); ok {
			return Bool(d.Sign() == 0)
		}
		if distinctRef(a, b) {
			return False
		}
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
	case SSeq:
		// strip equal ends
		if a.Op == "seqlit" && b.Op == "seqlit" {
			return False // interned, so different
		}
		as, bs := seqParts(a), seqParts(b)
		n := 0
		for n < len(as) && n < len(bs) && as[n] == bs[n] {
			n++
		}
		m := 0
		for m < len(as)-n && m < len(bs)-n && as[len(as)-1-m] == bs[len(bs)-1-m] {
			m++
		}
		if n > 0 || m > 0 {
			return Eq(Concat(as[n:len(as)-m]...), Concat(bs[n:len(bs)-m]...))
		}
		if len(as) == 1 && len(bs) == 1 && as[0].Op == "seq.unit" && bs[0].Op == "seq.unit" {
			return Eq(as[0].Args[0], bs[0].Args[0])
		}
		// literal against literal prefix
		if len(as) > 0 && len(bs) > 0 && as[0].Op == "seqlit" && bs[0].Op == "seqlit" {
			x, y := as[0].Name, bs[0].Name
			k := 0
			for k < len(x) && k < len(y) && x[k] == y[k] {
				k++
			}
			if k < len(x) && k < len(y) {
				return False
			}
			if k > 0 {
				na := append([]*Term{SeqLit(x[k:])}, as[1:]...)
				nb := append([]*Term{SeqLit(y[k:])}, bs[1:]...)
				return Eq(Concat(na...), Concat(nb...))
			}
		}
	}
	if a.Op == "ite" && (a.Args[1] == b || a.Args[2] == b) {
		if a.Args[1] == b {
			if distinctLit(a.Args[2], b) {
				return a.Args[0]
			}
		} else if distinctLit(a.Args[1], b) {
			return Not(a.Args[0])
		}
	}
	if b.Op == "ite" && (b.Args[1] == a || b.Args[2] == a) {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk("=", "", SBool, []*Term{a, b})
}

func distinctLit(a, b *Term) bool {
	if a.Sort == SInt {
		if d, ok := constDiff(a, b); ok {
			return d.Sign() != 0
		}
	}
	return false
}

func Neq(a, b *Term) *Term { return Not(Eq(a, b)) }

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	case "<=":
		return Lt(a.Args[1], a.Args[0])
	case "<":
		return Le(a.Args[1], a.Args[0])
	}
	return mk("not", "", SBool, []*Term{a})
}

func And(ts ...*Term) *Term { return nary("and", True, False, ts) }
func Or(ts ...*Term) *Term  { return nary("or", False, True, ts) }
func nary(op string, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(ts []*Term) bool
	rec = func(ts []*Term) bool {
		for _, t := range ts {
			if t == unit {
				continue
			}
			if t == zero {
				return false
			}
			if t.Op == op {
				if !rec(t.Args) {
					return false
				}
				continue
			}
			if seen[t] {
				continue
			}
			if seen[Not(t)] {
				return false
			}
			seen[t] = true
			out = append(out, t)
		}
		return true
	}
	if !rec(ts) {
		return zero
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(op, "", SBool, out)
}
func Implies(a, b *Term) *Term {
	if a == True {
		return b
	}
	if a == False || b == True {
		return True
	}
	if b == False {
		return Not(a)
	}
	if a == b {
		return True
	}
	return mk("=>", "", SBool, []*Term{a, b})
}
func Iff(a, b *Term) *Term { return Eq(a, b) }
func Ite(c, a, b *Term) *Term {
	if c == True {
		return a
	}
	if c == False {
		return b
	}
	if a == b {
		return a
	}
	if a.Sort == SBool {
		if a == True && b == False {
			return c
		}
		if a == False && b == True {
			return Not(c)
		}
		if a == True {
			return Or(c, b)
		}
		if b == False {
			return And(c, a)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
	}
	if a.Sort != b.Sort {
		panic("ite sorts " + a.Sort + " " + b.Sort)
	}
	return mk("ite", "", a.Sort, []*Term{c, a, b})
}

// ---- arrays ----

func Select(a, i *Term) *Term {
	_, vs := splitArr(a.Sort)
	for {
		if a.Op == "store" {
			if a.Args[1] == i {
				return a.Args[2]
			}
			if i.Sort == SInt && distinctInt(a.Args[1], i) {
				a = a.Args[0]
				continue
			}
			if i.Sort == SBA && a.Args[1].Op == "s2ba" && false {
				continue
			}
		}
		if a.Op == "constarr" {
			return a.Args[0]
		}
		if a.Op == "ite" && (a.Args[1].Op == "store" || a.Args[2].Op == "store") {
			return Ite(a.Args[0], Select(a.Args[1], i), Select(a.Args[2], i))
		}
		break
	}
	if a.Op == "blit" {
		// blit(A,p,s)[i]
		p, s := a.Args[1], a.Args[2]
		if d, ok := constDiff(i, p); ok {
			if d.Sign() < 0 {
				return Select(a.Args[0], i)
			}
			if k, ok := constDiff(SeqLen(s), Zero); ok && d.Cmp(k) >= 0 {
				return Select(a.Args[0], i)
			} else if ok {
				return SeqNth(s, BigInt(d))
			}
		}
	}
	return mk("select", "", vs, []*Term{a, i})
}
func distinctInt(a, b *Term) bool {
	if d, ok := constDiff(a, b); ok {
		return d.Sign() != 0
	}
	return distinctRef(a, b)
}
func Store(a, i, v *Term) *Term {
	ks, vs := splitArr(a.Sort)
	if i.Sort != ks || v.Sort != vs {
		panic(fmt.Sprintf("store sorts: array %s index %s value %s", a.Sort, i.Sort, v.Sort))
	}
	if a.Op == "store" && a.Args[1] == i {
		a = a.Args[0]
	}
	if v.Op == "select" && v.Args[0] == a && v.Args[1] == i {
		return a
	}
	return mk("store", "", a.Sort, []*Term{a, i, v})
}
func ConstArr(srt string, v *Term) *Term { return mk("constarr", "", srt, []*Term{v}) }

// ---- sequences ----

func seqParts(t *Term) []*Term {
	if t == Empty {
		return nil
	}
	if t.Op == "seq.++" {
		return t.Args
	}
	return []*Term{t}
}
func Concat(ts ...*Term) *Term {
	var out []*Term
	for _, t := range ts {
		if t.Sort != SSeq {
			panic("concat of sort " + t.Sort)
		}
		for _, p := range seqParts(t) {
			if p.Op == "seq.unit" && p.Args[0].isInt() {
				b := p.Args[0].I.Int64()
				if b >= 0 && b < 256 {
					p = SeqLit(string([]byte{byte(b)}))
				}
			}
			if p.Op == "seqlit" && len(out) > 0 && out[len(out)-1].Op == "seqlit" {
				out[len(out)-1] = SeqLit(out[len(out)-1].Name + p.Name)
				continue
			}
			// adjacent pieces of one array or sequence
			if len(out) > 0 {
				q := out[len(out)-1]
				if p.Op == "sq" && q.Op == "sq" && p.Args[0] == q.Args[0] && Add(q.Args[1], q.Args[2]) == p.Args[1] && false {
					out[len(out)-1] = Sq(p.Args[0], q.Args[1], Add(q.Args[2], p.Args[2]))
					continue
				}
			}
			out = append(out, p)
		}
	}
	if len(out) == 0 {
		return Empty
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("seq.++", "", SSeq, out)
}
func SeqUnit(t *Term) *Term {
	if t.isInt() {
		b := t.I.Int64()
		if b >= 0 && b < 256 {
			return SeqLit(string([]byte{byte(b)}))
		}
	}
	return mk("seq.unit", "", SSeq, []*Term{t})
}

// fixedLen gives the constant length of functions declared with one ("be32" ...).
var fixedLen = map[string]int64{}

func SeqLen(t *Term) *Term {
	switch t.Op {
	case "seqlit":
		return Int(int64(len(t.Name)))
	case "seq.unit":
		return One
	case "seq.++":
		l := make([]*Term, len(t.Args))
		for i, a := range t.Args {
			l[i] = SeqLen(a)
		}
		return Add(l...)
	case "ite":
		a, b := SeqLen(t.Args[1]), SeqLen(t.Args[2])
		if a == b {
			return a
		}
	}
	if n, ok := fixedLen[t.Op]; ok {
		return Int(n)
	}
	return mk("seq.len", "", SInt, []*Term{t})
}
func SeqNth(s, i *Term) *Term {
	if s.Op == "sq" && i.isInt() && s.Args[2].isInt() && i.I.Sign() >= 0 && i.I.Cmp(s.Args[2].I) < 0 {
		return Select(s.Args[0], Add(s.Args[1], i))
	}
	if i.isInt() && i.I.IsInt64() {
		k := i.I.Int64()
		if s.Op == "seqlit" {
			if k >= 0 && k < int64(len(s.Name)) {
				return Int(int64(s.Name[k]))
			}
		}
		if s.Op == "seq.unit" && k == 0 {
			return s.Args[0]
		}
		if s.Op == "seq.++" && k >= 0 {
			for _, p := range s.Args {
				l := SeqLen(p)
				if !l.isInt() {
					break
				}
				if k < l.I.Int64() {
					return SeqNth(p, Int(k))
				}
				k -= l.I.Int64()
			}
		}
	}
	return mk("nth", "", SInt, []*Term{s, i})
}
func SeqExtract(s, o, n *Term) *Term {
	if n == Zero {
		return Empty
	}
	if o == Zero && n == SeqLen(s) {
		return s
	}
	// drop / take whole pieces when offsets line up syntactically
	parts := seqParts(s)
	for len(parts) > 0 {
		l := SeqLen(parts[0])
		if d, ok := constDiff(o, l); ok && d.Sign() >= 0 && (o.isInt() || d.Sign() == 0) {
			o = Sub(o, l)
			parts = parts[1:]
			continue
		}
		break
	}
	s = Concat(parts...)
	if o == Zero {
		rem := n
		for i := 0; i <= len(parts); i++ {
			if rem == Zero {
				return Concat(parts[:i]...)
			}
			if i < len(parts) {
				p := parts[i]
				l := SeqLen(p)
				if p.Op == "seqlit" && rem.isInt() && l.I.Cmp(rem.I) > 0 && rem.I.Sign() > 0 {
					return Concat(append(append([]*Term{}, parts[:i]...), SeqLit(p.Name[:rem.I.Int64()]))...)
				}
				rem = Sub(rem, l)
			}
		}
	}
	if s.Op == "seqlit" && o.isInt() && n.isInt() {
		a, l := o.I.Int64(), n.I.Int64()
		if a >= 0 && l >= 0 && a+l <= int64(len(s.Name)) {
			return SeqLit(s.Name[a : a+l])
		}
	}
	return mk("seq.extract", "", SSeq, []*Term{s, o, n})
}

var zeroArr = ConstArr(arrSort(SInt, SInt), Zero)

// Sq is the sequence of the n elements of array a from offset o.
func Sq(a, o, n *Term) *Term {
	if n == Zero {
		return Empty
	}
	for a.Op == "store" || a.Op == "blit" {
		k := a.Args[1]
		var l *Term
		if a.Op == "store" {
			l = One
		} else {
			l = SeqLen(a.Args[2])
		}
		end := Add(o, n)
		if d, ok := constDiff(k, end); ok && d.Sign() >= 0 { // write starts after the range
			a = a.Args[0]
			continue
		}
		if d, ok := constDiff(o, Add(k, l)); ok && d.Sign() >= 0 {
			a = a.Args[0]
			continue
		}
		d1, ok1 := constDiff(k, o)
		d2, ok2 := constDiff(end, Add(k, l))
		if ok1 && ok2 && d1.Sign() >= 0 && d2.Sign() >= 0 {
			var mid *Term
			if a.Op == "store" {
				mid = SeqUnit(a.Args[2])
			} else {
				mid = a.Args[2]
			}
			return Concat(Sq(a.Args[0], o, Sub(k, o)), mid, Sq(a.Args[0], Add(k, l), BigInt(d2)))
		}
		// write at the very end of the range: [o..k) then s
		if ok2 && d2.Sign() == 0 && a.Op == "blit" {
			// requires o <= k, which the generic axiom checks
		}
		break
	}
	if a == zeroArr {
		if n.isInt() && n.I.Sign() > 0 && n.I.Int64() <= 64 {
			return SeqLit(strings.Repeat("\x00", int(n.I.Int64())))
		}
		return mk("zeros", "", SSeq, []*Term{n})
	}
	if n.isInt() && n.I.IsInt64() && n.I.Int64() > 0 && n.I.Int64() <= 4 && (a.Op == "store") {
		var ps []*Term
		for i := int64(0); i < n.I.Int64(); i++ {
			ps = append(ps, SeqUnit(Select(a, Add(o, Int(i)))))
		}
		return Concat(ps...)
	}
	return mk("sq", "", SSeq, []*Term{a, o, n})
}
func Blit(a, p, s *Term) *Term {
	if s == Empty {
		return a
	}
	if s.Op == "seq.unit" {
		return Store(a, p, s.Args[0])
	}
	return mk("blit", "", a.Sort, []*Term{a, p, s})
}

func simplifyApp(fn, srt string, args []*Term) *Term {
	switch fn {
	case "ba2s":
		if args[0].Op == "s2ba" {
			return args[0].Args[0]
		}
	case "s2ba":
		if args[0].Op == "ba2s" {
			return args[0].Args[0]
		}
	}
	return mk(fn, "", srt, args)
}

// ---- quantifiers ----

func Quant(kind string, bnd []*Term, pats [][]*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	if len(bnd) == 0 {
		return body
	}
	var sb strings.Builder
	sb.WriteString(kind)
	for _, b := range bnd {
		fmt.Fprintf(&sb, "\x00%d", b.id)
	}
	fmt.Fprintf(&sb, "\x00|%d", body.id)
	for _, p := range pats {
		sb.WriteString("\x00{")
		for _, x := range p {
			fmt.Fprintf(&sb, "%d,", x.id)
		}
	}
	return intern(sb.String(), func() *Term {
		t := &Term{Op: kind, Sort: SBool, Args: []*Term{body}, bnd: bnd, pats: pats}
		fv := map[*Term]bool{}
		freeBVars(body, fv)
		for _, b := range bnd {
			delete(fv, b)
		}
		if len(fv) > 0 {
			t.free = 1
		}
		return t
	})
}

func freeBVars(t *Term, out map[*Term]bool) {
	if t.free != 1 {
		return
	}
	if t.Op == "bvar" {
		out[t] = true
		return
	}
	if t.bnd != nil {
		in := map[*Term]bool{}
		freeBVars(t.Args[0], in)
		for _, b := range t.bnd {
			delete(in, b)
		}
		for b := range in {
			out[b] = true
		}
		return
	}
	for _, a := range t.Args {
		freeBVars(a, out)
	}
}

// rebuild re-applies the simplifying constructor of t to new arguments.
func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "+":
		return Add(args...)
	case "*":
		return Mul(args[0], args[1])
	case "div":
		return Div(args[0], args[1])
	case "mod":
		return Mod(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "<":
		return Lt(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "not":
		return Not(args[0])
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "=>":
		return Implies(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "select":
		return Select(args[0], args[1])
	case "store":
		return Store(args[0], args[1], args[2])
	case "seq.++":
		return Concat(args...)
	case "seq.len":
		return SeqLen(args[0])
	case "nth":
		return SeqNth(args[0], args[1])
	case "seq.extract":
		return SeqExtract(args[0], args[1], args[2])
	case "seq.unit":
		return SeqUnit(args[0])
	case "sq":
		return Sq(args[0], args[1], args[2])
	case "blit":
		return Blit(args[0], args[1], args[2])
	case "forall", "exists":
		panic("rebuild quantifier")
	}
	if t.Name != "" {
		return mk(t.Op, t.Name, t.Sort, args)
	}
	return simplifyApp(t.Op, t.Sort, args)
}

// Subst replaces terms (variables or bound variables) by others.
func Subst(t *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	return substMemo(t, m, memo)
}
func substMemo(t *Term, m map[*Term]*Term, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	var r *Term
	changed := false
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = substMemo(a, m, memo)
		if args[i] != a {
			changed = true
		}
	}
	if !changed {
		r = t
	} else if t.bnd != nil {
		pats := make([][]*Term, len(t.pats))
		for i, p := range t.pats {
			pats[i] = make([]*Term, len(p))
			for j, x := range p {
				pats[i][j] = substMemo(x, m, memo)
			}
		}
		r = Quant(t.Op, t.bnd, pats, args[0])
	} else {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}

// ---- printing ----

func symQuote(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || strings.ContainsRune("_!.-+@$", c)) {
			return "|" + strings.ReplaceAll(s, "|", "_") + "|"
		}
	}
	return s
}

func intStr(b *big.Int) string {
	if b.Sign() < 0 {
		return "(- " + new(big.Int).Neg(b).String() + ")"
	}
	return b.String()
}

func (t *Term) String() string {
	s := printTerm(t, nil)
	if len(s) > 6000 {
		s = s[:6000] + "…"
	}
	return s
}

func printTerm(t *Term, names map[*Term]string) string {
	var sb strings.Builder
	printTo(&sb, t, names, true)
	return sb.String()
}

func printTo(sb *strings.Builder, t *Term, names map[*Term]string, top bool) {
	if !top {
		if n, ok := names[t]; ok {
			sb.WriteString(n)
			return
		}
	}
	switch t.Op {
	case "int":
		sb.WriteString(intStr(t.I))
	case "true", "false":
		sb.WriteString(t.Op)
	case "var", "bvar":
		sb.WriteString(symQuote(t.Name))
	case "seqlit":
		if t.Name == "" {
			sb.WriteString("(as seq.empty (Seq Int))")
			return
		}
		if len(t.Name) == 1 {
			fmt.Fprintf(sb, "(seq.unit %d)", t.Name[0])
			return
		}
		sb.WriteString("(seq.++")
		for i := 0; i < len(t.Name); i++ {
			fmt.Fprintf(sb, " (seq.unit %d)", t.Name[i])
		}
		sb.WriteString(")")
	case "constarr":
		fmt.Fprintf(sb, "((as const %s) ", t.Sort)
		printTo(sb, t.Args[0], names, false)
		sb.WriteString(")")
	case "forall", "exists":
		fmt.Fprintf(sb, "(%s (", t.Op)
		for _, b := range t.bnd {
			fmt.Fprintf(sb, "(%s %s)", symQuote(b.Name), b.Sort)
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		printTo(sb, t.Args[0], names, false)
		for _, p := range t.pats {
			sb.WriteString(" :pattern (")
			for i, x := range p {
				if i > 0 {
					sb.WriteByte(' ')
				}
				printTo(sb, x, names, false)
			}
			sb.WriteString(")")
		}
		if len(t.pats) > 0 {
			sb.WriteString(")")
		}
		sb.WriteString(")")
	default:
		op := t.Op
		if len(t.Args) == 0 {
			sb.WriteString(symQuote(op))
			return
		}
		sb.WriteByte('(')
		sb.WriteString(symQuoteOp(op))
		for _, a := range t.Args {
			sb.WriteByte(' ')
			printTo(sb, a, names, false)
		}
		sb.WriteByte(')')
	}
}

func symQuoteOp(op string) string {
	switch op {
	case "=", "<", "<=", "=>", "+", "*", "seq.++", "seq.len", "seq.nth", "seq.extract", "seq.unit":
		return op
	}
	return symQuote(op)
}
