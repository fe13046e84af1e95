package main

import (
	"go/types"
	"math/big"
	"sync"
)

// Cheap interval reasoning over the path condition; used only to drop wrap-around cases.

type linFact struct {
	l  lin // l <= 0
	ok bool
	eq bool
}

var linMemo sync.Map

func linOf(t *Term) linFact {
	if v, ok := linMemo.Load(t); ok {
		return v.(linFact)
	}
	f := linFact{}
	switch t.Op {
	case "<=", "<":
		if t.Args[0].Sort == SInt {
			f.l = toLin(t.Args[0])
			f.l.add(t.Args[1], big.NewInt(-1))
			if t.Op == "<" {
				f.l.c.Add(f.l.c, big.NewInt(1))
			}
			f.ok = true
		}
	case "=":
		if t.Args[0].Sort == SInt {
			f.l = toLin(t.Args[0])
			f.l.add(t.Args[1], big.NewInt(-1))
			f.ok, f.eq = true, true
		}
	case "not":
		a := t.Args[0]
		if (a.Op == "<=" || a.Op == "<") && a.Args[0].Sort == SInt {
			f.l = toLin(a.Args[1])
			f.l.add(a.Args[0], big.NewInt(-1))
			if a.Op == "<=" {
				f.l.c.Add(f.l.c, big.NewInt(1))
			}
			f.ok = true
		}
	}
	linMemo.Store(t, f)
	return f
}

type bndKey struct {
	t  *Term
	up bool
}

type bounder struct {
	facts []linFact
	busy  map[*Term]bool
	steps int
}

// boundLin is an upper (lower) bound of a linear term.
func (b *bounder) lin(l lin, up bool, depth int) (*big.Int, bool) {
	r := new(big.Int).Set(l.c)
	for a, k := range l.ts {
		v, ok := b.atom(a, up == (k.Sign() > 0), depth)
		if !ok {
			return nil, false
		}
		r.Add(r, new(big.Int).Mul(k, v))
	}
	return r, true
}

func (b *bounder) term(t *Term, up bool, depth int) (*big.Int, bool) {
	return b.lin(toLin(t), up, depth)
}

func floorDiv(a, k *big.Int) *big.Int { // k > 0
	q, m := new(big.Int).DivMod(a, k, new(big.Int))
	_ = m
	return q
}

func (b *bounder) atom(a *Term, up bool, depth int) (*big.Int, bool) {
	if b.busy[a] || b.steps > 4000 {
		return nil, false
	}
	b.steps++
	var best *big.Int
	take := func(v *big.Int) {
		if best == nil || up && v.Cmp(best) < 0 || !up && v.Cmp(best) > 0 {
			best = v
		}
	}
	switch a.Op {
	case "seq.len":
		if !up {
			take(new(big.Int))
		}
	case "mod":
		if n := a.Args[1]; n.isInt() && n.I.Sign() > 0 {
			if up {
				take(new(big.Int).Sub(n.I, big.NewInt(1)))
			} else {
				take(new(big.Int))
			}
		}
	case "div":
		if n := a.Args[1]; n.isInt() && n.I.Sign() > 0 && depth > 0 {
			if v, ok := b.term(a.Args[0], up, depth-1); ok {
				take(new(big.Int).Div(v, n.I))
			}
		}
	case "ite":
		if depth > 0 {
			v1, ok1 := b.term(a.Args[1], up, depth-1)
			v2, ok2 := b.term(a.Args[2], up, depth-1)
			if ok1 && ok2 {
				if up == (v1.Cmp(v2) > 0) {
					take(v1)
				} else {
					take(v2)
				}
			}
		}
	}
	if depth <= 0 {
		depth = 0
	}
	b.busy[a] = true
	for _, f := range b.facts {
		k, ok := f.l.ts[a]
		if !ok {
			continue
		}
		try := func(l lin, k *big.Int) {
			// k*a <= -(rest); up needs k > 0
			if (k.Sign() > 0) != up {
				return
			}
			if len(l.ts) > 1 && depth == 0 {
				return
			}
			rest := lin{c: l.c, ts: map[*Term]*big.Int{}}
			for t, c := range l.ts {
				if t != a {
					rest.ts[t] = c
				}
			}
			lo, ok := b.lin(rest, false, depth-1)
			if !ok {
				return
			}
			n := new(big.Int).Neg(lo)
			if k.Sign() > 0 {
				take(floorDiv(n, k))
			} else {
				// a >= lo/|k|
				kk := new(big.Int).Neg(k)
				take(new(big.Int).Neg(floorDiv(n, kk)))
			}
		}
		try(f.l, k)
		if f.eq {
			m := lin{c: new(big.Int).Neg(f.l.c), ts: map[*Term]*big.Int{}}
			for t, c := range f.l.ts {
				m.ts[t] = new(big.Int).Neg(c)
			}
			try(m, m.ts[a])
		}
	}
	delete(b.busy, a)
	return best, best != nil
}

// wrapIn reduces t into the range of typ, using what is known on the path.
func (st *State) wrapIn(t *Term, typ types.Type) *Term {
	w := wrap(t, typ)
	if w.Op != "ite" {
		return w
	}
	lo, hi, ok := intRange(typ)
	if !ok {
		return w
	}
	b := &bounder{busy: map[*Term]bool{}}
	for p := st.pc; p != nil; p = p.prev {
		if f := linOf(p.t); f.ok {
			b.facts = append(b.facts, f)
		}
	}
	if u, ok := b.term(t, true, 3); ok && u.Cmp(hi) <= 0 {
		b.steps = 0
		if l, ok := b.term(t, false, 3); ok && l.Cmp(lo) >= 0 {
			return t
		}
	}
	return w
}
