package main

// Syntactic reasoning about references: allocation clocks give cheap distinctness.

import (
	"math/big"
	"sync"
)

var (
	clkMu   sync.RWMutex
	clkLow  = map[*Term]*Term{} // clock symbol -> clock term it is not below
	refUp   = map[*Term]*Term{} // reference symbol -> clock term it is below
	rootClk = map[*Term]*Term{} // heap array symbol -> clock term all references stored at allocated places are below
)

func newClk(low *Term) *Term {
	c := Fresh("clk", SInt)
	clkMu.Lock()
	clkLow[c] = low
	clkMu.Unlock()
	return c
}

var clk0 = func() *Term {
	c := Var("clk0", SInt)
	clkLow[c] = nil
	return c
}()

func boundRef(t, c *Term) {
	if t.Op != "var" {
		return
	}
	clkMu.Lock()
	if _, ok := refUp[t]; !ok {
		refUp[t] = c
	}
	clkMu.Unlock()
}

func setRootClk(t, c *Term) {
	clkMu.Lock()
	if _, ok := rootClk[t]; !ok {
		rootClk[t] = c
	}
	clkMu.Unlock()
}

// clkForm splits clock+constant.
func clkForm(t *Term) (struct {
	sym *Term
	k   *big.Int
}, bool) {
	type res = struct {
		sym *Term
		k   *big.Int
	}
	clkMu.RLock()
	defer clkMu.RUnlock()
	if t.Op == "var" {
		if _, ok := clkLow[t]; ok {
			return res{t, new(big.Int)}, true
		}
		return res{}, false
	}
	if t.Op == "+" && len(t.Args) == 2 && t.Args[0].Op == "var" && t.Args[1].isInt() {
		if _, ok := clkLow[t.Args[0]]; ok && t.Args[1].I.Sign() >= 0 {
			return res{t.Args[0], t.Args[1].I}, true
		}
	}
	return res{}, false
}

// clkGE: a >= b for clock terms, through the recorded lower bounds.
func clkGE(a, b *Term) bool {
	fb, ok := clkForm(b)
	if !ok {
		return false
	}
	k := new(big.Int)
	for i := 0; i < 200; i++ {
		fa, ok := clkForm(a)
		if !ok {
			return false
		}
		if fa.sym == fb.sym {
			return new(big.Int).Add(k, fa.k).Cmp(fb.k) >= 0
		}
		k.Add(k, fa.k)
		clkMu.RLock()
		low := clkLow[fa.sym]
		clkMu.RUnlock()
		if low == nil {
			return false
		}
		a = low
	}
	return false
}

// upperOf gives a clock term the reference is below.
func upperOf(t *Term) *Term {
	switch t.Op {
	case "var":
		clkMu.RLock()
		defer clkMu.RUnlock()
		return refUp[t]
	case "int":
		if t.I.Sign() <= 0 {
			return clk0
		}
	case "select":
		if stripStores(t) != t {
			return nil
		}
		r := rootSym(t)
		if r == nil {
			return nil
		}
		clkMu.RLock()
		c := rootClk[r]
		clkMu.RUnlock()
		if c == nil {
			return nil
		}
		// the outermost index of the chain must be an allocated reference
		inner := t
		for inner.Args[0].Op == "select" {
			inner = inner.Args[0]
		}
		ix := inner.Args[1]
		if ix == Zero {
			return c
		}
		u := upperOf(ix)
		if u != nil && (u == c || clkGE(c, u)) {
			return c
		}
	}
	return nil
}

func distinctRef(a, b *Term) bool {
	_, oka := clkForm(a)
	_, okb := clkForm(b)
	if oka && okb {
		return clkGE(a, Add(b, One)) || clkGE(b, Add(a, One))
	}
	if oka {
		if u := upperOf(b); u != nil {
			return clkGE(a, u)
		}
	}
	if okb {
		if u := upperOf(a); u != nil {
			return clkGE(b, u)
		}
	}
	return false
}

func rootClkOf(t *Term) *Term { return rootClk[t] }
