package main

import (
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Object pools (package pools of the code under test).
//
// Get hands out an object nobody else holds; Put gives one up.  The ghosts rel_peer, rel_dict and rel_bytes
// record what has been given up; every access to such memory afterwards is an obligation that fails.
// poolcap(p) is the fixed capacity of the buffers of pool p.

var relGhosts = []string{"rel_peer", "rel_dict", "rel_bytes"}

const relSort = "(Array Int Bool)"

func poolClass(t types.Type) string {
	if isByteSlice(t) {
		return "bytes"
	}
	if p, ok := t.Underlying().(*types.Pointer); ok {
		switch typeKey(p.Elem()) {
		case "tracker/storage.Peer":
			return "peer"
		case "bencoding.Dictionary":
			return "dict"
		}
	}
	return ""
}

func (x *Exec) rel(st *State, class string) *Term {
	return x.get(st, "ghost|rel_"+class, relSort)
}

// peerOwner is the map holding a pooled peer (0: none); a released peer has no owner because
// Put demands it and an insertion demands that the peer is not released.
func (x *Exec) peerOwner(st *State, ref *Term) *Term {
	if x.P.ghosts["peerOwner"] == "" {
		return nil
	}
	return Select(x.get(st, "ghost|peerOwner", arrSort(SInt, SInt)), ref)
}

func (x *Exec) release(st *State, class string, ref *Term, pos token.Pos) {
	rel := x.rel(st, class)
	x.released(st, class, ref, "returned to a pool twice", pos)
	x.set(st, "ghost|rel_"+class, Store(rel, ref, True))
}

// released obliges that ref has not been given up on this path.
func (x *Exec) released(st *State, class string, ref *Term, what string, pos token.Pos) {
	key := "ghost|rel_" + class
	t := st.heap[key]
	if t == nil || t == x.entry.heap[key] {
		return
	}
	base := t
	for base.Op == "store" {
		base = base.Args[0]
	}
	if base.Op == "constarr" {
		// nothing was given up before
	} else if c := rootClkOf(base); c != nil && isFreshRef(ref) && clkGE(ref, c) {
		st.assume(Not(Select(base, ref)))
	}
	g := Not(Select(t, ref))
	if g == True {
		return
	}
	if class == "peer" {
		if o := x.peerOwner(st, ref); o != nil {
			st.assume(Implies(Select(t, ref), Eq(o, Zero)))
		}
	}
	x.oblige(st, "pool", what, pos, Or(Eq(ref, Zero), g))
}

// liveVal obliges that a value passed on or stored is not memory given up before.
func (x *Exec) liveVal(st *State, v *Val, what string, pos token.Pos) {
	if v.T == nil || len(v.Ts) == 0 {
		return
	}
	if c := poolClass(v.T); c != "" {
		x.released(st, c, v.Ts[0], what, pos)
	}
}

func (x *Exec) access(st *State, a *Addr, write bool, pos token.Pos) {
	switch a.Root {
	case "F|tracker/storage.Peer":
		x.released(st, "peer", a.Ref, "peer used after it was returned to its pool", pos)
	case "F|bencoding.Dictionary":
		x.released(st, "dict", a.Ref, "dictionary used after it was returned to its pool", pos)
	case "M|uint8":
		x.accessBytes(st, a.Ref, write, pos)
	}
	x.guardAccess(st, a, write, pos)
}

func (x *Exec) accessBytes(st *State, reg *Term, write bool, pos token.Pos) {
	x.released(st, "bytes", reg, "buffer used after it was returned to its pool", pos)
}

func (x *Exec) poolCapOf(pool *Term) *Term { return App("poolcap", SInt, pool) }

func init() {
	declFn("poolcap", SInt, SInt)
	model("(*pools.Pool[T]).Get", func(c *CallCtx, a []*Val) {
		x, st := c.x, c.st
		x.nilCheck(st, a[0], c.pos)
		t := c.rt(0)
		r := x.allocRef(st)
		switch poolClass(t) {
		case "bytes":
			pc := x.poolCapOf(a[0].term())
			n := Fresh("poollen", SInt)
			st.assume(Le(Zero, n), Le(n, pc), Le(pc, Int(maxLen)))
			m := x.get(st, m8, m8Sort)
			x.set(st, m8, Store(m, r, Fresh("poolbuf", arrSort(SInt, SInt))))
			c.ret(mkSlice(t, r, Zero, n, pc))
			return
		case "dict":
			v := &Val{T: t, Ts: []*Term{r}}
			buf := x.allocRef(st)
			m := x.get(st, m8, m8Sort)
			x.set(st, m8, Store(m, buf, Blit(zeroArr, Zero, SeqLit("d"))))
			cp := Fresh("cap", SInt)
			st.assume(Le(One, cp), Le(cp, Int(maxLen)))
			x.store(st, x.addrOf(v), &Val{T: derefT(t), Ts: []*Term{buf, Zero, One, cp}})
			c.ret(v)
			return
		case "peer":
			v := &Val{T: t, Ts: []*Term{r}}
			x.store(st, x.addrOf(v), x.freshVal(st, "pooled", derefT(t)))
			if x.P.ghosts["peerOwner"] != "" {
				o := x.get(st, "ghost|peerOwner", arrSort(SInt, SInt))
				st.assume(Eq(Select(o, r), Zero))
			}
			c.ret(v)
			return
		}
		x.fail("pool of %v", t)
	})
	model("(*pools.Pool[T]).Put", func(c *CallCtx, a []*Val) {
		x, st := c.x, c.st
		x.nilCheck(st, a[0], c.pos)
		v := a[1]
		switch poolClass(v.T) {
		case "bytes":
			x.oblige(st, "pool", "a buffer keeps its capacity", c.pos, Eq(v.Ts[3], x.poolCapOf(a[0].term())))
			x.release(st, "bytes", v.Ts[0], c.pos)
		case "dict":
			x.nilCheck(st, v, c.pos)
			d := x.loadRaw(st, x.addrOf(v))
			x.release(st, "dict", v.Ts[0], c.pos)
			x.release(st, "bytes", d.Ts[0], c.pos)
		case "peer":
			x.nilCheck(st, v, c.pos)
			if o := x.peerOwner(st, v.Ts[0]); o != nil {
				x.oblige(st, "pool", "a peer is removed from its swarm before it is returned", c.pos, Eq(o, Zero))
			}
			x.release(st, "peer", v.Ts[0], c.pos)
		default:
			x.fail("pool of %v", v.T)
		}
		c.ret()
	})
	model("(*pools.Pool[T]).Created", noEffect)
	// NewPool: what new makes and what reset leaves must satisfy what Get promises.
	model("pools.NewPool", func(c *CallCtx, a []*Val) {
		x, st := c.x, c.st
		t := c.sig.Params().At(1).Type().Underlying().(*types.Signature).Params().At(0).Type()
		class := poolClass(t)
		if class == "" || a[0].Fn == nil {
			x.fail("pool of %v", t)
		}
		pool := x.allocRef(st)
		call := func(st *State, f *Val, args []*Val, k func(*State, *Val)) {
			sig := f.T.Underlying().(*types.Signature)
			cc := &CallCtx{x: x, fr: c.fr.clone(), st: st, pos: c.pos, sig: sig, k: func(_ *Frame, st *State, v *Val) { k(st, v) }}
			x.callFn(cc, f.Fn.Fn, args, f.Fn.Binds)
		}
		capT := Fresh("poolcap0", SInt)
		first := true
		call(st.clone(), a[0], nil, func(s2 *State, v *Val) {
			if v.Dyn == nil || !types.Identical(v.Dyn.T, t) {
				x.oblige(s2, "pool", "new makes an object of the pool's type", c.pos, False)
				return
			}
			d := v.Dyn
			x.termsOf(s2, d)
			x.oblige(s2, "pool", "new makes a fresh object", c.pos, Le(x.clk(st), d.Ts[0]))
			switch class {
			case "bytes":
				if first {
					capT = d.Ts[3]
					first = false
				} else {
					x.oblige(s2, "pool", "buffers have one fixed capacity", c.pos, Eq(d.Ts[3], capT))
				}
				x.oblige(s2, "pool", "buffers have one fixed capacity", c.pos, Le(capT, d.Ts[3]))
			case "dict":
				b := x.loadRaw(s2, x.addrOf(d))
				x.oblige(s2, "pool", "a new dictionary is empty", c.pos, Eq(x.content(s2, &Val{T: types.NewSlice(types.Typ[types.Byte]), Ts: b.Ts[:4]}), SeqLit("d")))
			}
		})
		if a[1].Fn != nil {
			s2 := st.clone()
			v := x.freshVal(s2, "toreset", t)
			if class == "bytes" {
				s2.assume(Eq(v.Ts[3], capT))
			} else {
				s2.assume(Lt(Zero, v.Ts[0]))
			}
			call(s2, a[1], []*Val{v}, func(s3 *State, _ *Val) {
				if class == "dict" {
					b := x.loadRaw(s3, x.addrOf(v))
					x.oblige(s3, "pool", "reset empties a dictionary", c.pos, Eq(x.content(s3, &Val{T: types.NewSlice(types.Typ[types.Byte]), Ts: b.Ts[:4]}), SeqLit("d")))
				}
			})
		} else if class == "dict" {
			x.oblige(st, "pool", "reset empties a dictionary", c.pos, False)
		}
		if class == "bytes" {
			st.assume(Eq(x.poolCapOf(pool), capT))
		}
		c.ret(&Val{T: c.rt(0), Ts: []*Term{pool}})
	})
	// inside package pools
	model("(*sync.Pool).Put", func(c *CallCtx, a []*Val) {
		x, st := c.x, c.st
		if x.P.ghosts["nput"] != "" {
			n := x.get(st, "ghost|nput", SInt)
			pa := x.get(st, "ghost|putarg", arrSort(SInt, SInt))
			pd := x.get(st, "ghost|putdyn", arrSort(SInt, SInt))
			arg := a[1]
			if arg.Dyn != nil {
				arg = arg.Dyn
			}
			x.set(st, "ghost|putarg", Store(pa, n, x.termsOf(st, arg)[0]))
			x.set(st, "ghost|putdyn", Store(pd, n, x.get(st, "ghost|ndyn", SInt)))
			x.set(st, "ghost|nput", Add(n, One))
		}
		c.ret()
	})
}

// dynamicCall records calls of function values that are not statically known.
func dynamicCall(c *CallCtx, f *Val, args []*Val) bool {
	x, st := c.x, c.st
	if x.P.ghosts["ndyn"] == "" {
		return false
	}
	ft := x.termsOf(st, f)[0]
	x.oblige(st, "no panic", "nil function call", c.pos, Neq(ft, Zero))
	n := x.get(st, "ghost|ndyn", SInt)
	x.set(st, "ghost|dynfn", Store(x.get(st, "ghost|dynfn", arrSort(SInt, SInt)), n, ft))
	if len(args) > 0 {
		if ts := x.termsOf(st, args[0]); len(ts) > 0 && ts[0].Sort == SInt {
			x.set(st, "ghost|dynarg", Store(x.get(st, "ghost|dynarg", arrSort(SInt, SInt)), n, ts[0]))
		}
	}
	x.set(st, "ghost|ndyn", Add(n, One))
	x.unknownCall(c, "dynamic call", args)
	return true
}

// instName names an instance of a generic method by its type arguments.
func instName(fn *ssa.Function) string {
	if fn.Origin() == nil || fn.Origin() == fn {
		return ""
	}
	s := fn.String()
	if i := strings.Index(s, "["); i < 0 {
		return ""
	}
	return strings.ReplaceAll(s, modPath, "")
}
