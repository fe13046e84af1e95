package main

import (
	"fmt"
	"go/token"
	"go/types"
)

// Locks, pooled objects and access checks.

// lockClass names the kind of a lock: the type (or variable) and the path of the mutex in it.
func lockClass(a *Addr) string {
	r := a.Root
	if len(r) > 2 {
		r = r[2:]
	}
	return r + a.Path + a.Sub
}

func lockKey(a *Addr) string {
	return fmt.Sprintf("%s|%s%s|%d", a.Root, a.Path, a.Sub, a.Ref.id)
}

func init() {
	lock := func(mode string) func(*CallCtx, []*Val) {
		return func(c *CallCtx, a []*Val) {
			x := c.x
			x.nilCheck(c.st, a[0], c.pos)
			ad := x.addrOf(a[0])
			k := lockKey(ad)
			if l, ok := c.st.locks[k]; ok {
				if l.mode == "W" || mode == "W" {
					x.oblige(c.st, "no deadlock", "lock taken while the same goroutine holds it", c.pos, False)
				}
			}
			x.lockTaken(c, ad, mode)
			l := c.st.locks[k]
			l.mode, l.n, l.addr, l.ref = mode, l.n+1, ad, ad.Ref
			c.st.locks[k] = l
			c.ret()
		}
	}
	unlock := func(mode string) func(*CallCtx, []*Val) {
		return func(c *CallCtx, a []*Val) {
			x := c.x
			x.nilCheck(c.st, a[0], c.pos)
			ad := x.addrOf(a[0])
			k := lockKey(ad)
			l, ok := c.st.locks[k]
			if !ok || l.mode != mode {
				x.oblige(c.st, "no panic", "unlock of a lock that is not held", c.pos, False)
				c.ret()
				return
			}
			x.lockReleased(c, ad, mode)
			l.n--
			if l.n == 0 {
				delete(c.st.locks, k)
			} else {
				c.st.locks[k] = l
			}
			c.ret()
		}
	}
	model("(*sync.Mutex).Lock (*sync.RWMutex).Lock", lock("W"))
	model("(*sync.RWMutex).RLock", lock("R"))
	model("(*sync.Mutex).Unlock (*sync.RWMutex).Unlock", unlock("W"))
	model("(*sync.RWMutex).RUnlock", unlock("R"))
}

func (x *Exec) lockTaken(c *CallCtx, a *Addr, mode string)    {}
func (x *Exec) lockReleased(c *CallCtx, a *Addr, mode string) {}

// Access checks.

func (x *Exec) guardAccess(st *State, a *Addr, write bool, pos token.Pos)             {}
func (x *Exec) accessMap(st *State, t types.Type, m *Term, write bool, pos token.Pos) {}
func (x *Exec) lockCheckCall(st *State, sp *Spec, pos token.Pos)                      {}
