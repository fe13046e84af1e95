package main

// Flattening of Go types into SMT leaves, and symbolic values.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const modPath = "github.com/crimist/trakx/"

// Leaf is one scalar component of a Go type.
type Leaf struct {
	Path string
	Sort string
	T    types.Type // Go type of the component (nil for slice parts)
}

// opaque struct types: name -> leaves
var opaqueTypes = map[string][]Leaf{
	"net/netip.Addr":                {{"", "Addr", nil}},
	"net/netip.AddrPort":            {{"", "AddrPort", nil}},
	"time.Time":                     {{"", "Time", nil}},
	"sync.Mutex":                    {},
	"sync.RWMutex":                  {},
	"sync.Once":                     {},
	"sync.Pool":                     {{".New", SInt, nil}},
	"sync.WaitGroup":                {},
	"sync/atomic.Int64":             {{"", SInt, types.Typ[types.Int64]}},
	"sync/atomic.Int32":             {{"", SInt, types.Typ[types.Int32]}},
	"bytes.Buffer":                  {{"", SSeq, nil}},
	"go.uber.org/zap/zapcore.Field": {{"", "Opq", nil}},
	"reflect.Value":                 {{"", "Opq", nil}},
	"go.uber.org/zap.AtomicLevel":   {{"", "Opq", nil}},
	"go.uber.org/zap.Logger":        {},
	"bufio.Writer":                  {{".pend", SSeq, nil}, {".under", SInt, nil}},
	"bufio.Reader":                  {{".base", SSeq, nil}, {".pos", SInt, nil}},
	"bytes.Reader":                  {{".reg", SInt, nil}, {".off", SInt, nil}, {".len", SInt, nil}},
	"net/http.Server":               {},
	"net/http.Request":              {},
	"os/exec.Cmd":                   nil,
	"encoding/base64.Encoding":      {},
	"expvar.Int":                    {{"", SInt, types.Typ[types.Int64]}},
	"embed.FS":                      {},
	"database/sql.DB":               {},
	"database/sql.Row":              {},
	"os.File":                       {},
	"net.UDPConn":                   {},
	"strings.Builder":               {{"", SSeq, nil}},
}

func init() {
	delete(opaqueTypes, "os/exec.Cmd")
	for _, o := range []string{"Addr", "AddrPort", "Time", "Opq", "Flt"} {
		opaques[o] = true
	}
}

func namedKey(t types.Type) string {
	if a, ok := t.(*types.Alias); ok {
		return namedKey(types.Unalias(a))
	}
	if n, ok := t.(*types.Named); ok {
		o := n.Obj()
		s := o.Name()
		if o.Pkg() != nil {
			s = o.Pkg().Path() + "." + s
		}
		s = strings.TrimPrefix(s, modPath)
		if ta := n.TypeArgs(); ta != nil && ta.Len() > 0 {
			var as []string
			for i := 0; i < ta.Len(); i++ {
				as = append(as, typeKey(ta.At(i)))
			}
			s += "[" + strings.Join(as, ",") + "]"
		}
		return s
	}
	return ""
}

// typeKey is a stable name of a type used in heap array names.
func typeKey(t types.Type) string {
	t = types.Unalias(t)
	if k := namedKey(t); k != "" {
		return k
	}
	switch u := t.(type) {
	case *types.Pointer:
		return "*" + typeKey(u.Elem())
	case *types.Slice:
		return "[]" + typeKey(u.Elem())
	case *types.Array:
		return fmt.Sprintf("[%d]%s", u.Len(), typeKey(u.Elem()))
	case *types.Map:
		return "map[" + typeKey(u.Key()) + "]" + typeKey(u.Elem())
	case *types.Basic:
		if u.Kind() == types.Uint8 {
			return "uint8"
		}
		if u.Kind() == types.Int32 {
			return "int32"
		}
		return u.Name()
	}
	return strings.ReplaceAll(types.TypeString(t, nil), modPath, "")
}

// elemKey names the memory of slice elements; byte-like elements share one memory.
func elemKey(t types.Type) string {
	if isByte(t) {
		return "uint8"
	}
	return typeKey(t)
}

func isByte(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Kind() == types.Uint8
}
func isByteArray(t types.Type) (int64, bool) {
	a, ok := t.Underlying().(*types.Array)
	if ok && isByte(a.Elem()) {
		return a.Len(), true
	}
	return 0, false
}

var leafCache = map[string][]Leaf{}

func leaves(t types.Type) []Leaf {
	t = types.Unalias(t)
	if k := namedKey(t); k != "" {
		if l, ok := opaqueTypes[k]; ok {
			return l
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		info := u.Info()
		switch {
		case info&types.IsBoolean != 0:
			return []Leaf{{"", SBool, t}}
		case info&types.IsInteger != 0:
			return []Leaf{{"", SInt, t}}
		case info&types.IsString != 0:
			return []Leaf{{"", SSeq, t}}
		case info&types.IsFloat != 0:
			return []Leaf{{"", "Flt", t}}
		}
		return []Leaf{{"", SInt, t}} // unsafe.Pointer, untyped nil
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Interface:
		return []Leaf{{"", SInt, t}}
	case *types.Slice:
		return []Leaf{{".reg", SInt, nil}, {".off", SInt, nil}, {".len", SInt, nil}, {".cap", SInt, nil}}
	case *types.Struct:
		var out []Leaf
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			for _, l := range leaves(f.Type()) {
				out = append(out, Leaf{"." + f.Name() + l.Path, l.Sort, l.T})
			}
		}
		return out
	case *types.Array:
		if isByte(u.Elem()) {
			return []Leaf{{"", SBA, t}}
		}
		var out []Leaf
		for _, l := range leaves(u.Elem()) {
			out = append(out, Leaf{"[]" + l.Path, arrSort(SInt, l.Sort), nil})
		}
		return out
	case *types.Tuple:
		return nil
	}
	panic("leaves: unsupported type " + t.String())
}

// leafRange returns the start index and count of the leaves of field i of struct type t.
func leafRange(t types.Type, field int) (int, int) {
	u := t.Underlying().(*types.Struct)
	n := 0
	for i := 0; i < u.NumFields(); i++ {
		l := len(leaves(u.Field(i).Type()))
		if i == field {
			return n, l
		}
		n += l
	}
	panic("field")
}

func intRange(t types.Type) (lo, hi *big.Int, ok bool) {
	b, isb := t.Underlying().(*types.Basic)
	if !isb || b.Info()&types.IsInteger == 0 {
		return nil, nil, false
	}
	bits, uns := 64, false
	switch b.Kind() {
	case types.Int8:
		bits = 8
	case types.Int16:
		bits = 16
	case types.Int32:
		bits = 32
	case types.Uint8:
		bits, uns = 8, true
	case types.Uint16:
		bits, uns = 16, true
	case types.Uint32:
		bits, uns = 32, true
	case types.Uint, types.Uint64, types.Uintptr:
		uns = true
	case types.UntypedInt, types.UntypedRune:
	}
	one := big.NewInt(1)
	if uns {
		hi = new(big.Int).Lsh(one, uint(bits))
		hi.Sub(hi, one)
		return new(big.Int), hi, true
	}
	hi = new(big.Int).Lsh(one, uint(bits-1))
	lo = new(big.Int).Neg(hi)
	hi = new(big.Int).Sub(hi, one)
	return lo, hi, true
}

// wrap reduces x into the range of t.
func wrap(x *Term, t types.Type) *Term {
	lo, hi, ok := intRange(t)
	if !ok {
		return x
	}
	if x.isInt() {
		n := new(big.Int).Sub(hi, lo)
		n.Add(n, big.NewInt(1))
		v := new(big.Int).Sub(x.I, lo)
		v.Mod(v, n)
		return BigInt(v.Add(v, lo))
	}
	n := new(big.Int).Sub(hi, lo)
	n.Add(n, big.NewInt(1))
	in := And(Le(BigInt(lo), x), Le(x, BigInt(hi)))
	var w *Term
	if lo.Sign() == 0 {
		w = Mod(x, BigInt(n))
	} else {
		w = Add(Mod(Sub(x, BigInt(lo)), BigInt(n)), BigInt(lo))
	}
	return Ite(in, x, w)
}

var goSizes = types.SizesFor("gc", "amd64")

// elemSize is the size of a slice element (at least 1).
func elemSize(t types.Type) int64 {
	n := goSizes.Sizeof(t)
	if n < 1 {
		return 1
	}
	return n
}

const maxLen = int64(1) << 47

// typeFacts are the facts that hold of every well-typed value with these leaves.
func typeFacts(t types.Type, ts []*Term, clk *Term) []*Term {
	var out []*Term
	t = types.Unalias(t)
	if k := namedKey(t); k != "" {
		if _, ok := opaqueTypes[k]; ok {
			if k == "bytes.Buffer" || k == "strings.Builder" {
				return []*Term{Le(SeqLen(ts[0]), Int(maxLen))}
			}
			if len(ts) == 1 && ts[0].Sort == SInt {
				return rangeFacts(opaqueTypes[k][0].T, ts[0])
			}
			return nil
		}
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsInteger != 0 {
			return rangeFacts(t, ts[0])
		}
		if u.Info()&types.IsString != 0 {
			return []*Term{Le(SeqLen(ts[0]), Int(maxLen))}
		}
	case *types.Pointer, *types.Map, *types.Chan:
		if clk != nil {
			out = append(out, Lt(ts[0], clk))
			if _, isPtr := t.Underlying().(*types.Pointer); !isPtr {
				out = append(out, Le(Zero, ts[0]))
			}
		}
	case *types.Interface:
		out = append(out, Le(Zero, ts[0]))
	case *types.Slice:
		out = append(out, Le(Zero, ts[0]), Le(Zero, ts[1]), Le(Zero, ts[2]), Le(ts[2], ts[3]), Le(ts[3], Int(maxLen/elemSize(u.Elem()))), Le(ts[1], Int(maxLen)),
			Implies(Eq(ts[0], Zero), Eq(ts[3], Zero)))
		if clk != nil {
			out = append(out, Lt(ts[0], clk))
		}
	case *types.Struct:
		n := 0
		for i := 0; i < u.NumFields(); i++ {
			ft := u.Field(i).Type()
			k := len(leaves(ft))
			out = append(out, typeFacts(ft, ts[n:n+k], clk)...)
			n += k
		}
	case *types.Array:
		if isByte(u.Elem()) {
			out = append(out, Eq(SeqLen(App("ba2s", SSeq, ts[0])), Int(u.Len())))
			break
		}
		if _, ok := u.Elem().Underlying().(*types.Slice); ok && clk != nil && ts[0].Op == "var" {
			i := BVar("ai", SInt)
			var es []*Term
			for _, t := range ts {
				es = append(es, Select(t, i))
			}
			out = append(out, Quant("forall", []*Term{i}, [][]*Term{{es[0]}}, And(typeFacts(u.Elem(), es, clk)...)))
		}
	}
	return out
}

func rangeFacts(t types.Type, x *Term) []*Term {
	if t == nil {
		return nil
	}
	lo, hi, ok := intRange(t)
	if !ok {
		return nil
	}
	return []*Term{Le(BigInt(lo), x), Le(x, BigInt(hi))}
}

// ---- values ----

type Val struct {
	T   types.Type
	Ts  []*Term
	A   *Addr    // interior pointer
	Dyn *Val     // statically known content of an interface
	Fn  *FnVal   // closure or function
	Tup []*Val   // tuple
	It  *MapIter // range iterator
	Re  *Val     // reinterpreted pointer (unsafe): the original

	Captured bool // the address of a captured variable: contracts name the variable
}

func (v *Val) captured() *Val {
	if v.T == nil || !isPointer(v.T) {
		return v
	}
	c := *v
	c.Captured = true
	return &c
}

type FnVal struct {
	Fn    *ssa.Function
	Binds []*Val
}

// Addr is the address of a component of an object or of a memory cell.
type Addr struct {
	Root string // heap prefix: "F|type" or "M|elem"
	Ref  *Term
	Path string
	Idx  *Term // element index after Path (array field or slice memory)
	Sub  string
	T    types.Type // type of the pointee
}

func (v *Val) term() *Term {
	if len(v.Ts) != 1 {
		panic(fmt.Sprintf("value of type %v has %d leaves", v.T, len(v.Ts)))
	}
	return v.Ts[0]
}

func (a *Addr) key(st *State) string {
	return fmt.Sprintf("%s|%s|%d|%d|%s", a.Root, a.Path, a.Ref.id, idOf(a.Idx), a.Sub)
}
func idOf(t *Term) int {
	if t == nil {
		return 0
	}
	return t.id
}

type MapIter struct {
	M    *Term // map reference
	MT   *types.Map
	Name string // prefix of the ghost heap entries
	D0   *Term  // domain when the iteration started
	T    types.Type
	Str  *Term // string being iterated
}

func scalar(t types.Type, x *Term) *Val { return &Val{T: t, Ts: []*Term{x}} }

func isPointer(t types.Type) bool {
	_, ok := t.Underlying().(*types.Pointer)
	return ok
}
func isInterface(t types.Type) bool {
	_, ok := t.Underlying().(*types.Interface)
	return ok
}
func derefT(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }
