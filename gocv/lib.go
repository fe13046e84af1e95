package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Models of library functions.  Every use is recorded in the evidence as an assumption.

type libPrefix struct {
	prefix, kind string
	f            func(*CallCtx, []*Val)
}

var libModels = map[string]func(*CallCtx, []*Val){}
var libPrefixes []libPrefix

func model(names string, f func(*CallCtx, []*Val)) {
	for _, n := range strings.Fields(names) {
		libModels[n] = f
	}
}

func itoa(t *Term) *Term {
	if t.isInt() {
		return SeqLit(t.I.String())
	}
	return App("itoa", SSeq, t)
}

func init() {
	libPrefixes = append(libPrefixes,
		libPrefix{"(*go.uber.org/zap.Logger).Fatal", "logging (assumed to end the process)", func(c *CallCtx, _ []*Val) {}},
		libPrefix{"(*go.uber.org/zap.Logger).", "logging (assumed without effect)", noEffect},
		libPrefix{"go.uber.org/zap.", "logging (assumed without effect)", noEffect},
	)
	declFn("itoa", SSeq, SInt)
	declFn("fmtd", SSeq, SInt)
	declFn("fmts", SSeq, SInt)
	setLemmaHook("itoa", func(t *Term) []*Term {
		return []*Term{Le(One, SeqLen(t)), Le(SeqLen(t), Int(20))}
	})
	for _, k := range []types.BasicKind{types.Int, types.Int8, types.Int16, types.Int32, types.Int64, types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64} {
		tk := typeKey(types.Typ[k])
		declareBox("box:"+tk, tk, []string{SInt})
		i := BVar("i", SInt)
		fd := App("fmtd", SSeq, i)
		addAxiom("fmt-%d-"+tk, []string{"fmtd"}, Quant("forall", []*Term{i}, [][]*Term{{fd}},
			Implies(Eq(App("itag", SInt, i), tagOf(tk)), Eq(fd, App("itoa", SSeq, App("unbox:"+tk+":0", SInt, i))))))
	}
	declareBox("box:string", "string", []string{SSeq})
	{
		i := BVar("i", SInt)
		fd := App("fmts", SSeq, i)
		addAxiom("fmt-%s-string", []string{"fmts"}, Quant("forall", []*Term{i}, [][]*Term{{fd}},
			Implies(Eq(App("itag", SInt, i), tagOf("string")), Eq(fd, App("unbox:string:0", SSeq, i)))))
	}

	model("strconv.FormatInt", func(c *CallCtx, a []*Val) {
		if b := a[1].term(); !b.isInt() || b.I.Int64() != 10 {
			noEffect(c, a)
			return
		}
		c.ret(scalar(c.rt(0), itoa(a[0].term())))
	})
	model("strconv.Itoa", func(c *CallCtx, a []*Val) { c.ret(scalar(c.rt(0), itoa(a[0].term()))) })
	model("fmt.Sprintf", func(c *CallCtx, a []*Val) { c.ret(scalar(c.rt(0), sprintf(c, a[0].term(), a[1]))) })
	model("fmt.Println fmt.Printf fmt.Print", noEffect)

	newErr := func(c *CallCtx, a []*Val) { c.ret(c.newErr()) }
	model("errors.New github.com/pkg/errors.New fmt.Errorf github.com/pkg/errors.Errorf", newErr)
	model("github.com/pkg/errors.Wrap github.com/pkg/errors.Wrapf github.com/pkg/errors.WithMessage github.com/pkg/errors.WithStack", func(c *CallCtx, a []*Val) {
		in := c.x.termsOf(c.st, a[0])[0]
		e := Fresh("err", SInt)
		c.st.assume(Le(Zero, e), Iff(Eq(e, Zero), Eq(in, Zero)))
		c.ret(scalar(c.rt(0), e))
	})
	model("(error).Error", noEffect)
}

// newErr is a non-nil error.
func (c *CallCtx) newErr() *Val {
	e := Fresh("err", SInt)
	c.st.assume(Lt(Zero, e))
	return scalar(types.Universe.Lookup("error").Type(), e)
}

// sprintf evaluates a literal format.
func sprintf(c *CallCtx, f *Term, args *Val) *Term {
	fresh := func() *Term {
		t := Fresh("sprintf", SSeq)
		c.st.assume(Le(SeqLen(t), Int(maxLen)))
		return t
	}
	if f.Op != "seqlit" {
		return fresh()
	}
	s := f.Name
	reg, off, _, _ := sl(args)
	n := int64(0)
	arg := func() *Term {
		m := c.x.get(c.st, "M|"+elemKey(args.T.Underlying().(*types.Slice).Elem())+"||", arrSort(SInt, arrSort(SInt, SInt)))
		t := Select(Select(m, reg), Add(off, Int(n)))
		n++
		return t
	}
	var parts []*Term
	lit := ""
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit += string(s[i])
			continue
		}
		i++
		if i >= len(s) {
			return fresh()
		}
		if s[i] == '%' {
			lit += "%"
			continue
		}
		parts = append(parts, SeqLit(lit))
		lit = ""
		switch s[i] {
		case 'd':
			t := arg()
			if strings.HasPrefix(t.Op, "box:") && len(t.Args) == 1 && t.Args[0].Sort == SInt {
				parts = append(parts, itoa(t.Args[0]))
			} else {
				parts = append(parts, App("fmtd", SSeq, t))
			}
		case 's':
			t := arg()
			if t.Op == "box:string" {
				parts = append(parts, t.Args[0])
			} else {
				parts = append(parts, App("fmts", SSeq, t))
			}
		default:
			return fresh()
		}
	}
	parts = append(parts, SeqLit(lit))
	return Concat(parts...)
}

// noEffect returns arbitrary results and changes nothing.
func noEffect(c *CallCtx, args []*Val) {
	var res []*Val
	for i := 0; i < c.sig.Results().Len(); i++ {
		res = append(res, c.x.freshVal(c.st, "ext:"+c.name, c.rt(i)))
	}
	c.ret(res...)
}

var _ = fmt.Sprint
