// bencoding: dictionaries are exactly the encoding of what was written

define bstr(s) = itoa(len(s)) ++ ":" ++ s
define bint(n) = "i" ++ itoa(n) ++ "e"

// n strings of a region, bencoded one after the other
recdef lstrs(a Arr(Int,Seq), o Int, n Int) Seq = ite(n <= 0, "", lstrs(a, o, n-1) ++ itoa(len(sel(a, o+n-1))) ++ ":" ++ sel(a, o+n-1))
// n byte slices of a region, bencoded one after the other
recdef lbytes(h Arr(Int,Arr(Int,Int)), r Arr(Int,Int), f Arr(Int,Int), l Arr(Int,Int), o Int, n Int) Seq = ite(n <= 0, "", lbytes(h, r, f, l, o, n-1) ++ itoa(sel(l, o+n-1)) ++ ":" ++ sq(sel(h, sel(r, o+n-1)), sel(f, o+n-1), sel(l, o+n-1)))

func bencoding.NewDictionary() (r)
  props B01 S10
  ensures new: content(r.buf) == "d"
  ensures fresh: fresh(r) && fresh(r.buf)

func (*bencoding.Dictionary).write(d, s)
  props B01
  modifies d.buf, mem(d.buf)
  ensures content(d.buf) == old(content(d.buf)) ++ s
  ensures reg(d.buf) == old(reg(d.buf)) || fresh(d.buf)

func (*bencoding.Dictionary).writeBytes(d, b)
  props B01
  requires alias: reg(b) != reg(d.buf) || len(b) == 0
  modifies d.buf, mem(d.buf)
  ensures content(d.buf) == old(content(d.buf)) ++ old(content(b))
  ensures reg(d.buf) == old(reg(d.buf)) || fresh(d.buf)

func (*bencoding.Dictionary).Reset(d)
  props B01 S10
  modifies d.buf, mem(d.buf)
  ensures content(d.buf) == "d"
  ensures reg(d.buf) == old(reg(d.buf)) || fresh(d.buf)

func (*bencoding.Dictionary).String(d, key, v)
  props B01
  modifies d.buf, mem(d.buf)
  ensures content(d.buf) == old(content(d.buf)) ++ bstr(key) ++ bstr(v)
  ensures reg(d.buf) == old(reg(d.buf)) || fresh(d.buf)

func (*bencoding.Dictionary).StringBytes(d, key, v)
  props B01
  requires alias: reg(v) != reg(d.buf) || len(v) == 0
  modifies d.buf, mem(d.buf)
  ensures content(d.buf) == old(content(d.buf)) ++ bstr(key) ++ bstr(old(content(v)))
  ensures reg(d.buf) == old(reg(d.buf)) || fresh(d.buf)

func (*bencoding.Dictionary).Int64(d, key, v)
  props B01
  modifies d.buf, mem(d.buf)
  ensures content(d.buf) == old(content(d.buf)) ++ bstr(key) ++ bint(v)
  ensures reg(d.buf) == old(reg(d.buf)) || fresh(d.buf)

func (*bencoding.Dictionary).Dictionary(d, key, v)
  props B01
  modifies d.buf, mem(d.buf)
  ensures content(d.buf) == old(content(d.buf)) ++ bstr(key) ++ v
  ensures reg(d.buf) == old(reg(d.buf)) || fresh(d.buf)

func (*bencoding.Dictionary).StartDictionary(d, key)
  props B01
  modifies d.buf, mem(d.buf)
  ensures content(d.buf) == old(content(d.buf)) ++ bstr(key) ++ "d"
  ensures reg(d.buf) == old(reg(d.buf)) || fresh(d.buf)

func (*bencoding.Dictionary).StartDictionaryBytes(d, key)
  props B01
  requires alias: reg(key) != reg(d.buf) || len(key) == 0
  modifies d.buf, mem(d.buf)
  ensures content(d.buf) == old(content(d.buf)) ++ bstr(old(content(key))) ++ "d"
  ensures reg(d.buf) == old(reg(d.buf)) || fresh(d.buf)

func (*bencoding.Dictionary).EndDictionary(d)
  props B01
  modifies d.buf, mem(d.buf)
  ensures content(d.buf) == old(content(d.buf)) ++ "e"
  ensures reg(d.buf) == old(reg(d.buf)) || fresh(d.buf)

func (*bencoding.Dictionary).BytesliceSlice(d, key, slice)
  props B01
  requires alias: forall i: Int :: 0 <= i < len(slice) ==> reg(slice[i]) != reg(d.buf)
  modifies d.buf, mem(d.buf)
  inv ?x:idx :: content(d.buf) == pre(content(d.buf)) ++ old(lbytes(heap8(), arrmem(slice, reg), arrmem(slice, off), arrmem(slice, len), off(slice), ?x))
  inv reg(d.buf) == old(reg(d.buf)) || fresh(d.buf)
  ensures content(d.buf) == old(content(d.buf)) ++ bstr(key) ++ "l" ++ old(lbytes(heap8(), arrmem(slice, reg), arrmem(slice, off), arrmem(slice, len), off(slice), len(slice))) ++ "e"
  ensures reg(d.buf) == old(reg(d.buf)) || fresh(d.buf)

func (*bencoding.Dictionary).Get(d) (s)
  props B01
  modifies d.buf, mem(d.buf)
  ensures s == old(content(d.buf)) ++ "e"

func (*bencoding.Dictionary).GetBytes(d) (b)
  props B01
  modifies d.buf, mem(d.buf)
  ensures content(b) == old(content(d.buf)) ++ "e"
  ensures b == d.buf
  ensures reg(d.buf) == old(reg(d.buf)) || fresh(d.buf)

func bencoding.str(str) (s)
  props B01
  ensures s == bstr(str)

func bencoding.integer(num) (s)
  props B01
  ensures typeis(num, int64) ==> s == bint(as(num, int64))
  ensures typeis(num, int) ==> s == bint(as(num, int))
  ensures typeis(num, uint64) ==> s == bint(as(num, uint64))
  ensures typeis(num, int32) ==> s == bint(as(num, int32))
  ensures typeis(num, uint16) ==> s == bint(as(num, uint16))

func bencoding.list(list) (s)
  props B01
  inv ?e:string ?x:idx :: ?e == ?e0 ++ lstrs(arrmem(list), off(list), ?x)
  ensures s == "l" ++ lstrs(arrmem(list), off(list), len(list)) ++ "e"
