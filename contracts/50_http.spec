// tracker/http: what each connection is sent and what happens to it

// every byte written to each connection
ghost wrote Arr(Int,Seq)

extern (net.Conn).Write(c, b) (n, err)
  why appends to what the peer receives (a failing write may send less)
  requires c != nil
  modifies ghost wrote
  ensures wrote == upd(old(wrote), c, sel(old(wrote), c) ++ content(b))

trusted tracker/utils/unsafemanip.StringToBytes(s) (r)
  props H05 H07
  why reinterprets the string header as a slice header (unsafe); nothing writes to the result
  ensures content(r) == s && fresh(r) && cap(r) == len(r)

globalfact success: content(http.httpSuccessBytes) == "HTTP/1.1 200\r\n\r\n" && cap(http.httpSuccessBytes) == len(http.httpSuccessBytes)
globalfact invalid: http.invalidParse != nil
globalfact b64: base64.StdEncoding != nil
globalfact stats: content(http.statsHeader) == "HTTP/1.1 200\r\nContent-Type: application/json; charset=utf-8\r\n\r\n"

define httpOK() = "HTTP/1.1 200\r\n\r\n"
define says(conn, s) = wrote == upd(old(wrote), conn, sel(old(wrote), conn) ++ s)
define httpDict(body) = httpOK() ++ "d" ++ body ++ "e"
define failure(msg) = httpDict(bstr("failure reason") ++ bstr(msg))

func tracker/http.writeErr(conn, msg)
  props H03 H04 H05
  requires conn != nil && poolsReady()
  modifies ghost wrote, ghost rel_dict, ghost rel_bytes
  ensures reply: says(conn, failure(msg))

func (*tracker/http.HTTPTracker).clientError(t, conn, msg)
  props H03 H04 H05
  requires conn != nil && poolsReady()
  modifies ghost wrote, ghost rel_dict, ghost rel_bytes
  ensures reply: says(conn, failure(msg))

func tracker/http.writeStatus(c, status)
  props H05
  requires c != nil
  modifies ghost wrote
  ensures reply: says(c, "HTTP/1.1 " ++ status ++ "\r\n\r\n")

func tracker/http.writeData(c, data)
  props H05 H07
  requires c != nil
  modifies ghost wrote
  ensures reply: says(c, httpOK() ++ data)

// ---- announces

// peersok(db, hash, n, noid, s): s lists at most n distinct members of hash's swarm, each as a bencoded string holding its dictionary
logic peersok(Opq, BA, Int, Bool, Seq) Bool
define listBytes(L) = lbytes(heap8(), arrmem(L, reg), arrmem(L, off), arrmem(L, len), off(L), len(L))

extern (tracker/storage.Database).PeerList(d, hash, n, noid) (r)
  why S03 decides it for the only implementation
  modifies ghost rel_dict, ghost rel_bytes
  ensures peersok(db, hash, n, noid, listBytes(r))
  ensures forall i: Int :: 0 <= i && i < len(r) ==> fresh(r[i])
  ensures gaveup: forall q: Int :: {sel(rel_dict, q)} q < old(clk()) || q >= clk() ==> sel(rel_dict, q) == sel(old(rel_dict), q)
  ensures gaveupb: forall q: Int :: {sel(rel_bytes, q)} q < old(clk()) || q >= clk() ==> sel(rel_bytes, q) == sel(old(rel_bytes), q)
  ensures kept: forall i: Int :: 0 <= i && i < len(r) ==> !sel(rel_bytes, reg(r[i]))

define httpConfig() = config.Config != nil && udpConfig() && durConfig()
define hGood(v) = len(v.hash) == 20 && len(v.peerid) == 20
define hStop(v) = hGood(v) && v.event == "stopped"
define portOK(s) = atoiok(s) && 1 <= atoi(s) && atoi(s) <= 65535
define wantOK(s) = s == "" || atoiok(s) && atoi(s) >= 0
define hWant(s) = ite(s == "", config.Config.Numwant.Default, min(atoi(s), config.Config.Numwant.Limit))
define hLive(v) = hGood(v) && v.event != "stopped" && portOK(v.port) && wantOK(v.numwant)
define annHead(i, db, h) = bstr("interval") ++ bint(i) ++ bstr("complete") ++ bint(dbComplete(db, h)) ++ bstr("incomplete") ++ bint(dbIncomplete(db, h))
define goodInterval(i) = baseSecs() <= i && (i < baseSecs() + fuzzSecs() || i == baseSecs() && fuzzSecs() == 0)

func (*tracker/http.HTTPTracker).announce(t, conn, vals, ip)
  props H03 H05
  requires conn != nil && vals != nil && t.peerdb != nil && httpConfig()
  modifies ghost wrote, ghost db, ghost rel_dict, ghost rel_bytes
  ensures badhash: len(vals.hash) != 20 ==> db == old(db) && says(conn, failure("Invalid infohash"))
  ensures badpeer: len(vals.hash) == 20 && len(vals.peerid) != 20 ==> db == old(db) && says(conn, failure("Invalid peerid"))
  ensures stop: hStop(vals) ==> db == dbDrop(old(db), s2ba(vals.hash), s2ba(vals.peerid)) && says(conn, httpOK())
  ensures badport: hGood(vals) && vals.event != "stopped" && !portOK(vals.port) ==> db == old(db) && says(conn, failure("Invalid port"))
  ensures badwant: hGood(vals) && vals.event != "stopped" && portOK(vals.port) && !wantOK(vals.numwant) ==> db == old(db) && says(conn, failure("Invalid numwant"))
  ensures saves: hLive(vals) ==> db == dbSave(old(db), ip, atoi(vals.port), vals.event == "completed" || vals.noneleft, s2ba(vals.hash), s2ba(vals.peerid))
  ensures compact: hLive(vals) && vals.compact ==> exists i: Int, s4: Seq, s6: Seq :: {itoa(i), peers4ok(db, s2ba(vals.hash), hWant(vals.numwant), s4), peers6ok(db, s2ba(vals.hash), hWant(vals.numwant), s6)} goodInterval(i) && peers4ok(db, s2ba(vals.hash), hWant(vals.numwant), s4) && peers6ok(db, s2ba(vals.hash), hWant(vals.numwant), s6) && says(conn, httpDict(annHead(i, db, s2ba(vals.hash)) ++ bstr("peers") ++ bstr(s4) ++ bstr("peers6") ++ bstr(s6)))
  ensures full: hLive(vals) && !vals.compact ==> exists i: Int, s: Seq :: {itoa(i), peersok(db, s2ba(vals.hash), hWant(vals.numwant), vals.nopeerid, s)} goodInterval(i) && peersok(db, s2ba(vals.hash), hWant(vals.numwant), vals.nopeerid, s) && says(conn, httpDict(annHead(i, db, s2ba(vals.hash)) ++ bstr("peers") ++ "l" ++ s ++ "e"))

// ---- scrapes

define scrOne(d, s) = bstr(s) ++ "d" ++ bstr("complete") ++ bint(dbComplete(d, s2ba(s))) ++ bstr("incomplete") ++ bint(dbIncomplete(d, s2ba(s))) ++ "e"
// the entries of the first n parameters that are not nil
recdef scrEnc(d Opq, h Arr(Int,Arr(Int,Int)), r Arr(Int,Int), f Arr(Int,Int), l Arr(Int,Int), n Int) Seq = ite(n <= 0, "", scrEnc(d, h, r, f, l, n-1) ++ ite(sel(r, n-1) == 0, "", scrOne(d, sq(sel(h, sel(r, n-1)), sel(f, n-1), sel(l, n-1)))))
define scrAll(d, ps, n) = scrEnc(d, heap8(), arrmem(ps, reg), arrmem(ps, off), arrmem(ps, len), n)
define scrGood(ps, n) = forall i: Int :: 0 <= i && i < n ==> ps[i] == nil || len(ps[i]) == 20

func (*tracker/http.HTTPTracker).scrape(t, conn, infohashes)
  props H04 H05
  requires conn != nil && t.peerdb != nil && poolsReady()
  modifies ghost wrote, ghost rel_dict, ghost rel_bytes
  inv ?x:idx ?d:*bencoding.Dictionary :: content(?d.buf) == "d" ++ bstr("files") ++ "d" ++ old(scrAll(db, infohashes, ?x))
  inv ?d:*bencoding.Dictionary :: old(clk()) <= reg(?d.buf)
  inv ?x:idx :: scrGood(infohashes, ?x)
  ensures files: scrGood(infohashes, 45) ==> says(conn, httpDict(bstr("files") ++ "d" ++ old(scrAll(db, infohashes, 45)) ++ "e"))
  ensures invalid: !scrGood(infohashes, 45) ==> says(conn, failure("invalid infohash"))

// ---- parsing requests

// bidx(s, t): where t first occurs in s, -1 if it does not
logic bidx(Seq, Seq) Int
axiom bidx_range(s Seq, t Seq) {bidx(s, t)} = 0-1 <= bidx(s, t) && (bidx(s, t) >= 0 ==> bidx(s, t) + len(t) <= len(s))
logic b64(Seq) Seq
define hasPrefix(s, p) = len(s) >= len(p) && sub(s, 0, len(p)) == p

extern bytes.Index(s, sep) (r)
  why the first occurrence, by definition
  ensures r == bidx(content(s), content(sep))
extern bytes.HasPrefix(s, p) (r)
  why by definition
  ensures r <==> hasPrefix(content(s), content(p))
extern (*encoding/base64.Encoding).Decode(e, dst, src) (n, err)
  why decodes in place; b64 is its result
  requires len(dst) >= len(src) / 4 * 3
  modifies mem(dst)
  ensures 0 <= n && n <= len(src) / 4 * 3 && n <= len(dst)
  ensures keeps(mem(dst), old(mem(dst)), off(dst), off(dst) + len(dst))
  ensures err == nil ==> sq(mem(dst), off(dst), n) == b64(old(content(src)))

axiom sq_snoc(a Arr(Int,Int), o Int, n Int, m Int) {sq(a, o, n), sq(a, o, m)} = m == n + 1 && n >= 0 ==> sq(a, o, m) == sq(a, o, n) ++ unit(sel(a, o + n))
lemma sq_store(a Arr(Int,Int), k Int, v Int, o Int, n Int) induct n {sq(upd(a, k, v), o, n)} = k < o || k >= o + n ==> sq(upd(a, k, v), o, n) == sq(a, o, n)
// the two memories agree outside [lo, hi)
logic keeps(Arr(Int,Int), Arr(Int,Int), Int, Int) Bool
axiom keeps_def(a Arr(Int,Int), b Arr(Int,Int), lo Int, hi Int) {keeps(a, b, lo, hi)} = keeps(a, b, lo, hi) <==> (forall j: Int :: {sel(a, j)} j < lo || j >= hi ==> sel(a, j) == sel(b, j))
lemma keeps_sq(a Arr(Int,Int), b Arr(Int,Int), lo Int, hi Int, o Int, n Int) induct n {keeps(a, b, lo, hi), sq(a, o, n)} = keeps(a, b, lo, hi) && (o + n <= lo || o >= hi) ==> sq(a, o, n) == sq(b, o, n)

define hx(c) = ite(48 <= c && c <= 57, c - 48, ite(97 <= c && c <= 102, c - 87, ite(65 <= c && c <= 70, c - 55, 0)))
// percent-decoding from position c on, and whether every escape is complete
recdef pdec(s Seq, c Int) Seq depth 1 = ite(c >= len(s), "", ite(nth(s, c) != 37, unit(nth(s, c)) ++ pdec(s, c+1), ite(c+2 >= len(s), "", unit(hx(nth(s, c+1)) * 16 + hx(nth(s, c+2))) ++ pdec(s, c+3))))
recdef pok(s Seq, c Int) Bool depth 1 = ite(c >= len(s), true, ite(nth(s, c) != 37, pok(s, c+1), c+2 < len(s) && pok(s, c+3)))

func tracker/http.fromHexChar(c) (r)
  props H02
  opt helper
  ensures r == hx(c)

func tracker/http.unescapeFast(bs) (r)
  props H01 H02
  modifies mem(bs)
  inv ?i_:int ?l_:int :: 0 <= ?i_ && ?i_ <= ?l_ && ?l_ <= len(bs)
  inv ?i_:int ?l_:int :: keeps(mem(bs), old(mem(bs)), off(bs), off(bs) + len(bs))
  inv ?i_:int ?l_:int :: old(pdec(content(bs), 0)) == sq(mem(bs), off(bs), ?i_) ++ pdec(old(content(bs)), ?i_ + len(bs) - ?l_)
  inv ?i_:int ?l_:int :: old(pok(content(bs), 0)) == pok(old(content(bs)), ?i_ + len(bs) - ?l_)
  inv ?i_:int ?l_:int :: forall j: Int :: {sel(mem(bs), j)} off(bs) + ?i_ <= j && j < off(bs) + ?l_ ==> sel(mem(bs), j) == sel(old(mem(bs)), j + len(bs) - ?l_)
  inv ?i_:int :: keeps(mem(bs), pre(mem(bs)), off(bs) + ?i_ + 1, off(bs) + len(bs))
  inv ?i_:int ?x_:int :: forall j: Int :: {sel(mem(bs), j)} off(bs) + ?i_ < j && j <= off(bs) + ?x_ && j < off(bs) + len(bs) - 2 ==> sel(mem(bs), j) == sel(pre(mem(bs)), j + 2)
  inv ?x_:int :: forall j: Int :: {sel(mem(bs), j)} off(bs) + ?x_ < j ==> sel(mem(bs), j) == sel(pre(mem(bs)), j)
  ensures nil: r == nil <==> bs == nil || !old(pok(content(bs), 0))
  ensures within: r != nil ==> reg(r) == reg(bs) && off(r) == off(bs) && len(r) <= len(bs)
  ensures decoded: r != nil ==> content(r) == old(pdec(content(bs), 0))
  ensures kept: keeps(mem(bs), old(mem(bs)), off(bs), off(bs) + len(bs))

axiom bidx_get(s Seq) {bidx(s, "GET /")} = bidx(s, "GET /") >= 0 ==> 0 <= bidx(s, " /") && bidx(s, " /") <= bidx(s, "GET /") + 3

// amp(Q, p): the first '&' at or after p, or the end; qbeg(Q, k): where parameter k begins
recdef ampd(s Seq, d Int) Int depth 1 = ite(d <= 0, len(s), ite(nth(s, len(s)-d) == 38, len(s)-d, ampd(s, d-1)))
define amp(s, p) = ampd(s, len(s) - p)
recdef qbeg(s Seq, k Int) Int depth 1 = ite(k <= 0, 0, ampd(s, len(s) - qbeg(s, k-1)) + 1)
lemma ampd_range(s Seq, d Int) induct d {ampd(s, d)} = d <= len(s) ==> len(s) - max(d, 0) <= ampd(s, d) && ampd(s, d) <= len(s)
lemma qbeg_range(s Seq, k Int) induct k {qbeg(s, k)} = 0 <= qbeg(s, k) && qbeg(s, k) <= len(s) + 1
lemma qbeg_mono(s Seq, j Int, k Int) induct k {qbeg(s, j), qbeg(s, k)} = 0 <= j && j < k && qbeg(s, k) <= len(s) ==> qbeg(s, j) <= amp(s, qbeg(s, j)) && amp(s, qbeg(s, j)) < qbeg(s, k)
define qlen(s, k) = amp(s, qbeg(s, k)) - qbeg(s, k)
define qseg(s, k) = sub(s, qbeg(s, k), qlen(s, k))

define hD(raw) = ite(hasPrefix(raw, "R0VU"), b64(raw), raw)
define hRaw(data, size) = hD(sq(mem(data), off(data), size))
define hQ(d) = bidx(d, "?")
define hU(d) = bidx(d, " HTTP/")
define hP(d) = bidx(d, "GET /") + 4
define hBad(d) = bidx(d, " /") == 0-1 || hU(d) < 5 || hP(d) > hU(d) || hQ(d) != 0-1 && hQ(d) < hU(d) && hQ(d) < hP(d)
define hasQ(d) = hQ(d) != 0-1 && hQ(d) < hU(d)
define qstr(d) = sub(d, hQ(d) + 1, hU(d) - hQ(d) - 1)

define qRaw(data, size) = old(hRaw(data, size))
define qD(data, size) = qstr(qRaw(data, size))
define qOff(data, size, j) = off(data) + hQ(qRaw(data, size)) + 1 + qbeg(qD(data, size), j)

// v lies in the query of the request
define inReq(data, size, v) = reg(v) == reg(data) && off(data) + hQ(qRaw(data, size)) + 1 <= off(v) && 0 <= len(v) && off(v) + len(v) <= off(data) + hU(qRaw(data, size))

func tracker/http.parse(data, size) (p, err)
  props H01 H02
  requires 0 <= size && size <= len(data)
  modifies mem(data)
  ensures malformed: err == nil ==> !hBad(qRaw(data, size))
  ensures path: err == nil ==> p.Path == ite(hasQ(qRaw(data, size)), sub(qRaw(data, size), hP(qRaw(data, size)), hQ(qRaw(data, size)) - hP(qRaw(data, size))), sub(qRaw(data, size), hP(qRaw(data, size)), hU(qRaw(data, size)) - hP(qRaw(data, size))))
  ensures method: err == nil && bidx(qRaw(data, size), "GET /") >= 0 ==> p.Method == sub(qRaw(data, size), 0, bidx(qRaw(data, size), " /"))
  inv ?i_:int ?pos_:int :: 0 <= ?pos_ && ?pos_ <= ?i_
  inv ?i_:int ?pIndex_:int :: 0 <= ?pIndex_ && ?pIndex_ <= 45
  inv ?p_:cell!tracker/http.parsed :: forall t: Int :: {sel(arrmem(?p_.Params, reg), t)} 0 <= t && t < 45 && sel(arrmem(?p_.Params, reg), t) != 0 ==> inReq(data, size, ?p_.Params[t])
  inv ?i_:int ?p_:cell!tracker/http.parsed :: keeps(mem(data), pre(mem(data)), off(data) + hQ(qRaw(data, size)) + 1, off(data) + hU(qRaw(data, size)))
  ensures window: err == nil ==> (forall t: Int :: 0 <= t && t < 45 && p.Params[t] != nil ==> inReq(data, size, p.Params[t]))
  ensures kept: keeps(mem(data), old(mem(data)), off(data), off(data) + size)

// ---- the forwarded address (app-engine build)

logic blast(Seq, Seq) Int
axiom blast_range(s Seq, t Seq) {blast(s, t)} = 0-1 <= blast(s, t) && (blast(s, t) >= 0 ==> blast(s, t) + len(t) <= len(s)) && (blast(s, t) >= 0 <==> bidx(s, t) >= 0)
logic btrim(Seq) Seq

extern bytes.Contains(s, sep) (r)
  why by definition
  ensures r <==> bidx(content(s), content(sep)) >= 0
extern bytes.LastIndex(s, sep) (r)
  why the last occurrence, by definition
  ensures r == blast(content(s), content(sep))
extern bytes.TrimSpace(s) (r)
  why the part of s without the blanks around it
  ensures content(r) == btrim(content(s))
  ensures r == nil || reg(r) == reg(s) && off(s) <= off(r) && off(r) + len(r) <= off(s) + len(s)

define xffKey() = "X-Forwarded-For: "
// the header's value starts 17 bytes after the header does (at b) and ends at the first CRLF after it (length n)
define xffAt(d) = bidx(content(d), xffKey()) + 17
define xffLen(d) = bidx(sq(mem(d), off(d) + xffAt(d), len(d) - xffAt(d)), "\r\n")
define xffComma(d) = blast(sq(mem(d), off(d) + xffAt(d), xffLen(d)), ",")
// what follows the last comma of the value (all of it when there is none)
define xffLast(d) = sq(mem(d), off(d) + xffAt(d) + xffComma(d) + 1, xffLen(d) - xffComma(d) - 1)

func tracker/http.parseForwarded(data) (forwarded, ip)
  props H06
  variants heroku
  ensures header: forwarded <==> bidx(content(data), xffKey()) >= 0
  ensures cut: forwarded && xffLen(data) < 0 ==> ip == nil
  ensures rightmost: forwarded && xffLen(data) >= 0 ==> content(ip) == btrim(xffLast(data))
  ensures within: ip == nil || reg(ip) == reg(data) && off(data) <= off(ip) && off(ip) + len(ip) <= off(data) + len(data)
