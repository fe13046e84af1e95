// tracker/udp/protocol: BEP 15 messages

define s32(s) = wrap(u32(s), int32)
define s64(s) = wrap(u64(s), int64)
define s16(s) = u16(s)

// scrape entries: seeders, completed, leechers
recdef recs_444(a Arr(Int,Int), b Arr(Int,Int), c Arr(Int,Int), o Int, n Int) Seq = ite(n <= 0, "", recs_444(a, b, c, o, n-1) ++ be32(sel(a, o+n-1)) ++ be32(sel(b, o+n-1)) ++ be32(sel(c, o+n-1)))
logic recs_b20(Arr(Int,BA), Int, Int) Seq

define announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port) = be64(cid) ++ be32(act) ++ be32(tid) ++ ba2s(ih) ++ ba2s(pid) ++ be64(down) ++ be64(left) ++ be64(up) ++ be32(ev) ++ be32(ip) ++ be32(key) ++ be32(nw) ++ be16(port)

func (*tracker/udp/protocol.Announce).Marshall(a) (b, err)
  props U08
  ensures noerr: err == nil
  ensures layout: content(b) == announceEnc(a.ConnectionID, a.Action, a.TransactionID, a.InfoHash, a.PeerID, a.Downloaded, a.Left, a.Uploaded, a.Event, a.IP, a.Key, a.NumWant, a.Port)

func (*tracker/udp/protocol.Announce).Unmarshall(a, data) (err)
  props U08 U05
  modifies *a
  ensures short: err == nil <==> len(data) >= 98
  ensures connid: err == nil ==> a.ConnectionID == s64(sub(old(content(data)), 0, 8))
  ensures action: err == nil ==> a.Action == s32(sub(old(content(data)), 8, 4))
  ensures txid: err == nil ==> a.TransactionID == s32(sub(old(content(data)), 12, 4))
  ensures infohash: err == nil ==> ba2s(a.InfoHash) == sub(old(content(data)), 16, 20)
  ensures peerid: err == nil ==> ba2s(a.PeerID) == sub(old(content(data)), 36, 20)
  ensures downloaded: err == nil ==> a.Downloaded == s64(sub(old(content(data)), 56, 8))
  ensures left: err == nil ==> a.Left == s64(sub(old(content(data)), 64, 8))
  ensures uploaded: err == nil ==> a.Uploaded == s64(sub(old(content(data)), 72, 8))
  ensures event: err == nil ==> a.Event == s32(sub(old(content(data)), 80, 4))
  ensures ip: err == nil ==> a.IP == u32(sub(old(content(data)), 84, 4))
  ensures key: err == nil ==> a.Key == u32(sub(old(content(data)), 88, 4))
  ensures numwant: err == nil ==> a.NumWant == s32(sub(old(content(data)), 92, 4))
  ensures port: err == nil ==> a.Port == u16(sub(old(content(data)), 96, 2))

func (*tracker/udp/protocol.AnnounceResp).Marshall(r) (b, err)
  props U04 U08
  ensures noerr: err == nil
  ensures layout: content(b) == be32(r.Action) ++ be32(r.TransactionID) ++ be32(r.Interval) ++ be32(r.Leechers) ++ be32(r.Seeders) ++ content(r.Peers)
  ensures fresh(b)

func (*tracker/udp/protocol.AnnounceResp).Unmarshall(r, data) (err)
  props U08
  modifies *r
  ensures short: err == nil <==> len(data) >= 20
  ensures action: err == nil ==> r.Action == s32(sub(old(content(data)), 0, 4))
  ensures txid: err == nil ==> r.TransactionID == s32(sub(old(content(data)), 4, 4))
  ensures interval: err == nil ==> r.Interval == s32(sub(old(content(data)), 8, 4))
  ensures leechers: err == nil ==> r.Leechers == s32(sub(old(content(data)), 12, 4))
  ensures seeders: err == nil ==> r.Seeders == s32(sub(old(content(data)), 16, 4))
  ensures peers: err == nil ==> content(r.Peers) == sub(old(content(data)), 20, len(data)-20)

func (*tracker/udp/protocol.Connect).Marshall(c) (b, err)
  props U08
  ensures noerr: err == nil
  ensures layout: content(b) == be64(c.ProtcolID) ++ be32(c.Action) ++ be32(c.TransactionID)

func (*tracker/udp/protocol.Connect).Unmarshall(c, data) (err)
  props U08 U05
  modifies *c
  ensures short: err == nil <==> len(data) >= 16
  ensures protocol: err == nil ==> c.ProtcolID == s64(sub(old(content(data)), 0, 8))
  ensures action: err == nil ==> c.Action == s32(sub(old(content(data)), 8, 4))
  ensures txid: err == nil ==> c.TransactionID == s32(sub(old(content(data)), 12, 4))

func (*tracker/udp/protocol.ConnectResp).Marshall(c) (b, err)
  props U04 U08
  ensures noerr: err == nil
  ensures layout: content(b) == be32(c.Action) ++ be32(c.TransactionID) ++ be64(c.ConnectionID)
  ensures fresh(b)

func (*tracker/udp/protocol.ConnectResp).Unmarshall(c, data) (err)
  props U08
  modifies *c
  ensures short: err == nil <==> len(data) >= 16
  ensures action: err == nil ==> c.Action == s32(sub(old(content(data)), 0, 4))
  ensures txid: err == nil ==> c.TransactionID == s32(sub(old(content(data)), 4, 4))
  ensures connid: err == nil ==> c.ConnectionID == s64(sub(old(content(data)), 8, 8))

func (*tracker/udp/protocol.Error).Marshall(e) (b, err)
  props U04 U08
  ensures noerr: err == nil
  ensures layout: content(b) == be32(e.Action) ++ be32(e.TransactionID) ++ content(e.ErrorString)
  ensures fresh(b)

func (*tracker/udp/protocol.Error).Unmarshall(e, data) (err)
  props U08
  modifies *e
  ensures short: err == nil <==> len(data) >= 8
  ensures action: err == nil ==> e.Action == s32(sub(old(content(data)), 0, 4))
  ensures txid: err == nil ==> e.TransactionID == s32(sub(old(content(data)), 4, 4))
  ensures text: err == nil ==> content(e.ErrorString) == sub(old(content(data)), 8, len(data)-8)

func (*tracker/udp/protocol.Scrape).Unmarshall(s, data) (err)
  props U08 U05 U07
  modifies *s
  ensures short: err == nil <==> len(data) >= 16
  ensures connid: err == nil ==> s.ConnectionID == s64(sub(old(content(data)), 0, 8))
  ensures action: err == nil ==> s.Action == s32(sub(old(content(data)), 8, 4))
  ensures txid: err == nil ==> s.TransactionID == s32(sub(old(content(data)), 12, 4))
  ensures count: err == nil ==> len(s.InfoHashes) == (len(data) - 16) / 20
  ensures hashes: err == nil ==> forall i: Int :: 0 <= i < len(s.InfoHashes) ==> ba2s(s.InfoHashes[i]) == sub(old(content(data)), 16 + 20*i, 20)
  ensures err == nil ==> fresh(s.InfoHashes)

func (*tracker/udp/protocol.ScrapeResp).Marshall(r) (b, err)
  props U04 U07 U08
  ensures noerr: err == nil
  ensures layout: content(b) == be32(r.Action) ++ be32(r.TransactionID) ++ recs_444(arrmem(r.Info, Complete), arrmem(r.Info, Downloaded), arrmem(r.Info, Incomplete), off(r.Info), len(r.Info))
  ensures fresh(b)

theorem announce_decode_encode(cid int64, act int32, tid int32, ih BA, pid BA, down int64, left int64, up int64, ev int32, ip uint32, key uint32, nw int32, port uint16)
  props U08
  requires len(ba2s(ih)) == 20 && len(ba2s(pid)) == 20
  ensures size: len(announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port)) == 98
  ensures connid: s64(sub(announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port), 0, 8)) == cid
  ensures action: s32(sub(announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port), 8, 4)) == act
  ensures txid: s32(sub(announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port), 12, 4)) == tid
  ensures infohash: sub(announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port), 16, 20) == ba2s(ih)
  ensures peerid: sub(announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port), 36, 20) == ba2s(pid)
  ensures downloaded: s64(sub(announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port), 56, 8)) == down
  ensures left: s64(sub(announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port), 64, 8)) == left
  ensures uploaded: s64(sub(announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port), 72, 8)) == up
  ensures event: s32(sub(announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port), 80, 4)) == ev
  ensures ip: u32(sub(announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port), 84, 4)) == ip
  ensures key: u32(sub(announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port), 88, 4)) == key
  ensures numwant: s32(sub(announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port), 92, 4)) == nw
  ensures port: u16(sub(announceEnc(cid, act, tid, ih, pid, down, left, up, ev, ip, key, nw, port), 96, 2)) == port

theorem connect_decode_encode(pid int64, act int32, tid int32)
  props U08
  ensures protocol: s64(sub(be64(pid) ++ be32(act) ++ be32(tid), 0, 8)) == pid
  ensures action: s32(sub(be64(pid) ++ be32(act) ++ be32(tid), 8, 4)) == act
  ensures txid: s32(sub(be64(pid) ++ be32(act) ++ be32(tid), 12, 4)) == tid

theorem connectresp_decode_encode(act int32, tid int32, cid int64)
  props U08
  ensures action: s32(sub(be32(act) ++ be32(tid) ++ be64(cid), 0, 4)) == act
  ensures txid: s32(sub(be32(act) ++ be32(tid) ++ be64(cid), 4, 4)) == tid
  ensures connid: s64(sub(be32(act) ++ be32(tid) ++ be64(cid), 8, 8)) == cid

theorem announceresp_decode_encode(act int32, tid int32, iv int32, le int32, se int32, peers Seq)
  props U08
  ensures action: s32(sub(be32(act) ++ be32(tid) ++ be32(iv) ++ be32(le) ++ be32(se) ++ peers, 0, 4)) == act
  ensures txid: s32(sub(be32(act) ++ be32(tid) ++ be32(iv) ++ be32(le) ++ be32(se) ++ peers, 4, 4)) == tid
  ensures interval: s32(sub(be32(act) ++ be32(tid) ++ be32(iv) ++ be32(le) ++ be32(se) ++ peers, 8, 4)) == iv
  ensures leechers: s32(sub(be32(act) ++ be32(tid) ++ be32(iv) ++ be32(le) ++ be32(se) ++ peers, 12, 4)) == le
  ensures seeders: s32(sub(be32(act) ++ be32(tid) ++ be32(iv) ++ be32(le) ++ be32(se) ++ peers, 16, 4)) == se
  ensures peers: sub(be32(act) ++ be32(tid) ++ be32(iv) ++ be32(le) ++ be32(se) ++ peers, 20, len(be32(act) ++ be32(tid) ++ be32(iv) ++ be32(le) ++ be32(se) ++ peers) - 20) == peers

theorem error_decode_encode(act int32, tid int32, text Seq)
  props U08
  ensures action: s32(sub(be32(act) ++ be32(tid) ++ text, 0, 4)) == act
  ensures txid: s32(sub(be32(act) ++ be32(tid) ++ text, 4, 4)) == tid
  ensures text: sub(be32(act) ++ be32(tid) ++ text, 8, len(be32(act) ++ be32(tid) ++ text) - 8) == text
