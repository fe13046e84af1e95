// files: what every path holds, what it ever held, and what is already durable
ghost fsdata Arr(Seq,Seq)
// every content a path has shown at any instant, a crash at that instant included
ghost fsever Arr(Seq,Arr(Seq,Bool))
ghost fssync Arr(Seq,Bool)
logic fname(Int) Seq
logic fbase(Seq) Seq
logic fdir(Seq) Seq

define fsOnly(p) = (forall q: Seq :: q != p ==> sel(fsdata, q) == sel(old(fsdata), q)) && (forall q: Seq :: q != p ==> sel(fsever, q) == sel(old(fsever), q)) && (forall q: Seq :: q != p ==> sel(fssync, q) == sel(old(fssync), q))
// the path held nothing but its old contents or s, and is durable
define atomicTo(p, s) = forall c: Seq :: {sel(sel(fsever, p), c)} sel(sel(fsever, p), c) ==> sel(sel(old(fsever), p), c) || c == s

extern path/filepath.Base(p) (r)
  why purely a function of the path
  ensures r == fbase(p)
extern path/filepath.Dir(p) (r)
  why purely a function of the path
  ensures r == fdir(p)
extern os.CreateTemp(dir, pattern) (f, err)
  why creates a new empty file whose base name is the pattern with a non-empty random string put in; nothing existing is touched
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures err == nil <==> f != nil
  ensures err != nil ==> fsdata == old(fsdata) && fsever == old(fsever) && fssync == old(fssync)
  ensures err == nil ==> len(fbase(fname(ref(f)))) >= len(pattern) && sel(fsdata, fname(ref(f))) == "" && fsOnly(fname(ref(f)))
extern os.Create(name) (f, err)
  why truncates the named file
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures err == nil <==> f != nil
  ensures fsOnly(name)
  ensures err == nil ==> fname(ref(f)) == name && sel(fsdata, name) == ""
  ensures sel(sel(fsever, name), "")
extern os.OpenFile(name, flag, perm) (f, err)
  why may create or truncate the named file
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures err == nil <==> f != nil
  ensures fsOnly(name)
  ensures err == nil ==> fname(ref(f)) == name
extern (*os.File).Name(f) (r)
  why the name the file was opened with
  requires f != nil
  ensures r == fname(ref(f))
extern (*os.File).Write(f, b) (n, err)
  why appends; a failed write may leave any part behind, and nothing is durable before a Sync
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures fsOnly(fname(ref(f))) && !sel(fssync, fname(ref(f)))
  ensures err == nil ==> sel(fsdata, fname(ref(f))) == sel(old(fsdata), fname(ref(f))) ++ content(b)
extern (*os.File).WriteString(f, s) (n, err)
  why as Write
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures fsOnly(fname(ref(f))) && !sel(fssync, fname(ref(f)))
  ensures err == nil ==> sel(fsdata, fname(ref(f))) == sel(old(fsdata), fname(ref(f))) ++ s
extern (*os.File).Chmod(f, mode) (err)
  why changes no contents
extern (*os.File).Sync(f) (err)
  why makes the contents durable when it succeeds
  modifies ghost fssync
  ensures forall q: Seq :: q != fname(ref(f)) ==> sel(fssync, q) == sel(old(fssync), q)
  ensures err == nil ==> sel(fssync, fname(ref(f)))
extern (*os.File).Close(f) (err)
  why changes no contents
  requires f != nil
extern os.Rename(from, to) (err)
  why rename is atomic; a file that was not synced may show any contents under its new name after a crash
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures forall q: Seq :: q != from && q != to ==> sel(fsdata, q) == sel(old(fsdata), q)
  ensures forall q: Seq :: q != from && q != to ==> sel(fsever, q) == sel(old(fsever), q)
  ensures err != nil ==> fsdata == old(fsdata) && fsever == old(fsever)
  ensures err == nil ==> sel(fsdata, to) == sel(old(fsdata), from)
  ensures err == nil && sel(old(fssync), from) ==> sel(fsever, to) == upd(sel(old(fsever), to), sel(old(fsdata), from), true)
extern os.Remove(p) (err)
  why removes that path
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures fsOnly(p)
extern os.WriteFile(name, data, perm) (err)
  why truncates and writes in place: at some instant the file is empty, and nothing is durable
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures fsOnly(name)
  ensures err == nil ==> sel(fsdata, name) == content(data)
extern os.Truncate(name, size) (err)
  why cuts the file in place
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures fsOnly(name)
  ensures err != nil ==> fsdata == old(fsdata)
  ensures err == nil && size == 0 ==> sel(fsdata, name) == ""
// an error of the file system
logic ioerr(Int) Bool
extern os.ReadFile(name) (data, err)
  why returns the whole contents or an error
  ensures err == nil ==> content(data) == sel(fsdata, name)
  ensures err != nil ==> ioerr(err)
  ensures fresh(data)

func tracker/utils.WriteFileAtomic(path, data, perm) (err)
  props S09
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures atomic: atomicTo(path, old(content(data)))
  ensures saved: err == nil ==> sel(fsdata, path) == old(content(data))
  ensures kept: err != nil ==> sel(fsdata, path) == sel(old(fsdata), path)

// ---- the UDP connection table on disk
logic gobOk(Seq) Bool
logic gobDom(Seq) Arr(AddrPort,Bool)
logic gobVal_ID(Seq) Arr(AddrPort,Int)
logic gobVal_TimeStamp(Seq) Arr(AddrPort,Int)
define gobOf(db, s) = gobOk(s) && gobDom(s) == dom(db.connectionMap) && gobVal_ID(s) == vals(db.connectionMap, ID) && gobVal_TimeStamp(s) == vals(db.connectionMap, TimeStamp)

func (*tracker/udp.connectionDatabase).gobEncode(db) (b, err)
  props U03
  requires db.connectionMap != nil
  ensures noerr: err == nil
  ensures same: gobOf(db, content(b))

func (*tracker/udp.connectionDatabase).gobDecode(db, data) (err)
  props U03
  requires config.Config != nil && config.Config.UDP.ConnDB.Size >= 0
  modifies db.connectionMap
  ensures usable: db.connectionMap != nil
  ensures error: err == nil <==> gobOk(old(content(data)))
  ensures same: err == nil ==> gobOf(db, old(content(data)))

func (*tracker/udp.connectionDatabase).writeToFile(connDb, path) (err)
  props S09 U03
  requires connDb.connectionMap != nil
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures kept: err != nil ==> sel(fsdata, path) == sel(old(fsdata), path)
  ensures saved: err == nil ==> gobOf(connDb, sel(fsdata, path))
  ensures atomic: forall c: Seq :: sel(sel(fsever, path), c) ==> sel(sel(old(fsever), path), c) || gobOf(connDb, c)

func (*tracker/udp.connectionDatabase).loadFromFile(db, path) (err)
  props U03
  requires config.Config != nil && config.Config.UDP.ConnDB.Size >= 0
  modifies db.connectionMap
  ensures loaded: err == nil ==> gobOf(db, sel(fsdata, path)) && db.connectionMap != nil

func (*tracker/udp.UDPTracker).Init(u, peerdb)
  props U03
  requires config.Config != nil && config.Config.UDP.ConnDB.Size >= 0 && 0 <= config.Config.UDP.ConnDB.Expiry
  modifies u.conndb, u.peerdb, u.shutdown
  ensures usable: u.conndb != nil && u.conndb.connectionMap != nil && u.shutdown != nil && u.peerdb == peerdb
  ensures loaded: gobOf(u.conndb, sel(fsdata, config.CachePath ++ "conn.db")) || (forall k: AddrPort :: !has(u.conndb.connectionMap, k))
  ensures expiry: u.conndb.expiry == config.Config.UDP.ConnDB.Expiry / 1000000000

func (*tracker/udp.UDPTracker).Connections(u) (n)
  props U03
  requires u != nil && u.conndb != nil ==> u.conndb.connectionMap != nil
  ensures count: u != nil && u.conndb != nil ==> n == len(u.conndb.connectionMap)
  ensures none: u == nil || u.conndb == nil ==> n == 0 - 1

func (*tracker/udp.UDPTracker).WriteConns(u) (err)
  props S09 C02 U03
  requires u != nil && u.conndb != nil ==> u.conndb.connectionMap != nil
  modifies ghost fsdata, ghost fsever, ghost fssync
  ensures none: u == nil || u.conndb == nil ==> err == nil && fsdata == old(fsdata)
  ensures kept: err != nil ==> sel(fsdata, config.CachePath ++ "conn.db") == sel(old(fsdata), config.CachePath ++ "conn.db")
  ensures saved: u != nil && u.conndb != nil && err == nil ==> gobOf(u.conndb, sel(fsdata, config.CachePath ++ "conn.db"))
  ensures atomic: forall c: Seq :: sel(sel(fsever, config.CachePath ++ "conn.db"), c) ==> sel(sel(old(fsever), config.CachePath ++ "conn.db"), c) || gobOf(u.conndb, c)
