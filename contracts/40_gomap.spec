// tracker/storage/map: the peer database
ghost peerOwner Arr(Int,Int)
ghost peerKey Arr(Int,BA)
maphook map[tracker/storage.PeerID]*tracker/storage.Peer peerOwner map
maphook map[tracker/storage.PeerID]*tracker/storage.Peer peerKey key
// the order in which a swarm's peers were last visited
ghost peerord Arr(Int,Arr(Int,BA))
maphook map[tracker/storage.PeerID]*tracker/storage.Peer peerord order

// compset(d,v,c): the keys of d whose value is marked in c
logic compset(Arr(BA,Bool),Arr(BA,Int),Arr(Int,Bool)) Arr(BA,Bool)
axiom compset_def(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Bool), k BA) {sel(compset(d, v, c), k)} = sel(compset(d, v, c), k) <==> sel(d, k) && sel(c, sel(v, k))
define ncomp(d, v, c) = card(compset(d, v, c))
lemma comp_dom(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Bool), k BA, b Bool) {compset(upd(d, k, b), v, c)} = compset(upd(d, k, b), v, c) == upd(compset(d, v, c), k, b && sel(c, sel(v, k)))
lemma comp_val(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Bool), k BA, p Int) {compset(d, upd(v, k, p), c)} = compset(d, upd(v, k, p), c) == upd(compset(d, v, c), k, sel(d, k) && sel(c, p))
lemma comp_out(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Bool), p Int, b Bool) {compset(d, v, upd(c, p, b))} = (forall k: BA :: sel(d, k) ==> sel(v, k) != p) ==> compset(d, v, upd(c, p, b)) == compset(d, v, c)
lemma comp_in(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Bool), p Int, b Bool, k BA) {compset(d, v, upd(c, p, b)), sel(v, k)} = sel(d, k) && sel(v, k) == p && (forall j: BA :: sel(d, j) && j != k ==> sel(v, j) != p) ==> compset(d, v, upd(c, p, b)) == upd(compset(d, v, c), k, b)
lemma ncomp_dom(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Bool), k BA, b Bool) {compset(upd(d, k, b), v, c)} = card(upd(compset(d, v, c), k, b && sel(c, sel(v, k)))) >= 0 && ncomp(upd(d, k, b), v, c) == ncomp(d, v, c) - ite(sel(d, k) && sel(c, sel(v, k)), 1, 0) + ite(b && sel(c, sel(v, k)), 1, 0)
lemma ncomp_val(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Bool), k BA, p Int) {compset(d, upd(v, k, p), c)} = card(upd(compset(d, v, c), k, sel(d, k) && sel(c, p))) >= 0 && ncomp(d, upd(v, k, p), c) == ncomp(d, v, c) - ite(sel(d, k) && sel(c, sel(v, k)), 1, 0) + ite(sel(d, k) && sel(c, p), 1, 0)
lemma ncomp_in(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Bool), p Int, b Bool, k BA) {compset(d, v, upd(c, p, b)), sel(v, k)} = sel(d, k) && sel(v, k) == p && (forall j: BA :: sel(d, j) && j != k ==> sel(v, j) != p) ==> card(upd(compset(d, v, c), k, b)) >= 0 && ncomp(d, v, upd(c, p, b)) == ncomp(d, v, c) - ite(sel(c, p), 1, 0) + ite(b, 1, 0)

lemma ncomp_none(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Bool)) {compset(d, v, c)} = (forall k: BA :: {sel(d, k)} !sel(d, k)) ==> ncomp(d, v, c) == 0
define validIP(a) = a_is4(a) || a_is6(a)
define peerOK(pm, k) = pm.Peers[k] != nil && sel(peerOwner, ref(pm.Peers[k])) == ref(pm.Peers) && sel(peerKey, ref(pm.Peers[k])) == k && validIP(pm.Peers[k].IP)
define swarmOK(pm) = pm != nil && pm.Peers != nil && (forall k: BA :: {has(pm.Peers, k)} has(pm.Peers, k) ==> peerOK(pm, k)) && pm.Complete == ncomp(dom(pm.Peers), vals(pm.Peers), arr(tracker/storage.Peer, Complete)) && pm.Complete + pm.Incomplete == len(pm.Peers)
define peerIs(p, ip, port, complete) = p.Complete == complete && p.IP == ip && p.Port == port

// ---- statistics
define icnt(s, a) = ite(has(s.submap, a), s.submap[a], 0)
define ipcnt(a) = icnt(stats.IPStats, a)
define statsReady() = stats.IPStats.submap != nil
define ipPos(s) = forall a: Addr :: {has(s.submap, a)} has(s.submap, a) ==> s.submap[a] > 0
// n references to address a more than before, other addresses as before
define icntOne(s, b, n) = forall a: Addr :: {has(s.submap, a)} icnt(s, a) == ite(a == b, wrap(old(icnt(s, a)) + n, int), old(icnt(s, a)))

func (*tracker/stats.ipStats).Inc(ipstats, ip)
  props S05
  requires ipstats.submap != nil
  modifies map(ipstats.submap)
  ensures counted: icntOne(ipstats, ip, 1)
  ensures positive: old(ipPos(ipstats)) && old(icnt(ipstats, ip)) < 9223372036854775807 ==> ipPos(ipstats)

func (*tracker/stats.ipStats).Remove(ipstats, ip)
  props S05
  requires ipstats.submap != nil
  modifies map(ipstats.submap)
  ensures counted: icntOne(ipstats, ip, 0 - 1)
  ensures positive: old(ipPos(ipstats)) && old(icnt(ipstats, ip)) >= 1 ==> ipPos(ipstats)

func (*tracker/stats.ipStats).Total(ipstats) (r)
  props S05
  requires ipstats.submap != nil
  ensures total: r == len(ipstats.submap)

func tracker/stats.init#1()
  props S05
  modifies stats.IPStats.submap
  ensures ready: statsReady() && (forall a: Addr :: ipcnt(a) == 0)

// ---- one peer
define curPeer(pm, k) = ite(has(pm.Peers, k), pm.Peers[k], nil)
define one(b) = ite(b, 1, 0)
define sameEntry(pm, k) = (has(pm.Peers, k) <==> old(has(pm.Peers, k))) && (has(pm.Peers, k) ==> pm.Peers[k] == old(pm.Peers[k]) && pm.Peers[k].Complete == old(pm.Peers[k].Complete) && pm.Peers[k].IP == old(pm.Peers[k].IP) && pm.Peers[k].Port == old(pm.Peers[k].Port) && pm.Peers[k].LastSeen == old(pm.Peers[k].LastSeen))
define othersSame(pm, id) = forall k: BA :: {has(pm.Peers, k)} k != id ==> sameEntry(pm, k)
define seedDelta(n) = stats.Seeds == wrap(old(stats.Seeds) + n, int64)
define leechDelta(n) = stats.Leeches == wrap(old(stats.Leeches) + n, int64)

func (*tracker/storage/map.Memory).savePeer(db, pm, ip, port, complete, id)
  props S01 S02 S05 S10
  requires poolsReady() && statsReady() && swarmOK(pm) && validIP(ip)
  modifies pm.Complete, pm.Incomplete, map(pm.Peers), curPeer(pm, id).Complete, curPeer(pm, id).IP, curPeer(pm, id).Port, curPeer(pm, id).LastSeen, map(stats.IPStats.submap), stats.Seeds, stats.Leeches, ghost now, ghost peerOwner, ghost peerKey
  ensures stored: has(pm.Peers, id) && peerIs(pm.Peers[id], ip, port, complete)
  ensures stamped: old(now) <= pm.Peers[id].LastSeen && pm.Peers[id].LastSeen <= now
  ensures others: othersSame(pm, id)
  ensures swarm: swarmOK(pm)
  ensures seeds: seedDelta(one(complete) - old(one(has(pm.Peers, id) && pm.Peers[id].Complete)))
  ensures leeches: leechDelta(one(!complete) - old(one(has(pm.Peers, id) && !pm.Peers[id].Complete)))
  ensures ips: forall a: Addr :: ipcnt(a) == wrap(old(ipcnt(a)) + one(a == ip) - old(one(has(pm.Peers, id) && pm.Peers[id].IP == a)), int)
  ensures complete: pm.Complete == old(pm.Complete) + one(complete) - old(one(has(pm.Peers, id) && pm.Peers[id].Complete))
  ensures incomplete: pm.Incomplete == old(pm.Incomplete) + one(!complete) - old(one(has(pm.Peers, id) && !pm.Peers[id].Complete))
  ensures record: ite(old(has(pm.Peers, id)), pm.Peers[id] == old(pm.Peers[id]), fresh(pm.Peers[id]))
  ensures owner: forall p: Int :: {sel(peerOwner, p)} p != ref(pm.Peers[id]) ==> sel(peerOwner, p) == sel(old(peerOwner), p) && sel(peerKey, p) == sel(old(peerKey), p)

func (*tracker/storage/map.Memory).delete(db, peer, pm, id)
  props S02 S04 S05 S10
  opt helper
  requires statsReady() && poolsReady() && swarmOK(pm) && has(pm.Peers, id) && peer == pm.Peers[id]
  modifies pm.Complete, pm.Incomplete, map(pm.Peers), map(stats.IPStats.submap), stats.Seeds, stats.Leeches, ghost peerOwner, ghost rel_peer
  ensures removed: dom(pm.Peers) == upd(old(dom(pm.Peers)), id, false) && vals(pm.Peers) == old(vals(pm.Peers))
  ensures swarm: swarmOK(pm)
  ensures seeds: seedDelta(0 - one(old(peer.Complete)))
  ensures leeches: leechDelta(0 - one(old(!peer.Complete)))
  ensures ips: forall a: Addr :: ipcnt(a) == wrap(old(ipcnt(a)) - one(old(peer.IP) == a), int)
  ensures complete: pm.Complete == old(pm.Complete) - one(old(peer.Complete))
  ensures incomplete: pm.Incomplete == old(pm.Incomplete) - one(!old(peer.Complete))
  ensures released: rel_peer == upd(old(rel_peer), ref(peer), true)
  ensures owner: peerOwner == upd(old(peerOwner), ref(peer), 0)

// ---- the whole database
// total(d,v,c): the sum of c over the values of the finite map (d,v)
logic total(Arr(BA,Bool), Arr(BA,Int), Arr(Int,Int)) Int
axiom total_empty(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Int)) {total(d, v, c)} = (forall k: BA :: !sel(d, k)) ==> total(d, v, c) == 0
axiom total_dom(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Int), k BA, b Bool) {total(upd(d, k, b), v, c)} = total(upd(d, k, b), v, c) == total(d, v, c) - ite(sel(d, k), sel(c, sel(v, k)), 0) + ite(b, sel(c, sel(v, k)), 0)
axiom total_val(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Int), k BA, p Int) {total(d, upd(v, k, p), c)} = total(d, upd(v, k, p), c) == total(d, v, c) - ite(sel(d, k), sel(c, sel(v, k)), 0) + ite(sel(d, k), sel(c, p), 0)
axiom total_out(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Int), p Int, x Int) {total(d, v, upd(c, p, x))} = (forall k: BA :: sel(d, k) ==> sel(v, k) != p) ==> total(d, v, upd(c, p, x)) == total(d, v, c)
axiom total_in(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Int), p Int, x Int, k BA) {total(d, v, upd(c, p, x)), sel(v, k)} = sel(d, k) && sel(v, k) == p && (forall j: BA :: sel(d, j) && j != k ==> sel(v, j) != p) ==> total(d, v, upd(c, p, x)) == total(d, v, c) - sel(c, p) + x
define allSeeds(db) = total(dom(db.hashmap), vals(db.hashmap), arr(tracker/storage/map.PeerMap, Complete))
define allLeeches(db) = total(dom(db.hashmap), vals(db.hashmap), arr(tracker/storage/map.PeerMap, Incomplete))
// statistics changed by what the stored peers changed
define seedsTrack(db) = stats.Seeds == wrap(old(stats.Seeds) + allSeeds(db) - old(allSeeds(db)), int64)
define leechesTrack(db) = stats.Leeches == wrap(old(stats.Leeches) + allLeeches(db) - old(allLeeches(db)), int64)

define swarm(db, h) = db.hashmap[h]
define curSwarm(db, h) = ite(has(db.hashmap, h), db.hashmap[h], nil)
define dbPeer(db, h, k) = ite(inDB(db, h, k), swarm(db, h).Peers[k], nil)
define memOK(db) = db.hashmap != nil && (forall h: BA :: {has(db.hashmap, h)} has(db.hashmap, h) ==> swarmOK(swarm(db, h))) && (forall h: BA, g: BA :: {has(db.hashmap, h), has(db.hashmap, g)} has(db.hashmap, h) && has(db.hashmap, g) && h != g ==> swarm(db, h).Peers != swarm(db, g).Peers)
define inDB(db, h, k) = has(db.hashmap, h) && has(swarm(db, h).Peers, k)
define sameSwarm(db, h) = (has(db.hashmap, h) <==> old(has(db.hashmap, h))) && (has(db.hashmap, h) ==> swarm(db, h) == old(swarm(db, h)) && swarm(db, h).Peers == old(swarm(db, h).Peers) && swarm(db, h).Complete == old(swarm(db, h).Complete) && swarm(db, h).Incomplete == old(swarm(db, h).Incomplete) && (forall k: BA :: {has(swarm(db, h).Peers, k)} sameEntry(swarm(db, h), k)))

func (*tracker/storage/map.Memory).make(db)
  props S06
  modifies db.hashmap
  ensures fresh(db.hashmap) && db.hashmap != nil
  ensures empty: forall h: BA :: !has(db.hashmap, h)

func (*tracker/storage/map.Memory).makePeermap(db, h) (r)
  props S01 S02 S06
  requires db.hashmap != nil
  modifies map(db.hashmap)
  ensures added: dom(db.hashmap) == upd(old(dom(db.hashmap)), h, true) && vals(db.hashmap) == upd(old(vals(db.hashmap)), h, ref(r))
  ensures fresh(r) && fresh(r.Peers)
  ensures empty: r != nil && r.Peers != nil && r.Complete == 0 && r.Incomplete == 0 && (forall k: BA :: !has(r.Peers, k))

func (*tracker/storage/map.Memory).Save(db, ip, port, complete, hash, id)
  props S01 S02 S05 S10
  requires poolsReady() && statsReady() && memOK(db) && validIP(ip)
  modifies map(db.hashmap), curSwarm(db, hash).Complete, curSwarm(db, hash).Incomplete, map(curSwarm(db, hash).Peers), dbPeer(db, hash, id).Complete, dbPeer(db, hash, id).IP, dbPeer(db, hash, id).Port, dbPeer(db, hash, id).LastSeen, map(stats.IPStats.submap), stats.Seeds, stats.Leeches, ghost now, ghost peerOwner, ghost peerKey
  ensures stored: inDB(db, hash, id) && peerIs(swarm(db, hash).Peers[id], ip, port, complete)
  ensures stamped: old(now) <= swarm(db, hash).Peers[id].LastSeen && swarm(db, hash).Peers[id].LastSeen <= now
  ensures otherpeers: old(has(db.hashmap, hash)) ==> othersSame(swarm(db, hash), id)
  ensures newswarm: !old(has(db.hashmap, hash)) ==> forall k: BA :: k != id ==> !has(swarm(db, hash).Peers, k)
  ensures otherswarms: forall h: BA :: {has(db.hashmap, h)} h != hash ==> sameSwarm(db, h)
  ensures thisswarm: has(db.hashmap, hash) ==> swarmOK(swarm(db, hash))
  ensures consistent: memOK(db)
  ensures seeds: seedsTrack(db)
  ensures leeches: leechesTrack(db)
  ensures ips: forall a: Addr :: ipcnt(a) == wrap(old(ipcnt(a)) + one(a == ip) - old(one(inDB(db, hash, id) && swarm(db, hash).Peers[id].IP == a)), int)

func (*tracker/storage/map.Memory).Drop(db, hash, id)
  props S01 S02 S05 S10
  requires poolsReady() && statsReady() && memOK(db)
  modifies curSwarm(db, hash).Complete, curSwarm(db, hash).Incomplete, map(curSwarm(db, hash).Peers), map(stats.IPStats.submap), stats.Seeds, stats.Leeches, ghost peerOwner, ghost rel_peer
  ensures removed: !inDB(db, hash, id)
  ensures unknown: !old(inDB(db, hash, id)) ==> sameSwarm(db, hash)
  ensures otherpeers: has(db.hashmap, hash) ==> othersSame(swarm(db, hash), id)
  ensures kept: has(db.hashmap, hash) <==> old(has(db.hashmap, hash))
  ensures otherswarms: forall h: BA :: {has(db.hashmap, h)} h != hash ==> sameSwarm(db, h)
  ensures thisswarm: has(db.hashmap, hash) ==> swarmOK(swarm(db, hash))
  ensures consistent: memOK(db)
  ensures seeds: seedsTrack(db)
  ensures leeches: leechesTrack(db)
  ensures ips: forall a: Addr :: ipcnt(a) == wrap(old(ipcnt(a)) - old(one(inDB(db, hash, id) && swarm(db, hash).Peers[id].IP == a)), int)

func (*tracker/storage/map.Memory).HashStats(db, hash) (complete, incomplete)
  props S02
  requires memOK(db)
  ensures counts: has(db.hashmap, hash) ==> complete == ncomp(dom(swarm(db, hash).Peers), vals(swarm(db, hash).Peers), arr(tracker/storage.Peer, Complete)) && incomplete == len(swarm(db, hash).Peers) - complete
  ensures unknown: !has(db.hashmap, hash) ==> complete == 0 && incomplete == 0

func (*tracker/storage/map.Memory).Hashes(db) (n)
  props S02
  requires db.hashmap != nil
  ensures n == len(db.hashmap)

func (*tracker/storage/map.Memory).Check(db) (ok)
  props S05
  ensures ok <==> db.hashmap != nil

// ---- expiry
define expirySecs() = config.Config.DB.Expiry / 1000000000
define age(db, h, k, t) = t - swarm(db, h).Peers[k].LastSeen
define sameFields(db, h, k) = swarm(db, h).Peers[k] == old(swarm(db, h).Peers[k]) && swarm(db, h).Peers[k].Complete == old(swarm(db, h).Peers[k].Complete) && swarm(db, h).Peers[k].IP == old(swarm(db, h).Peers[k].IP) && swarm(db, h).Peers[k].Port == old(swarm(db, h).Peers[k].Port) && swarm(db, h).Peers[k].LastSeen == old(swarm(db, h).Peers[k].LastSeen)
define stored(db) = allSeeds(db) + allLeeches(db)

define memNonNil(db) = forall h: BA :: {has(db.hashmap, h)} has(db.hashmap, h) ==> swarm(db, h) != nil && swarm(db, h).Peers != nil
define memPeers(db) = forall h: BA, k: BA :: {has(db.hashmap, h), has(swarm(db, h).Peers, k)} inDB(db, h, k) ==> peerOK(swarm(db, h), k)
define pmCount(pm) = ncomp(dom(pm.Peers), vals(pm.Peers), arr(tracker/storage.Peer, Complete))
define memComplete(db) = forall h: BA :: {has(db.hashmap, h)} has(db.hashmap, h) ==> swarm(db, h).Complete == pmCount(swarm(db, h))
define memIncomplete(db) = forall h: BA :: {has(db.hashmap, h)} has(db.hashmap, h) ==> swarm(db, h).Complete + swarm(db, h).Incomplete == len(swarm(db, h).Peers)
define memDistinct(db) = forall h: BA, g: BA :: {has(db.hashmap, h), has(db.hashmap, g)} has(db.hashmap, h) && has(db.hashmap, g) && h != g ==> swarm(db, h).Peers != swarm(db, g).Peers

// last-seen times come from the clock or from a backup written with it
define memStamped(db) = forall h: BA, k: BA :: {has(db.hashmap, h), has(swarm(db, h).Peers, k)} inDB(db, h, k) ==> 0 <= swarm(db, h).Peers[k].LastSeen

func (*tracker/storage/map.Memory).trim(db) (peers, hashes)
  props S02 S04 S05 S10
  requires poolsReady() && statsReady() && memOK(db) && memStamped(db) && config.Config != nil && 0 <= config.Config.DB.Expiry
  modifies map(db.hashmap), allmap map[tracker/storage.PeerID]*tracker/storage.Peer, all tracker/storage/map.PeerMap.Complete, all tracker/storage/map.PeerMap.Incomplete, map(stats.IPStats.submap), stats.Seeds, stats.Leeches, ghost now, ghost peerOwner, ghost rel_peer
  inv db.hashmap != nil
  inv memNonNil(db)
  inv ?i:iter!map[tracker/storage.PeerID]*tracker/storage.Peer ?p:*tracker/storage/map.PeerMap :: itmap(?i) == ref(?p.Peers) ==> forall r: Int :: {sel(peerOwner, r)} sel(peerOwner, r) == pre(sel(peerOwner, r)) || pre(sel(peerOwner, r)) == ref(?p.Peers)
  inv memPeers(db)
  inv memComplete(db)
  inv memIncomplete(db)
  inv memDistinct(db)
  inv ?i:iter!map[tracker/storage.PeerID]*tracker/storage.Peer ?p:*tracker/storage/map.PeerMap :: swarmOK(?p)
  inv forall h: BA :: {has(db.hashmap, h)} has(db.hashmap, h) ==> old(has(db.hashmap, h)) && swarm(db, h) == old(swarm(db, h)) && swarm(db, h).Peers == old(swarm(db, h).Peers)
  inv forall h: BA, k: BA :: {has(db.hashmap, h), has(swarm(db, h).Peers, k)} inDB(db, h, k) ==> old(inDB(db, h, k)) && sameFields(db, h, k)
  inv forall h: BA, k: BA :: {has(old(swarm(db, h)).Peers, k)} old(inDB(db, h, k)) && !inDB(db, h, k) ==> now - old(swarm(db, h).Peers[k].LastSeen) > expirySecs()
  inv ?i:iter!map[tracker/storage.PeerID]*tracker/storage.Peer ?p:*tracker/storage/map.PeerMap :: itmap(?i) == ref(?p.Peers) ==> allSeeds(db) == pre(allSeeds(db)) - pre(?p.Complete) + ?p.Complete
  inv ?i:iter!map[tracker/storage.PeerID]*tracker/storage.Peer ?p:*tracker/storage/map.PeerMap :: itmap(?i) == ref(?p.Peers) ==> stats.Seeds == wrap(pre(stats.Seeds) - pre(?p.Complete) + ?p.Complete, int64)
  inv ?i:iter!map[tracker/storage.PeerID]*tracker/storage.Peer ?p:*tracker/storage/map.PeerMap :: itmap(?i) == ref(?p.Peers) ==> allLeeches(db) == pre(allLeeches(db)) - pre(?p.Incomplete) + ?p.Incomplete
  inv ?i:iter!map[tracker/storage.PeerID]*tracker/storage.Peer ?p:*tracker/storage/map.PeerMap :: itmap(?i) == ref(?p.Peers) ==> stats.Leeches == wrap(pre(stats.Leeches) - pre(?p.Incomplete) + ?p.Incomplete, int64)
  inv ?e:iter!map[tracker/storage.Hash]*tracker/storage/map.PeerMap :: seedsTrack(db)
  inv ?e:iter!map[tracker/storage.Hash]*tracker/storage/map.PeerMap :: leechesTrack(db)
  inv ?n:int :: ?n == wrap(old(stats.Seeds) - stats.Seeds + old(stats.Leeches) - stats.Leeches, int)
  inv ?e:iter!map[tracker/storage.Hash]*tracker/storage/map.PeerMap ?n:int :: ?n == old(len(db.hashmap)) - len(db.hashmap)
  inv ?e:iter!map[tracker/storage.Hash]*tracker/storage/map.PeerMap :: forall h: BA :: {in(vis(?e), h)} in(vis(?e), h) && has(db.hashmap, h) ==> len(swarm(db, h).Peers) != 0
  inv ?e:iter!map[tracker/storage.Hash]*tracker/storage/map.PeerMap :: forall h: BA, k: BA :: {in(vis(?e), h), has(swarm(db, h).Peers, k)} in(vis(?e), h) && inDB(db, h, k) ==> age(db, h, k, old(now)) <= expirySecs()
  inv ?e:iter!map[tracker/storage.Hash]*tracker/storage/map.PeerMap :: forall h: BA :: {in(d0(?e), h)} in(d0(?e), h) && !in(vis(?e), h) ==> has(db.hashmap, h)
  inv ?i:iter!map[tracker/storage.PeerID]*tracker/storage.Peer ?p:*tracker/storage/map.PeerMap :: itmap(?i) == ref(?p.Peers) ==> forall k: BA :: {in(vis(?i), k)} in(vis(?i), k) && has(?p.Peers, k) ==> old(now) - ?p.Peers[k].LastSeen <= expirySecs()
  inv ?i:iter!map[tracker/storage.PeerID]*tracker/storage.Peer ?p:*tracker/storage/map.PeerMap :: itmap(?i) == ref(?p.Peers) ==> forall k: BA :: {in(d0(?i), k)} in(d0(?i), k) && !in(vis(?i), k) ==> has(?p.Peers, k)
  ensures expired: forall h: BA, k: BA :: old(inDB(db, h, k)) && old(age(db, h, k, now)) > expirySecs() ==> !inDB(db, h, k)
  ensures kept: forall h: BA, k: BA :: old(inDB(db, h, k)) && now - old(swarm(db, h).Peers[k].LastSeen) <= expirySecs() ==> inDB(db, h, k)
  ensures unchanged: forall h: BA, k: BA :: inDB(db, h, k) ==> old(inDB(db, h, k)) && sameFields(db, h, k)
  ensures swarms: forall h: BA :: has(db.hashmap, h) ==> old(has(db.hashmap, h)) && len(swarm(db, h).Peers) != 0
  ensures consistent: memOK(db)
  ensures seeds: seedsTrack(db)
  ensures leeches: leechesTrack(db)
  ensures countstats: peers == wrap(old(stats.Seeds) - stats.Seeds + old(stats.Leeches) - stats.Leeches, int)
  ensures countpeers: peers == wrap(old(stored(db)) - stored(db), int)
  ensures counthashes: hashes == old(len(db.hashmap)) - len(db.hashmap)

func (*tracker/storage/map.Memory).Trim(db)
  props S02 S04 S05 S10
  requires poolsReady() && statsReady() && memOK(db) && memStamped(db) && config.Config != nil && 0 <= config.Config.DB.Expiry
  modifies map(db.hashmap), allmap map[tracker/storage.PeerID]*tracker/storage.Peer, all tracker/storage/map.PeerMap.Complete, all tracker/storage/map.PeerMap.Incomplete, map(stats.IPStats.submap), stats.Seeds, stats.Leeches, ghost now, ghost peerOwner, ghost rel_peer
  ensures expired: forall h: BA, k: BA :: old(inDB(db, h, k)) && old(age(db, h, k, now)) > expirySecs() ==> !inDB(db, h, k)
  ensures kept: forall h: BA, k: BA :: old(inDB(db, h, k)) && now - old(swarm(db, h).Peers[k].LastSeen) <= expirySecs() ==> inDB(db, h, k)
  ensures unchanged: forall h: BA, k: BA :: inDB(db, h, k) ==> old(inDB(db, h, k)) && sameFields(db, h, k)
  ensures swarms: forall h: BA :: has(db.hashmap, h) ==> old(has(db.hashmap, h)) && len(swarm(db, h).Peers) != 0
  ensures consistent: memOK(db)
  ensures seeds: seedsTrack(db)
  ensures leeches: leechesTrack(db)

// ---- statistics at startup
// the keys of d whose peer has address a
logic ipset(Arr(BA,Bool), Arr(BA,Int), Arr(Int,Addr), Addr) Arr(BA,Bool)
axiom ipset_def(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Addr), a Addr, k BA) {sel(ipset(d, v, c, a), k)} = sel(ipset(d, v, c, a), k) <==> sel(d, k) && sel(c, sel(v, k)) == a
lemma ipset_none(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Addr), a Addr) {ipset(d, v, c, a)} = (forall k: BA :: {sel(d, k)} !sel(d, k)) ==> card(ipset(d, v, c, a)) == 0
lemma ipset_dom(d Arr(BA,Bool), v Arr(BA,Int), c Arr(Int,Addr), a Addr, k BA) {ipset(upd(d, k, true), v, c, a)} = card(upd(ipset(d, v, c, a), k, sel(c, sel(v, k)) == a)) >= 0 && card(ipset(upd(d, k, true), v, c, a)) == card(ipset(d, v, c, a)) + ite(!sel(d, k) && sel(c, sel(v, k)) == a, 1, 0)
define withIP(pm, a) = card(ipset(dom(pm.Peers), vals(pm.Peers), arr(tracker/storage.Peer, IP), a))
// swarm -> withIP(swarm, a)
logic ipCounts(Arr(Int,Int), Arr(Int,Arr(BA,Bool)), Arr(Int,Arr(BA,Int)), Arr(Int,Addr), Addr) Arr(Int,Int)
axiom ipCounts_def(f Arr(Int,Int), d Arr(Int,Arr(BA,Bool)), v Arr(Int,Arr(BA,Int)), c Arr(Int,Addr), a Addr, p Int) {sel(ipCounts(f, d, v, c, a), p)} = sel(ipCounts(f, d, v, c, a), p) == card(ipset(sel(d, sel(f, p)), sel(v, sel(f, p)), c, a))
define swarmIPs(a) = ipCounts(arr(tracker/storage/map.PeerMap, Peers), domarr(map[tracker/storage.PeerID]*tracker/storage.Peer), valarr(map[tracker/storage.PeerID]*tracker/storage.Peer), arr(tracker/storage.Peer, IP), a)
define storedIPs(db, a) = total(dom(db.hashmap), vals(db.hashmap), swarmIPs(a))

func (*tracker/storage/map.Memory).SyncExpvars(db) (err)
  props S05
  requires statsReady() && db.hashmap != nil ==> memOK(db)
  requires statsReady()
  modifies map(stats.IPStats.submap), stats.Seeds, stats.Leeches
  inv ?e:iter!map[tracker/storage.Hash]*tracker/storage/map.PeerMap ?s:int64 :: ?s == wrap(total(vis(?e), vals(db.hashmap), arr(tracker/storage/map.PeerMap, Complete)), int64)
  inv ?e:iter!map[tracker/storage.Hash]*tracker/storage/map.PeerMap ?s:int64 :: ?s == wrap(total(vis(?e), vals(db.hashmap), arr(tracker/storage/map.PeerMap, Incomplete)), int64)
  inv ?i:iter!map[tracker/storage.PeerID]*tracker/storage.Peer ?p:*tracker/storage/map.PeerMap ?s:int64 :: itmap(?i) == ref(?p.Peers) ==> ?s == wrap(?s0 + ncomp(vis(?i), vals(?p.Peers), arr(tracker/storage.Peer, Complete)), int64)
  inv ?i:iter!map[tracker/storage.PeerID]*tracker/storage.Peer ?p:*tracker/storage/map.PeerMap ?s:int64 :: itmap(?i) == ref(?p.Peers) ==> ?s == wrap(?s0 + cnt(?i) - ncomp(vis(?i), vals(?p.Peers), arr(tracker/storage.Peer, Complete)), int64)
  inv ?e:iter!map[tracker/storage.Hash]*tracker/storage/map.PeerMap :: forall a: Addr :: {has(stats.IPStats.submap, a)} ipcnt(a) == wrap(old(ipcnt(a)) + total(vis(?e), vals(db.hashmap), swarmIPs(a)), int)
  inv ?i:iter!map[tracker/storage.PeerID]*tracker/storage.Peer ?p:*tracker/storage/map.PeerMap :: itmap(?i) == ref(?p.Peers) ==> forall a: Addr :: {has(stats.IPStats.submap, a)} ipcnt(a) == wrap(pre(ipcnt(a)) + card(ipset(vis(?i), vals(?p.Peers), arr(tracker/storage.Peer, IP), a)), int)
  ensures usable: err == nil <==> db.hashmap != nil
  ensures ips: err == nil ==> forall a: Addr :: ipcnt(a) == wrap(old(ipcnt(a)) + storedIPs(db, a), int)
  ensures seeds: err == nil ==> stats.Seeds == wrap(allSeeds(db), int64)
  ensures leeches: err == nil ==> stats.Leeches == wrap(allLeeches(db), int64)

// ---- peer lists
define peerDict(id, p, noid) = "d" ++ ite(noid, "", bstr("peer id") ++ bstr(ba2s(id))) ++ bstr("ip") ++ bstr(a_str(p.IP)) ++ bstr("port") ++ bint(p.Port) ++ "e"
define listed(db, h, i) = sel(sel(peerord, ref(swarm(db, h).Peers)), i)

func (*tracker/storage/map.Memory).PeerList(db, hash, numWant, removePeerId) (peers)
  props S03 S10
  requires poolsReady() && memOK(db)
  modifies ghost peerord, ghost rel_dict, ghost rel_bytes
  inv ?d:*bencoding.Dictionary :: content(?d.buf) == "d" && (reg(?d.buf) == pre(reg(?d.buf)) || pre(clk()) <= reg(?d.buf))
  inv ?e:iter ?i:uint :: ?i == cnt(?e) && 0 <= ?i
  inv ?i:uint :: ?i < numWant
  inv ?d:*bencoding.Dictionary ?v:[][]byte ?i:uint :: forall j: Int :: 0 <= j && j < ?i ==> reg(?v[j]) != reg(?d.buf) && pre(clk()) <= reg(?v[j]) && reg(?v[j]) < clk()
  inv ?e:iter ?v:[][]byte ?p:*tracker/storage/map.PeerMap :: itmap(?e) == ref(?p.Peers) ==> forall j: Int :: 0 <= j && j < cnt(?e) ==> content(?v[j]) == peerDict(sel(ord(?e), j), ?p.Peers[sel(ord(?e), j)], removePeerId)
  ensures unknown: !has(db.hashmap, hash) ==> len(peers) == 0
  ensures count: has(db.hashmap, hash) ==> len(peers) == min(numWant, len(swarm(db, hash).Peers))
  ensures members: forall i: Int :: 0 <= i && i < len(peers) ==> inDB(db, hash, listed(db, hash, i))
  ensures distinct: forall i: Int, j: Int :: 0 <= i && i < j && j < len(peers) ==> listed(db, hash, i) != listed(db, hash, j)
  ensures encoded: forall i: Int :: 0 <= i && i < len(peers) ==> content(peers[i]) == peerDict(listed(db, hash, i), swarm(db, hash).Peers[listed(db, hash, i)], removePeerId)

define rec4(ip, port) = ite(a_is6(ip), "", a_bytes(ip) ++ be16(port))
define rec6(ip, port) = ite(a_is6(ip), a_bytes(ip) ++ be16(port), "")
// the compact records of the first n listed peers
recdef recs4(o Arr(Int,BA), v Arr(BA,Int), ips Arr(Int,Addr), ports Arr(Int,Int), n Int) Seq = ite(n <= 0, "", recs4(o, v, ips, ports, n-1) ++ rec4(sel(ips, sel(v, sel(o, n-1))), sel(ports, sel(v, sel(o, n-1)))))
recdef recs6(o Arr(Int,BA), v Arr(BA,Int), ips Arr(Int,Addr), ports Arr(Int,Int), n Int) Seq = ite(n <= 0, "", recs6(o, v, ips, ports, n-1) ++ rec6(sel(ips, sel(v, sel(o, n-1))), sel(ports, sel(v, sel(o, n-1)))))
lemma recs4_upd(o Arr(Int,BA), v Arr(BA,Int), ips Arr(Int,Addr), ports Arr(Int,Int), n Int, p Int, k BA) induct n {recs4(upd(o, p, k), v, ips, ports, n)} = p >= n ==> recs4(upd(o, p, k), v, ips, ports, n) == recs4(o, v, ips, ports, n)
lemma recs6_upd(o Arr(Int,BA), v Arr(BA,Int), ips Arr(Int,Addr), ports Arr(Int,Int), n Int, p Int, k BA) induct n {recs6(upd(o, p, k), v, ips, ports, n)} = p >= n ==> recs6(upd(o, p, k), v, ips, ports, n) == recs6(o, v, ips, ports, n)
define swarm4(pm, o, n) = recs4(o, vals(pm.Peers), arr(tracker/storage.Peer, IP), arr(tracker/storage.Peer, Port), n)
define swarm6(pm, o, n) = recs6(o, vals(pm.Peers), arr(tracker/storage.Peer, IP), arr(tracker/storage.Peer, Port), n)
define dbOrd(db, h) = sel(peerord, ref(swarm(db, h).Peers))
define nlist(db, h, n) = min(n, len(swarm(db, h).Peers))
define fits(n) = 6 * n <= poolcap(pools.Peerlists4) && 18 * n <= poolcap(pools.Peerlists6)

// the number of peers in two compact lists
define taken(a, b) = (3 * len(a) + len(b)) / 18

func (*tracker/storage/map.Memory).PeerListBytes(db, hash, numWant) (peers4, peers6)
  props S03 S10
  requires poolsReady() && memOK(db) && poolcap(pools.Peerlists4) >= 6 && poolcap(pools.Peerlists6) >= 18
  modifies ghost peerord
  inv ?e:iter ?i:uint :: ?i == cnt(?e) && 0 <= ?i
  inv ?i:uint :: ?i < numWant
  inv ?a:int :: 0 <= ?a && ?a + 6 <= poolcap(pools.Peerlists4)
  inv ?b:int :: 0 <= ?b && ?b + 18 <= poolcap(pools.Peerlists6)
  inv ?a:int ?b:int ?i:uint :: 3 * ?a + ?b == 18 * ?i
  inv ?e:iter ?a:int ?s:[]byte ?p:*tracker/storage/map.PeerMap :: itmap(?e) == ref(?p.Peers) ==> cap(?s) == poolcap(pools.Peerlists4) && sq(sel(heap8(), reg(?s)), off(?s), ?a) == swarm4(?p, ord(?e), cnt(?e))
  inv ?e:iter ?a:int ?s:[]byte ?p:*tracker/storage/map.PeerMap :: itmap(?e) == ref(?p.Peers) ==> cap(?s) == poolcap(pools.Peerlists6) && sq(sel(heap8(), reg(?s)), off(?s), ?a) == swarm6(?p, ord(?e), cnt(?e))
  ensures unknown: !has(db.hashmap, hash) ==> content(peers4) == "" && content(peers6) == ""
  ensures none: numWant == 0 ==> content(peers4) == "" && content(peers6) == ""
  ensures members: has(db.hashmap, hash) && fits(numWant) ==> forall i: Int :: 0 <= i && i < nlist(db, hash, numWant) ==> inDB(db, hash, listed(db, hash, i))
  ensures distinct: has(db.hashmap, hash) && fits(numWant) ==> forall i: Int, j: Int :: 0 <= i && i < j && j < nlist(db, hash, numWant) ==> listed(db, hash, i) != listed(db, hash, j)
  ensures list4: has(db.hashmap, hash) && fits(numWant) ==> content(peers4) == swarm4(swarm(db, hash), dbOrd(db, hash), nlist(db, hash, numWant))
  ensures list6: has(db.hashmap, hash) && fits(numWant) ==> content(peers6) == swarm6(swarm(db, hash), dbOrd(db, hash), nlist(db, hash, numWant))
  ensures any: has(db.hashmap, hash) ==> taken(peers4, peers6) <= nlist(db, hash, numWant) && content(peers4) == swarm4(swarm(db, hash), dbOrd(db, hash), taken(peers4, peers6)) && content(peers6) == swarm6(swarm(db, hash), dbOrd(db, hash), taken(peers4, peers6))
  ensures buffers: fresh(peers4) && fresh(peers6) && reg(peers4) != reg(peers6) && cap(peers4) == poolcap(pools.Peerlists4) && cap(peers6) == poolcap(pools.Peerlists6)

// ---- the backup
ghost swarmord Arr(Int,Arr(Int,BA))
maphook map[tracker/storage.Hash]*tracker/storage/map.PeerMap swarmord order
define peerRec(id, c, ip, port, seen) = ba2s(id) ++ unit(ite(c, 1, 0)) ++ le32(len(a_bytes(ip))) ++ a_bytes(ip) ++ le16(port) ++ le64(seen)
recdef peerRecs(o Arr(Int,BA), v Arr(BA,Int), cs Arr(Int,Bool), ips Arr(Int,Addr), ports Arr(Int,Int), seen Arr(Int,Int), n Int) Seq = ite(n <= 0, "", peerRecs(o, v, cs, ips, ports, seen, n-1) ++ peerRec(sel(o, n-1), sel(cs, sel(v, sel(o, n-1))), sel(ips, sel(v, sel(o, n-1))), sel(ports, sel(v, sel(o, n-1))), sel(seen, sel(v, sel(o, n-1)))))
lemma peerRecs_upd(o Arr(Int,BA), v Arr(BA,Int), cs Arr(Int,Bool), ips Arr(Int,Addr), ports Arr(Int,Int), seen Arr(Int,Int), n Int, p Int, k BA) induct n {peerRecs(upd(o, p, k), v, cs, ips, ports, seen, n)} = p >= n ==> peerRecs(upd(o, p, k), v, cs, ips, ports, seen, n) == peerRecs(o, v, cs, ips, ports, seen, n)
define pmOf(f, sv, so, i) = sel(f, sel(sv, sel(so, i)))
// the records of the first n swarms in the order so; po: the order of each swarm's peers
recdef swarmRecs(so Arr(Int,BA), sv Arr(BA,Int), f Arr(Int,Int), po Arr(Int,Arr(Int,BA)), d Arr(Int,Arr(BA,Bool)), v Arr(Int,Arr(BA,Int)), cs Arr(Int,Bool), ips Arr(Int,Addr), ports Arr(Int,Int), seen Arr(Int,Int), n Int) Seq = ite(n <= 0, "", swarmRecs(so, sv, f, po, d, v, cs, ips, ports, seen, n-1) ++ ba2s(sel(so, n-1)) ++ le32(card(sel(d, pmOf(f, sv, so, n-1)))) ++ peerRecs(sel(po, pmOf(f, sv, so, n-1)), sel(v, pmOf(f, sv, so, n-1)), cs, ips, ports, seen, card(sel(d, pmOf(f, sv, so, n-1)))))
lemma swarmRecs_so(so Arr(Int,BA), sv Arr(BA,Int), f Arr(Int,Int), po Arr(Int,Arr(Int,BA)), d Arr(Int,Arr(BA,Bool)), v Arr(Int,Arr(BA,Int)), cs Arr(Int,Bool), ips Arr(Int,Addr), ports Arr(Int,Int), seen Arr(Int,Int), n Int, p Int, k BA) induct n {swarmRecs(upd(so, p, k), sv, f, po, d, v, cs, ips, ports, seen, n)} = p >= n ==> swarmRecs(upd(so, p, k), sv, f, po, d, v, cs, ips, ports, seen, n) == swarmRecs(so, sv, f, po, d, v, cs, ips, ports, seen, n)
lemma swarmRecs_po(so Arr(Int,BA), sv Arr(BA,Int), f Arr(Int,Int), po Arr(Int,Arr(Int,BA)), d Arr(Int,Arr(BA,Bool)), v Arr(Int,Arr(BA,Int)), cs Arr(Int,Bool), ips Arr(Int,Addr), ports Arr(Int,Int), seen Arr(Int,Int), n Int, m Int, x Arr(Int,BA)) induct n {swarmRecs(so, sv, f, upd(po, m, x), d, v, cs, ips, ports, seen, n)} = (forall i: Int :: {sel(so, i)} 0 <= i && i < n ==> pmOf(f, sv, so, i) != m) ==> swarmRecs(so, sv, f, upd(po, m, x), d, v, cs, ips, ports, seen, n) == swarmRecs(so, sv, f, po, d, v, cs, ips, ports, seen, n)
define pRecs(pm, o, n) = peerRecs(o, vals(pm.Peers), arr(tracker/storage.Peer, Complete), arr(tracker/storage.Peer, IP), arr(tracker/storage.Peer, Port), arr(tracker/storage.Peer, LastSeen), n)
define sRecs(db, o, n) = swarmRecs(o, vals(db.hashmap), arr(tracker/storage/map.PeerMap, Peers), peerord, domarr(map[tracker/storage.PeerID]*tracker/storage.Peer), valarr(map[tracker/storage.PeerID]*tracker/storage.Peer), arr(tracker/storage.Peer, Complete), arr(tracker/storage.Peer, IP), arr(tracker/storage.Peer, Port), arr(tracker/storage.Peer, LastSeen), n)

define nthSwarm(db, i) = sel(sel(swarmord, ref(db.hashmap)), i)

func (*tracker/storage/map.Memory).encodeBinary(db) (b, err)
  props S06 S08
  requires memOK(db) && (forall h: BA :: {has(db.hashmap, h)} has(db.hashmap, h) ==> len(swarm(db, h).Peers) < 4294967296)
  modifies ghost swarmord, ghost peerord
  inv ?e:iter!map[tracker/storage.Hash]*tracker/storage/map.PeerMap ?w:*bufio.Writer :: ?w.pend == sRecs(db, ord(?e), cnt(?e))
  inv ?i:iter!map[tracker/storage.PeerID]*tracker/storage.Peer ?p:*tracker/storage/map.PeerMap ?w:*bufio.Writer :: itmap(?i) == ref(?p.Peers) ==> ?w.pend == pre(?w.pend) ++ pRecs(?p, ord(?i), cnt(?i))
  inv ?e:iter!map[tracker/storage.Hash]*tracker/storage/map.PeerMap :: forall i: Int, j: Int :: 0 <= i && i < cnt(?e) && 0 <= j && j < len(swarm(db, sel(ord(?e), i)).Peers) ==> has(swarm(db, sel(ord(?e), i)).Peers, listed(db, sel(ord(?e), i), j))
  inv ?e:iter!map[tracker/storage.Hash]*tracker/storage/map.PeerMap :: forall i: Int, j: Int, k: Int :: 0 <= i && i < cnt(?e) && 0 <= j && j < k && k < len(swarm(db, sel(ord(?e), i)).Peers) ==> listed(db, sel(ord(?e), i), j) != listed(db, sel(ord(?e), i), k)
  ensures ok: err == nil
  ensures layout: content(b) == sRecs(db, sel(swarmord, ref(db.hashmap)), len(db.hashmap))
  ensures swarms: forall i: Int :: 0 <= i && i < len(db.hashmap) ==> has(db.hashmap, nthSwarm(db, i))
  ensures swarmsonce: forall i: Int, j: Int :: 0 <= i && i < j && j < len(db.hashmap) ==> nthSwarm(db, i) != nthSwarm(db, j)
  ensures peers: forall i: Int, j: Int :: 0 <= i && i < len(db.hashmap) && 0 <= j && j < len(swarm(db, nthSwarm(db, i)).Peers) ==> has(swarm(db, nthSwarm(db, i)).Peers, listed(db, nthSwarm(db, i), j))
  ensures peersonce: forall i: Int, j: Int, k: Int :: 0 <= i && i < len(db.hashmap) && 0 <= j && j < k && k < len(swarm(db, nthSwarm(db, i)).Peers) ==> listed(db, nthSwarm(db, i), j) != listed(db, nthSwarm(db, i), k)

func (*tracker/storage/map.Memory).decodeBinary(db, data) (peers, hashes, err)
  props S06 S07 S02 S10
  requires poolsReady()
  maxalloc 1048576
  modifies db.hashmap, ghost peerOwner, ghost peerKey
  inv db.hashmap != nil && fresh(db.hashmap)
  inv memNonNil(db)
  inv memPeers(db)
  inv memDistinct(db)
  inv forall h: BA :: {has(db.hashmap, h)} has(db.hashmap, h) ==> fresh(swarm(db, h)) && fresh(swarm(db, h).Peers)
  inv ?p:*tracker/storage/map.PeerMap :: ?p.Peers != nil && forall k: BA :: {has(?p.Peers, k)} has(?p.Peers, k) ==> peerOK(?p, k)
  inv ?p:*tracker/storage/map.PeerMap ?n:int :: ?n == pmCount(?p)
  inv ?p:*tracker/storage/map.PeerMap :: forall h: BA :: {has(db.hashmap, h)} has(db.hashmap, h) && swarm(db, h) != ?p ==> swarm(db, h).Complete == pmCount(swarm(db, h)) && swarm(db, h).Complete + swarm(db, h).Incomplete == len(swarm(db, h).Peers)
  inv memComplete(db)
  inv memIncomplete(db)
  ensures loaded: db.hashmap != nil && fresh(db.hashmap)
  ensures consistent: err == nil ==> memOK(db)

// ---- storing and loading the backup
// what a save writes: the encoding of the database in the order its swarms and peers were last visited
define dbBytes(db) = sRecs(db, sel(swarmord, ref(db.hashmap)), len(db.hashmap))
define memSized(db) = forall h: BA :: {has(db.hashmap, h)} has(db.hashmap, h) ==> len(swarm(db, h).Peers) < 4294967296
define backupPath() = config.Config.DB.Backup.Path

extern os.Stat(p) (fi, err)
  why changes nothing
extern os.IsNotExist(err) (r)
  why purely a function of the error

func (*tracker/storage/map.Memory).loadFile(db, filename) (peers, hashes, err)
  props S06 S07
  opt helper
  requires poolsReady()
  modifies db.hashmap, ghost peerOwner, ghost peerKey
  ensures consistent: err == nil ==> memOK(db)

func (*tracker/storage/map.FileBackup).Load(bck) (err)
  props S06 S07 C02
  requires poolsReady() && bck.db != nil && config.Config != nil
  modifies bck.db.hashmap, ghost peerOwner, ghost peerKey
  ensures consistent: err == nil ==> memOK(bck.db)

func (*tracker/storage/map.FileBackup).writeFile(bck) (n, err)
  props S06 S09
  opt helper
  requires bck.db != nil && config.Config != nil && memOK(bck.db) && memSized(bck.db)
  modifies ghost swarmord, ghost peerord, ghost fsdata, ghost fsever, ghost fssync
  ensures atomic: atomicTo(backupPath(), dbBytes(bck.db))
  ensures saved: err == nil ==> sel(fsdata, backupPath()) == dbBytes(bck.db)
  ensures kept: err != nil ==> sel(fsdata, backupPath()) == sel(old(fsdata), backupPath())

func (*tracker/storage/map.FileBackup).Save(bck) (err)
  props S06 S09 C02
  requires bck.db != nil && config.Config != nil && memOK(bck.db) && memSized(bck.db)
  modifies ghost swarmord, ghost peerord, ghost fsdata, ghost fsever, ghost fssync
  ensures atomic: atomicTo(backupPath(), dbBytes(bck.db))
  ensures saved: err == nil ==> sel(fsdata, backupPath()) == dbBytes(bck.db)
  ensures kept: err != nil ==> sel(fsdata, backupPath()) == sel(old(fsdata), backupPath())

func (*tracker/storage/map.FileBackup).Init(bck, db) (err)
  props C02
  requires typeis(db, *tracker/storage/map.Memory) && as(db, *tracker/storage/map.Memory) != 0
  modifies bck.db
  ensures bound: err == nil && bck.db == as(db, *tracker/storage/map.Memory)

func (*tracker/storage/map.NoneBackup).Init(bck, db) (err)
  props S02 C02
  requires typeis(db, *tracker/storage/map.Memory)
  modifies as(db, *tracker/storage/map.Memory).hashmap
  ensures usable: err == nil ==> memOK(as(db, *tracker/storage/map.Memory))

func tracker/storage/map.firstHash(encoded) (r)
  props S07
  opt helper
  ensures prefix: len(r) <= 20 && len(r) <= len(encoded)

extern (*database/sql.DB).Exec(db, query, args) (r, err)
  why talks to the database server only
extern (*database/sql.DB).QueryRow(db, query, args) (r)
  why talks to the database server only
  ensures r != nil
extern (*database/sql.Row).Scan(r, dest) (err)
  why stores the row's columns in the variables it is given: any bytes, any time
  modifies all []uint8, all time.Time
  ensures true

func (tracker/storage/map.PgBackup).Save(bck) (err)
  props S07
  requires bck.db != nil && bck.pg != nil && memOK(bck.db) && memSized(bck.db)
  modifies ghost swarmord, ghost peerord

func (tracker/storage/map.PgBackup).Load(bck) (err)
  props S06 S07 C02
  requires poolsReady() && bck.db != nil && bck.pg != nil && config.Config != nil
  modifies bck.db.hashmap, ghost peerOwner, ghost peerKey, ghost now, ghost slept, all []uint8, all time.Time
  ensures consistent: err == nil ==> memOK(bck.db)
