// package pools
ghost ndyn Int
ghost dynfn AII
ghost dynarg AII
ghost nput Int
ghost putarg AII
ghost putdyn AII

define poolsReady() = pools.Peers != nil && pools.Dictionaries != nil && pools.Peerlists4 != nil && pools.Peerlists6 != nil
logic poolcap(Int) Int

// Put resets exactly the object it is given, once and before it becomes available to others
func (*pools.Pool[*bencoding.Dictionary]).Put(pool, data)
  props S10
  modifies *data, mem(data.buf), ghost ndyn, ghost dynfn, ghost dynarg, ghost nput, ghost putarg, ghost putdyn
  ensures reset: pool.reset != nil ==> ndyn == old(ndyn) + 1 && sel(dynfn, old(ndyn)) == pool.reset && sel(dynarg, old(ndyn)) == ref(data)
  ensures once: nput == old(nput) + 1
  ensures arg: sel(putarg, old(nput)) == ref(data)
  ensures order: pool.reset != nil ==> sel(putdyn, old(nput)) == old(ndyn) + 1

func pools.Initialize(numwantLimit)
  props S10 C02 S03
  requires 0 <= numwantLimit && numwantLimit <= 1000000
  modifies pools.Peers, pools.Dictionaries, pools.Peerlists4, pools.Peerlists6
  ensures ready: poolsReady()
  ensures cap4: poolcap(pools.Peerlists4) == 6 * numwantLimit
  ensures cap6: poolcap(pools.Peerlists6) == 18 * numwantLimit

func pools.NewPool[*bencoding.Dictionary](new, reset) (r)
  props S10
  ensures reset: r.reset == reset
  ensures fresh(r)
