// -*- mode: Bluespec; -*-
// What a Bessel cache is: an exact-key map in front of a function.  Keys are pairs of argument bit
// patterns; values are the bit patterns of up to four results (zero where the kind has only two).
// A cache is a total map over a universe of keys, so that looking a key up costs little.
// These definitions are shared by the model that is explored (cache.qnt) and the machine that checks
// recorded sessions (cachetrace.qnt).
module cachecore {
  type Key = (int, int)
  type Val = (int, int, int, int)
  // the uncached function at one argument pair
  type Fun = { panics: bool, value: Val }
  type Entry = { held: bool, value: Val }
  // A crowd is a large family of further keys that is entered as a whole: its identity and its size.
  // Crowds are disjoint from each other and from the keys of the universe.
  type Crowd = (int, int)
  type Cache = { kind: int, entries: Key -> Entry, crowds: Set[Crowd] }
  type Called = { cache: Cache, panics: bool, value: Val, hit: bool }

  pure val NOVAL: Val = (0, 0, 0, 0)
  pure val ABSENT: Entry = { held: false, value: NOVAL }
  pure def emptyCache(kind: int, universe: Set[Key]): Cache = { kind: kind, entries: universe.mapBy(k => ABSENT), crowds: Set() }
  pure def has(c: Cache, k: Key): bool = c.entries.get(k).held
  pure def lookup(c: Cache, k: Key): Val = c.entries.get(k).value
  pure def held(c: Cache): Set[Key] = c.entries.keys().filter(k => has(c, k))
  pure def crowded(c: Cache): int = c.crowds.fold(0, (s, g) => s + g._2)
  pure def sizeOf(c: Cache): int = held(c).size() + crowded(c)

  // a cached call: a hit returns what is stored, a miss computes and stores, a panic changes nothing
  pure def callCache(c: Cache, k: Key, f: Fun): Called =
    if (has(c, k)) { cache: c, panics: false, value: lookup(c, k), hit: true }
    else if (f.panics) { cache: c, panics: true, value: NOVAL, hit: false }
    else { cache: { kind: c.kind, entries: c.entries.set(k, { held: true, value: f.value }), crowds: c.crowds },
           panics: false, value: f.value, hit: false }
  // a cached call for every member of a crowd
  pure def callCrowd(c: Cache, g: Crowd): Cache = { kind: c.kind, entries: c.entries, crowds: c.crowds.union(Set(g)) }
  // retain everything but the crowd of that identity
  pure def dropCrowd(c: Cache, id: int): Cache = { kind: c.kind, entries: c.entries, crowds: c.crowds.filter(g => g._1 != id) }
  pure def clearCache(c: Cache): Cache = emptyCache(c.kind, c.entries.keys())
  // (the predicate rejects crowds)
  pure def retainCache(c: Cache, keep: Set[Key]): Cache =
    { kind: c.kind, entries: c.entries.keys().mapBy(k => if (keep.contains(k)) c.entries.get(k) else ABSENT), crowds: Set() }
  // == compares as floating-point numbers: a cache that holds a NaN differs even from its own clone
  pure def sameCache(a: Cache, b: Cache, hasNaN: Val => bool): bool =
    and { a.entries == b.entries, a.crowds == b.crowds, held(a).forall(k => not(hasNaN(lookup(a, k)))) }
}
