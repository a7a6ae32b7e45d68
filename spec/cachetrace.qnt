// -*- mode: Bluespec; -*-
// Conformance machine for recorded cache sessions: consumes what the real caches did and saw, and
// accepts it only if the cache specification allows it.
module cachetrace {
  import ieee.* from "./ieee"
  import cachecore.* from "./cachecore"

  const UNIVERSE: Set[Key]             // every argument pair of the session
  const TAPE: List[int]
  const COUNT: int
  const PER: int
  const BLOCK: int

  type Ev = { op: int, kind: int, slot: int, out: int, k: Key, c: int, d: int, v: Val }
  pure val EVBITS: int = 768
  pure def word(e: int, k: int): int = e / 2^(704 - 64 * k) % 2^64
  pure def event(i: int): Ev =
    val e = TAPE[i / PER] / 2^(EVBITS * (i % PER)) % 2^EVBITS
    { op: word(e, 0), kind: word(e, 1), slot: word(e, 2), out: word(e, 3) - 8, k: (word(e, 4), word(e, 5)),
      c: word(e, 6), d: word(e, 7), v: (word(e, 8), word(e, 9), word(e, 10), word(e, 11)) }

  pure val UNCACHED: int = 1           // kind, k -> v or panic
  pure val MAKE: int = 2               // slot, kind
  pure val CALL: int = 3               // slot, k -> v or panic
  pure val CONTAINS: int = 4           // slot, k -> v._1
  pure val GET: int = 5                // slot, k -> out > 0 with v, or out = 0
  pure val LEN: int = 6                // slot -> v._1
  pure val EMPTY: int = 7              // slot -> v._1
  pure val CLEAR: int = 8
  pure val SHRINK: int = 9
  pure val RESERVE: int = 10           // slot; d = 1 when the capacity is impossible
  pure val VISIT: int = 11             // slot: retain showed the predicate k with v; d = kept
  pure val RETAINED: int = 12          // slot: retain returned
  pure val CLONE: int = 13             // slot := c
  pure val EQ: int = 14                // slot, c -> v._1
  pure val CROWD: int = 15             // slot; k, d: a crowd of d keys -> v._1 calls that gave the uncached values
  pure val SEEN: int = 16              // slot; k, d -> v._1 members contained, v._2 members whose stored value is right
  pure val DROP: int = 17              // slot; k, d: retain all but that crowd -> v._1 entries visited

  // verdicts
  pure val OK: int = 0
  pure val BAD_CALL: int = 20          // a cached call is not what the uncached function gives
  pure val BAD_MAP: int = 21           // an observation disagrees with the exact-key map
  pure val BAD_PURE: int = 7           // the uncached function changed its mind

  pure def hasNaN(v: Val): bool = isNaN(v._1) or isNaN(v._2) or isNaN(v._3) or isNaN(v._4)
  pure def asSet(l: List[Key]): Set[Key] = l.indices().map(i => l[i])
  pure def b2i(b: bool): int = if (b) 1 else 0

  type Known = { known: bool, fun: Fun }
  pure val UNKNOWN: Known = { known: false, fun: { panics: false, value: NOVAL } }
  type State = {
    pos: int,
    caches: int -> Cache,
    funs: int -> Key -> Known,         // what the uncached functions returned, per kind
    visited: List[Key],                // by the retain in progress
    kept: List[Key],
    rejected: List[{ pos: int, code: int, use: int }],
    worst: { use: int, pos: int },
    judged: int
  }
  var st: State

  pure def verdict(s: State, e: Ev): int =
    val c = s.caches.get(e.slot)
    if (e.op == UNCACHED) {
      val f = s.funs.get(e.kind).get(e.k)
      if (f.known and f.fun != { panics: e.out < 0, value: e.v }) BAD_PURE else OK
    }
    else if (e.op == CALL) {
      val f = s.funs.get(c.kind).get(e.k).fun
      val r = callCache(c, e.k, f)
      // the contents are function values by construction, so a hit is judged like a miss
      if (r.panics == (e.out < 0) and (r.panics or r.value == e.v)) OK else BAD_CALL
    }
    else if (e.out < 0 and not(e.op == RESERVE and e.d == 1)) BAD_MAP
    else if (e.op == CONTAINS) (if (e.v._1 == b2i(has(c, e.k))) OK else BAD_MAP)
    else if (e.op == GET)
      (if (if (has(c, e.k)) e.out > 0 and e.v == lookup(c, e.k) else e.out == 0) OK else BAD_MAP)
    else if (e.op == LEN) (if (e.v._1 == sizeOf(c)) OK else BAD_MAP)
    else if (e.op == EMPTY) (if (e.v._1 == b2i(sizeOf(c) == 0)) OK else BAD_MAP)
    else if (e.op == RESERVE) (if ((e.d == 1) == (e.out < 0)) OK else BAD_MAP)
    else if (e.op == VISIT)
      (if (has(c, e.k) and e.v == lookup(c, e.k)) OK else BAD_MAP)
    else if (e.op == CROWD) (if (e.v._1 == e.d) OK else BAD_CALL)
    else if (e.op == SEEN)
      (val n = if (c.crowds.contains((e.k._1, e.d))) e.d else 0
       if (e.v._1 == n and e.v._2 == n) OK else BAD_MAP)
    else if (e.op == DROP) (if (e.v._1 == sizeOf(c)) OK else BAD_MAP)
    else if (e.op == RETAINED) (if (s.visited.length() == sizeOf(c) and asSet(s.visited).size() == sizeOf(c)) OK else BAD_MAP)
    else if (e.op == EQ) (if (e.v._1 == b2i(sameCache(c, s.caches.get(e.c), hasNaN))) OK else BAD_MAP)
    else OK

  pure def after(s: State, e: Ev): int -> Cache =
    if (e.op == MAKE) s.caches.put(e.slot, emptyCache(e.kind, UNIVERSE))
    else if (e.op == CLONE) s.caches.put(e.slot, s.caches.get(e.c))
    else if (e.op == CALL)
      (val c = s.caches.get(e.slot)
       s.caches.set(e.slot, callCache(c, e.k, s.funs.get(c.kind).get(e.k).fun).cache))
    else if (e.op == CLEAR) s.caches.set(e.slot, clearCache(s.caches.get(e.slot)))
    else if (e.op == CROWD) s.caches.set(e.slot, callCrowd(s.caches.get(e.slot), (e.k._1, e.d)))
    else if (e.op == DROP) s.caches.set(e.slot, dropCrowd(s.caches.get(e.slot), e.k._1))
    else if (e.op == RETAINED) s.caches.set(e.slot, retainCache(s.caches.get(e.slot), asSet(s.kept)))
    else s.caches

  pure def observe(s: State, e: Ev): State =
    val code = verdict(s, e)
    { pos: s.pos + 1,
      caches: after(s, e),
      funs: if (e.op == UNCACHED and not(s.funs.get(e.kind).get(e.k).known))
              s.funs.setBy(e.kind, m => m.set(e.k, { known: true, fun: { panics: e.out < 0, value: e.v } })) else s.funs,
      visited: if (e.op == VISIT) s.visited.append(e.k) else if (e.op == RETAINED) [] else s.visited,
      kept: if (e.op == VISIT and e.d == 1) s.kept.append(e.k) else if (e.op == RETAINED) [] else s.kept,
      rejected: if (code != 0) s.rejected.append({ pos: s.pos, code: code, use: 1000000 }) else s.rejected,
      worst: s.worst,
      judged: s.judged + (if (e.op == MAKE or e.op == CLEAR or e.op == CLONE) 0 else 1) }

  action init = st' = {
    pos: 0, caches: Map(), funs: 0.to(3).mapBy(k => UNIVERSE.mapBy(u => UNKNOWN)), visited: [], kept: [], rejected: [], worst: { use: -1, pos: -1 }, judged: 0 }
  action step = all {
    st.pos < COUNT,
    st' = range(st.pos, if (st.pos + BLOCK < COUNT) st.pos + BLOCK else COUNT).foldl(st, (s, i) => observe(s, event(i)))
  }
  val accepted = st.rejected.length() == 0
}
