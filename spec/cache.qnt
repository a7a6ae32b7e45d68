// -*- mode: Bluespec; -*-
// The four Bessel caches as a state machine: a few named caches, a few argument pairs, every public
// operation in every order.  Explored by `quint run` (whose traces are replayed on the real caches),
// and verified for histories of any length by an inductive invariant (`quint verify`).
module cache {
  import cachecore.* from "./cachecore"

  const SLOTS: Set[int]
  const KINDS: Set[int]
  const GOOD: Set[int]                 // argument pairs whose values are numbers
  const WITHNAN: Set[int]              // argument pairs for which a value is NaN
  const BAD: Set[int]                  // argument pairs for which the function panics

  pure val OP_INIT: int = 0
  pure val OP_MAKE: int = 1
  pure val OP_CALL: int = 2
  pure val OP_CONTAINS: int = 3
  pure val OP_GET: int = 4
  pure val OP_LEN: int = 5
  pure val OP_EMPTY: int = 6
  pure val OP_CLEAR: int = 7
  pure val OP_SHRINK: int = 8
  pure val OP_RESERVE: int = 9
  pure val OP_RETAIN: int = 10
  pure val OP_CLONE: int = 11
  pure val OP_EQ: int = 12
  pure val OP_CLONEFROM: int = 13
  pure val OP_OVERFLOW: int = 14       // reserve of an impossible capacity
  pure val OP_CROWD: int = 15          // cached calls for a whole crowd of keys
  pure val OP_DROP: int = 16           // retain all but a crowd
  pure val CROWDS: Set[Crowd] = Set((1, 3), (2, 100))

  pure val IDS: Set[int] = GOOD.union(WITHNAN).union(BAD)
  pure def keyOf(i: int): Key = (i, 0)
  pure val KEYS: Set[Key] = IDS.map(i => keyOf(i))
  // an uninterpreted value of the function of that kind at that argument pair
  pure def valueOf(kind: int, k: Key): Val = (kind + 1, k._1, if (WITHNAN.contains(k._1)) 1 else 0, 0)
  pure def fun(kind: int, k: Key): Fun =
    if (BAD.contains(k._1)) { panics: true, value: NOVAL } else { panics: false, value: valueOf(kind, k) }
  pure def hasNaN(v: Val): bool = v._3 == 1

  // the operation just performed and everything the caller sees of it
  type Op = {
    op: int, slot: int, other: int, key: int, keep: Set[int],
    panicked: bool, found: bool, value: Val, count: int, visited: Set[int]
  }
  pure val NOP: Op = { op: OP_INIT, slot: 0, other: 0, key: 0, keep: Set(), panicked: false, found: false,
                       value: NOVAL, count: 0, visited: Set() }
  var caches: int -> Cache
  var last: Op
  var before: int -> Cache             // the caches before the last operation

  action init = all {
    caches' = SLOTS.mapBy(s => emptyCache(s % 4, KEYS)),
    before' = SLOTS.mapBy(s => emptyCache(s % 4, KEYS)),
    last' = NOP,
  }
  action become(s: int, c: Cache, o: Op): bool = all {
    caches' = caches.set(s, c),
    before' = caches,
    last' = o,
  }
  action watch(o: Op): bool = all { caches' = caches, before' = caches, last' = o }

  action make(s: int, kind: int, how: int): bool =
    become(s, emptyCache(kind, KEYS), { ...NOP, op: OP_MAKE, slot: s, other: kind, count: how })
  action call(s: int, i: int): bool =
    val c = caches.get(s)
    val r = callCache(c, keyOf(i), fun(c.kind, keyOf(i)))
    become(s, r.cache, { ...NOP, op: OP_CALL, slot: s, key: i, panicked: r.panics, found: r.hit, value: r.value })
  action contains_(s: int, i: int): bool =
    watch({ ...NOP, op: OP_CONTAINS, slot: s, key: i, found: has(caches.get(s), keyOf(i)) })
  action get_(s: int, i: int): bool =
    val c = caches.get(s)
    val h = has(c, keyOf(i))
    watch({ ...NOP, op: OP_GET, slot: s, key: i, found: h, value: if (h) lookup(c, keyOf(i)) else NOVAL })
  action len_(s: int): bool = watch({ ...NOP, op: OP_LEN, slot: s, count: sizeOf(caches.get(s)) })
  action empty_(s: int): bool = watch({ ...NOP, op: OP_EMPTY, slot: s, found: sizeOf(caches.get(s)) == 0 })
  action crowd_(s: int, g: Crowd): bool =
    become(s, callCrowd(caches.get(s), g), { ...NOP, op: OP_CROWD, slot: s, key: g._1, count: g._2 })
  action drop_(s: int, g: Crowd): bool =
    val c = caches.get(s)
    become(s, dropCrowd(c, g._1), { ...NOP, op: OP_DROP, slot: s, key: g._1, count: sizeOf(c) })
  action clear_(s: int): bool = become(s, clearCache(caches.get(s)), { ...NOP, op: OP_CLEAR, slot: s })
  action shrink_(s: int): bool = watch({ ...NOP, op: OP_SHRINK, slot: s })
  action reserve_(s: int, n: int): bool = watch({ ...NOP, op: OP_RESERVE, slot: s, count: n })
  action overflow_(s: int): bool = watch({ ...NOP, op: OP_OVERFLOW, slot: s, panicked: true })
  action retain_(s: int, keep: Set[int]): bool =
    val c = caches.get(s)
    become(s, retainCache(c, keep.map(i => keyOf(i))),
           { ...NOP, op: OP_RETAIN, slot: s, keep: keep, visited: held(c).map(k => k._1) })
  action clone_(s: int, t: int): bool =
    become(s, caches.get(t), { ...NOP, op: OP_CLONE, slot: s, other: t })
  action cloneFrom(s: int, t: int): bool = all {
    caches.get(s).kind == caches.get(t).kind,
    s != t,
    become(s, caches.get(t), { ...NOP, op: OP_CLONEFROM, slot: s, other: t }),
  }
  action eq_(s: int, t: int): bool = all {
    caches.get(s).kind == caches.get(t).kind,
    watch({ ...NOP, op: OP_EQ, slot: s, other: t, found: sameCache(caches.get(s), caches.get(t), hasNaN) }),
  }

  action step = {
    nondet s = SLOTS.oneOf()
    nondet t = SLOTS.oneOf()
    nondet i = IDS.oneOf()
    nondet j = IDS.oneOf()
    nondet kind = KINDS.oneOf()
    nondet how = 0.to(3).oneOf()
    nondet g = CROWDS.oneOf()
    nondet keep = IDS.powerset().oneOf()
    any {
      make(s, kind, how),
      call(s, i),
      call(t, j),                       // calls more often than the rest
      call(t, i),
      contains_(s, i),
      get_(s, i),
      len_(s),
      empty_(s),
      clear_(s),
      shrink_(s),
      reserve_(s, how),
      overflow_(s),
      crowd_(s, g),
      drop_(s, g),
      retain_(s, keep),
      clone_(s, t),
      cloneFrom(s, t),
      eq_(s, t),
    }
  }

  // Every state in which each cache holds function values, and only those: together with `step` this
  // is an induction over histories of any length (one step from any such state ends in one).
  action initAny = {
    nondet kinds = SLOTS.setOfMaps(KINDS).oneOf()
    nondet full = SLOTS.setOfMaps(GOOD.union(WITHNAN).map(i => keyOf(i)).powerset()).oneOf()
    nondet crowds = SLOTS.setOfMaps(CROWDS.powerset()).oneOf()
    val cs = SLOTS.mapBy(s => { kind: kinds.get(s), entries: KEYS.mapBy(k =>
      if (full.get(s).contains(k)) { held: true, value: valueOf(kinds.get(s), k) } else ABSENT), crowds: crowds.get(s) })
    all { caches' = cs, before' = cs, last' = { ...NOP, op: OP_LEN, slot: 0, count: sizeOf(cs.get(0)) } }
  }

  // ---- the properties ----
  // P24: what is stored, and what a cached call returns, is the function's value for exactly these arguments
  val transparent = SLOTS.forall(s => val c = caches.get(s) held(c).forall(k =>
    lookup(c, k) == valueOf(c.kind, k) and not(BAD.contains(k._1))))
  val callsTransparent = last.op == OP_CALL implies and {
    last.panicked == BAD.contains(last.key),
    not(last.panicked) implies last.value == valueOf(caches.get(last.slot).kind, keyOf(last.key)),
  }
  // P24: an operation touches only its own cache
  val isolated = SLOTS.forall(s => s == last.slot or caches.get(s) == before.get(s))
  // P25: contents follow the operations
  val contents =
    val b = held(before.get(last.slot))
    val a = held(caches.get(last.slot))
    if (last.op == OP_INIT or last.op == OP_MAKE or last.op == OP_CLEAR) a == Set()
    else if (last.op == OP_CALL and not(last.panicked)) a == b.union(Set(keyOf(last.key)))
    else if (last.op == OP_RETAIN) a == b.filter(k => last.keep.contains(k._1)) and last.visited.map(i => keyOf(i)) == b
    else if (last.op == OP_CLONE or last.op == OP_CLONEFROM) caches.get(last.slot) == before.get(last.other)
    else a == b
  // P25: so do the crowds: only clear, retain and cloning lose one
  val crowds =
    val b = before.get(last.slot).crowds
    val a = caches.get(last.slot).crowds
    if (last.op == OP_INIT or last.op == OP_MAKE or last.op == OP_CLEAR or last.op == OP_RETAIN) a == Set()
    else if (last.op == OP_CROWD) a == b.union(Set((last.key, last.count)))
    else if (last.op == OP_DROP) a == b.filter(g => g._1 != last.key)
    else if (last.op == OP_CLONE or last.op == OP_CLONEFROM) a == before.get(last.other).crowds
    else a == b
  // P25: what is observed agrees with the contents
  val observed =
    val c = caches.get(last.slot)
    and {
      last.op == OP_LEN implies last.count == held(c).size() + c.crowds.fold(0, (n, g) => n + g._2),
      last.op == OP_EMPTY implies (last.found iff (held(c) == Set() and c.crowds == Set())),
      (last.op == OP_CONTAINS or last.op == OP_GET) implies (last.found iff held(c).contains(keyOf(last.key))),
      (last.op == OP_GET and last.found) implies last.value == valueOf(c.kind, keyOf(last.key)),
      (last.op == OP_EQ and last.found) implies c == caches.get(last.other),
      (last.op == OP_EQ and not(last.found)) implies
        (c != caches.get(last.other) or held(c).exists(k => WITHNAN.contains(k._1))),
    }
  val typed = and {
    caches.keys() == SLOTS,
    before.keys() == SLOTS,
    SLOTS.contains(last.slot) and SLOTS.contains(last.other),
  }
  val properties = and { transparent, callsTransparent, isolated, contents, crowds, observed }
}

// the instance that is explored and replayed
module cachemodel {
  import cache(SLOTS = Set(0, 1, 2, 3), KINDS = Set(0, 1, 2, 3), GOOD = Set(1, 2, 3, 4, 5, 6),
               WITHNAN = Set(7), BAD = Set(8, 9)).* from "./cache"
}

// a smaller instance for the inductive proof
module cacheproof {
  import cache(SLOTS = Set(0, 1, 2), KINDS = Set(0, 1), GOOD = Set(1, 2),
               WITHNAN = Set(3), BAD = Set(4)).* from "./cache"
}
