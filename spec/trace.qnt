// The conformance machine: reads a tape of recorded calls of the real crate and rejects every
// call (or group of related calls) that the contract does not admit.
module trace {
  import num.* from "./num"
  import ieee.* from "./ieee"
  import core.* from "./core"
  import fgamma.* from "./fgamma"   // the family under test

  // Tape: COUNT events of 12 words of 64 bits, PER events to an integer; BLOCK events per step
  const TAPE: List[int]
  const COUNT: int
  const PER: int
  const BLOCK: int

  type Key = (int, int, int, int, int)          // function and argument bits
  type Outcome = (int, int, int, int, int)      // outcome and result bits
  type State = {
    pos: int,                                   // events consumed
    group: List[Ev],                            // events of the current group of related calls
    seen: Key -> Outcome,                       // outcome of each distinct call (purity)
    rejected: List[{ pos: int, code: int, use: int }],
    worst: { use: int, pos: int },              // largest share of a tolerance used, permille
    judged: int                                 // verdicts passed
  }
  var st: State

  pure val EVBITS: int = 768
  pure def word(e: int, k: int): int = e / 2^(704 - 64 * k) % 2^64
  pure def event(i: int): Ev =
    val e = TAPE[i / PER] / 2^(EVBITS * (i % PER)) % 2^EVBITS
    { fn: word(e, 0), mode: word(e, 1), law: word(e, 2), out: word(e, 3) - 8,
      a: word(e, 4), b: word(e, 5), c: word(e, 6), d: word(e, 7),
      r: word(e, 8), s: word(e, 9), t: word(e, 10), u: word(e, 11) }

  // mode 0: only recorded for a law; 1: value; 2: panic and NaN contract; 3: purity
  pure def judge(e: Ev): V =
    if (e.mode == 1) judgeValue(e) else if (e.mode == 2) judgeTotal(e) else PASS

  // The transition of one recorded call
  pure def observe(s: State, e: Ev): State =
    val g = s.group.append(e)
    val key = (e.fn, e.a, e.b, e.c, e.d)
    val outc = (e.out, e.r, e.s, e.t, e.u)
    val known = e.mode == 3 and s.seen.keys().contains(key)
    val v = worse(worse(judge(e), if (known and s.seen.get(key) != outc) reject(C_IMPURE) else PASS),
                  if (e.law > 0) judgeLaw(e.law, g) else PASS)
    { pos: s.pos + 1,
      // law 0 in mode 0 keeps collecting, anything else closes the group
      group: if (e.law > 0 or e.mode != 0) [] else g,
      seen: if (e.mode == 3 and not(known)) s.seen.put(key, outc) else s.seen,
      rejected: if (v.c != 0) s.rejected.append({ pos: s.pos, code: v.c, use: v.e }) else s.rejected,
      worst: if (v.e > s.worst.use) { use: v.e, pos: s.pos } else s.worst,
      judged: s.judged + (if (e.mode > 0 or e.law > 0) 1 else 0) }

  action init = st' = {
    pos: 0, group: [], seen: Map(), rejected: [], worst: { use: -1, pos: -1 }, judged: 0 }
  action step = all {
    st.pos < COUNT,
    st' = range(st.pos, mini(st.pos + BLOCK, COUNT)).foldl(st, (s, i) => observe(s, event(i)))
  }
  val accepted = st.rejected.length() == 0
}
