"""Checks over histories: the caches (P24, P25) and purity (P27)."""
import glob, json, math, os, random, shutil, subprocess, time
from concurrent.futures import ThreadPoolExecutor
import vlib, gen
from vlib import Call, ToolError, bits, dbl, SPEC

UNCACHED = ['besseljy', 'besselik', 'Jnu_Ynu', 'Inu_Knu']
TYPES = ['CachedBesselJY', 'CachedBesselIK', 'CachedJnuYnu', 'CachedInuKnu']
WIDTH = [4, 4, 2, 2]
OPS = dict(UNCACHED=1, MAKE=2, CALL=3, CONTAINS=4, GET=5, LEN=6, EMPTY=7, CLEAR=8, SHRINK=9, RESERVE=10, VISIT=11,
           RETAINED=12, CLONE=13, EQ=14, CROWD=15, SEEN=16, DROP=17)
IMPOSSIBLE = (1 << 64) - 1
BAD_CALL, BAD_MAP, BAD_PURE = 20, 21, 22
WHAT = {BAD_CALL: 'cached call differs from the uncached function', BAD_MAP: 'differs from an exact-key map',
        BAD_PURE: 'the uncached function is not pure'}


def hx(v):
    return '%016x' % bits(v)


# ---------------------------------------------------------------- sessions
# An operation is a tuple: ('make', slot, kind, how, n) ('call'|'contains'|'get', slot, nu, x)
# ('len'|'empty'|'clear'|'shrink', slot) ('reserve', slot, n) ('retain', slot, predicate words...)
# ('clone'|'clonefrom'|'eq', slot, slot2) ('fn', kind, nu, x)
# ('crowd'|'seen'|'drop', slot, nu, x0, stride, n): the n keys (nu, x0 + i*stride units in the last place)
def op_line(o):
    if o[0] == 'fn':
        return '%s %s %s' % (UNCACHED[o[1]], hx(o[2]), hx(o[3]))
    if o[0] in ('call', 'contains', 'get'):
        return 'cache %s %d %s %s' % (o[0], o[1], hx(o[2]), hx(o[3]))
    if o[0] in ('crowd', 'seen', 'drop'):
        return 'cache %s %d %s %s %d %d' % (o[0], o[1], hx(o[2]), hx(o[3]), o[4], o[5])
    return 'cache ' + ' '.join(str(w) for w in o)


def run_sessions(sessions, rel, timeout=240):
    """All sessions of one build at once, each on its own thread of one process; rel says which sessions
    are for the release build.  Returns the reply lines."""
    out = [None] * len(sessions)
    for r in (False, True):
        idx = [i for i in range(len(sessions)) if bool(rel[i]) == r]
        if idx:
            got = one_build([sessions[i] for i in idx], vlib.RELEASE if r else vlib.BIN, timeout)
            if got is None:
                return None
            for i, g in zip(idx, got):
                out[i] = g
    return out


def one_build(sessions, binary, timeout):
    text = '\n---\n'.join('\n'.join(op_line(o) for o in s) for s in sessions) + '\n'
    try:
        p = subprocess.run([binary, '--sessions'], input=text, stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None
    if p.returncode < 0:
        return None     # ended by a signal: an abort, or a stack that overflowed
    if p.returncode != 0:
        raise ToolError('the session driver failed: ' + p.stderr[-500:])
    out = [b.strip('\n').split('\n') for b in p.stdout.split('---\n')[:-1]]
    if [len(x) for x in out] != [len(s) for s in sessions]:
        raise ToolError('the session driver lost replies')
    return out


def kinds_along(ops):
    """kind of the operated slot, per operation"""
    k, out = {}, []
    for o in ops:
        if o[0] == 'make':
            k[o[1]] = o[2]
        elif o[0] == 'clone':
            k[o[1]] = k[o[2]]
        out.append(o[1] if o[0] == 'fn' else k[o[1]])
    return out


def events(ops, replies):
    """Words of the recorded events, each with the index of its operation."""
    ev = []
    kinds = kinds_along(ops)

    def add(i, op, kind=0, slot=0, out=0, k=(0, 0), c=0, d=0, v=()):
        ev.append(([OPS[op], kind, slot, out + 8, k[0], k[1], c, d] + list(v) + [0] * (4 - len(v)), i))
    for i, (o, r) in enumerate(zip(ops, replies)):
        w = r.split()
        ok = w[0] == 'ok'
        vals = [] if o[0] == 'retain' or not ok else w[1:]
        t = o[0]
        if t == 'fn':
            v = [int(x, 16) for x in vals]
            add(i, 'UNCACHED', o[1], 0, len(v) if ok else -1, (bits(o[2]), bits(o[3])), v=v)
        elif t == 'make':
            add(i, 'MAKE', o[2], o[1], 0 if ok else -1)
        elif t == 'call' or t == 'get':
            v = [int(x, 16) for x in vals]
            add(i, t.upper(), 0, o[1], len(v) if ok else -1, (bits(o[2]), bits(o[3])), v=v)
        elif t == 'contains':
            add(i, 'CONTAINS', 0, o[1], 0 if ok else -1, (bits(o[2]), bits(o[3])), v=[int(x) for x in vals])
        elif t in ('len', 'empty'):
            add(i, t.upper(), 0, o[1], 0 if ok else -1, v=[int(x) for x in vals])
        elif t in ('clear', 'shrink'):
            add(i, t.upper(), 0, o[1], 0 if ok else -1)
        elif t == 'reserve':
            add(i, 'RESERVE', 0, o[1], 0 if ok else -1, d=1 if o[2] == IMPOSSIBLE else 0)
        elif t == 'retain':
            for part in r[2:].strip().split(' | ') if ok else []:
                p = part.split()
                if p:
                    add(i, 'VISIT', 0, o[1], 0, (int(p[0], 16), int(p[1], 16)), d=int(p[-1]), v=[int(x, 16) for x in p[2:-1]])
            add(i, 'RETAINED', 0, o[1], 0 if ok else -1)
        elif t in ('clone', 'clonefrom'):
            add(i, 'CLONE', 0, o[1], 0 if ok else -1, c=o[2])
        elif t in ('crowd', 'seen', 'drop'):
            add(i, t.upper(), 0, o[1], 0 if ok else -1, (bits(o[2]), 0), d=o[5], v=[int(x, 16) for x in vals])
        elif t == 'eq':
            add(i, 'EQ', 0, o[1], 0 if ok else -1, c=o[2], v=[int(x) for x in vals])
        else:
            raise ToolError('operation ' + t)
    return ev


def judge_sessions(sessions, replies, work, jobs=8, timeout=700):
    """Quint's verdict on every recorded session: [(session, op index, code)] and counters."""
    def one(a):
        n, (s, r) = a
        ev = events(s, r)
        return n, ev, run_machine([e for e, _ in ev], work, 'shard_c%d' % n, timeout)
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(one, enumerate(zip(sessions, replies))))
    bad, states, total, judged = [], 0, 0, 0
    for n, ev, r in res:
        bad += [(n, ev[pos][1], BAD_PURE if code == 7 else code) for pos, code in r['rejected']]
        states += r['states']
        total += len(ev)
        judged += r['judged']
    return bad, {'states': states, 'events': total, 'judged': judged}


def run_machine(words, work, tag, timeout, block=100000):
    chunks = []
    for j in range(0, len(words), vlib.PER):
        v = 0
        for k, ws in enumerate(words[j:j + vlib.PER]):
            e = 0
            for w in ws:
                e = (e << 64) | w
            v |= e << (768 * k)
        chunks.append('0x%x' % v)
    with open(os.path.join(SPEC, 'cachetrace.qnt')) as f:
        m = f.read().replace('from "./', 'from "%s/' % os.path.relpath(SPEC, work))
    src = os.path.join(work, tag + '.qnt')
    out = os.path.join(work, tag + '.itf.json')
    with open(src, 'w') as f:
        f.write(m + 'module shard {\n  import cachetrace(UNIVERSE = UNIVERSE_, TAPE = TAPE_, COUNT = %d, PER = %d, BLOCK = %d).*\n'
                '  pure val UNIVERSE_: Set[(int, int)] = Set(%s)\n  pure val TAPE_: List[int] = [\n%s\n  ]\n}\n'
                % (len(words), vlib.PER, block, ', '.join('(%d, %d)' % k for k in sorted({(w[4], w[5]) for w in words if w[0] < OPS['CROWD']})),
                   ',\n'.join(chunks)))
    t = vlib.quint_run(src, out, (len(words) + block - 1) // block, timeout, work)
    st = next(v for k, v in t['states'][-1].items() if k == 'st' or k.endswith('::st'))
    i = vlib.itf_int
    if i(st['pos']) != len(words):
        raise ToolError('%s stopped at event %d of %d' % (tag, i(st['pos']), len(words)))
    return {'rejected': [(i(r['pos']), i(r['code'])) for r in st['rejected']], 'judged': i(st['judged']),
            'states': len(t['states'])}


# ---------------------------------------------------------------- argument pairs
def cousins(R, nu, x):
    """pairs that a careless key would confuse with (nu, x)"""
    return [(x, nu), (math.nextafter(nu, 99), x), (nu, math.nextafter(x, 0)), (nu, math.nextafter(x, 9e9)), (float(int(nu)), x),
            (nu, float(int(x)) or 1.0), (nu + 1, x), (nu, x + 1), (nu, x * 2), (round(nu, 6), round(x, 6) or 1.0), (nu + x, x), (nu * 2, x),
            (nu, x * (1 + 1e-7)), (nu + 1e-7, x), (nu, x * (1 + 1e-13)), (dbl(bits(nu) ^ 1), dbl(bits(x) ^ 1)),
            (dbl(bits(nu) + 1), dbl(bits(x) - 1)), (dbl(bits(nu) & ~0xffffffff), x), (nu, dbl(bits(x) & ~0xffffffff)), (nu, nu or 1.0)]


def good_pairs(R, n):
    ps = [(0.0, 1.5), (-0.0, 1.5), (1.5, 2.5), (2.5, 1.5), (0.5, 2.0), (2.0, 0.5), (0.0, 0.25), (-0.0, 0.25)]
    while len(ps) < n:
        nu = R.choice([float(R.randint(0, 30)), R.randint(0, 60) / 2, R.uniform(0, 40)])
        x = R.choice([R.uniform(0.05, 10), R.uniform(0.5, 200), float(R.randint(1, 50))])
        ps.append((nu, x))
        ps += [(a, b) for a, b in R.sample(cousins(R, nu, x), 3) if 0 <= a < 150 and 0.02 < b < 500]
    ps = list(dict.fromkeys((bits(a), bits(b)) for a, b in ps))
    R.shuffle(ps)
    return [(dbl(a), dbl(b)) for a, b in ps[:n]]


BADS = [(1.0, 0.0), (1.0, -1.0), (-1.0, 1.0), (-0.5, 2.5), (1.5, -2.5), (0.0, -0.0), (2.0, -0.0), (-5e-324, 1.0), (-1.5, 0.0)]
NANS = [(60.0, 1e-6), (150.0, 1e-3), (200.0, 0.01), (300.0, 0.1), (2.5, 1e-200), (1.0, 1e-320), (3.0, 1e-150), (0.5, 800.0), (1.0, 750.0),
        (2.5, 900.0), (0.0, math.inf), (100.0, 1e-5), (25.5, 1e-20)]


def classify(pairs):
    """per kind: pair -> 'panic' | 'nan' | 'ok', by asking the uncached functions"""
    cs = [[Call(UNCACHED[k], *p, mode=0) for p in pairs] for k in range(4)]
    out = []
    for row in cs:
        vlib.execute(row)
        out.append({(bits(p[0]), bits(p[1])): 'none' if c.out is None or c.out == -2 else 'panic' if c.out == -1 else
                    'nan' if any(dbl(b) != dbl(b) for b in c.res) else 'ok' for p, c in zip(pairs, row)})
    return out


# ---------------------------------------------------------------- recorded histories
def random_session(R, length, pool, slots=5, weights=None):
    ops = []
    keys = {}
    kind = {}

    def used(k, nu, x):
        if (k, bits(nu), bits(x)) not in keys:
            keys[(k, bits(nu), bits(x))] = 1
            pre.append(('fn', k, nu, x))
    pre = []
    for s in range(slots):
        kind[s] = R.randint(0, 3)
        ops.append(('make', s, kind[s], R.choice(['new', 'default', 'cap']), R.choice([0, 1, 7, 100, 70_000])))
    mains = R.sample(pool, min(len(pool), R.choice([3, 6, 12, len(pool)])))
    while len(ops) < length:
        s = R.randrange(slots)
        t = R.choice(['call'] * 9 + ['get'] * 4 + ['contains'] * 3 + ['len', 'len', 'empty', 'clear', 'shrink', 'reserve',
                      'retain', 'retain', 'clone', 'clonefrom', 'eq', 'eq', 'fn', 'make', 'bad', 'bad'])
        nu, x = R.choice(mains)
        if t == 'call':
            used(kind[s], nu, x)
            ops.append((t, s, nu, x))
            if R.random() < 0.2:
                ops.append((t, s, nu, x))
        elif t == 'bad':
            nu, x = R.choice(BADS)
            used(kind[s], nu, x)
            ops.append(('call', s, nu, x))
            ops.append((R.choice(['get', 'contains']), s, nu, x))
        elif t in ('get', 'contains'):
            ops.append((t, s, nu, x))
        elif t in ('len', 'empty', 'shrink'):
            ops.append((t, s))
        elif t == 'clear':
            if R.random() < 0.4:
                ops.append((t, s))
        elif t == 'reserve':
            ops.append((t, s, R.choice([0, 1, 50, 5000, 150_000, IMPOSSIBLE])))
        elif t == 'retain':
            q = R.choice([('all',), ('odd',), ('nu', hx(R.uniform(0, 30))), ('x', hx(R.uniform(0.1, 60))), ('pos',), ('second',),
                          tuple(['list'] + [hx(v) for p in R.sample(mains, max(1, len(mains) // 2)) for v in p]), ('none',)])
            if q != ('none',) or R.random() < 0.3:
                ops.append((t, s) + q)
        elif t == 'clone':
            o = R.randrange(slots)
            if o != s:
                ops.append((t, s, o))
                kind[s] = kind[o]
        elif t in ('eq', 'clonefrom'):
            os_ = [o for o in range(slots) if kind[o] == kind[s] and (o != s or t == 'eq')]
            if os_:
                ops.append((t, s, R.choice(os_)))
        elif t == 'fn':
            ops.append((t, kind[s], nu, x))
        elif t == 'make' and R.random() < 0.5:
            kind[s] = R.randint(0, 3)
            ops.append((t, s, kind[s], R.choice(['new', 'default', 'cap']), R.choice([0, 3, 64])))
    # every stored pair is looked at in the end
    for s in range(slots):
        ops += [('get', s, *p) for p in mains] + [('len', s), ('retain', s, 'all')]
    # a call only ever meets a function value that was recorded first
    return pre + fill(ops, keys)


def fill(ops, keys):
    """uncached calls for the pairs that reach a cache of another kind through clones"""
    out = []
    for o, k in zip(ops, kinds_along(ops)):
        if o[0] == 'call' and (k, bits(o[2]), bits(o[3])) not in keys:
            keys[(k, bits(o[2]), bits(o[3]))] = 1
            out.append(('fn', k, o[2], o[3]))
        out.append(o)
    return out


def bulk_session(R, kind, n):
    """a large cache: n pairs, all looked up again, halved, compared with a clone, emptied, refilled"""
    ps = [(i % 40 / 2, 0.5 + (i // 40) * 0.37) for i in range(n)]
    R.shuffle(ps)
    ops = [('fn', kind, *p) for p in ps] + [('make', 0, kind, 'new', 0), ('make', 1, kind, 'cap', 3)]
    for i, p in enumerate(ps):
        ops.append(('call', 0, *p))
        if i % 97 == 0:
            ops += [('len', 0), ('get', 0, *ps[i // 2]), ('call', 0, *ps[i // 3])]
    ops += [('len', 0)] + [('get', 0, *p) for p in ps[::3]] + [('call', 0, *p) for p in ps[1::7]]
    ops += [('clone', 1, 0), ('eq', 0, 1), ('retain', 0, 'x', hx(0.5 + n / 40 * 0.37 / 2)), ('len', 0), ('len', 1), ('eq', 0, 1), ('shrink', 0)]
    ops += [('contains', 0, *p) for p in ps[::11]] + [('contains', 1, *p) for p in ps[::13]]
    ops += [('clear', 1), ('len', 1)] + [('call', 1, *p) for p in ps[::17]] + [('len', 1), ('retain', 1, 'all'), ('call', 0, *ps[0]), ('len', 0)]
    ops += [('reserve', 0, 1_500_000), ('len', 0), ('len', 1)] + [('get', 0, *p) for p in ps[::19]] + [('shrink', 0), ('len', 0), ('eq', 0, 1)]
    ops += [('contains', 0, *p) for p in ps[::19]] + [('make', 1, kind, 'cap', 1_200_000), ('len', 1), ('eq', 0, 1)]
    ops += [('call', 1, *p) for p in ps[::29]] + [('len', 1), ('shrink', 1)] + [('get', 1, *p) for p in ps[::29]]
    return ops


def crowd_session(R, kind, n, pool):
    """very large caches: nothing may be lost, mixed up or returned wrongly however much is stored"""
    some = R.sample(pool, 12)
    nus = R.sample([0.25, 0.75, 1.25, 3.75, 5.125, 7.0, 2.0 ** -40], 4)
    g = [(nus[0], R.uniform(1, 2), 1, n // 40), (nus[1], R.uniform(1, 3), R.choice([1 << 20, 1 << 28]), n // 8),
         (nus[2], R.uniform(2, 4), R.choice([3, 1 << 12]), n), (nus[3], R.uniform(0.5, 2), 1 << 32, n // 100)]
    ops = [('fn', kind, *p) for p in some] + [('make', 0, kind, R.choice(['new', 'default', 'cap']), 10), ('make', 1, kind, 'new', 0)]
    ops += [('call', 0, *p) for p in some[:6]] + [('len', 0)]
    for c in g:
        ops += [('crowd', 0, *c), ('len', 0), ('seen', 0, *g[0])] + [('get', 0, *p) for p in some]
    ops += [('call', 0, *p) for p in some[6:]] + [('seen', 0, *c) for c in g] + [('crowd', 0, *g[1]), ('len', 0)]
    ops += [('clone', 1, 0), ('eq', 0, 1), ('drop', 0, *g[1]), ('len', 0), ('eq', 0, 1), ('shrink', 0), ('seen', 0, *g[1]), ('seen', 1, *g[1]),
            ('seen', 0, *g[2]), ('reserve', 0, 1_000_000), ('len', 0), ('drop', 0, *g[1]), ('clonefrom', 0, 1), ('eq', 0, 1), ('seen', 0, *g[1]),
            ('clear', 1), ('empty', 1), ('len', 1), ('seen', 1, *g[0]), ('crowd', 1, *g[0]), ('len', 1), ('len', 0), ('empty', 0)]
    ops += [(t, s, *p) for t in ('get', 'contains') for s in (0, 1) for p in some]
    return ops


def corner_session(R, kind, pool):
    """pairs that a careless key would confuse, entered in both orders into fresh caches"""
    ops, keys = [], {}
    for p in pool:
        if ('k', bits(p[0]), bits(p[1])) not in keys:
            keys[('k', bits(p[0]), bits(p[1]))] = 1
            ops.append(('fn', kind, *p))
    for order in (pool, pool[::-1]):
        ops.append(('make', 0, kind, 'new', 0))
        for p in order:
            ops += [('contains', 0, *p), ('call', 0, *p), ('get', 0, *p), ('call', 0, *p), ('len', 0)]
        ops += [('get', 0, *p) for p in order] + [('retain', 0, 'all')]
    return ops


# ---------------------------------------------------------------- sweeps: find the histories worth judging
def odd_replies(ops, direct):
    """Positions at which one cache, filled by calls, answers other than the function did.  Runs
    natively and decides nothing: a history found this way is judged as a recorded session."""
    try:
        p = subprocess.run([vlib.BIN], input='\n'.join(op_line(o) for o in ops) + '\n', stdout=subprocess.PIPE,
                           stderr=subprocess.DEVNULL, text=True, timeout=120)
    except subprocess.TimeoutExpired:
        return []
    out = p.stdout.rstrip('\n').split('\n')
    held, odd = set(), []
    for i, (o, r) in enumerate(zip(ops, out)):
        if o[0] == 'make':
            held = set()
        elif o[0] == 'call':
            if r != direct[bits(o[2]), bits(o[3])]:
                odd.append(i)
            if r[:2] == 'ok':
                held.add((bits(o[2]), bits(o[3])))
        elif o[0] == 'get':
            if (r == direct[bits(o[2]), bits(o[3])]) != ((bits(o[2]), bits(o[3])) in held):
                odd.append(i)
        elif o[0] == 'len' and r != 'ok %d' % len(held):
            odd.append(i)
    return odd


def shrink_history(ops, direct, runs=30):
    """A short history that still ends in an odd reply"""
    odd = odd_replies(ops, direct)
    if not odd:
        return None
    ops = ops[:odd[0] + 1]
    size = (len(ops) - 2) // 2
    while size >= 1 and runs > 0:
        i = 1
        while i < len(ops) - 1 and runs > 0:
            trial = ops[:i] + ops[min(i + size, len(ops) - 1):]
            odd = odd_replies(trial, direct)
            runs -= 1
            if odd:
                ops = trial[:odd[0] + 1]
            else:
                i += size
        size //= 2 if size < 64 else 4
    return ops if len(ops) < 3000 else None


def wide_pairs(R, n):
    ps = []
    while len(ps) < n:
        r = R.random()
        nu = R.choice([0.0, -0.0, float(R.randint(0, 60)), R.randint(0, 120) / 2, R.uniform(0, 40), R.uniform(0, 40), R.uniform(0, 100), math.exp(R.uniform(-700, 0)), R.randint(0, 40) + 2.0 ** -R.randint(3, 50)])
        x = R.choice([R.uniform(0.05, 10), R.uniform(0.5, 200), float(R.randint(1, 60)), R.randint(1, 200) / 4, math.exp(R.uniform(-300, 0)), nu + 1, 2.0 ** R.randint(-40, 8)])
        ps.append((nu, x))
        more = [(dbl(bits(nu) ^ 1 << R.randrange(52)), dbl(bits(x) ^ 1 << R.randrange(52))) for _ in range(3)]
        more.append((dbl(bits(nu) + 1), dbl(bits(x) - R.choice([31, 33, 37, 65599, 131, 1000003, R.randrange(1, 70)]))))
        ps += [(a, b) for a, b in R.sample(cousins(R, nu, x), 8) + more if 0 <= a < 150 and 0 < b < 500]
        if r < 0.01:
            ps += R.sample(BADS, 2) + R.sample(NANS, 1)
    return [(dbl(a), dbl(b)) for a, b in dict.fromkeys((bits(a), bits(b)) for a, b in ps)][:n]


def sweep(R, n, parts):
    """Histories of caches with very many different keys; the odd ones come back, shortened"""
    def one(job):
        k, seed = job
        Q = random.Random(seed)
        ps = wide_pairs(Q, n)
        lines = ['%s %s %s' % (UNCACHED[k], hx(a), hx(b)) for a, b in ps]
        out = bulk(lines)
        if out is None:
            return None, 0
        direct = {(bits(a), bits(b)): r for (a, b), r in zip(ps, out)}
        order = ps[:]
        Q.shuffle(order)
        ops = [('make', 0, k, 'new', 0)] + [('call', 0, *p) for p in ps] + [('len', 0)] + [('get', 0, *p) for p in order]
        ops += [('make', 0, k, 'cap', 64)]
        for i, p in enumerate(order):
            ops += [('call', 0, *p), ('get', 0, *order[i // 2]), ('get', 0, *ps[i])]
        ops += [('call', 0, *p) for p in ps] + [('len', 0)]
        if not odd_replies(ops, direct):
            return None, len(ops)
        h = shrink_history(ops, direct)
        if h:
            seen = list(dict.fromkeys((bits(o[2]), bits(o[3])) for o in h if o[0] in ('call', 'get')))
            h = [('fn', k, dbl(a), dbl(b)) for a, b in seen] + h
        return h, len(ops)
    jobs = [(k, R.random()) for k in range(4) for _ in range(parts)]
    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, jobs))
    return [h for h, _ in res if h], sum(c for _, c in res)


# ---------------------------------------------------------------- behaviours of the model, replayed
def model_traces(work, seed, n, steps):
    for f in glob.glob(os.path.join(work, 'model_*.itf.json')):
        os.unlink(f)
    out = os.path.join(work, 'model_{seq}.itf.json')
    p = subprocess.run(['quint', 'run', os.path.join(SPEC, 'cache.qnt'), '--main=cachemodel', '--backend=typescript',
                        '--invariant=properties', '--max-samples=%d' % n, '--n-traces=%d' % n, '--max-steps=%d' % steps,
                        '--seed=%d' % seed, '--verbosity=1', '--out-itf=%s' % out], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True, cwd=work, timeout=600)
    fs = sorted(glob.glob(os.path.join(work, 'model_*.itf.json')))
    if p.returncode != 0 or not fs:
        raise ToolError('the cache model violates its own properties or did not run:\n' + p.stdout[-1500:])
    traces = []
    for f in fs:
        with open(f) as h:
            t = json.load(h)
        traces.append([next(v for k, v in s.items() if k == 'last' or k.endswith('::last')) for s in t['states']])
        os.unlink(f)
    return traces


# the crowds of the model, and keys that stand for them: orders no argument pair of the universe has
CROWDS = {1: (0.0625, 1.5, 1, 3), 2: (0.03125, 2.5, 1 << 30, 100)}
CROWD_NUS = {hx(c[0]) for c in CROWDS.values()}


def replay_plan(R, trace, good, nans, bads):
    """One behaviour of the model as operations on real caches, with what the model says is seen."""
    i = vlib.itf_int
    conc = []
    for k in range(4):
        g = R.sample(good[k], 6)
        conc.append({**{j + 1: g[j] for j in range(6)}, 7: R.choice(nans[k]) if nans[k] else None,
                     8: bads[k][0], 9: R.choice(bads[k][1:])})
    ops = [('fn', k, *p) for k in range(4) for p in conc[k].values() if p]
    want = [None] * len(ops)
    kind = {}

    def put(o, w):
        ops.append(o)
        want.append(w)
    for s in range(4):
        put(('make', s, s % 4, 'new', 0), None)
        kind[s] = s % 4
    for o in trace[1:]:
        op, s, t = i(o['op']), i(o['slot']), i(o['other'])
        key, count, found = i(o['key']), i(o['count']), o['found']
        p = conc[kind[s]].get(key)
        keep = {i(x) for x in o['keep']['#set']}
        seen = {i(x) for x in o['visited']['#set']}
        if 3 <= op <= 4 and p is None or op == 2 and p is None:
            return ops, want           # no pair with NaN values exists: the behaviour ends here
        if op == 1:
            put(('make', s, t, ['new', 'default', 'cap', 'cap'][count], count * 30), None)
            kind[s] = t
        elif op == 2:
            put(('call', s, *p), 'panic' if o['panicked'] else ('value', kind[s], p))
        elif op == 3:
            put(('contains', s, *p), 'ok %d' % found)
        elif op == 4:
            put(('get', s, *p), ('value', kind[s], p) if found else 'ok')
        elif op == 5:
            put(('len', s), 'ok %d' % count)
        elif op == 6:
            put(('empty', s), 'ok %d' % found)
        elif op == 7:
            put(('clear', s), 'ok')
        elif op == 8:
            put(('shrink', s), 'ok')
        elif op == 9:
            put(('reserve', s, [0, 20, 5000, 150_000][count]), 'ok')
        elif op == 10:
            cs = conc[kind[s]]
            lst = [hx(v) for j in sorted(keep) if cs[j] for v in cs[j]]
            put(('retain', s, 'list', *lst), ('visited', [(cs[j], j in keep, kind[s]) for j in seen]))
        elif op == 11:
            if s != t:
                put(('clone', s, t), 'ok')
            kind[s] = kind[t]
        elif op == 12:
            put(('eq', s, t), 'ok %d' % found)
        elif op == 13:
            put(('clonefrom', s, t), 'ok')
        elif op == 14:
            put(('reserve', s, IMPOSSIBLE), 'panic')
        elif op == 15:
            put(('crowd', s, *CROWDS[key]), 'ok %x' % count)
        elif op == 16:
            put(('drop', s, *CROWDS[key]), 'ok %x' % count)
    return ops, want


def compare(ops, want, replies):
    fun = {}
    bad = []
    for n, (o, w, r) in enumerate(zip(ops, want, replies)):
        if o[0] == 'fn':
            fun[(o[1], bits(o[2]), bits(o[3]))] = r
            continue
        if w is None:
            continue
        if isinstance(w, tuple) and w[0] == 'value':
            w = fun[(w[1], bits(w[2][0]), bits(w[2][1]))]
        elif isinstance(w, tuple):
            w = sorted('%s %s%s %d' % (hx(p[0]), hx(p[1]), fun[(k, bits(p[0]), bits(p[1]))][2:], kept) for p, kept, k in w[1])
            r = sorted(x for x in r[3:].split(' | ') if x and not (x[:16] in CROWD_NUS and x.endswith(' 0')))
        if w != r:
            bad.append((n, BAD_CALL if o[0] == 'call' else BAD_MAP))
    return bad


# ---------------------------------------------------------------- interference
def lineage(ops, idx):
    """The operations that may legitimately influence operation idx."""
    o = ops[idx]
    slots = {o[1], o[2]} if o[0] in ('eq', 'clonefrom', 'clone') else {o[1]}
    if o[0] == 'clone':
        slots = {o[2]}
    rel = [idx]
    for i in range(idx - 1, -1, -1):
        p = ops[i]
        if p[0] == 'fn':
            continue
        if p[1] not in slots:
            continue
        rel.append(i)
        if p[0] == 'make':
            slots.discard(p[1])
        elif p[0] in ('clone', 'clonefrom'):
            slots.discard(p[1])
            slots.add(p[2])
    return [('clone',) + ops[i][1:] if ops[i][0] == 'clonefrom' else ops[i] for i in reversed(rel)]


def interferes(ops, idx, reply, rel):
    """Does the wrong reply disappear when only the cache's own history is run?"""
    r = run_sessions([lineage(ops, idx)], [rel])
    return r is not None and r[0][-1] != reply


def show(o, r):
    a = list(o)
    if o[0] == 'fn':
        return '%s(%r, %r) -> %s' % (UNCACHED[o[1]], o[2], o[3], r)
    return '%s(%s) -> %s' % (o[0], ', '.join(str(x) for x in a[1:]), r[:120])


def caches(pid):
    def check(seed, tier, work, replay):
        R = random.Random('cache-%d' % seed)
        big = tier != 'quick'
        if replay:
            with open(replay) as f:
                sessions = [[tuple(o) for o in v['replay_ops']] for v in json.load(f)['violations']]
            sessions += [list(o) for o in sessions]
            plans, odd, swept = [], [], 0
        else:
            cand = good_pairs(R, 400 if big else 160)
            cls = classify(cand + NANS + BADS)
            ok = [[p for p in cand if c[(bits(p[0]), bits(p[1]))] == 'ok'] for c in cls]
            nan = [[p for p in NANS if c[(bits(p[0]), bits(p[1]))] == 'nan'] for c in cls]
            bad_ = [[p for p in BADS if c[(bits(p[0]), bits(p[1]))] == 'panic'] for c in cls]
            if min(map(len, ok)) < 40 or min(map(len, bad_)) < 2:
                raise ToolError('too few argument pairs compute or panic')
            pool = [p for p in cand if all(c[(bits(p[0]), bits(p[1]))] == 'ok' for c in cls)]
            mixed = pool + [p for p in NANS if all(c[(bits(p[0]), bits(p[1]))] in ('ok', 'nan', 'panic') for c in cls)]
            plans = [replay_plan(R, t, ok, nan, bad_) for t in model_traces(work, seed, 400 if big else 60, 60)]
            plans = [p for p in plans if len(p[0]) > 60]
            n = 24 if big else 6
            sessions = [random_session(R, 1500 if big else 700, R.sample(mixed, min(len(mixed), R.choice([8, 30, 100])))) for _ in range(n)]
            sessions += [bulk_session(R, k, 6000 if big else 1200) for k in (R.sample(range(4), 4) if big else R.sample(range(4), 2))]
            sessions += [crowd_session(R, k, 600000 if big else 140000, pool) for k in range(4)]
            sessions += [corner_session(R, k, R.sample(pool, min(len(pool), 60))) for k in range(4)]
            odd, swept = sweep(R, 40000, 10 if big else 2)
            sessions += odd
            # the model's behaviours are also judged as recorded sessions, many to a tape
            if big:
                sessions.append([o for p in plans[:40] for o in p[0]])
        t0 = time.time()
        everything = [p[0] for p in plans] + sessions
        # every other session of each sort in the release build
        rel = [(i + seed) % 2 == 1 for i in range(len(everything))]
        if replay:
            rel = [i >= len(sessions) // 2 for i in range(len(sessions))]
        rel_of = {id(o): r for o, r in zip(everything, rel)}
        replies = run_sessions(everything, rel)
        if replies is None:
            return {'bad': [('cache-session', 'the cache sessions did not finish')], 'summary': 'no return',
                    'coverage': {'states': 1, 'transitions': 0, 'traces_validated_against_impl': 0, 'samples': ['-']}}
        bad = []
        for (ops, want), r in zip(plans, replies):
            bad += [(ops, r, i, code) for i, code in compare(ops, want, r)]
        rec, cnt = judge_sessions(sessions, replies[len(plans):], work)
        bad += [(sessions[n], replies[len(plans) + n], i, code) for n, i, code in rec]
        kinds = {}
        for s in [p[0] for p in plans] + sessions:
            for o in s:
                kinds[o[0]] = kinds.get(o[0], 0) + 1
        out, tested, firsts = [], 0, {}
        for ops, r, i, code in bad:
            k = (id(ops), code)
            firsts[k] = firsts.get(k, 0) + 1
            if firsts[k] > 3:
                continue
            if code == BAD_PURE:
                continue
            if pid == 'P24' and code == BAD_MAP:
                if tested >= 12 or ops[i][0] == 'fn':
                    continue
                tested += 1
                if not interferes(ops, i, r[i], rel_of[id(ops)]):
                    continue
                text = 'another cache interferes'
            elif pid == 'P25' and code == BAD_CALL:
                continue
            else:
                text = WHAT[code]
            ks = kinds_along(ops)
            out.append(('%s %s' % (TYPES[ks[i]], op_line(ops[i])), '%s, step %d of a session on %s%s: %s' % (text, i, TYPES[ks[i]], ' (release build)' if rel_of[id(ops)] else '', show(ops[i], r[i])),
                        [list(o) for o in ops[:i + 1]]))
        ops_n = sum(len(p[0]) for p in plans)
        cov = {'states': cnt['states'] + ops_n, 'transitions': ops_n + cnt['events'],
               'traces_validated_against_impl': len(plans) + len(sessions), 'model_behaviours_replayed': len(plans),
               'recorded_sessions_judged': len(sessions), 'histories_in_the_release_build': sum(rel), 'recorded_events': cnt['events'], 'operations_swept': swept, 'odd_histories_found_by_the_sweep': len(odd), 'operations': kinds,
               'samples': [show(*R.choice(list(zip(s, r)))) for s, r in list(zip(sessions, replies[len(plans):]))[:6]]}
        if big and not replay:
            cov['inductive_proof'] = prove(work)
        return {'bad': out, 'coverage': cov,
                'summary': '%d behaviours of the model replayed, %d recorded sessions judged, %d operations, %d rejected'
                           % (len(plans), len(sessions), ops_n + sum(map(len, sessions)), len(bad)),
                'assumptions': ['Histories are sampled; the model itself is verified for histories of any length over a small universe.']}
    return check


def prove(work):
    """Apalache: one step from any state that satisfies the invariant ends in one, and every observation is right."""
    p = subprocess.run(['quint', 'verify', os.path.join(SPEC, 'cache.qnt'), '--main=cacheproof', '--init=initAny',
                        '--invariant=properties', '--max-steps=1', '--server-endpoint=localhost:%d' % random.randint(20000, 40000)],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, cwd=work, timeout=700)
    if '[ok]' not in p.stdout:
        raise ToolError('the cache model could not be verified:\n' + p.stdout[-1500:])
    return 'quint verify: properties hold after one step from every state (3 caches, 2 kinds, 4 argument pairs)'


CHECKS = {'P24': caches('P24'), 'P25': caches('P25')}


# ---------------------------------------------------------------- purity (P27)
def base_calls(R, scale):
    """Calls of every function from every region the value checks know, panics and NaN included."""
    seen, per = {}, {}
    for p in ['P%02d' % i for i in list(range(1, 24)) + [26]]:
        groups = getattr(gen, 'gen_' + p)(random.Random(R.random()), 1)
        R.shuffle(groups)
        for g in groups[:400]:
            for c in g:
                n = per.get(c.fn, 0)
                if n < 45 * scale and c.line() not in seen and R.random() < 0.35:
                    seen[c.line()] = Call(c.fn, *c.args, mode=3)
                    per[c.fn] = n + 1
    # the draw can leave a function short: top it up from everything the generators know about it
    short = {fn for fn in vlib.FN if per.get(fn, 0) < 20}
    if short:
        for p in ['P%02d' % i for i in list(range(1, 24)) + [26]]:
            groups = getattr(gen, 'gen_' + p)(random.Random(R.random()), 1)
            R.shuffle(groups)
            for g in groups:
                for c in g:
                    if c.fn in short and per.get(c.fn, 0) < 20 and c.line() not in seen:
                        seen[c.line()] = Call(c.fn, *c.args, mode=3)
                        per[c.fn] = per.get(c.fn, 0) + 1
    for fn in vlib.FN:
        if per.get(fn, 0) < 8:
            raise ToolError('too few calls of ' + fn)
    return list(seen.values())


def threaded(binary, n, rounds, calls, timeout, more=0):
    """The driver's answer lines for the calls on n threads, or None and what happened instead."""
    try:
        p = subprocess.run([binary, '--threads', str(n), str(rounds)], input='\n'.join(c.line() for c in calls) + '\n',
                           stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return None, 'do not finish'
    lines = p.stdout.strip().split('\n')
    if p.returncode or len(lines) != len(calls) + more:
        return None, 'do not survive (status %d)' % p.returncode
    return lines, ''


def relatives(R, c):
    """Calls that share a part of c's arguments, or arguments that look alike after rounding."""
    kinds = vlib.KINDS[c.fn]
    out = []
    for j, k in enumerate(kinds):
        a = list(c.args)
        v = a[j]
        if k == 'n':
            opts = [v + 1, max(0, v - 1), v + 2] if c.fn != 'lambert_w' else [v + 1, v - 1]
        elif v != v or math.isinf(v) or v == 0:
            opts = [1.0, -v if v == v else 2.0]
        else:
            opts = [-v, math.nextafter(v, math.inf), v * 1.0000001, v * 1.01, float(int(v)) if abs(v) < 1e9 else v / 2, v + 0.5, v * 2,
                    dbl(bits(v) & ~0x1fffffff), 1 - v]
        for o in R.sample(opts, min(3, len(opts))):
            a[j] = o
            out.append(Call(c.fn, *a, mode=3))
    if kinds == 'ff' or kinds == 'fff':
        out.append(Call(c.fn, c.args[1], c.args[0], *c.args[2:], mode=3))
    return out


def slow(c):
    """Arguments outside every domain of accuracy that are allowed to take long."""
    for v, k in zip(c.args, vlib.KINDS[c.fn]):
        if k == 'n' and c.fn in ('Jn', 'Yn', 'In', 'Kn') and v > 2000:
            return True
        if k == 'f' and c.fn in ('besseljy', 'besselik', 'Jnu_Ynu', 'Inu_Knu') and (abs(v) > 600 or v != v):
            return True
        if k == 'f' and c.fn in ('Jn', 'Yn', 'In', 'Kn') and abs(v) > 1e5 and v == v and not math.isinf(v):
            return True
    return False


def runs_of(calls, work_calls):
    return [Call(c.fn, *c.args, mode=3) for c in work_calls]


def bulk(lines):
    """The outcomes of a long history in one process, as text"""
    try:
        p = subprocess.run([vlib.RELEASE], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, text=True, timeout=200)
    except subprocess.TimeoutExpired:
        return None
    out = p.stdout.rstrip('\n').split('\n')
    return out if p.returncode == 0 and len(out) == len(lines) else None


def wide_histories(seed, tier):
    """Very many calls in several orders, a process each.  The calls that had two outcomes are
    returned, one event per outcome, for the specification to judge."""
    R = random.Random('wide-%d' % seed)
    pool = {}
    scale = 2 if tier == 'quick' else 12
    for p in ['P%02d' % i for i in list(range(1, 24)) + [26]]:
        for g in getattr(gen, 'gen_' + p)(random.Random(R.random()), scale):
            for c in g:
                if not slow(c):
                    pool.setdefault(c.line(), c)
    base = list(pool.values())
    for c in R.sample(base, min(len(base), 15000 * scale)):
        for r in relatives(R, c):
            if not slow(r):
                pool.setdefault(r.line(), r)
    calls = list(pool.values())
    n = len(calls)
    last = lambda i: (calls[i].fn, [-1e400 if v != v else v for v in calls[i].args[::-1]])
    first = lambda i: (calls[i].fn, [-1e400 if v != v else v for v in calls[i].args])
    up, by_last = sorted(range(n), key=first), sorted(range(n), key=last)
    sh = []
    for _ in range(3):
        o = list(range(n))
        R.shuffle(o)
        sh.append(o)
    args = sorted(range(n), key=lambda i: first(i)[::-1])
    orders = [('upwards', up), ('downwards', up[::-1]), ('by last argument', by_last), ('by last argument, downwards', by_last[::-1]),
              ('shuffled', sh[0]), ('shuffled back', sh[0][::-1]), ('shuffled again', sh[1]), ('across functions', args)]
    lines = [c.line() for c in calls]
    with ThreadPoolExecutor(8) as ex:
        outs = list(ex.map(lambda o: bulk([lines[i] for i in o[1]]), orders))
    seen, done = [{} for _ in range(n)], 0
    for (name, o), out in zip(orders, outs):
        if out is None:
            continue
        done += 1
        for i, t in zip(o, out):
            seen[i].setdefault(t, name)
    twice = [i for i in range(n) if len(seen[i]) > 1]
    found = []
    for i in R.sample(twice, min(len(twice), 200)):
        for t, name in list(seen[i].items())[:2]:
            w = t.split()
            x = Call(calls[i].fn, *calls[i].args, mode=3)
            x.rel = True
            x.out, x.res = (len(w) - 1, [int(v, 16) for v in w[1:]]) if w[0] == 'ok' else (-1, [])
            found.append((name, x))
    return found, n, done


def outcomes(c, line, rel=False):
    xs = []
    for o in line.split(' | '):
        x = Call(c.fn, *c.args, mode=3)
        x.rel = rel
        w = o.split()
        x.out, x.res = (len(w) - 1, [int(t, 16) for t in w[1:]]) if w[0] == 'ok' else (-1, [])
        xs.append(x)
    return xs


def purity(seed, tier, work, replay):
    R = random.Random('pure-%d' % seed)
    scale = 1 if tier == 'quick' else 4
    base = [c for c in base_calls(R, scale) if not slow(c)]
    clusters = []
    for c in base:
        rel = [r for r in relatives(R, c) if not slow(r)]
        clusters.append((c, R.sample(rel, min(len(rel), 3))))
    every = {}
    for c, rel in clusters:
        for x in [c] + rel:
            every.setdefault(x.line(), x)
    if replay:
        with open(replay) as f:
            keep = {v['replay'] for v in json.load(f)['violations']}
        every = {k: v for k, v in every.items() if k in keep} or every
    uniq = list(every.values())

    def copy(cs):
        return [Call(c.fn, *c.args, mode=3) for c in cs]
    plans = []
    # plain order, reversed and twice shuffled, in one process each
    a, b = copy(uniq), copy(uniq[::-1])
    R.shuffle(b)
    plans.append(('in order', a))
    plans.append(('shuffled, twice', b + copy(R.sample(uniq, len(uniq)))))
    # neighbours: base, relative, base, relative, base
    near = []
    for c, rel in R.sample(clusters, len(clusters)):
        near += [c] + [y for r in rel for y in (r, c)] + rel
    plans.append(('between relatives', copy(near)))
    # every call repeated back to back, by function
    plans.append(('by function, repeated', [x for c in sorted(uniq, key=lambda c: c.fn) for x in copy([c, c])]))
    # the same in the release build, compared among themselves only
    for name, p in plans[:2]:
        p = copy(p)
        for c in p:
            c.rel = True
        plans.append((name + ', release build', p))
    with ThreadPoolExecutor(6) as ex:
        list(ex.map(lambda p: vlib.execute(p[1]), plans))
    # a process of its own for a sample: no history at all
    alone = copy(R.sample([c for c, _ in clusters], min(len(clusters), 500 * scale)) + R.sample(uniq, min(len(uniq), 200 * scale)))
    with ThreadPoolExecutor(8) as ex:
        list(ex.map(lambda c: vlib.execute([c]), alone))
    plans.append(('alone in a process', alone))
    # eight threads at once
    hung = {c.line() for _, p in plans for c in p if c.out in (None, -2)}
    conc = [c for c in copy(uniq) if c.line() not in hung]
    rounds = 4 if tier == 'quick' else 30
    # every one of these calls returned when it ran on a single thread, so a run that hangs or dies is the threads' doing
    stuck = []
    lines, why = threaded(vlib.BIN, 8, rounds, conc, 240 if tier == 'quick' else 500)
    if lines is None:
        stuck.append(('threads', 'calls that return on one thread %s on eight threads' % why))
        conc_judged = []
    else:
        conc_judged = list(zip(conc, lines))
    threads = []
    for c, ln in conc_judged:
        threads += outcomes(c, ln)
    plans.append(('on eight threads', threads))
    # millions of calls on one thread, and on three
    worn = 0
    fast = R.sample(conc, min(len(conc), 1500))
    for n in () if replay or stuck else (1, 3):
        lines, why = threaded(vlib.RELEASE, n, -8 if tier == 'quick' else -120, fast, 240 if tier == 'quick' else 500, 1)
        if lines is None:
            stuck.append(('threads', 'calls that return one by one %s in a long run on %d threads' % (why, n)))
            continue
        worn += int(lines[-1]) * n * len(fast)
        many = [x for c, ln in zip(fast, lines) for x in outcomes(c, ln, True)]
        plans.append(('in a long run', many))
    found, wide, orders = wide_histories(seed, tier) if not replay else ([], 0, 0)
    for name, c in found:
        plans.append((name, [c]))
    # one group per call: every occurrence of it, wherever it happened
    groups, where = {}, {}
    for name, p in plans:
        for c in p:
            if c.out is None or c.out == -2:
                continue
            g = groups.setdefault((c.rel, c.line()), [])
            if sum(1 for x in g if (x.out, x.res) == (c.out, c.res)) < 4 or name in ('on eight threads', 'in a long run'):
                g.append(c)
                where[id(c)] = name
    total = sum(len(p) for _, p in plans) + (8 * rounds - 1) * len(conc) + wide * orders + worn
    # the machine remembers outcomes: one machine per build
    r = vlib.judge([g for k, g in groups.items() if not k[0]], work)
    r2 = vlib.judge([g for k, g in groups.items() if k[0]], work)
    bad, seen = stuck, set()
    for g, c, code, use in r['bad'] + r2['bad']:
        if c.line() not in seen:
            seen.add(c.line())
            bad.append((c.line(), 'same call, different outcome: %s (%s), elsewhere %s (%s)' % (c.show(), where[id(c)], g[0].show(), where[id(g[0])])))
    return {'bad': bad, 'summary': '%d calls of %d distinct argument tuples in %d histories, %d rejected' % (total, len(uniq), len(plans) + 8, len(bad)),
            'coverage': {'states': r['states'] + r2['states'], 'transitions': r['calls'] + r2['calls'], 'traces_validated_against_impl': r['shards'] + r2['shards'],
                         'calls_executed': total, 'wide_histories': orders, 'calls_of_the_long_runs': worn, 'distinct_calls_in_each': wide, 'wide_calls_with_two_outcomes': len(found) // 2, 'distinct_calls': len(uniq), 'histories': [n for n, _ in plans],
                         'panicking_calls': sum(1 for g in groups.values() if g[0].out == -1),
                         'samples': [g[0].show() for g in random.Random(seed).sample(list(groups.values()), 6)]},
            'assumptions': ['Histories and interleavings are sampled.']}


CHECKS['P27'] = purity
