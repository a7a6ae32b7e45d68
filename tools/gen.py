"""Call plans, one generator per property.  A plan is a list of groups; a group is a list of calls
judged together (a single call judged by value, or several calls judged by a law).  Every generator
takes a seeded random source and a scale (1 = quick).  The regions are chosen from the mathematics
and from the places where the implementation changes method; what is admissible is decided by the
Quint specification alone."""
import math, random
from vlib import Call

INF, NAN = math.inf, math.nan
TINY, MINN, MAX = 5e-324, 2.2250738585072014e-308, 1.7976931348623157e308
E_INV = 0.36787944117144233


# ---------------------------------------------------------------- samplers
def span(R, lo, hi, n):
    """n stratified log-uniform values"""
    a, b = math.log(lo), math.log(hi)
    return [min(hi, max(lo, math.exp(a + (b - a) * (i + R.random()) / n))) for i in range(n)]


def lin(R, lo, hi, n):
    return [lo + (hi - lo) * (i + R.random()) / n for i in range(n)]


def ulp(x, k):
    for _ in range(abs(k)):
        x = math.nextafter(x, INF if k > 0 else -INF)
    return x


def around(xs, rels=(1e-12, 1e-9, 1e-6, 1e-3)):
    out = []
    for x in xs:
        out += [x, ulp(x, 1), ulp(x, -1)]
        for r in rels:
            out += [x * (1 + r), x * (1 - r)] if x else [r, -r]
    return out


def one(fn, *args):
    return [Call(fn, *args, mode=1)]


def grp(law, *calls):
    cs = [Call(*c, mode=0) for c in calls]
    cs[-1] = Call(*calls[-1], mode=0, law=law)
    return cs


def pick(R, xs, n):
    """n values from xs (all of them, shuffled, when there are not more)"""
    xs = list(xs)
    R.shuffle(xs)
    return xs[:n]


# ---------------------------------------------------------------- P01-P03
def gamma_args(R, s):
    xs = lin(R, -184, 172, 900 * s) + lin(R, -5, 5, 300 * s) + lin(R, 0, 3, 60 * s)
    xs += span(R, 1e-307, 1, 150 * s) + [-x for x in span(R, 1e-307, 1, 150 * s)]
    ints = [float(n) for n in range(-184, 173)]
    xs += [n for n in ints if n]
    for n in ints:
        d = 2.0 ** -R.randrange(1, 45) * (1 + R.random())
        xs += [n + 0.5, n + R.choice([d, -d])]
    for n in range(-30, 31):
        xs += [ulp(float(n), 1), ulp(float(n), -1)]
    xs += around([171.624376956302, 171.624376956303, 171.6243769563027, 3.5, 2.5, 3.0, 1.0, 2.0, 0.5, -0.5, 171.0, 170.0, 141.0])
    xs += [171.62437695630, 171.63, 172.5, 180.0, 200.5, 1e3, 1e10, 1e300, MAX, INF, -INF, NAN, 0.0, -0.0, TINY, -TINY,
           1e-308, -1e-308, 5.6e-309, 5.5e-309, -5.6e-309, -184.5, -190.5, -200.25, -1000.5, -1e5 - 0.5, -1e9 - 0.5,
           -4503599627370495.5, -4503599627370496.0, -9007199254740993.0, -1e300, -MAX, -170.5, -171.5, -172.5, -177.5, -178.5]
    return xs


def gen_P01(R, s):
    return [one('gamma', x) for x in gamma_args(R, s)]


def gen_P02(R, s):
    xs = span(R, 1e-300, 1e300, 900 * s) + lin(R, 0.001, 12, 500 * s) + span(R, 1e-3, 1e4, 400 * s) + span(R, 1e-20, 1e20, 200 * s)
    xs += around([2.5, 3.5, 3.0, 1.0, 2.0, 0.5, 1e-300, 1e300, 171.6, 100.0]) + [float(n) for n in range(1, 200)]
    xs += [n + 0.5 for n in range(0, 100)] + [1e-300, 1e300, NAN]
    return [one('ln_gamma', x) for x in xs if not x < 1e-300 and not x > 1e300]


def gen_P03(R, s):
    ns = list(range(0, 260)) + [1000, 10**6, 2**31 - 1, 2**31, 2**32, 2**32 + 5, 2**53, 2**63, 2**64 - 1]
    ns += [R.randrange(171, 10**12) for _ in range(40 * s)] + [R.randrange(0, 200) for _ in range(200 * s)]
    g = [one('factorial', n) for n in ns]
    g += [grp('GAMMA_FACT', ('gamma', float(n)), ('factorial', n - 1)) for n in range(1, 172)]
    g += [grp('FACT_REC', ('factorial', n), ('factorial', n + 1)) for n in range(0, 180)]
    return g


# ---------------------------------------------------------------- P04-P06
SPECIAL_A = [1e-9, 1e-6, 0.001, 0.5, 1.0, 1.5, 2.0, 3.0, 5.0, 10.0, 50.0, 99.0, 99.5, 100.0, 100.5, 101.0, 150.0, 1000.0, 1e4]


def related(R, v, lo, hi, *others):
    """In the scan: now and then an argument that is in a simple relation to another one"""
    if not getattr(R, 'common', None) or R.random() > 0.15:
        return v
    w = float(R.choice(others))
    k = R.choice(R.fresh if R.fresh and R.random() < 0.5 else R.common) if R.random() < 0.5 else float(R.choice([1, 2, 3, 4, 5, 8, 10, 0.5, 0.25, 0.1]))
    try:
        v2 = R.choice([w, w, w + 1, w - 1, 1 - w, 1 - w, w / 2, 2 * w, w + 2, 0.5 - w, w + 0.5, w * k, w / k, w + k, k - w, w * w, math.sqrt(w), 1 / w, w / (w + 1)])
    except (ValueError, ZeroDivisionError, OverflowError):
        return v
    return v2 if lo <= v2 <= hi else v


def p_args(R, s, amax=1e5, n=500):
    out = []
    avals = span(R, 1e-3, min(amax, 1e4), n * s) + span(R, 1e-9, 1e-2, n * s // 6) + span(R, 0.3, 300, n * s) + span(R, 90, 400, n * s // 3)
    if amax > 1e4:
        avals += span(R, 1e4, amax, max(4, n * s // 40))
    avals += [a for a in SPECIAL_A for _ in range(6 * s)] + around([100.0, 1.0, 99.0])
    avals += [float(R.randrange(1, 150)) for _ in range(n * s // 3)]
    for a in avals:
        r = R.random()
        sa = math.sqrt(a)
        if r < 0.4:
            x = a + R.uniform(-8, 8) * sa
        elif r < 0.55:
            x = a + R.gauss(0, 1) * sa
        elif r < 0.65:
            x = a * math.exp(R.uniform(-12, 3))
        elif r < 0.72:
            x = a * R.uniform(0.15, 0.25)
        elif r < 0.82:
            x = R.choice([ulp(a + 1, R.randrange(-2, 3)), a + 1 + R.uniform(-0.1, 0.1), a - 1, a])
        elif r < 0.9:
            x = a + R.uniform(9, 30) * math.sqrt(a + 1)
        elif r < 0.95:
            x = math.exp(R.uniform(math.log(1e-300), 0))
        else:
            x = R.uniform(0, 3 * a + 10)
        out.append((a, related(R, abs(x), 0, 3e6, a)))
    return out


def gen_P04(R, s):
    g = []
    ax = p_args(R, s) + [(a, x) for a in SPECIAL_A for x in (0.0, 1e-300, 1e-17 * a, 1e-16, 0.2 * a, a, 20 * a + 100, 1e300)]
    ax += [(a, x) for a in (200.0, 3e3, 9e5, 1e6) for x in (a * 0.19, a * 0.21, a, a + 1.0, a + 3 * math.sqrt(a), a - 3 * math.sqrt(a))]
    # small a with tiny x: P is far from 0
    ax += [(a, x) for a in (0.001, 0.003, 0.01, 0.05, 0.3) for x in span(R, 1e-308, 1e-3, 6 * s)]
    for a, x in ax:
        g.append(one('gammp', a, x))
        g.append(one('gammq', a, x))
    return g


def gen_P05(R, s):
    g = []
    for a, x in p_args(R, s, n=260) + [(a, 0.0) for a in SPECIAL_A]:
        g.append(grp('SUM1', ('gammp', a, x), ('gammq', a, x)))
        f = R.choice(['gammp', 'gammq'])
        g.append(grp('RANGE', (f, a, x)))
        d = R.choice([1e-15, 1e-9, 1e-3, 0.1, 0.5, 1.0])
        y = R.choice([x * (1 + d), x + d * math.sqrt(a), x + d])
        if f == 'gammp':
            g.append(grp('MONO', (f, a, x), (f, a, y)))
        else:
            g.append(grp('MONO', (f, a, y), (f, a, x)))
        if (a + 1) - 1 == a and a < 2e4:
            f = R.choice(['gammp', 'gammq'])
            g.append(grp('PREC', (f, a, x), (f, a + 1, x)))
    # monotone ladders across the changes of method
    for a in SPECIAL_A + [200.0, 777.0, 99.99]:
        pts = sorted([0.2 * a, ulp(0.2 * a, 1), a - 1, a, a + 1, ulp(a + 1, 1), a + 20 * math.sqrt(a + 1), a + 21 * math.sqrt(a + 1)]
                     + lin(R, 0, 3 * a + 5, 8 * s))
        pts = [x for x in pts if x >= 0]
        for x, y in zip(pts, pts[1:]):
            g.append(grp('MONO', ('gammp', a, x), ('gammp', a, y)))
            g.append(grp('MONO', ('gammq', a, y), ('gammq', a, x)))
    return g


def p_probs(R, lo=1e-12):
    r = R.random()
    if r < 0.3:
        return R.random() * (1 - 2 * lo) + lo
    if r < 0.55:
        return math.exp(R.uniform(math.log(lo * 1.01), math.log(0.5)))
    if r < 0.8:
        return 1 - math.exp(R.uniform(math.log(lo * 1.01), math.log(0.5)))
    if r < 0.9:
        return R.choice([0.5, ulp(0.5, 1), ulp(0.5, -1), 0.25, 0.75, 0.1, 0.9, 0.01, 0.99, 1e-3, 1 - 1e-3])
    return 0.5 + R.gauss(0, 1e-3)


def gen_P06(R, s):
    g = [one('invgammp', p, a) for p, a in zip(span(R, 1e-250, 1e-9, 150 * s), pick(R, span(R, 0.01, 1e6, 150 * s), 150 * s))]
    avals = span(R, 0.01, 1e4, 500 * s) + span(R, 1e-4, 0.02, 80 * s) + span(R, 0.5, 200, 300 * s) + span(R, 0.01, 1.2, 200 * s) + span(R, 1e4, 1e6, 40 * s)
    avals += around([1.0, 100.0]) + [0.01, 0.5, 1.0, 1.5, 2.0, 5.0, 99.0, 100.0, 101.0, 1e5, 1e6] * 3
    for a in avals:
        g.append(one('invgammp', p_probs(R), a))
    for a in span(R, 0.01, 1e4, 110 * s):
        p = p_probs(R)
        q = min(1 - 1e-12, max(p, p + R.choice([1e-9, 1e-5, 1e-2, 0.2]) * R.choice([1, p])))
        g.append(grp('INVMONO', ('invgammp', p, a), ('invgammp', q, a)))
    # relation 1 - (1-p)^(1/a') thresholds of the starting guess for a <= 1
    for a in span(R, 1e-4, 1.0, 60 * s):
        t = 1.0 - a * (0.253 + a * 0.12)
        for p in (t, ulp(t, 1), ulp(t, -1), t + 1e-6, t - 1e-6):
            if 1e-12 < p < 1 - 1e-12:
                g.append(one('invgammp', p, a))
    for a in span(R, 1e-4, 1e6, 40 * s):
        g += [one('invgammp', p, a) for p in (0.0, -0.0, -1.0, -INF, -1e-300, 1.0, ulp(1.0, 1), 2.0, INF)]
    return g


# ---------------------------------------------------------------- P07-P10
def gen_P07(R, s):
    g = []
    pairs = [(R.choice(v), R.choice(w)) for v in [span(R, 1e-3, 1e6, 40)] for w in [span(R, 1e-3, 1e6, 40)] for _ in range(600 * s)]
    pairs += list(zip(span(R, 1e-3, 1e6, 300 * s), pick(R, span(R, 1e-3, 20, 300 * s), 300 * s)))
    pairs += [(float(R.randrange(1, 200)), float(R.randrange(1, 200))) for _ in range(150 * s)]
    pairs += [(R.randrange(1, 400) / 2, R.randrange(1, 400) / 2) for _ in range(150 * s)]
    pairs += list(zip(span(R, 1e-9, 1e-2, 120 * s), pick(R, span(R, 1e-9, 1e6, 120 * s), 120 * s))) + [(1e-9, 1e-9), (1e-9, 1e6)]
    pairs += [(1e-3, 1e-3), (1e-3, 1e6), (1e6, 1e6), (1.0, 1.0), (0.5, 0.5), (1e6, 1.0), (600.0, 600.0), (520.0, 430.0)]
    for z, w in pairs:
        g.append(one('beta', z, w))
    for z, w in pick(R, pairs, 350 * s):
        g.append(grp('BSYM', ('beta', z, w), ('beta', w, z)))
    return g


def ab(R, hi, lo=0.01):
    a, b = ab_free(R, hi, lo)
    return (a, related(R, b, lo, hi, a)) if R.random() < 0.5 else (related(R, a, lo, hi, b), b)


def ab_free(R, hi, lo):
    r = R.random()
    if r < 0.06:
        lo /= 1e4
        r = R.random() * 0.7
    if r < 0.35:
        return math.exp(R.uniform(math.log(lo), math.log(hi))), math.exp(R.uniform(math.log(lo), math.log(hi)))
    if r < 0.6:
        return math.exp(R.uniform(math.log(lo), math.log(30))), math.exp(R.uniform(math.log(lo), math.log(30)))
    if r < 0.7:
        a = math.exp(R.uniform(math.log(lo), math.log(hi)))
        return a, a * R.uniform(0.5, 2)
    if r < 0.85:
        return R.choice([0.5, 1.0, 1.5, 2.0, 3.0, 10.0, 50.0, float(R.randrange(1, 100))]), R.choice([0.5, 1.0, 2.0, 5.0, 20.0, float(R.randrange(1, 100))])
    if r < 0.95:
        return math.exp(R.uniform(math.log(1000), math.log(hi))), math.exp(R.uniform(math.log(1000), math.log(hi)))
    return R.choice([2999.0, 3000.0, ulp(3000.0, 1), 3001.0, 3000.5]), R.choice([2999.0, 3000.0, 3001.0, 3500.0, ulp(3000.0, 1)])


def clampab(a, b, lo, hi):
    return min(hi, max(lo, a)), min(hi, max(lo, b))


def bx(R, a, b):
    m = a / (a + b)
    sd = math.sqrt(a * b / (a + b) ** 2 / (a + b + 1))
    r = R.random()
    if r < 0.35:
        x = m + R.uniform(-6, 6) * sd
    elif r < 0.5:
        x = m + R.gauss(0, 1) * sd
    elif r < 0.62:
        t = (a + 1) / (a + b + 2)
        x = R.choice([t, ulp(t, 1), ulp(t, -1), t * (1 + 1e-6), t * (1 - 1e-6), t * 0.97, min(t * 1.03, 0.999)])
    elif r < 0.75:
        x = R.random()
    elif r < 0.85:
        x = math.exp(R.uniform(math.log(1e-300), 0))
    elif r < 0.95:
        x = 1 - math.exp(R.uniform(math.log(1e-15), 0))
    else:
        x = R.choice([0.5, 0.25, 0.75, 2.0 ** -R.randrange(1, 60), 1 - 2.0 ** -R.randrange(1, 53)])
    return related(R, x if 0 < x < 1 else R.random(), 1e-300, 1 - 2.0 ** -53, a, b, a / (a + b))


def gen_P08(R, s):
    g = []
    for _ in range(1500 * s):
        a, b = clampab(*ab(R, 1e4), 1e-6, 1e4)
        g.append(one('betai', a, b, bx(R, a, b)))
    for _ in range(40 * s):
        a, b = clampab(*ab(R, 1e6), 1e-6, 1e6)
        g.append(one('betai', a, b, bx(R, a, b)))
    for _ in range(150 * s):
        # both large: the quadrature
        a, b = math.exp(R.uniform(math.log(3001), math.log(3e5))), math.exp(R.uniform(math.log(3001), math.log(3e5)))
        g.append(one('betai', a, b, bx(R, a, b)))
    for _ in range(60):
        a, b = ab(R, 1e6)
        g += [one('betai', *clampab(a, b, 1e-6, 1e6), x) for x in (0.0, 1.0, -0.0, ulp(0.0, 1), ulp(1.0, -1))]
    return g


def gen_P09(R, s):
    g = []
    for _ in range(420 * s):
        a, b = clampab(*ab(R, 1e6), 1e-6, 1e6)
        x = bx(R, a, b)
        d = R.choice([1e-15, 1e-9, 1e-4, 1e-2])
        y = min(1.0, R.choice([x * (1 + d), x + d * (1 - x), x + d * math.sqrt(a * b) / (a + b) ** 1.5]))
        if y >= x:
            g.append(grp('MONO', ('betai', a, b, x), ('betai', a, b, y)))
        # the complement must be exact
        k = R.choice([8, 20, 40, 52])
        z = min(max(round(x * 2.0 ** k), 1), 2 ** k - 1) / 2.0 ** k
        if 1 - (1 - z) == z and 0 < z < 1:
            g.append(grp('SUM1', ('betai', a, b, z), ('betai', b, a, 1 - z)))
        g.append(grp('RANGE', ('betai', a, b, R.choice([x, x, x, 0.0, 1.0]))))
        c = clampab(math.exp(R.uniform(math.log(1e-6), math.log(1e6))), 1, 1e-6, 1e6)[0]
        x = R.choice([bx(R, c, 1.0), bx(R, 1.0, c)])
        g.append(grp('BPOW', ('betai', *((c, 1.0) if R.random() < 0.5 else (1.0, c)), x)))
    for _ in range(25 * s):
        a, b = clampab(*ab(R, 1e6), 1e-6, 1e6)
        t = (a + 1) / (a + b + 2)
        pts = sorted(x for x in [0.0, t, ulp(t, 1), ulp(t, -1), a / (a + b), 1.0] + [bx(R, a, b) for _ in range(6)] if 0 <= x <= 1)
        for x, y in zip(pts, pts[1:]):
            g.append(grp('MONO', ('betai', a, b, x), ('betai', a, b, y)))
    return g


def gen_P10(R, s):
    g = []
    for _ in range(1100 * s):
        a, b = clampab(*ab(R, 1e5, 0.01), 1e-3, 1e5)
        g.append(one('invbetai', p_probs(R, R.choice([1e-10, 1e-15, 1e-20])), a, b))
    for _ in range(200 * s):
        a, b = R.choice([1.0, ulp(1.0, -1), 0.999, 1.001, 0.05, 0.5]), R.choice([1.0, ulp(1.0, -1), 0.9, 1.1, 0.05, 3.0, 200.0])
        g.append(one('invbetai', p_probs(R, R.choice([1e-10, 1e-15, 1e-20])), *R.choice([(a, b), (b, a)])))
    for _ in range(30 * s):
        a, b = clampab(*ab(R, 1e5, 0.01), 1e-3, 1e5)
        g += [one('invbetai', p, a, b) for p in (0.0, -0.0, -1.0, -INF, -1e-300, 1.0, ulp(1.0, 1), 2.0, INF)]
    return g


# ---------------------------------------------------------------- P11-P16
SPECIAL_X = [0.0, -0.0, TINY, -TINY, MINN, -MINN, 1e-300, -1e-300, 1e-20, -1e-20, 1e-9, -1e-9, 0.125, -0.125, 12.0, 23.2, 150.0,
             6.9e7, 1e8, 1e10, -1e10, 1e150, -1e150, 1e200, 1e300, -1e300, MAX, -MAX, INF, -INF, NAN, 5.0, 6.0, -6.1, 0.2, -0.2,
             26.0, 26.5, 27.0, 27.3, 28.0, -5.0, -6.0, -27.0, 40.0, -40.0]


def err_args(R, s):
    xs = lin(R, -7, 7, 500 * s) + lin(R, 0, 27, 350 * s) + span(R, 1e-300, 1, 100 * s) + [-x for x in span(R, 1e-300, 7, 100 * s)]
    xs += lin(R, -0.01, 0.01, 40 * s) + span(R, 1e-6, 1e-1, 60 * s)
    return xs + SPECIAL_X + around([0.125, 0.2, 1.0, 5.0, 26.0])


def gen_P11(R, s):
    g = []
    for x in err_args(R, s):
        g.append(one('erf', x))
        g.append(one('erfc', x))
    for x in pick(R, [x for x in err_args(R, s) if x == x], 350 * s):
        g.append(grp('ODD', ('erf', x), ('erf', -x)))
        g.append(grp('SUM1', ('erf', x), ('erfc', x)))
        g.append(grp('ERFC_REFL', ('erfc', x), ('erfc', -x)))
        g.append(grp('RANGE', (R.choice(['erf', 'erfc']), x)))
        y = R.choice([ulp(x, 1), x + 1e-9 * abs(x), x + 1e-3, x + 0.3])
        if y >= x:
            g.append(grp('MONO', ('erf', x), ('erf', y)))
            g.append(grp('MONO', ('erfc', y), ('erfc', x)))
    return g


def gen_P12(R, s):
    xs = []
    # every row of the interpolation table: 64 rows to an octave of [0.125, 16), both signs
    for je in range(-3, 4):
        for i in range(64):
            for _ in range(2 * s):
                x = 2.0 ** je * (1 + (i + R.random()) / 64)
                xs += [x, -x if x < 27 else x]
            xs.append(2.0 ** je * (1 + i / 64))
    xs += lin(R, -26.6, 0, 250 * s) + lin(R, 12, 160, 250 * s) + span(R, 150, 1e8, 150 * s) + span(R, 1e7, 1e300, 60 * s)
    xs += span(R, 1e-300, 0.125, 100 * s) + [-x for x in span(R, 1e-300, 0.125, 100 * s)] + lin(R, -30, -26.8, 20 * s) + lin(R, -0.13, 0.13, 150 * s)
    xs += SPECIAL_X + around([0.125, -0.125, 12.0, 23.2, 150.0, 6.9e7, -6.1, -26.6, 1.0, 2.0, 4.0, 8.0, 0.25, 0.5])
    return [one('erfcx', x) for x in xs]


def gen_P13(R, s):
    g = []
    ps = lin(R, 0, 2, 600 * s) + span(R, 1e-300, 1, 500 * s) + [2 - p for p in span(R, 1e-15, 1, 250 * s)] + [1 + d for d in span(R, 1e-16, 0.5, 60 * s)]
    ps += [1 - d for d in span(R, 1e-16, 0.5, 60 * s)] + around([1.0, 0.5, 1.5, 1e-300, 0.1])
    ps += [0.0, -0.0, -1.0, -INF, 2.0, ulp(2.0, 1), 2.5, INF, NAN, 1.0, MAX, -MAX, -TINY, 1e-300, ulp(2.0, -1)]
    g += [one('inverfc', p) for p in ps]
    qs = lin(R, -1, 1, 500 * s) + [R.choice([-1, 1]) * q for q in span(R, 1e-300, 1, 250 * s)] + [R.choice([-1, 1]) * (1 - d) for d in span(R, 1e-15, 0.5, 250 * s)]
    qs += around([0.5, -0.5, 0.0]) + [0.0, -0.0, 1.0, -1.0, ulp(1.0, 1), -ulp(1.0, 1), 2.0, -2.0, INF, -INF, NAN, MAX, -MAX]
    g += [one('inverf', q) for q in qs]
    return g


def gen_P14(R, s):
    xs = lin(R, -30, 30, 500 * s) + lin(R, -3, 3, 500 * s) + lin(R, 0.19, 0.21, 40 * s) + span(R, 1e-300, 1, 150 * s)
    xs += [-x for x in span(R, 1e-300, 1e3, 100 * s)] + span(R, 3, 1e9, 300 * s) + span(R, 1e7, 1e300, 60 * s)
    # the sampling grid of step 0.8 n and its midpoints
    xs += [0.4 * n + d for n in range(0, 80) for d in (0.0, 1e-9, -1e-9, R.uniform(-0.2, 0.2))]
    xs += SPECIAL_X + around([0.2, 1e8, -0.2, 27.0])
    g = [one('dawson', x) for x in xs]
    for x in pick(R, [x for x in xs if x == x], 500 * s):
        g.append(grp('ODD', ('dawson', x), ('dawson', -x)))
    return g


def fad_points(R, s):
    pts = []
    # every tile of the Taylor table (1/7 x 1/7 on the quarter disc |z| < 7)
    for i in range(49):
        for j in range(49):
            if math.hypot(i, j) < 49:
                for _ in range(s):
                    x, y = (i + R.random()) / 7, (j + R.random()) / 7
                    pts.append((R.choice([x, -x]), y if R.random() < 0.8 else -y))
    # the continued fraction and its changes of length
    for r in span(R, 6.9, 300, 300 * s):
        t = R.uniform(0, 2 * math.pi)
        pts.append((r * math.cos(t), abs(r * math.sin(t)) if r > 25 else r * math.sin(t)))
    for r in span(R, 300, 5e299, 100 * s):
        t = R.uniform(0, math.pi)
        pts.append((r * math.cos(t), r * math.sin(t)))
    # close to the origin
    for r in span(R, 1e-300, 0.4, 250 * s):
        t = R.uniform(0, 2 * math.pi)
        pts.append((r * math.cos(t), r * math.sin(t)))
    for r2 in (0.053, 0.00689, 4e-7, 49.0, 540.0, 22500.0, 4.8e15, 57.0, 230.0, 230.5, 163.0, 107.0, 87.0, 69.0, 540.0, 3.8e3):
        for _ in range(4 * s):
            t = R.uniform(0, math.pi)
            r = math.sqrt(r2) * (1 + R.choice([0, 1e-15, -1e-15, 1e-6, -1e-6, 1e-2, -1e-2]))
            pts.append((r * math.cos(t), r * math.sin(t)))
    # below the real axis, where the exponential is negligible, comparable or dominant
    for r in span(R, 7, 900, 150 * s):
        d = R.choice([R.uniform(-640, 780), R.uniform(-60, 60), R.uniform(0, 2 * r * r), r * r * (1 - R.choice([1e-20, 1e-13, 1e-6, 1e-3]))])
        x2, y2 = (r * r + d) / 2, (r * r - d) / 2
        if x2 > 0 and y2 > 0:
            pts.append((R.choice([1, -1]) * math.sqrt(x2), -math.sqrt(y2)))
    for r in span(R, 30, 5e299, 40 * s):
        pts.append((R.choice([r, -r]), -r * R.choice([R.uniform(0, 0.95), 1e-3, 1e-7, 1e-9, 1e-100, 0])))
    # close to the axes
    for x in span(R, 1e-5, 60, 120 * s):
        for d in (R.choice([1e-12, 3e-9, 9.9e-9]), R.choice([1.01e-8, 3e-8, 1e-6, 1e-3])):
            y = x * d
            pts += [(x, y), (-x, y)] + ([(x, -y)] if x < 25 else [])
            pts.append((y, x))
            if x < 25:
                pts.append((R.choice([y, -y]), -x))
    pts += [(x, 0.0) for x in lin(R, -40, 40, 60 * s)] + [(0.0, y) for y in lin(R, -24, 60, 80 * s)]
    pts += [(0.0, 0.0), (-0.0, 0.0), (0.0, -0.0), (1e-300, 1e-300), (5e299, 0.0), (0.0, 5e299), (1e155, 1e155), (-1e160, 1e-160), (3e200, -1e190), (1e299, 1e292), (1e100, 1e-100), (1e-100, 1e100), (7.0, 0.0), (0.0, 7.0), (27.0, 1e-9), (27.5, 1e-9)]
    for _ in range(250 * s):
        pts.append((R.uniform(-8, 8), R.uniform(-8, 8)))
    return [(x, related(R, y, 0, 5e299, abs(x)) if y > 0 else y) for x, y in pts]


def gen_P15(R, s):
    return [one('faddeeva', x, y) for x, y in fad_points(R, s)]


def gen_P16(R, s):
    g = []
    pts = fad_points(R, s)
    for x, y in pick(R, pts, 1500 * s):
        g.append(grp('FAD_CONJ', ('faddeeva', x, y), ('faddeeva', -x, y)))
    for x, y in pick(R, [(x, y) for x, y in pts if abs((x - y) * (x + y)) < 640 and math.hypot(x, y) < 1000 or math.hypot(x, y) < 24.9], 900 * s):
        g.append(grp('FAD_REFL', ('faddeeva', x, y), ('faddeeva', -x, -y)))
    for y in lin(R, -26, 30, 200 * s) + lin(R, -1, 3, 60 * s) + span(R, 1e-300, 1e140, 100 * s) + [0.0, 7.0, -7.0, 27.0, 27.5, 12.0, -0.3]:
        g.append(grp('FAD_IMAG', ('faddeeva', 0.0, y), ('erfcx', y)))
    for x in lin(R, -30, 30, 250 * s) + span(R, 1e-300, 1e140, 100 * s) + [0.0, 7.0, -7.0, 27.0, 27.5, 0.2, -0.2]:
        g.append(grp('FAD_REAL', ('faddeeva', x, 0.0), ('dawson', x)))
    return g


# ---------------------------------------------------------------- P17-P21
def order_x(R, nmax, xlo, xhi):
    n = R.choice([0, 1, 2, 3, R.randrange(12), R.randrange(40), R.randrange(300), R.randrange(R.choice([min(2000, nmax), nmax]) + 1)])
    r = R.random()
    if r < 0.2:
        x = max(0.01, n * R.uniform(0.3, 2.5) + R.uniform(0, 3))
    elif r < 0.3:
        x = float(n) * (1 + R.choice([0, 1e-15, 1e-9, -1e-9, 1e-3, -1e-3])) if n else 1.0
    elif r < 0.5:
        x = R.uniform(0, 30)
    elif r < 0.6:
        x = R.choice([8.0, ulp(8.0, -1), ulp(8.0, 1), 15.0, ulp(15.0, -1), ulp(15.0, 1), 1.0, ulp(1.0, 1), 2.0, 2.404825557695773, 3.831705970207512, 5.520078110286311, 0.8935769662791675,
                      3.957678419314858, 2.197141326031017, 7.015586669815619, 8.653727912911013])
        x *= R.choice([1, 1, 1, 1 + 1e-12, 1 - 1e-12])
    elif r < 0.8:
        x = math.exp(R.uniform(math.log(1e-2), math.log(xhi)))
    elif r < 0.9:
        x = math.exp(R.uniform(math.log(xlo), 0))
    else:
        x = R.uniform(0, min(xhi, 709))
    return n, related(R, min(max(x, xlo), xhi), xlo, xhi, n)


def gen_P17(R, s):
    g = []
    for f in ('Jn', 'Yn'):
        for _ in range(1100 * s):
            n, x = order_x(R, 20000, 1e-300, 1e9)
            g.append(one(f, n, x if f == 'Yn' or R.random() < 0.8 else -x))
        for n in range(0, 12):
            for x in lin(R, 0.01, 24, 14 * s):
                g.append(one(f, n, x))
    for n in (0, 1, 2, 3, 10, 299, 300, 1999, 2000, 19999, 20000):
        g += [one('Jn', n, x) for x in (0.0, -0.0, NAN, TINY, -TINY, 1e-160, 1e-150, 4e-154, 1e4, -1e4)]
        g += [one('Yn', n, x) for x in (1e-300, 1e-100, 1e-20, 1e4)]
    for _ in range(300 * s):
        n, x = order_x(R, 20000, 1e-300, 1e9)
        g.append(grp('PARITY', ('Jn', n, x), ('Jn', n, -x)))
    return g


def gen_P18(R, s):
    g = []
    for f in ('In', 'Kn'):
        for _ in range(1000 * s):
            n, x = order_x(R, 20000, 1e-300, 709)
            g.append(one(f, n, x if f == 'Kn' or R.random() < 0.8 else -x))
        for n in range(0, 12):
            for x in lin(R, 0.01, 30, 14 * s):
                g.append(one(f, n, x))
    for n in (0, 1, 2, 3, 10, 299, 300, 1999, 2000, 19999, 20000):
        g += [one('In', n, x) for x in (0.0, -0.0, NAN, TINY, -TINY, 1e-160, 1e-150, 4e-154, 700.0, -700.0, 699.9, 709.0, -709.0, 708.99)]
        g += [one('Kn', n, x) for x in (1e-300, 1e-100, 1e-20, 700.0, 709.0)]
    for _ in range(300 * s):
        n, x = order_x(R, 20000, 1e-300, 709)
        g.append(grp('PARITY', ('In', n, x), ('In', n, -x)))
    return g


def nu_x(R, xlo, xhi, cap=3000):
    r = R.random()
    if r < 0.3:
        nu = R.uniform(0, R.choice([100, 100, min(500, cap), cap]))
    elif r < 0.5:
        nu = R.uniform(0, 5)
    elif r < 0.65:
        nu = float(R.randrange(0, R.choice([101, 101, min(501, cap + 1), cap + 1])))
    elif r < 0.75:
        nu = R.randrange(0, R.choice([100, 100, min(500, cap), cap])) + 0.5 + R.choice([0, 0, 1e-15, -1e-15, 1e-6, -1e-6])
    elif r < 0.9:
        nu = R.randrange(0, 60) + R.choice([1, -1]) * math.exp(R.uniform(math.log(1e-16), math.log(0.1)))
    else:
        nu = math.exp(R.uniform(math.log(1e-300), 0))
    nu = min(float(cap), abs(nu))
    r = R.random()
    if nu > 400 and r < 0.9:
        x = nu * R.choice([R.uniform(0.5, 3), R.uniform(0.9, 1.1), R.uniform(0.99, 1.01)])
    elif r < 0.25:
        x = R.uniform(xlo, 30)
    elif r < 0.4:
        x = nu * R.uniform(0.5, 2) + R.uniform(0, 2)
    elif r < 0.5:
        x = R.choice([2.0, ulp(2.0, 1), ulp(2.0, -1), 1.99, 2.01, 1.0, 8.0, 25.0])
    elif r < 0.65:
        x = R.uniform(xlo, 2.5)
    elif r < 0.9:
        x = math.exp(R.uniform(math.log(xlo), math.log(xhi)))
    else:
        x = R.uniform(xlo, 300)
    x = min(max(x, xlo), xhi)
    return (related(R, nu, 0, cap, x), x) if R.random() < 0.5 else (nu, related(R, x, xlo, xhi, nu))


def gen_P19(R, s):
    g = []
    for i in range(1300 * s):
        nu, x = nu_x(R, 1e-3, 100 if i % 4 else 9500)
        g.append(one('besseljy', nu, x))
    for _ in range(400 * s):
        nu, x = nu_x(R, 1e-3, 500)
        x = math.exp(R.uniform(math.log(1e-250), 0))
        g.append(one('besseljy', R.choice([nu, nu % 1, nu % 3, nu % 0.1]), x))
    # where Y overflows and J underflows
    for _ in range(120 * s):
        nu, x = R.choice([R.uniform(0, 3000), float(R.randrange(3001)), R.uniform(0, 3), R.uniform(50, 400)]), math.exp(R.uniform(math.log(1e-250), R.choice([0, 6])))
        g.append(one(R.choice(['besseljy', 'besseljy', 'Jnu_Ynu']), nu, x))
    for _ in range(250 * s):
        nu, x = nu_x(R, 1e-3, 9500)
        g.append(one('Jnu_Ynu', nu, x))
        nu, x = nu_x(R, 1e-3, 9500)
        g.append(grp('PAIR', ('besseljy', nu, x), ('Jnu_Ynu', nu, x)))
    return g


def gen_P20(R, s):
    g = []
    for i in range(1300 * s):
        nu, x = nu_x(R, 1e-2, 100 if i % 3 else 700)
        g.append(one('besselik', nu, x))
    for _ in range(400 * s):
        nu, x = nu_x(R, 1e-3, 500)
        x = math.exp(R.uniform(math.log(1e-250), 0))
        g.append(one('besselik', R.choice([nu, nu % 1, nu % 3, nu % 0.1]), x))
    # where K overflows and I underflows
    for _ in range(120 * s):
        nu, x = R.choice([R.uniform(0, 3000), float(R.randrange(3001)), R.uniform(0, 3), R.uniform(50, 400)]), math.exp(R.uniform(math.log(1e-250), R.choice([0, 6])))
        g.append(one(R.choice(['besselik', 'besselik', 'Inu_Knu']), nu, x))
    for _ in range(250 * s):
        nu, x = nu_x(R, 1e-2, 700)
        g.append(one('Inu_Knu', nu, x))
        nu, x = nu_x(R, 1e-2, 700)
        g.append(grp('PAIR', ('besselik', nu, x), ('Inu_Knu', nu, x)))
    return g


def gen_P21(R, s):
    g = []
    for _ in range(160 * s):
        for f in ('Jn', 'Yn', 'In', 'Kn'):
            n, x = order_x(R, 399, 1e-3, 700)
            n = min(max(n, 1), 399)
            g.append(grp('REC3', (f, n - 1, x), (f, n, x), (f, n + 1, x)))
        n, x = order_x(R, 399, 1e-3, 700)
        g.append(grp('WRONSKIAN', ('Jn', n, x), ('Yn', n, x), ('Jn', n + 1, x), ('Yn', n + 1, x)))
        n, x = order_x(R, 399, 1e-3, 700)
        g.append(grp('WRONSKIAN', ('In', n, x), ('Kn', n, x), ('In', n + 1, x), ('Kn', n + 1, x)))
        n, x = order_x(R, 399, 1e-3, 700)
        g.append(grp('CROSS', ('Jn', n, x), ('Yn', n, x), ('besseljy', float(n), x)))
        n, x = order_x(R, 399, 1e-3, 700)
        g.append(grp('CROSS', ('In', n, x), ('Kn', n, x), ('besselik', float(n), x)))
        for f in ('besseljy', 'besselik'):
            nu, x = nu_x(R, 1e-3, 700, 400)
            # orders exactly one apart: few fractional bits
            nu = min(398.0, round(nu * 2 ** 30) / 2 ** 30)
            g.append(grp('REC3', (f, nu, x), (f, nu + 1, x), (f, nu + 2, x)))
            nu, x = nu_x(R, 1e-3, 700, 400)
            nu = min(398.0, round(nu * 2 ** 30) / 2 ** 30)
            g.append(grp('DERIV', (f, nu, x), (f, nu + 1, x)))
            g.append(grp('WRONSKIAN', (f, nu, x), (f, nu + 1, x)))
            nu, x = nu_x(R, 1e-3, 700, 400)
            g.append(grp('WRONSKIAN', (f, nu, x)))
    return g


# ---------------------------------------------------------------- P22, P23
def gen_P22(R, s):
    g = []
    xs0 = span(R, 1e-300, 1e300, 300 * s) + lin(R, -E_INV, 5, 250 * s) + [-x for x in span(R, 1e-300, 0.3678, 150 * s)] + [-E_INV + d for d in span(R, 1e-16, 0.3, 100 * s)]
    xs0 += [0.0, -0.0, NAN, INF, -INF, -1.0, -0.3679, -1e300, MAX, -E_INV, ulp(-E_INV, 1), ulp(-E_INV, -1), 1.0, math.e, 2 * math.e ** 2]
    xsm = [-x for x in span(R, 1e-300, 0.3678, 350 * s)] + [-E_INV + d for d in span(R, 1e-16, 0.36, 200 * s)] + [NAN, INF, -INF, 1.0, 0.1, -1.0, -0.3679, -E_INV, ulp(-E_INV, 1), ulp(-E_INV, -1), 1e-300]
    g += [one('lambert_w0', x) for x in xs0] + [one('lambert_wm1', x) for x in xsm]
    g += [one('sp_lambert_w0', x) for x in pick(R, xs0, 400 * s)] + [one('sp_lambert_wm1', x) for x in pick(R, xsm, 300 * s)]
    for _ in range(500 * s):
        k = R.choice([0, 0, 1, -1, 2, -2, 3, -3])
        r, t = math.exp(R.uniform(math.log(1.1e-5), math.log(0.9e5))), R.uniform(-math.pi, math.pi)
        g.append(one('lambert_w', k, r * math.cos(t), r * math.sin(t)))
    for k in range(-3, 4):
        for x in (0.5, 2.0, 100.0, -0.2, -0.5, -3.0):
            g.append(one('lambert_w', k, x, 0.0))
            g.append(one('lambert_w', k, x, 1e-3))
            g.append(one('lambert_w', k, x, -1e-3))
    return g


def any_double(R):
    import struct
    while True:
        x = struct.unpack('<d', struct.pack('<Q', R.getrandbits(64)))[0]
        if x == x:
            return x


def gen_P23(R, s):
    g = []
    xs = [any_double(R) for _ in range(400 * s)] + [TINY, -TINY, MINN, -MINN, ulp(MINN, -1), -ulp(MINN, -1), MAX, -MAX, 1.0, -1.0, 0.5, -0.5, 2.0, 0.0, -0.0, ulp(0.5, -1), ulp(1.0, -1), ulp(1.0, 1)]
    xs += [2.0 ** e for e in range(-1074, 1024, 7)] + [ulp(2.0 ** e, -1) for e in range(-1070, 1024, 23)] + [R.getrandbits(R.randrange(1, 52)) * TINY for _ in range(120 * s)]
    xs += [R.uniform(-10, 10) for _ in range(100 * s)]
    g += [one('frexp', x) for x in xs if x == x]
    es = [0, 1, -1, 2, 52, 53, -52, -53, 1023, 1024, -1022, -1023, -1074, -1075, 2046, 2047, 2098, -2098, -2099, 2099, 3000, -3000, 2**31 - 1, -2**31, 10**9, -10**9]
    for x in xs + [INF, -INF, NAN]:
        g.append(one('ldexp', x, R.choice(es) if R.random() < 0.5 else R.randrange(-2200, 2200)))
    for _ in range(900 * s):
        # results close to the subnormal and overflow boundaries, with ties
        x = R.choice([1, -1]) * (1 + R.getrandbits(R.choice([1, 2, 3, 10, 52])) / 2.0 ** 52) * 2.0 ** R.randrange(-60, 60)
        e = math.frexp(x)[1]
        target = R.choice([-1075, -1074, -1073, -1022, -1021, -1023, 1023, 1024, 1025, -1050, -1060, R.randrange(-1078, 1026)])
        g.append(one('ldexp', x, target - e + R.randrange(-1, 2)))
    for _ in range(60 * s):
        k = R.randrange(1, 53)
        x = (2 * R.getrandbits(k) + 1) * R.choice([1, -1]) * 2.0 ** -k
        g.append(one('ldexp', x, -1074 + R.randrange(-2, 2)))           # exact ties
    sp = [0.0, -0.0, 1.0, -1.0, INF, -INF, NAN, TINY, -TINY, MAX, -MAX]
    g += [one('sign', a, b) for a in sp for b in sp] + [one('sign', any_double(R), any_double(R)) for _ in range(150 * s)]
    return g


# ---------------------------------------------------------------- P26
WILD = [0.0, -0.0, TINY, -TINY, MINN, -MINN, 1e-300, -1e-300, 1e-20, -1e-20, 1e-5, -1e-5, 0.3, -0.3, 0.5, -0.5, 1.0, -1.0, ulp(1.0, 1), ulp(1.0, -1),
        1.5, 2.0, -2.0, 3.0, 7.0, -7.0, 30.0, -30.0, 99.0, 100.0, 101.0, -171.5, 171.7, 500.0, 709.5, -710.0, 1e4, -1e4, 1e8, -1e8, 1e15, -1e15, 1e100, -1e100, 1e308,
        MAX, -MAX, INF, -INF, NAN]


def total(fn, *args):
    return [Call(fn, *args, mode=2)]


def gen_P26(R, s):
    g = []
    for f in 'gamma ln_gamma erf erfc erfcx inverf inverfc dawson lambert_w0 lambert_wm1 sp_lambert_w0 sp_lambert_wm1'.split():
        g += [total(f, x) for x in WILD + [any_double(R) for _ in range(40 * s)] + [R.uniform(-30, 30) for _ in range(20 * s)]]
    g += [total('frexp', x) for x in WILD]
    for f in 'gammp gammq invgammp beta faddeeva sign'.split():
        pool = [(x, y) for x in WILD for y in WILD]
        pool = [p for p in pool if f != 'faddeeva' or True]
        if f != 'sign':
            # every pairing of the special values decides the panic contract of gammp, gammq and beta
            pool = pool if f in ('gammp', 'gammq', 'beta') and s > 1 else pick(R, pool, 330 * s)
        else:
            pool = pick(R, pool, 60)
        if f == 'invgammp':
            pool = [(p, a) for p, a in pool if not a > 1e6]
        if f in ('gammp', 'gammq'):
            edge = [-TINY, -0.0, 0.0, TINY, -1.0, 1.0, NAN, INF, 2.5, 150.0, -INF]
            pool += [(x, y) for x in edge for y in edge]
        if f == 'beta':
            edge = [-TINY, -0.0, 0.0, TINY, -1.0, 1.0, NAN, INF, 2.5]
            pool += [(x, y) for x in edge for y in edge]
        g += [total(f, x, y) for x, y in pool]
    g += [total('invgammp', p, a) for a in (-TINY, -0.0, 0.0, -1.0, -INF, -0.5, -1e300) for p in (0.3, 0.0, -1.0, 1.0, 2.0, NAN, INF, 1e-300, 0.999)]
    ed = [-TINY, -0.0, 0.0, TINY, -1.0, 0.5, 1.0, 2.5, NAN, INF, 4000.0]
    ex = [-TINY, -0.0, 0.0, TINY, 0.5, ulp(1.0, -1), 1.0, ulp(1.0, 1), 2.0, -1.0, NAN, INF, -INF]
    trip = [(a, b, x) for a in ed for b in ed for x in ex]
    g += [total('betai', *t) for t in pick(R, trip, 900 * s)]
    for _ in range(160 * s):
        g.append(total('invbetai', R.choice([0.0, 1.0, -1.0, 2.0, NAN, 0.5, 1e-9, 1 - 1e-9, INF, -INF, R.random()]), *(R.choice([0.05, 0.5, 1.0, 2.0, 30.0, 1e4, R.uniform(0.05, 20)]) for _ in 'ab')))
    for f in ('Jn', 'Yn', 'In', 'Kn'):
        g += [total(f, n, x) for n in (0, 1, 2, 3, 17, 1000, 100000) for x in pick(R, WILD, 30) + [NAN, 0.0, INF, -INF]]
    for f in ('besseljy', 'besselik', 'Jnu_Ynu', 'Inu_Knu'):
        bad = [0.0, -0.0, -TINY, -1.0, -1e300, -INF]
        g += [total(f, nu, x) for nu in (0.0, 0.5, 2.0, 33.3, -0.0) for x in bad]
        g += [total(f, nu, x) for nu in (-TINY, -0.5, -1.0, -1e10, -INF) for x in (1.0, 3.0, 1e-2, 500.0, -1.0, 0.0)]
        for _ in range(120 * s):
            g.append(total(f, *nu_x(R, 1e-2, 600)))
    for _ in range(150 * s):
        g.append(total('lambert_w', R.choice([0, 1, -1, 2, -7, 1000, -2**31]), R.choice(WILD), R.choice(WILD)))
        g.append(total('ldexp', R.choice(WILD), R.choice([0, 1, -1, 2000, -2000, 2**31 - 1, -2**31])))
    g += [total('factorial', n) for n in (0, 1, 169, 170, 171, 172, 2**32, 2**64 - 1)]
    # the domains of accuracy: returns, no panic, and no NaN (judged through the values)
    return g


# ---------------------------------------------------------------- P28
def gen_P28(R, s):
    g = []
    for x in span(R, 1e-5, 170, 200 * s) + lin(R, 0.01, 10, 80 * s):
        g.append(grp('LNGAMMA', ('gamma', x), ('ln_gamma', x)))
    for x in lin(R, -150, 165, 200 * s):
        x = round(x * 2 ** 30) / 2 ** 30
        if x != round(x):
            g.append(grp('GAMMA_REC', ('gamma', x), ('gamma', x + 1)))
    for _ in range(200 * s):
        a, b = math.exp(R.uniform(math.log(1e-3), math.log(80))), math.exp(R.uniform(math.log(1e-3), math.log(80)))
        b = related(R, b, 1e-3, 80, a)
        a, b = max(1, round(a * 1024)) / 1024, max(1, round(b * 1024)) / 1024
        g.append(grp('BETA_GAMMA', ('beta', a, b), ('gamma', a), ('gamma', b), ('gamma', a + b)))
    for x in lin(R, 0, 6, 150 * s) + span(R, 1e-8, 1, 50 * s):
        g.append(grp('P_ERF', ('gammp', 0.5, x * x), ('erf', x)))
        g.append(grp('P_ERF', ('gammq', 0.5, x * x), ('erfc', x)))
    for x in lin(R, -25, 26, 200 * s) + lin(R, -2, 6, 100 * s):
        g.append(grp('ERFCX', ('erfcx', x), ('erfc', x)))
    for _ in range(150 * s):
        n = R.choice([R.randrange(1, 30), R.randrange(90, 130), R.randrange(1, 400)])
        g.append(grp('POISSON', ('gammq', float(n), related(R, max(1e-6, n + R.uniform(-6, 6) * math.sqrt(n)), 1e-6, 2000, n))))
    for _ in range(150 * s):
        n = R.choice([R.randrange(1, 30), R.randrange(1, 200)])
        k = R.randrange(1, n + 1)
        p = min(0.99999, max(1e-5, R.choice([R.random(), k / (n + 1) + R.gauss(0, 0.05)])))
        p = related(R, p, 1e-5, 0.99999, k, n, k / n)
        g.append(grp('BINOMIAL', ('betai', float(k), float(n - k + 1), p)))
    for x in span(R, 1e-2, 500, 80 * s):
        g.append(grp('HALF', ('besseljy', 0.5, x)))
        g.append(grp('HALF', ('besselik', 0.5, x)))
    return g


def gen_P28_chained(R, s):
    """Round trips: the second call takes the result of the first.  (first call, builder, law)"""
    ch = []
    for x in lin(R, -5.3, 5.3, 120 * s):
        ch.append((('erf', x), lambda r: ('inverf', r), 'INVERF'))
    for x in lin(R, -5, 25.5, 150 * s):
        ch.append((('erfc', x), lambda r: ('inverfc', r), 'INVERFC'))
    for a, x in p_args(R, 1, amax=1e4, n=60 * s):
        if a >= 0.01:
            ch.append((('gammp', a, x), lambda r, a=a: ('invgammp', r, a), 'INVGAMMP'))
    for _ in range(150 * s):
        a, b = clampab(*ab(R, 3e3, 0.05), 0.05, 1e4)
        x = bx(R, a, b)
        ch.append((('betai', a, b, x), lambda r, a=a, b=b: ('invbetai', r, a, b), 'INVBETAI'))
    return ch
