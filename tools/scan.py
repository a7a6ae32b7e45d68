"""Directed selection of the calls worth recording.

Trace validation judges some ten thousand calls per run; a defect confined to a thin slice of the
inputs can miss them.  The scan evaluates millions of calls natively, on the crate under test and on
a copy of it pinned in driver/pinned, and keeps the groups in which a call's outcome differs.  It
decides nothing: the selected groups are recorded and judged by the specification like every other
group, so a difference the specification allows is accepted, and on the pinned code nothing is
selected.  Half the arguments are moved onto values of interest: round numbers and the numbers that
occur in the source, in particular those the pinned copy does not have."""
import bisect, glob, math, os, random, re, subprocess, sys, time
from concurrent.futures import ProcessPoolExecutor
import vlib
from vlib import Call, KINDS

KEEP = 40           # groups kept per batch
SELECT = int(os.environ.get('SCAN_REHEARSE', 320))     # groups handed to the specification
NOISE = 1e-13       # differences below this are taken for rounding noise
ENOUGH = max(4000, SELECT)      # candidates after which the scan stops
NOISY = 40          # how many of those are handed over at most
NUM = re.compile(r'(?<![\w.])(\d[\d_]*\.?[\d_]*(?:[eE][+-]?\d+)?)(?:_?f64|_?f32|_?[ui](?:8|16|32|64|size))?')


def literals(src):
    """The numbers in a source directory, long tables left out"""
    out = set()
    for path in glob.glob(os.path.join(src, '**', '*.rs'), recursive=True):
        try:
            text = open(path).read()
        except (OSError, UnicodeDecodeError):
            continue
        text = re.sub(r'/\*.*?\*/', '', text, flags=re.S)
        for ln in text.splitlines():
            ln = ln.split('//')[0]
            if not re.search(r'[A-Za-z]{2,}', ln):
                continue
            for m in NUM.findall(ln):
                try:
                    v = float(m.replace('_', ''))
                except ValueError:
                    continue
                if 0 < v < math.inf:
                    out.add(v)
            for m in re.findall(r'0x([0-9a-fA-F_]+)', ln):
                v = int(m.replace('_', ''), 16)
                out.add(float(v))
                if v < 1 << 64:
                    d = vlib.dbl(v)
                    if d == d and abs(d) < math.inf and d:
                        out.add(abs(d))
    return out


def derived(c):
    """Arguments at which a comparison with c may change its outcome"""
    v = {c, 1 / c, c * c, math.sqrt(c), 2 * c, c / 2, c + 1, c - 1, 1 - c, c + 2, c - 2, 2 ** c if c < 1000 else c}
    if c < 700:
        v.add(math.exp(c))
        v.add(math.exp(-c))
    v.add(math.log(c))
    if c < 300:
        v |= {10 ** c, 10 ** -c}
    return {x for x in v if x and abs(x) < math.inf}


def pools():
    old = literals(os.path.join(vlib.DRIVER, 'pinned', 'src'))
    new = literals('/repo/src') - old
    fresh = set()
    for c in sorted(new)[:60]:
        for d in derived(c):
            fresh |= {d, -d}
    common = {float(i) for i in range(0, 200)} | {i + 0.5 for i in range(0, 120)} | {i / 10 for i in range(1, 200)} | {i / 4 for i in range(1, 120)}
    common |= {i / 100 for i in range(1, 100)} | {i / 1000 for i in range(1, 100)} | {2.0 ** i for i in range(-1022, 1024)} | {10.0 ** i for i in range(-300, 301)}
    common |= {200.0, 250.0, 300.0, 400.0, 500.0, 600.0, 700.0, 1500.0, 2000.0, 2500.0, 5000.0, math.pi, math.e, math.pi / 2, 2 * math.pi, math.sqrt(2), math.sqrt(math.pi), math.log(2)}
    for c in old:
        if 1e-300 < c < 1e300:
            common |= {c, 1 / c}
    common |= {-c for c in common}
    return sorted(common), sorted(fresh)


class Snap(random.Random):
    """A random source whose uniform draws often land on a value of interest"""
    common, fresh, quiet = [], [], False

    def snap(self, lo, hi):
        r = self.random()
        if r < 0.72:
            return None
        pool = self.fresh if self.fresh and r > 0.80 else self.common
        a, b = bisect.bisect_left(pool, lo), bisect.bisect_right(pool, hi)
        if a >= b:
            return None
        i = a + int(self.random() * (b - a))
        v = pool[i]
        r = self.random()
        if r < 0.5:
            return v
        if pool is self.fresh and r < 0.7:
            # between two neighbouring new numbers
            w = pool[min(i + 1, b - 1)]
            return v + (w - v) * self.random()
        v *= 1 + self.choice([1, -1]) * 2.0 ** -self.randrange(2, 53)
        return v if lo <= v <= hi else None

    def uniform(self, lo, hi):
        v = self.snap(min(lo, hi), max(lo, hi))
        return v if v is not None else lo + (hi - lo) * self.random()


def snapping(gen):
    """The generators' samplers with the same habit"""
    span, lin = gen.span, gen.lin

    def wrap(f):
        def g(R, lo, hi, n):
            xs = f(R, lo, hi, n)
            if isinstance(R, Snap):
                xs = [x if s is None else s for x, s in ((x, R.snap(lo, hi)) for x in xs)]
            return xs
        return g
    gen.span, gen.lin = wrap(span), wrap(lin)


# the boxes in which every point is inside the domain of the function's properties
BOX = {'gamma': [(-180, 172)], 'ln_gamma': [(1e-300, 1e300)], 'gammp': [(1e-9, 1e6), (0, 2e6)], 'gammq': [(1e-9, 1e6), (0, 2e6)],
       'invgammp': [(1e-250, 1 - 1e-12), (1e-4, 1e6)], 'beta': [(1e-9, 1e6)] * 2, 'betai': [(1e-6, 1e6), (1e-6, 1e6), (0, 1)],
       'invbetai': [(1e-20, 1 - 1e-15), (1e-3, 1e5), (1e-3, 1e5)], 'erf': [(-30, 30)], 'erfc': [(-30, 28)], 'erfcx': [(-26.6, 1e8)],
       'inverf': [(-1, 1)], 'inverfc': [(0, 2)], 'dawson': [(-1e9, 1e9)], 'faddeeva': [(-40, 40), (0, 40)],
       'Jn': [(0, 20000), (1e-300, 1e9)], 'Yn': [(0, 20000), (1e-300, 1e9)], 'In': [(0, 20000), (1e-300, 709)], 'Kn': [(0, 20000), (1e-300, 709)],
       'besseljy': [(0, 3000), (1e-250, 9500)], 'besselik': [(0, 3000), (1e-250, 700)], 'Jnu_Ynu': [(0, 3000), (1e-250, 9500)], 'Inu_Knu': [(0, 3000), (1e-250, 700)],
       'lambert_w0': [(-0.3678, 1e300)], 'lambert_wm1': [(-0.3678, -1e-300)], 'sp_lambert_w0': [(-0.3678, 1e300)], 'sp_lambert_wm1': [(-0.3678, -1e-300)],
       'frexp': [(-1e308, 1e308)], 'ldexp': [(-1e308, 1e308), (-2200, 2200)], 'sign': [(-1e308, 1e308)] * 2}


def nudge(R, c):
    """A single call with one argument moved onto a round or related value"""
    box = BOX.get(c.fn)
    if box is None:
        return None
    args = list(c.args)
    ints = [i for i, k in enumerate(KINDS[c.fn]) if k == 'n']
    if ints and R.random() < 0.3:
        i = ints[0]
        lo, hi = box[i]
        v = R.snap(lo, hi)
        args[i] = int(v) if v is not None else R.randrange(lo, R.choice([h for h in (40, 300, 3000, hi) if h <= hi] or [hi]) + 1)
        return Call(c.fn, *args, mode=c.mode)
    fl = [i for i, k in enumerate(KINDS[c.fn]) if k == 'f']
    i = R.choice(fl)
    v = args[i]
    r = R.random()
    if not v or not abs(v) < math.inf:
        return None
    if r < 0.3:
        v = float('%.*g' % (R.choice([1, 2, 2, 3, 4]), v))
    elif r < 0.4:
        k = 2.0 ** R.randrange(0, 12)
        v = math.floor(v * k) / k if abs(v) < 1e12 else v
    elif r < 0.65:
        s = R.snap(*box[i])
        v = s if s is not None else float(round(v)) if abs(v) < 1e15 else v
    elif len(args) > 1:
        # related to another argument
        w = float(args[R.choice([j for j in range(len(args)) if j != i])])
        pool = R.fresh if R.fresh and R.random() < 0.6 else R.common
        k = R.choice(pool) if R.random() < 0.6 else R.uniform(0, 4)
        v = R.choice([w, w, w + 1, w - 1, w / 2, 2 * w, w * k, w + k, k - w, w / k if k else w, 1 - w, w * w, math.sqrt(abs(w)), w + k * math.sqrt(abs(w))])
    args[i] = v
    for a, (lo, hi), k in zip(args, box, KINDS[c.fn]):
        if not lo <= a <= hi:
            return None
    return Call(c.fn, *args, mode=c.mode)


def evaluate(lines, rel):
    """Positions (and sizes) at which the crate and its pinned copy differ"""
    if os.environ.get('SCAN_REHEARSE'):
        # judge a sample of the scanned calls as if they differed: they must be inside the domains
        return {i: 1.0 for i in random.Random(len(lines)).sample(range(len(lines)), min(200, len(lines)))}, True
    p = subprocess.run([vlib.RELEASE if rel else vlib.BIN, '--scan'], input='\n'.join(lines) + '\n', stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True)
    out = p.stdout.split('\n')
    diff = {}
    for ln in out:
        w = ln.split()
        if len(w) == 2:
            diff[int(w[0])] = float(w[1])
    if 'end' in out[-2:]:
        return diff, True
    m = re.search(r'hang (\d+)', p.stderr)
    if m:
        diff[int(m.group(1))] = 1e300
        return diff, False
    # the process died: find the call by replaying the batch
    calls = [parse(l) for l in lines]
    for c in calls:
        c.rel = rel
    vlib.execute(calls)
    for i, c in enumerate(calls):
        if c.out == -2:
            diff[i] = 1e300
    return diff, False


def parse(line):
    fn, *args = line.split()
    return Call(fn, *[vlib.dbl(int(x, 16)) if k == 'f' else int(x) for x, k in zip(args, KINDS[fn])])


def batch(job):
    pid, seed, k, scale, common, fresh, deadline = job
    if time.time() > deadline:
        return 0, 0, []
    import gen
    if not hasattr(gen, 'snapped'):
        snapping(gen)
        gen.snapped = True
    R = Snap('%s-%s-scan-%d' % (pid, seed, k))
    R.common, R.fresh = common, fresh
    groups = getattr(gen, 'gen_' + pid)(R, scale)
    for g in list(groups):
        if len(g) == 1 and g[0].mode in (1, 2) and R.random() < 0.6:
            c = nudge(R, g[0])
            if c:
                groups.append([c])
    lines, owner = [], []
    for i, g in enumerate(groups):
        for c in g:
            lines.append(c.line())
            owner.append(i)
    rel = k % 4 == 3            # every fourth batch: the release build
    diff, clean = evaluate(lines, rel)
    size = {}
    for pos, d in diff.items():
        size[owner[pos]] = max(size.get(owner[pos], 0), d)
    sel = []
    if size:
        order = sorted(size, key=lambda i: -size[i])
        top, rest = order[:KEEP // 2], order[KEEP // 2:]
        big = [i for i in rest if size[i] > NOISE]
        sel = top + R.sample(big, min(len(big), KEEP // 2))
        small = [i for i in rest if size[i] <= NOISE]
        sel += R.sample(small, min(len(small), 4))
    return len(lines), len(size), [(size[i], [(c.line(), c.mode, c.law, rel) for c in groups[i]]) for i in sel]


def scan(pid, seed, batches, scale=3, budget=45, jobs=8):
    """Groups in which some call's outcome differs from the pinned copy's, with counts"""
    common, fresh = pools()
    deadline = time.time() + budget
    n = d = 0
    found = []
    with ProcessPoolExecutor(jobs) as ex:
        k = 0
        while k < batches and time.time() < deadline and len(found) < ENOUGH:
            for a, b, s in ex.map(batch, [(pid, seed, i, scale, common, fresh, deadline) for i in range(k, k + 8 * jobs)]):
                n, d = n + a, d + b
                found += s
            k += 8 * jobs
    found.sort(key=lambda t: -t[0])
    loud = [t for t in found if t[0] > NOISE]
    soft = [t for t in found if t[0] <= NOISE]
    R = random.Random(seed)
    if len(loud) > SELECT:
        loud = loud[:SELECT // 2] + R.sample(loud[SELECT // 2:], SELECT // 2)
    if len(soft) > NOISY:
        soft = R.sample(soft, NOISY)
    groups = []
    for _, g in loud + soft:
        cs = []
        for line, mode, law, rel in g:
            c = parse(line)
            c.mode, c.law, c.rel = mode, law, rel
            cs.append(c)
        groups.append(cs)
    return groups, {'scanned_calls': n, 'groups_that_differ_from_the_pinned_copy': d, 'of_those_judged': len(groups), 'new_numbers_in_the_source': len(fresh)}


if __name__ == '__main__':
    t = time.time()
    vlib.build_driver()
    g, info = scan(sys.argv[1], int(os.environ.get('VERIF_SEED', '1')), int(sys.argv[2]))
    print(info, round(time.time() - t, 1))
    for x in g[:5]:
        print('; '.join(c.show() for c in x))
