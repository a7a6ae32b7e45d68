"""Shared machinery: build and run the driver, write tapes, run the Quint machine on them."""
import json, math, os, random, re, select, shutil, struct, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, 'spec')
DRIVER = os.path.join(ROOT, 'driver')
BIN = os.path.join(DRIVER, 'target', 'debug', 'driver')
# the crate as a user may ship it: optimised, no overflow checks, fused multiply-add where the CPU has it
RELEASE = os.path.join(DRIVER, 'target', 'fma', 'release', 'driver')
M64 = (1 << 64) - 1
CALL_TIMEOUT = 20.0

FN = {n: i + 1 for i, n in enumerate(
    'gamma ln_gamma factorial gammp gammq invgammp beta betai invbetai erf erfc erfcx inverf inverfc '
    'dawson faddeeva Jn Yn In Kn besseljy besselik Jnu_Ynu Inu_Knu lambert_w0 lambert_wm1 '
    'sp_lambert_w0 sp_lambert_wm1 lambert_w frexp ldexp sign'.split())}
NAME = {v: k for k, v in FN.items()}
# argument kinds: f = double, n = integer
KINDS = {n: 'f' for n in FN}
KINDS.update(factorial='n', gammp='ff', gammq='ff', invgammp='ff', beta='ff', betai='fff', invbetai='fff',
             faddeeva='ff', Jn='nf', Yn='nf', In='nf', Kn='nf', besseljy='ff', besselik='ff', Jnu_Ynu='ff',
             Inu_Knu='ff', lambert_w='nff', ldexp='fn', sign='ff')
LAWS = {n: i + 1 for i, n in enumerate(
    'MONO SUM1 RANGE PREC BSYM BPOW ODD PARITY ERFC_REFL GAMMA_FACT FACT_REC FAD_CONJ FAD_REFL FAD_IMAG '
    'FAD_REAL PAIR REC3 WRONSKIAN CROSS DERIV LNGAMMA GAMMA_REC BETA_GAMMA P_ERF ERFCX POISSON BINOMIAL '
    'HALF INVERF INVERFC INVGAMMP INVBETAI INVMONO'.split())}
LAWNAME = {v: k for k, v in LAWS.items()}
CODES = {1: 'value outside tolerance', 2: 'wrong special value', 3: 'panic contract broken', 4: 'NaN',
         5: 'law broken', 6: 'same call, different outcome', 7: 'did not return',
         90: 'reference did not converge'}


class ToolError(Exception):
    pass


def bits(x):
    return struct.unpack('<Q', struct.pack('<d', float(x)))[0]


def dbl(b):
    return struct.unpack('<d', struct.pack('<Q', b))[0]


# ------------------------------------------------------------------ calls and groups
class Call:
    """One call of the crate: function name, arguments (floats / ints), what to judge."""
    __slots__ = ('fn', 'args', 'mode', 'law', 'out', 'res', 'rel')

    def __init__(self, fn, *args, mode=1, law=None):
        self.fn, self.args, self.mode, self.law = fn, args, mode, (LAWS[law] if law else 0)
        self.out, self.res = None, []
        self.rel = False        # executed by the release build?

    def line(self):
        return ' '.join([self.fn] + ['%016x' % bits(a) if k == 'f' else str(int(a))
                                     for a, k in zip(self.args, KINDS[self.fn])])

    def words(self):
        a = [bits(v) if k == 'f' else int(v) & M64 for v, k in zip(self.args, KINDS[self.fn])]
        a += [0] * (4 - len(a))
        r = list(self.res) + [0] * (4 - len(self.res))
        return [FN[self.fn], self.mode, self.law, self.out + 8] + a + r

    def show(self):
        a = ', '.join(repr(float(v)) if k == 'f' else str(v) for v, k in zip(self.args, KINDS[self.fn]))
        if self.out is None:
            r = '?'
        elif self.out == -1:
            r = 'panic'
        elif self.out == -2:
            r = 'no return'
        else:
            r = ', '.join(repr(dbl(b)) for b in self.res)
            if self.fn == 'frexp':
                r = '%r, %d' % (dbl(self.res[0]), self.res[1] - (1 << 64 if self.res[1] >> 63 else 0))
        return '%s(%s) -> %s' % (self.fn, a, r)

    def key(self):
        return self.line()


def build_driver():
    env = dict(os.environ, CARGO_NET_OFFLINE='true')
    env.pop('RUSTFLAGS', None)
    with open('/proc/cpuinfo') as f:
        flags = '-C target-feature=+fma' if re.search(r'^flags.*\bfma\b', f.read(), re.M) else ''
    cmd = ['cargo', 'build', '--offline', '--locked', '--quiet']
    ps = [subprocess.Popen(cmd + more, cwd=DRIVER, env=dict(env, **e), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
          for more, e in (([], {}), (['--release', '--target-dir', os.path.join(DRIVER, 'target', 'fma')], {'RUSTFLAGS': flags}))]
    outs = [p.communicate(timeout=600)[0] for p in ps]
    for p, out in zip(ps, outs):
        if p.returncode != 0:
            raise ToolError('driver build failed:\n' + out[-3000:])


def execute(calls, extra=()):
    """Run the calls, those of each build in order."""
    run_calls([c for c in calls if not c.rel], BIN, extra)
    run_calls([c for c in calls if c.rel], RELEASE, extra)


def run_calls(calls, binary, extra):
    """Run the calls in order against the real crate; fills out/res.  A call that does not return
    within CALL_TIMEOUT is recorded as a hang and the driver is restarted behind it."""
    i = 0
    hangs = 0
    while i < len(calls):
        if hangs >= 3:
            for c in calls[i:]:
                c.out, c.res = None, []
            return
        p = subprocess.Popen([binary, '--flush'] + list(extra), stdin=subprocess.PIPE, stdout=subprocess.PIPE,
                             stderr=subprocess.DEVNULL)
        rest = calls[i:]
        data = ('\n'.join(c.line() for c in rest) + '\n').encode()

        def feed():
            try:
                p.stdin.write(data)
                p.stdin.close()
            except (BrokenPipeError, OSError):
                pass
        import threading
        th = threading.Thread(target=feed, daemon=True)
        th.start()
        fd = p.stdout.fileno()
        buf = b''
        k = 0
        hung = False
        dead = False
        while k < len(rest):
            r, _, _ = select.select([fd], [], [], CALL_TIMEOUT)
            if not r:
                hung = True
                break
            chunk = os.read(fd, 1 << 20)
            if not chunk:
                dead = True
                break
            buf += chunk
            *lines, buf = buf.split(b'\n')
            for ln in lines:
                w = ln.decode().split()
                c = rest[k]
                if w[0] == 'ok':
                    c.res = [int(x, 16) for x in w[1:]]
                    c.out = len(c.res)
                else:
                    c.out, c.res = -1, []
                k += 1
        p.kill()
        p.wait()
        if hung or dead:
            # hang, or the process died (abort, stack overflow): recorded alike
            rest[k].out, rest[k].res = -2, []
            k += 1
            hangs += 1
        i += k
    return


# ------------------------------------------------------------------ Quint
PER = 40


FAMILY = {}
for _f, _ns in {'fgamma': 'gamma ln_gamma factorial gammp gammq invgammp beta betai invbetai',
                'ferr': 'erf erfc erfcx inverf inverfc dawson faddeeva',
                'fbessel': 'Jn Yn In Kn besseljy besselik Jnu_Ynu Inu_Knu',
                'fmisc': 'lambert_w0 lambert_wm1 sp_lambert_w0 sp_lambert_wm1 lambert_w frexp ldexp sign'}.items():
    for _n in _ns.split():
        FAMILY[_n] = _f


def family(group):
    """The specification module that judges a group; its first call decides."""
    return FAMILY[group[0].fn]


def tape_module(calls, work, fam, block=50):
    """The trace machine over the family fam, with the recorded calls as its tape."""
    chunks = []
    for j in range(0, len(calls), PER):
        v = 0
        for k, c in enumerate(calls[j:j + PER]):
            e = 0
            for w in c.words():
                e = (e << 64) | w
            v |= e << (768 * k)
        chunks.append('0x%x' % v)
    rel = os.path.relpath(SPEC, work)
    with open(os.path.join(SPEC, 'trace.qnt')) as f:
        machine = f.read()
    machine = machine.replace('fgamma', fam).replace('from "./', 'from "%s/' % rel)
    return (machine + 'module shard {\n  import trace(TAPE = TAPE_, COUNT = %d, PER = %d, BLOCK = %d).*\n'
            '  pure val TAPE_: List[int] = [\n%s\n  ]\n}\n' % (len(calls), PER, block, ',\n'.join(chunks)))


def itf_int(v):
    return int(v['#bigint']) if isinstance(v, dict) and '#bigint' in v else int(v)


def quint_run(src, out, steps, timeout, work):
    """One deterministic run of the machine in src; returns its ITF trace."""
    if os.path.exists(out):
        os.unlink(out)
    try:
        p = subprocess.run(['quint', 'run', src, '--main=shard', '--backend=typescript', '--max-samples=1',
                            '--max-steps=%d' % steps, '--seed=1', '--verbosity=0', '--out-itf=%s' % out],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=work)
    except subprocess.TimeoutExpired:
        raise ToolError('quint run timed out on %s' % src)
    if not os.path.exists(out):
        raise ToolError('quint run failed on %s:\n%s' % (src, p.stdout[-3000:]))
    with open(out) as f:
        return json.load(f)


def run_shard(calls, work, tag, fam, timeout):
    block = 50
    src = os.path.join(work, 'shard_%s.qnt' % tag)
    out = os.path.join(work, 'shard_%s.itf.json' % tag)
    with open(src, 'w') as f:
        f.write(tape_module(calls, work, fam, block))
    steps = (len(calls) + block - 1) // block
    t = quint_run(src, out, steps, timeout, work)
    last = t['states'][-1]
    st = next(v for k, v in last.items() if k == 'st' or k.endswith('::st'))
    if itf_int(st['pos']) != len(calls):
        raise ToolError('shard %s stopped at event %d of %d' % (tag, itf_int(st['pos']), len(calls)))
    rej = [(itf_int(r['pos']), itf_int(r['code']), itf_int(r['use'])) for r in st['rejected']]
    w = st['worst']
    return {'rejected': rej, 'worst': (itf_int(w['use']), itf_int(w['pos'])), 'judged': itf_int(st['judged']),
            'states': len(t['states'])}


def judge(groups, work, jobs=8, timeout=800):
    """groups: list of lists of executed calls.  Returns a summary and the rejected groups."""
    fams = {}
    for g in groups:
        fams.setdefault(family(g), []).append(g)
    total = sum(len(g) for g in groups)
    final = []
    for fam, gs in sorted(fams.items()):
        size = sum(len(g) for g in gs)
        n = max(1, round(jobs * size / total), -(-size // 2500))
        random.Random(7).shuffle(gs)
        parts = [[] for _ in range(n)]
        for i, g in enumerate(gs):
            parts[i % n].append(g)
        final += [(fam, p) for p in parts if p]
    flats = [[c for g in p for c in g] for _, p in final]
    owner = [[g for g in p for _ in g] for _, p in final]
    with ThreadPoolExecutor(jobs) as ex:
        res = list(ex.map(lambda a: run_shard(a[1], work, '%d' % a[0], final[a[0]][0], timeout), enumerate(flats)))
    bad, worst = [], (-1, None)
    for k, r in enumerate(res):
        for pos, code, use in r['rejected']:
            bad.append((owner[k][pos], flats[k][pos], code, use))
        if r['worst'][0] > worst[0]:
            worst = (r['worst'][0], flats[k][r['worst'][1]])
    return {'bad': bad, 'worst': worst, 'judged': sum(r['judged'] for r in res),
            'states': sum(r['states'] for r in res), 'shards': len(res), 'calls': sum(len(f) for f in flats)}
