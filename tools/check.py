#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough] [--replay FILE]

Decides one property: drives the real crate through call plans, records every call, and lets the
Quint specification judge the recorded trace.  Exit 0: held on everything explored; 1: VIOLATION;
2: the machinery itself failed."""
import argparse, json, os, random, sys, time
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vlib, gen, scan
from vlib import Call, ROOT, ToolError, CODES, LAWNAME

FINDINGS = os.path.join(ROOT, 'known-findings.txt')
LEVEL = {}


def load_findings(pid):
    """Lines 'finding: property=<id> call=<driver line> | <what fails>'."""
    out = {}
    if os.path.exists(FINDINGS):
        for ln in open(FINDINGS):
            ln = ln.strip()
            if ln.startswith('finding: property=%s ' % pid):
                call = ln.split('call=', 1)[1]
                call, what = [t.strip() for t in call.split('|', 1)]
                out[call] = what
    return out


def undecided(r):
    """Calls at which the specification's own reference did not converge decide nothing: a few are set aside."""
    ref = [b for b in r['bad'] if b[2] == 90]
    if len(ref) > 3 + r['calls'] // 100:
        raise ToolError('the reference did not converge: ' + ref[0][1].show())
    r['bad'] = [b for b in r['bad'] if b[2] != 90]
    r['undecided'] = len(ref)


def run_numeric(pid, groups, work):
    calls = [c for g in groups for c in g]
    vlib.execute(calls)
    groups = [g for g in groups if all(c.out is not None for c in g)]
    r = vlib.judge(groups, work)
    undecided(r)
    return r, groups


def chained(chains, rel=False):
    firsts = [Call(*c[0], mode=0) for c in chains]
    for c in firsts:
        c.rel = rel
    vlib.execute(firsts)
    seconds = []
    for f, (_, build, law) in zip(firsts, chains):
        if f.out and f.out > 0:
            s = build(vlib.dbl(f.res[0]))
            c = Call(*s, mode=0, law=law)
            c.rel = rel
            seconds.append((f, c))
    vlib.execute([s for _, s in seconds])
    return [[f, s] for f, s in seconds if s.out is not None]


def describe(g, c, code, use):
    what = CODES.get(code, str(code))
    if c.law:
        what += ' (%s)' % LAWNAME[c.law]
    if code in (1, 5) and use < 999999:
        what += ', %.3g times the tolerance' % (use / 1000)
    return '%s%s: %s' % (what, ' (release build)' if c.rel else '', '; '.join(x.show() for x in g))


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('property')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--scale', type=int)
    ap.add_argument('--replay')
    a = ap.parse_args()
    pid = a.property
    seed = int(os.environ.get('VERIF_SEED', '1'))
    t0 = time.time()
    work = os.path.join(ROOT, 'work', pid)
    os.makedirs(work, exist_ok=True)
    for f in os.listdir(work):
        if f.startswith('shard_'):
            os.unlink(os.path.join(work, f))
    try:
        vlib.build_driver()
        import special
        if pid in special.CHECKS:
            res = special.CHECKS[pid](seed, a.tier, work, a.replay)
        else:
            res = numeric(pid, seed, a, work)
    except ToolError as e:
        print('ERROR %s' % e)
        return 2
    known = load_findings(pid)
    viol = []
    for key, text, *more in res['bad']:
        if key in known:
            print('KNOWN-FINDING: property=%s %s' % (pid, known[key]))
        else:
            viol.append((key, text, *more))
    cov = res['coverage']
    ev = {'property': pid, 'tier': a.tier, 'seed': seed, 'level': 'model_checking', 'coverage': cov,
          'assumptions': res.get('assumptions', []), 'wall_s': round(time.time() - t0, 2), 'violations': len(viol)}
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w') as f:
        json.dump(ev, f, indent=1)
    print('%s %s seed=%d: %s (%.1f s)' % (pid, a.tier, seed, res['summary'], time.time() - t0))
    if viol:
        path = os.path.join(work, 'violation.json')
        with open(path, 'w') as f:
            json.dump({'property': pid, 'seed': seed, 'violations': [dict(replay=v[0], what=v[1], **({'replay_ops': v[2]} if len(v) > 2 else {})) for v in viol[:200]]}, f, indent=1)
        for v in viol[:8]:
            print('  ' + v[1][:600])
        print('VIOLATION property=%s replay=%s' % (pid, os.path.relpath(path, ROOT)))
        return 1
    return 0


RELEASE = ' ; @release'


def parse_line(key):
    """Inverse of group key: calls separated by ' ; ', each 'mode law fn args'."""
    out = []
    rel = key.endswith(RELEASE)
    for part in key.removesuffix(RELEASE).split(' ; '):
        mode, law, fn, *args = part.split()
        vals = [vlib.dbl(int(x, 16)) if k == 'f' else int(x) for x, k in zip(args, vlib.KINDS[fn])]
        c = Call(fn, *vals, mode=int(mode))
        c.law = int(law)
        c.rel = rel
        out.append(c)
    return out


def key_of(g):
    return ' ; '.join('%d %d %s' % (c.mode, c.law, c.line()) for c in g) + (RELEASE if g[0].rel else '')


def release(g):
    out = []
    for c in g:
        d = Call(c.fn, *c.args, mode=c.mode)
        d.law, d.rel = c.law, True
        out.append(d)
    return out


def numeric(pid, seed, a, work):
    if a.replay:
        with open(a.replay) as f:
            groups = [parse_line(v['replay']) for v in json.load(f)['violations']]
        extra, found, scanned = [], [], {}
    else:
        scale = a.scale or (3 if a.tier == "quick" else 30)
        R = random.Random('%s-%d' % (pid, seed))
        groups = getattr(gen, 'gen_' + pid)(R, scale)
        ch = getattr(gen, 'gen_%s_chained' % pid, None)
        chains = ch(R, scale) if ch else []
        extra = chained(chains) + chained(R.sample(chains, len(chains) // 4), True)
        groups += [release(g) for g in R.sample(groups, len(groups) // 4)]
        quick = a.tier == 'quick'
        found, scanned = scan.scan(pid, seed, 4000 if quick else 100000, budget=25 if quick else 240)
    vlib.execute([c for g in groups for c in g])
    vlib.execute([c for g in found for c in g])
    groups = [g for g in groups + found if all(c.out is not None for c in g)] + extra
    r = vlib.judge(groups, work)
    undecided(r)
    distinct = len({key_of(g) for g in groups})
    bad, seen = [], set()
    for g, c, code, use in sorted(r['bad'], key=lambda b: -b[3]):
        k = key_of(g)
        if k not in seen:
            seen.add(k)
            bad.append((k, describe(g, c, code, use)))
    smp = random.Random(seed).sample(groups, min(6, len(groups)))
    per = {}
    for g in groups:
        n = g[-1].fn if not g[-1].law else 'law ' + LAWNAME[g[-1].law]
        per[n] = per.get(n, 0) + 1
    cov = {'states': r['states'], 'transitions': r['calls'], 'traces_validated_against_impl': r['shards'],
           'verdicts': r['judged'], 'left_undecided_by_the_reference': r['undecided'], 'distinct_groups': distinct, 'groups_in_the_release_build': sum(g[0].rel for g in groups), 'groups_by_kind': per, 'scan': scanned,
           'worst_share_of_tolerance': r['worst'][0] / 1000,
           'worst_case': r['worst'][1].show() if r['worst'][1] else None,
           'samples': ['; '.join(c.show() for c in g) for g in smp]}
    return {'bad': bad, 'coverage': cov,
            'summary': '%d calls, %d verdicts, %d rejected, worst share of a tolerance %.3f at %s'
                       % (r['calls'], r['judged'], len(bad), r['worst'][0] / 1000, r['worst'][1].show() if r['worst'][1] else '-'),
            'assumptions': ['The calls are sampled: the property is decided for the calls recorded in this run.']}


if __name__ == '__main__':
    sys.exit(main())
