#!/usr/bin/env python3
"""Decide one property: generate cases, run the real binaries, and let TLC evaluate the
specification on every case.  Usage: check.py PROPERTY [--tier quick|thorough] [--replay FILE]"""
import os, sys, json, time, argparse, random, copy, traceback
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [os.path.join(ROOT, 'harness'), os.path.join(ROOT, 'bin')]
import build, run, gen
from plan import PLAN, EXTRA

KF = os.path.join(ROOT, 'known-findings.json')


def controls(cases, res, rng, n=4):
    """accepted cases with a corrupted output: the specification must reject every one of them"""
    out = []
    ok = [c for c in cases if res.get(c['id'], (False, 0))[0] and len(c['out']) > 2]
    rng.shuffle(ok)
    for k, c in enumerate(ok[:n]):
        d = dict(c); o = list(c['out']); i = rng.randrange(len(o))
        if k % 2: del o[i]
        else: o[i] = o[i] + ' ctl'
        d['out'] = o; d['id'] = 'control-%d' % k
        out.append(d)
    return out


def save_replay(prop, c, why):
    d = os.path.join(ROOT, 'replays'); os.makedirs(d, exist_ok=True)
    p = os.path.join(d, '%s-%s.json' % (prop, c['id']))
    with open(p, 'w') as f:
        json.dump(dict(property=prop, why=why, args=run.opt_args(c['opt']) if c['opt'] else [], grammar=c['gtext'], input=c['itext'], output=c.get('out'), case=c), f, ensure_ascii=False, indent=1)
    return p


def judge(cases, stats, workers=8, timeout=700):
    """[(case, reason)] of the cases the specification rejects"""
    run.run_all(cases)
    bad = []; good = []
    for c in cases:
        if c['rc'] == -99: c['out'] = []; good.append(c)     # timed out: excused only if the specification leaves the case undecided
        elif c['rc'] != 0 or c['out'] is None: bad.append((c, 'exit code %s: %s' % (c['rc'], c['err'][-200:])))
        else: good.append(c)
    res, st, out = run.run_tlc(good, workers=workers, timeout=timeout) if good else ({}, dict(states=0, transitions=0, wall=0), '')
    for k in ('states', 'transitions'): stats[k] = stats.get(k, 0) + st[k]
    miss = []
    for c in good:
        r = res.get(c['id'])
        if r is None: miss.append(c)
        elif r[0] is None: stats['undecided'] = stats.get('undecided', 0) + 1
        elif not r[0] or c['rc'] == -99: bad.append((c, ('timed out; ' if c['rc'] == -99 else '') + 'specification: ' + str(r[1])))
    return bad, miss, good, res, out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop'); ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick')); ap.add_argument('--replay')
    ap.add_argument('--seconds', type=int, default=600)
    a = ap.parse_args()
    t0 = time.time()
    seed = int(os.environ.get('VERIF_SEED', '1'))
    build.build()
    if a.replay:
        c = json.load(open(a.replay))['case']
        bad, miss, good, res, out = judge([c], {})
        print(res, bad and bad[0][1]); sys.exit(1 if bad or miss else 0)
    stats = {}
    nval = hits = nhit = 0
    samples = []; violations = []; groups = {}
    kf = [k for k in json.load(open(KF)) if isinstance(k, dict) and k['property'] == a.prop and k.get('status') == 'known'] if os.path.exists(KF) else []
    ctl_total = ctl_rej = 0
    rnd = 0
    while True:
        cases = []
        for prof, nq, nt in PLAN[a.prop]:
            n = nq if a.tier == 'quick' else nt
            cs = gen.cases(prof, n, '%d.%d' % (seed, rnd), tag='%s.%d' % (prof, rnd))
            groups[prof] = groups.get(prof, 0) + len(cs); cases += cs
        # a fixed order that spreads expensive cases over the workers
        random.Random(seed).shuffle(cases)
        bad, miss, good, res, out = judge(cases, stats, timeout=360 if a.tier == 'quick' else 700)
        if miss:        # evaluation errors: once more, on their own, before calling it anything
            b2, m2, g2, r2, out2 = judge(miss, stats, workers=4 if len(miss) < 20 else 8, timeout=60 if len(miss) < 20 else 270)
            bad += b2; res.update(r2)
            if m2 and len(m2) <= 3 and 'Error:' not in out2:        # too much for TLC to evaluate
                stats['undecided'] = stats.get('undecided', 0) + len(m2)
            elif m2:
                print('ERROR: the specification gave no answer for %d cases, first %s' % (len(m2), m2[0]['id']))
                print(out2[-3000:])
                save_replay(a.prop, m2[0], 'no answer')
                sys.exit(2)
        if bad:         # everything that is rejected is run again
            b2, m2, g2, r2, out2 = judge([copy.deepcopy(c) for c, w in bad], stats)
            for c, w in b2: violations.append((c, w))
        for c in good:
            r = res.get(c['id'])
            if r and r[0]:
                nval += 1; hits += r[1]; nhit += bool(r[1])
                if r[1] and len(samples) < 3 and len(c['gtext']) < 1500:
                    samples.append(dict(id=c['id'], args=run.opt_args(c['opt']), grammar=c['gtext'], input=c['itext'], output=c['out'], rule_applications=r[1]))
        if rnd == 0:
            ctl = controls(good, res, random.Random(seed))
            if ctl:
                cr, _, o = run.run_tlc(ctl)
                ctl_total = len(ctl); ctl_rej = sum(1 for v in cr.values() if v[0] is False)
        rnd += 1
        if a.tier == 'quick' or violations or time.time() - t0 > a.seconds: break
    extra = {}
    if a.prop in EXTRA and not violations:
        for f in EXTRA[a.prop]:
            v, ex = f(a.tier, seed)
            for x in v: violations.append(x)
            for k in ('states', 'transitions'): stats[k] = stats.get(k, 0) + ex.pop(k, 0)
            nval += ex.pop('traces', 0)
            samples += ex.pop('samples', [])[:2]
            extra.update(ex)
    for k in kf:        # recorded defects: each one is this input with this output
        o = run.raw(k['args'], k['grammar'], k['input'])
        if o == k['observed']: print('KNOWN-FINDING: property=%s %s: %s' % (a.prop, k['id'], k['what']))
        elif o != k['specified']:
            violations.append((dict(id='finding-' + k['id'], opt=None, gtext=k['grammar'], itext=k['input'], out=(o or '').splitlines()), 'neither the recorded nor the specified output'))
    for c, w in violations[:5]:
        p = save_replay(a.prop, c, w)
        print('VIOLATION property=%s replay=%s' % (a.prop, p))
        print('  %s: %s' % (c['id'], w[:400]))
    ev = dict(property=a.prop, tier=a.tier, seed=seed, level='model_checking',
              coverage=dict(states=stats.get('states', 0), transitions=stats.get('transitions', 0), traces_validated_against_impl=nval,
                            samples=samples, cases_by_profile=groups, rule_applications=hits, cases_with_rule_applications=nhit, left_undecided=stats.get('undecided', 0),
                            corrupted_controls=ctl_total, corrupted_controls_rejected=ctl_rej, **extra),
              assumptions=['the written specification (spec/*.tla) states the documented behaviour', 'TLC evaluates it correctly',
                           'behaviour is observed through the command-line tools'],
              wall_s=round(time.time() - t0, 1), violations=len(violations))
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    with open(os.path.join(ROOT, 'evidence', a.prop + '.json'), 'w') as f: json.dump(ev, f, ensure_ascii=False, indent=1)
    print('%s %s: %d cases (%s), %d states, %d rule applications, controls %d/%d, %d violations, %.1fs' % (
        a.prop, a.tier, nval, groups, stats.get('states', 0), hits, ctl_rej, ctl_total, len(violations), time.time() - t0))
    if ctl_total and ctl_rej != ctl_total:
        print('ERROR: a corrupted output was accepted'); sys.exit(2)
    sys.exit(1 if violations else 0)


if __name__ == '__main__':
    main()
