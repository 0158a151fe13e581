"""Decisions that relate several runs to each other."""
import random, copy
import run, gen
import stream as ST


def _case(c, cid, items):
    items = ST.finish(copy.deepcopy(items))
    return dict(c, id=cid, items=items, itext=ST.text(items), opt=c['opt'])


def history(tier, seed):
    """a stream of several flushed parts gives what its parts give on their own, whatever the memory it runs in holds"""
    n = 500 if tier == 'quick' else 3000
    whole = []; parts = {}
    for i in range(n):
        rng = random.Random('hist/x%d/%d' % (seed, i))
        G = gen.PROFILES['hist'](rng)
        if G is None: continue
        G.opt['printids'] = 0
        c = G.case('whole-%d' % i)
        c['env'] = dict(MALLOC_PERTURB_=str(1 + i % 255))
        whole.append(c)
        if G.of == 'deps' or c['opt']['hasdep'] or c['opt']['hasrel']: continue
        parts[c['id']] = [_case(c, '%s.%d' % (c['id'], k), p) for k, p in enumerate(G.parts)]
    again = [dict(c, id=c['id'] + '.again', env=dict(MALLOC_PERTURB_=str(255 - i % 255))) for i, c in enumerate(whole)]
    run.run_all(whole + again + [p for ps in parts.values() for p in ps])
    bad = []
    for c, d in zip(whole, again):
        if c['rc'] == -99 or d['rc'] == -99: continue
        if c['rc'] or c['out'] is None: bad.append((c, 'exit code %s' % c['rc'])); continue
        if d['out'] != c['out']: bad.append((c, 'two runs of the same grammar and input differ')); continue
        ps = parts.get(c['id'])
        if not ps or any(p['rc'] or p['out'] is None for p in ps): continue
        cat = [l for p in ps for l in p['out']]
        if cat != c['out']:
            k = next((k for k, (a, b) in enumerate(zip(cat, c['out'])) if a != b), min(len(cat), len(c['out'])))
            bad.append((c, 'line %d: the parts on their own give %r, all in one run %r' % (k + 1, cat[k:k + 1], c['out'][k:k + 1])))
    # the specification has no history either: it accepts the parts on their own
    some = [p for c in whole[:60 if tier == 'quick' else 400] for p in parts.get(c['id'], []) if p['rc'] == 0 and p['out'] is not None]
    res, st, out = run.run_tlc(some) if some else ({}, dict(states=0, transitions=0), '')
    for p in some:
        r = res.get(p['id'])
        if r and r[0] is False: bad.append((p, 'specification: %s' % r[1]))
    return bad, dict(states=st['states'], transitions=st['transitions'], traces=sum(1 for p in some if (res.get(p['id']) or [0])[0]),
                     runs_compared=len(whole), runs_split_into_parts=len(parts))
