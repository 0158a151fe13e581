"""Case profiles: each makes one random case that exercises one part of the behaviour."""
import os, random, copy
from gram import *
import stream as ST
from gen import Gen, dis_rules, PROFILES, TG, BF, WF


def profile(f):
    PROFILES[f.__name__[2:]] = f
    return f


def probe(G, tests, target=None, k0=1):
    """one ADD per test: the tags show for every cohort whether the test held"""
    for k, t in enumerate(tests):
        G.g.rule('ADD', target or G.g.any(), [t] if isinstance(t, int) else t, ml=[lit('h%d' % (k + k0))])


def pos_test(G):
    """one unlinked test, all position features equally likely"""
    r = G.r; g = G.g
    off = r.choice([-3, -2, -1, 0, 1, 2, 3])
    scan = r.choice(['', '*', '**'])
    L = ''
    ab = r.random() < .2
    if ab:
        L += '@'
        if off == 0: off = 1
    if r.random() < .35: L += 'C'
    if r.random() < .35 and not (off == 0 and not scan and not ab): L += r.choice(['W', '<', '>'])
    if r.random() < .2 and scan: L += 'S'
    if 'S' in L and r.random() < .3: L += 'N'
    no = r.random() < .3
    if no and (scan == '**' or 'C' in L or (off == 0 and scan)): no = False
    kw = dict(no=no, neg=r.random() < .15)
    x = r.random()
    if scan and x < .12: kw['all'] = True
    elif scan and x < .24: kw['none'] = True
    if scan or 'S' in L:
        if r.random() < .3: kw['bar'] = G.set()
        if r.random() < .2: kw['cbar'] = G.set()
    return g.test(off=off, scan=scan, letters=L, tgt=G.set(), **kw)


@profile
def p_pos(rng):
    G = Gen(rng).mk_sets(4, 2)
    probe(G, [pos_test(G) for _ in range(9)])
    G.stream(nw=rng.choice([1, 2, 3, 3, 4]))
    G.opt['aspan'] = int(rng.random() < .15)
    return G


@profile
def p_link(rng):
    """linked chains, barriers, templates, jumps, marks"""
    G = Gen(rng).mk_sets(4, 2); G.maxlinks = 3
    ts = []
    for _ in range(7):
        x = rng.random()
        if x < .35:
            ts.append(G.test(link=1.0))
        elif x < .5:      # mark, then jump back
            g = G.g
            j = g.test(off=rng.choice([-2, -1, 0, 1, 2]), scan=rng.choice(['', '*', '**']), letters='', tgt=G.set(), jump=rng.choice(['x', 'jM']))
            m = g.test(off=rng.choice([-2, -1, 1, 2]), scan=rng.choice(['', '*']), tgt=G.set(), link=j)
            ts.append(g.test(off=rng.choice([-2, -1, 1, 2]), scan=rng.choice(['', '*', '**']), letters='X', tgt=G.set(), link=m))
        else:
            ts.append(G.test())
    probe(G, ts)
    G.stream(nw=rng.choice([1, 2, 3, 3, 4]))
    G.opt['aspan'] = int(rng.random() < .1)
    G.opt['nopo'] = int(rng.random() < .1)
    return G


@profile
def p_tmpl(rng):
    """templates and inline alternatives with and without position overrides"""
    G = Gen(rng).mk_sets(4, 2); G.maxlinks = 2
    g = G.g; r = rng
    tms = []
    for _ in range(3):
        alts = [G.test(notmpl=True) for _ in range(r.choice([1, 2, 2, 3]))]
        tms.append(g.template(alts))
    ts = []
    for _ in range(7):
        t = r.choice(tms)
        lk = G.test(1, notmpl=True) if r.random() < .4 else 0
        if r.random() < .3: ts.append(g.test(tmpl=t, link=lk, neg=r.random() < .2))
        elif r.random() < .2: ts.append(g.test(ors=[G.test(1, notmpl=True) for _ in range(2)], link=lk, neg=r.random() < .2))
        else:
            off = r.choice([-3, -2, -1, 1, 2, 3]); L = ''
            if r.random() < .15: L += '@'
            if r.random() < .3: L += r.choice(['W', '<', '>'])
            ts.append(g.test(off=off, scan=r.choice(['', '', '*', '**']), tmpl=t, letters=L, link=lk, neg=r.random() < .1))
    probe(G, ts)
    G.stream(nw=r.choice([1, 2, 3, 3]))
    return G


def set_zoo(G, leaf=None, n=10):
    """sets of every operator over LISTs of varied shape; returns the ids"""
    r = G.r; g = G.g
    G.mk_sets(6, 6)
    ids = list(G.setids)
    def free(i):      # no member makes another redundant
        ks = [frozenset(p['src'] for p in m) for m in g.sets[i - 1]['m']]
        return not any(a < b for a in ks for b in ks)
    plain = [i for i in G.lists if not g.sets[i - 1]['ff'] and free(i)]
    for _ in range(3):
        if len(plain) < 2: break
        a, b = r.sample(plain, 2)
        op = r.choice(['\\', '∆', '∩'])
        if r.random() < .6:            # make them overlap
            A = g.sets[a - 1]; B = g.sets[b - 1]
            ms = r.sample(A['m'], min(len(A['m']), r.choice([1, 1, 2]))) + B['m']
            ms = [sorted(m, key=lambda p: r.random()) for m in ms]
            ms = list({tuple(sorted(p['src'] for p in m)): m for m in ms}.values())
            b = g.lst(ms); ids.append(b)
            if not free(b): continue
        i = g.calc(a, op, b)
        if not g.sets[i - 1]['m']:
            g.sets.pop(); continue
        ids.append(i)
        if r.random() < .5:
            ids.append(g.ops([i, r.choice(G.setids)], [r.choice(['OR', '+', '-', '^'])]))
    return ids


@profile
def p_sets(rng):
    """every reading against many set expressions, by ADD target"""
    G = Gen(rng)
    G.tags = list(TG)
    ids = set_zoo(G)
    rng.shuffle(ids)
    for k, i in enumerate(ids[:12]):
        G.g.rule('ADD', i, [], ml=[lit('h%d' % (k + 1))])
    G.g.inline = rng.choice([0, .4, .8])
    G.stream(nw=rng.choice([1, 2]))
    return G


# ------------------------------------------------------------------ P05: kinds of tags
TV = ['N', 'n', 'Nom', 'nom', 'NOM', 'x.y', 'a+b', 'V1', 'V22', 'foo-bar', 'FOO-bar', '7', 'Æbø', 'æBØ', '<sem>', '<Sem>', '<sem2>', '<SEM.3>', '<é>', '<É>', '^up', 'a|b']
TB = ['"cat"', '"Cat"', '"CAT"', '"dog house"', '"a.b"', '"b+"', '"axb"', '"Ærø"', '"ærø"', '"c"', '"q>"']
TW = ['"<Cat>"', '"<cat>"', '"<dogs>"', '"<a b>"', '"<x.y>"', '"<Ærø>"', '"<$c>"', '"<CAT>"']
NK = ['W', 'F', 'wt', 'Æ']
RXT = ['N.*', '.*om', 'V[0-9]+', 'V[^0-9]', '[a-z]+', 'x.y', '^N', 'm$', '^nom$', 'o', '(foo|nom).*', 'a\\+b', '<sem', '^<.*>$', '^"c', '"<', '^"<.*>"$', 'a?', 'Æ', 'æb', '[^a-z]+$', 'N|V']
RXB = ['"c.*"', '".a."', '"[a-c].*"', '".*[a-z]"', '"c?at"', '"(cat|dog).*"', '".."', '"a.b"', '"æ.*"']
RXW = ['"<c.*>"', '"<.*s>"', '"<[A-Z].*>"', '"<.* .*>"', '"<(cat|dogs)>"']
RXA = ['<s.*>', '<sem[0-9]>', '<.*[0-9]>', '<.>']


def tag_pat(G):
    r = G.r
    x = r.random()
    if x < .12: return lit(r.choice(TV))
    if x < .18: return lit(r.choice(TB[:9] + TW))
    if x < .28: return ic(r.choice(['"cat"', '"CAT"', '"ærØ"', '"<cat>"', '"<CAt>"', '<SEM>', '<sEM2>', '<É>', '"dog HOUSE"']))
    if x < .44: return rxtag(r.choice(RXT), icase=int(r.random() < .3), slash=True)
    if x < .52: return rxtag(r.choice(RXB), icase=int(r.random() < .3))
    if x < .58: return rxtag(r.choice(RXW), icase=int(r.random() < .3))
    if x < .64: return rxtag(r.choice(RXA), icase=int(r.random() < .3))
    if x < .72: return r.choice([ANYB, ANYW, ANYT])
    if x < .93:
        op = r.choice(['=', '=', '!=', '<', '>', '<=', '>='])
        v = r.choice([-20, 0, 5, 10, 15, 20, 30, 100, 'MIN', 'MAX'])
        off = r.choice([0, 0, -10, 10, 25]) if isinstance(v, str) else 0
        return num(r.choice(NK[:3]), op, v, off=off, opsrc=r.choice(OPSRC[op]))
    if x < .97: return rxline(r.choice(['N .*V', 'cat. N', 'N nom$', '^"<cat', '__N__V1__', '> "c.*"']))
    return meta(r.choice(['foo', 'b.r', '[0-9]+', 'x y']))


def num_tag(G):
    r = G.r
    k = r.choice(NK[:3] + ['W', 'W']); op = r.choice(['=', '=', '=', '=', '!=', '<', '>', '<=', '>='])
    v = r.choice([-20, -5, 0, 5, 10, 15, 20, 30, 100])
    t = '<%s%s%s>' % (k, r.choice(OPSRC[op]), numtxt(v))
    G.numtags[t] = dict(key=k, op=op, v=v)
    return t


def tag_stream(G, nw, p_num=.35):
    r = G.r
    def rt():
        ts = r.sample(TV, r.choice([1, 2, 2, 3, 4]))
        while r.random() < p_num:
            t = num_tag(G)
            if t not in ts: ts.insert(r.randrange(len(ts) + 1), t)
        return [r.choice(TB)] + ts
    G.reading_tags = rt
    G.wfs = TW
    G.stream(nw=nw)
    for i, it in enumerate(G.items):
        if it['k'] == 'coh' and r.random() < .15: it['_txt'] = 1
    out = []
    for it in G.items:
        out.append(it)
        if it.pop('_txt', None): out.append(ST.txt(r.choice(['foo', 'bar 12', 'x yz', 'nothing'])))
    G.items = out


@profile
def p_tags(rng):
    """every kind of tag against every reading, alone, in composites and as fail-fast"""
    G = Gen(rng); g = G.g; r = rng
    def lst():
        ms = []
        for _ in range(r.choice([1, 1, 1, 2, 3])):
            m = [tag_pat(G) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
            ms.append(list({p['src']: p for p in m}.values()))
        ms = list({tuple(sorted(p['src'] for p in m)): m for m in ms}.values())
        ff = [tag_pat(G)] if r.random() < .15 else []
        ff = [p for p in ff if all(p['src'] != q['src'] for m in ms for q in m)]
        return g.lst(ms, ff)
    ls = [lst() for _ in range(12)]
    for _ in range(2):
        x = r.sample(ls, 2); ls.append(g.ops(x, [r.choice(['OR', '+', '-', '^'])]))
    if r.random() < .3:
        k = r.choice(ls); ls.append(g.lst([[setref(g, k)], [lit('N'), setref(g, r.choice(ls))]]))
    r.shuffle(ls)
    if r.random() < .7: g.section()
    for k, i in enumerate(ls[:9]):
        x = r.random()
        if x < .6: g.rule('ADD', i, [], ml=[lit('h%d' % (k + 1))])
        elif x < .9: g.rule('ADD', g.any(), [g.test(off=r.choice([-1, 0, 1]), letters=r.choice(['', 'C']), tgt=i)], ml=[lit('h%d' % (k + 1))])
        else: g.rule(r.choice(['SELECT', 'REMOVE']), i, [])
    g.inline = r.choice([0, .5])
    tag_stream(G, r.choice([1, 2, 2]))
    return G


# ------------------------------------------------------------------ P11: mapping rules
MT = ['@m1', '@m2', '@m3', '@<x>', '@æ']


def add_tags(G, n=None, maps=None):
    """tags for ADD/MAP/REPLACE: plain ones and mapping tags, no two neighbours equal"""
    r = G.r
    out = []
    for _ in range(n or r.choice([1, 1, 2, 2, 3, 4])):
        t = r.choice(MT) if (r.random() < .5 if maps is None else maps) else r.choice(['n1', 'n2', 'n3', 'N', 'sg', '<h1>', '"B"' if r.random() < .2 else 'n4'])
        if not out or out[-1] != t: out.append(t)
    return [lit(t) for t in out]


def map_leaf(G):
    return lambda: lit(G.r.choice(MT)) if G.r.random() < .6 else lit(G.r.choice(['n1', 'n2', 'n3', 'n4']))


def with_maps(G, p=.35):
    """input readings that carry mapping tags"""
    r = G.r
    for it in G.items:
        if it['k'] == 'coh':
            for ch in it['rs']:
                if r.random() < p: ch[0]['m'] = r.sample(MT, r.choice([1, 1, 1, 2, 3]))


@profile
def p_map(rng):
    G = Gen(rng); r = rng; g = G.g
    G.leaf = map_leaf(G)
    G.mk_sets(6, 2)
    newset = g.lst([lit('"new"')])
    g.section(r.choice(['SECTION', 'SECTION', 'MAPPINGS', 'BEFORE-SECTIONS']))
    for _ in range(r.choice([3, 4, 5, 6, 7])):
        x = r.random()
        fl = []
        if r.random() < .12: fl.append(r.choice(['ITERATE', 'NOITERATE']))
        if r.random() < .1: fl.append('NOMAPPED')
        if x < .5:
            ty = r.choice(['ADD', 'ADD', 'MAP', 'MAP', 'REPLACE'])
            kw = {}
            if ty in ('ADD', 'MAP') and r.random() < .25:
                k = lit(r.choice(TG[:4]))
                kw['spot'] = [k]; fl.append(r.choice(['BEFORE', 'AFTER']))
                tgt = g.lst([k])
                if r.random() < .5: tgt = g.ops([tgt, G.set()], ['+'])
            else: tgt = G.set()
            if ty == 'REPLACE' and r.random() < .4: kw['sl'] = [lit(r.choice(TG)) for _ in range(r.choice([1, 2]))]
            g.rule(ty, tgt, G.tests(r.choice([0, 0, 1])), ml=add_tags(G, maps=False) if kw.get('spot') and r.random() < .5 else add_tags(G), fl=fl, **kw)
        elif x < .62:
            if r.random() < .3: fl.append(r.choice(['SAFE', 'UNSAFE']))
            g.rule('UNMAP', G.set(), G.tests(r.choice([0, 0, 1])), fl=fl)
        elif x < .68:
            g.rule('REMOVE', G.set(), G.tests(r.choice([0, 0, 1])), fl=['UNMAPLAST'])
        elif x < .74:
            g.rule('SUBSTITUTE', G.set(), G.tests(r.choice([0, 0, 1])), sl=[lit(r.choice(G.tags))], ml=add_tags(G, r.choice([1, 2])))
        elif x < .8:
            g.rule('APPEND', G.set(), G.tests(r.choice([0, 0, 1])) + ([g.test(off=0, no=True, tgt=newset)] if r.random() < .85 else []), ml=[lit('"new"')] + add_tags(G, r.choice([1, 2, 3])))
        else:
            g.rule(r.choice(['SELECT', 'REMOVE', 'REMOVE', 'IFF']), G.set(), G.tests(r.choice([0, 0, 1])), fl=[f for f in fl if f != 'NOMAPPED'])
        if r.random() < .15: g.section()
    G.stream(nw=r.choice([1, 1, 2]))
    with_maps(G)
    G.opt['maxruns'] = 18       # keeps endless loops short
    if r.random() < .5: G.opt['trace'] = 1
    if r.random() < .2: G.opt['splitm'] = 1
    if r.random() < .1: G.opt['nomap'] = 1
    if r.random() < .1: G.opt['nocorr'] = 1
    if r.random() < .08: G.opt['magic'] = 0
    return G


# ------------------------------------------------------------------ P12: SUBSTITUTE, APPEND, COPY
def edit_list(G, n=None):
    r = G.r
    ts = r.sample(G.tags + ['<h1>', '<h2>'], n or r.choice([1, 1, 1, 2, 2, 3]))
    return [lit(t) for t in ts]


@profile
def p_edit(rng):
    G = Gen(rng); r = rng; g = G.g
    one = r.random() < .4          # at most one tag of a kind per reading: patterns have one possible match
    if one:
        def rt():
            ts = [r.choice(k) for k in (['N', 'V', 'A', 'Det'], ['sg', 'pl'], ['x1', 'x2'], ['<h1>', '<h2>']) if r.random() < .6] or ['N']
            r.shuffle(ts)
            return [r.choice(G.bfs)] + ts
        G.reading_tags = rt
    def news(n, maps=False):
        ps = add_tags(G, n, maps)
        if one:
            alt = iter(r.sample(['q1', 'q2', 'q3', 'q4'], 4))
            ps = [lit(next(alt)) if p['s'] in ('N', 'sg') else p for p in ps]
        return ps
    G.leaf = lambda: lit(r.choice(['n1', 'n2', 'n3', '"new"', '"B"']))
    G.mk_sets(6, 2)
    g.section(r.choice(['SECTION', 'SECTION', 'CORRECTIONS', 'BEFORE-SECTIONS']))
    for _ in range(r.choice([3, 4, 5, 6])):
        x = r.random(); fl = []; kw = {}
        if r.random() < .1: fl.append('ITERATE')
        ts = G.tests(r.choice([0, 0, 1]))
        if x < .5:
            y = r.random()
            if y < .6: sl = edit_list(G)
            elif y < .75: sl = [lit(r.choice(G.bfs))]
            elif y < .82: sl = [anyp()]
            elif y < .94 and one: sl = [rxtag(r.choice(['^[NVAD]', 'x[0-9]', '^s|^p']), slash=True)]
            else: sl = [lit(r.choice(G.wfs))]
            y = r.random()
            if y < .15 and sl[0]['k'] != 'any': ml = [anyp()]
            elif sl[0].get('s', '')[:2] == '"<': ml = [lit(r.choice(G.wfs + ['"<neu>"']))]
            elif sl[0].get('s', '')[:1] == '"': ml = [lit(r.choice(['"B"', '"new"']))] + ([lit('n1')] if r.random() < .3 else [])
            else: ml = news(r.choice([1, 1, 2, 3]), False)
            if any(p.get('s', '')[:1] == '"' for p in ml) and sl[0].get('s', '')[:1] != '"': ml = [lit('n2')]
            g.rule('SUBSTITUTE', G.set(), ts, sl=sl, ml=ml, fl=fl)
        elif x < .7:
            ml = []
            for _ in range(r.choice([1, 1, 2])): ml += [lit(r.choice(['"new"', '"a"', '"new two"']))] + news(r.choice([1, 2]), False if r.random() < .8 else None)
            ml = [p for p in ml if p.get('s') != '"B"']
            if r.random() < .9: ts = ts + [g.test(off=0, no=True, tgt=g.lst([ml[0]]))]
            g.rule('APPEND', G.set(), ts, ml=ml, fl=[])
        elif x < .87:
            if r.random() < .5: kw['sl'] = edit_list(G)
            if r.random() < .25:
                k = lit(r.choice(TG[:4])); kw['spot'] = [k]; fl = [r.choice(['BEFORE', 'AFTER'])]
                tgt = g.lst([k]); kw['sl'] = [p for p in kw.get('sl', []) if p['s'] != k['s']]
            else: tgt = G.set(); fl = []
            c = 'c%d' % r.randrange(1, 9)
            nt = g.test(off=0, no=True, tgt=g.lst([lit(c)]))
            g.rule('COPY', tgt, ts + [nt], ml=[lit(c)] + [p for p in news(r.choice([1, 2]), False if r.random() < .7 else None) if p['s'] != '"B"'], fl=fl, **kw)
        else:
            g.rule(r.choice(['SELECT', 'REMOVE']), G.set(), ts)
        if r.random() < .15: g.section()
    G.stream(nw=r.choice([1, 1, 2]))
    for it in G.items:      # the same tag several times on a reading
        if it['k'] == 'coh':
            for ch in it['rs']:
                if r.random() < .25:
                    t = ch[0]['t']; t.insert(r.randrange(1, len(t) + 1), r.choice(t[1:]))
    G.opt['maxruns'] = 18
    if r.random() < .5: G.opt['trace'] = 1
    if r.random() < .1: G.opt['nocorr'] = 1
    if r.random() < .1: G.opt['uniq'] = 1
    return G


@profile
def p_wfch(rng):
    """SUBSTITUTE changes the wordform of cohorts that have deleted, delayed or ignored readings, which RESTORE brings back"""
    G = Gen(rng); r = rng; g = G.g
    G.tags = ['N', 'V', 'A', 'sg', 'pl', 'x1']
    G.leaf = lambda: lit(r.choice(['n1', 'n2', 'q1', 'n3']))
    G.mk_sets(4, 1)
    one = [g.lst([lit(t)]) for t in G.tags]
    W = ['"<v%d>"' % i for i in range(1, 4)]
    wfs = G.wfs + W
    wset = [g.lst([lit(w)]) for w in r.sample(wfs, min(4, len(wfs)))] + [g.lst([lit(r.choice(W))])]
    def lim(): return [f for f in ('DELAYED', 'IGNORED') if r.random() < .35][:1]
    def tst():
        L = ''.join(x for x in 'DdI' if r.random() < .3)
        return g.test(off=r.choice([-1, 0, 0, 0, 1]), letters=L, no=r.random() < .25, tgt=r.choice(wset + one))
    def tests(n): return [tst() for _ in range(r.choice(n))]
    g.section(r.choice(['SECTION', 'BEFORE-SECTIONS', 'BEFORE-SECTIONS']))
    for _ in range(r.choice([1, 2, 2])):
        g.rule(r.choice(['REMOVE', 'REMOVE', 'SELECT']), r.choice(one), tests([0, 0, 1]), fl=lim())
    n = 0
    for _ in range(r.choice([2, 3, 4])):
        x = r.random(); n += 1
        if x < .5:
            g.rule('SUBSTITUTE', r.choice(one + [g.any()]), tests([0, 0, 1]), sl=[lit(r.choice(G.wfs))], ml=[lit(r.choice(W))])
        elif x < .6:
            g.rule('ADD', r.choice(wset + one), tests([0, 1]), ml=[lit('h%d' % n)])
        elif x < .7:
            g.rule(r.choice(['REMOVE', 'SELECT']), r.choice(wset + one), tests([0, 1]), fl=lim())
        else:
            g.rule('RESTORE', g.any() if r.random() < .6 else r.choice(wset + one), tests([0, 0, 1]), fl=lim(), mset=r.choice(one + wset) if r.random() < .6 else g.any())
    for k in range(r.choice([1, 2])):
        g.rule('RESTORE', g.any(), [], fl=lim(), mset=g.any() if r.random() < .5 else r.choice(one + wset))
    for k in range(r.choice([1, 2])):
        g.rule(r.choice(['ADD', 'ADD', 'MAP']), r.choice(wset), tests([0, 0, 1]), ml=[lit('@k%d' % k)])
    G.stream(nw=r.choice([1, 1, 2]))
    G.opt['maxruns'] = 18
    if r.random() < .5: G.opt['trace'] = 1
    return G


# ------------------------------------------------------------------ P07: schedule
MK = ['k1', 'k2', 'k3', 'k4', 'k5', 'k6']


@profile
def p_sched(rng):
    """rules that enable and disable each other across sections; every application leaves a mark"""
    G = Gen(rng); r = rng; g = G.g
    pre = rng.random() < .5
    ks = [g.lst([lit(k)]) for k in MK]
    tg = [g.lst([lit(t)]) for t in ('N', 'V', 'A')]
    jumps = r.random() < .35; again = jumps and r.random() < .4
    prot = not again and r.random() < .3
    G.anch = []
    G.nrules = 0
    def tests():
        ts = []
        for _ in range(r.choice([0, 1, 1, 2])):
            ts.append(g.test(off=r.choice([-1, 0, 0, 1]), no=r.random() < .45, tgt=r.choice(ks)))
        return ts
    def rule(allow_jump=True):
        G.nrules += 1
        x = r.random(); fl = []
        if r.random() < .2: fl.append(r.choice(['ITERATE', 'NOITERATE']))
        if r.random() < .1: fl.append('KEEPORDER')
        name = 'r%d' % r.randrange(1, 6) if r.random() < .4 else ''
        if x < .55:
            k = r.randrange(6)
            ts = tests()
            if r.random() < .8: ts.append(g.test(off=0, no=True, tgt=ks[k]))
            if r.random() < .1: fl.append('REPEAT') if len(ts) and ts[-1] and r.random() < .7 else None
            g.rule(r.choice(['ADD', 'ADD', 'ADD' if again else 'MAP']), r.choice(tg + [g.any()]), ts, ml=[lit(MK[k])], fl=fl, name=name)
        elif x < .72:
            k = r.randrange(6); j = r.randrange(6)
            g.rule('SUBSTITUTE', r.choice(tg + [g.any()]), tests(), sl=[lit(MK[k])], ml=[anyp()] if r.random() < .5 or j == k else [lit(MK[j])], fl=fl, name=name)
        elif x < .92:
            g.rule(r.choice(['SELECT', 'REMOVE', 'IFF'] if not prot else ['REMOVE']), r.choice(ks + tg), tests(), fl=fl, name=name)
        elif prot:
            g.rule('PROTECT' if r.random() < .5 else 'UNPROTECT', r.choice(ks + tg), tests(), name=name)
    def block(n, jumpok=True):
        a = None
        for i in range(n):
            rule()
            if jumps and jumpok and r.random() < .25 and len(G.anch) < 3:
                nm = 'anc%d' % (len(G.anch) + 1); G.anch.append(nm)
                x = r.random()
                # forward over some rules, guarded or not
                g.rule('JUMP', r.choice(ks + tg), tests(), ml=[lit(nm)])
                for _ in range(r.choice([1, 2])): rule()
                g.anchor(nm)
                if r.random() < .8: rule()
        if again and jumpok and r.random() < .6:
            q1 = g.lst([lit('q1')]); q2 = g.lst([lit('q2')])
            g.rule('ADD', tg[0], [g.test(off=0, tgt=q1)], ml=[lit('q2')])
            g.rule('ADD', tg[0], [], ml=[lit('q1')])
            g.rule('JUMP', tg[0], [g.test(off=0, tgt=q1), g.test(off=0, no=True, tgt=q2)], ml=[lit('START')])
        if jumps and jumpok and r.random() < .2:
            g.rule('JUMP', r.choice(ks + tg), tests(), ml=[lit('END')]); rule()
    if pre: g.section(r.choice(['BEFORE-SECTIONS', 'MAPPINGS', 'CORRECTIONS'])); block(r.choice([1, 2]))
    for _ in range(r.choice([1, 2, 2, 3])):
        g.section(); block(r.choice([1, 1, 2, 3]))
    if r.random() < .4: g.section('AFTER-SECTIONS'); block(r.choice([1, 2]))
    if r.random() < .25: g.section('NULL-SECTION'); block(r.choice([1, 2]), False)
    if r.random() < .3: g.section(); block(r.choice([1, 2]))
    def rt():
        ts = r.sample(['N', 'V', 'A'], r.choice([1, 1, 2]))
        ts += r.sample(MK, r.choice([0, 0, 1]))
        return [r.choice(G.bfs)] + ts
    G.reading_tags = rt
    G.stream(nw=r.choice([1, 1, 2]))
    o = G.opt
    if r.random() < .6: o['trace'] = 1
    x = r.random()
    if x < .12: o['maxruns'] = r.choice([1, 2, 3])
    elif x < .18: o['nobef'] = 1
    elif x < .24: o['nosec'] = 1
    elif x < .30: o['noaft'] = 1
    elif x < .36 and not again: o['nomap'] = 1
    elif x < .42: o['nocorr'] = 1
    elif x < .55:
        ss = r.sample(range(1, 5), r.choice([1, 2, 2, 3]))
        if len(ss) == 1: o['secs'] = list(range(ss[0])); o['_secs'] = str(ss[0])
        else:
            o['secs'] = [x - 1 for x in ss]; o['_secs'] = ','.join(map(str, ss))
        if r.random() < .2: o['secs'] = [2]; o['_secs'] = '3-3'
        elif r.random() < .2: o['secs'] = [1, 2]; o['_secs'] = '2-3'
    elif x < .72 and not again:
        G.pick = r.choice(['list', 'list', 'fill', 'range', 'rule', 'name'])
    return G


# ------------------------------------------------------------------ P08: the stream itself
ODDW = ['"<æøå>"', '"<Ünïcödé>"', '"<日本>"', '"<a b>"', '"<don\'t>"', '"<3,14>"', '"<$>"', '"<(>"', '"<;>"', '"<#>"', '"<%>"', '"<@x>"', '"<&>"', '"<a/b>"', '"<<>"', '"<\\">"', '"<->"', '"<الله>"', '"<Привет>"']
ODDB = ['"æ"', '"日"', '"a b"', '"x\\"y"', '"3"', '"$"', '";"', '"#x"', '"(a)"', '"^a"', '"don\'t"', '"ß"', '"a<b"', '"к"']
ODDT = ['<æ>', 'ø', '§', '<sem:x>', '<a=b>', 'a;b', 'x(y)', '%x', '^N', '$x', '&y', '<5>', '<W:0>', '<W:-12.5>', 'N*', '*', '日本', 'å=ß', '→x', '!N', 'R', 'ID', '<>', 'x\\y', '<x/y>', 'a"b', '1', '-', '+', '_', '==', 'VAR:x', 'T:x', '0', '"x"']
TEXTS = ['free', '<s>', '</s>', '  indented text', '\tN V', '\tno baseform', '\t"unfinished', '"<unfinished', ';\t"del" N', '; text', '# hash', '<p id="x">', 'æøå 日本', '', '', 'a\tb', '<STREAMCMD:UNKNOWN>', ' <STREAMCMD:FLUSH>', '"word" N', '<STREAMCMD:FLUSH> x', '.', 'x' * 300, '\\', '"', '>', '"<', '$1', '%s %d %n']


@profile
def p_ident(rng):
    """streams with everything in them, and rules that touch little of it or nothing"""
    G = Gen(rng); r = rng; g = G.g
    uni = r.random() < .5
    if uni:
        G.wfs = ODDW + G.wfs; G.bfs = ODDB + G.bfs; G.tags = ODDT + G.tags[:4]
    else:
        G.tags = G.tags + ['n%d' % i for i in range(6)]
    longtag = r.random() < .15
    deep = r.random() < .35
    big = r.random() < .12
    maps = r.random() < .35
    def rt():
        n = r.choice([0, 1, 1, 2, 3, 4]) if r.random() < .93 else r.choice([12, 25])
        ts = [r.choice(G.tags) for _ in range(n)] if r.random() < .2 else r.sample(G.tags, min(n, len(G.tags)))
        if longtag and r.random() < .3: ts.append(r.choice(['x', 'æ', 'Q']) * r.choice([100, 255, 256, 300, 1023, 1024, 1030, 2000, 5000]))
        ts = [t for t in ts if not t.startswith('"')] if r.random() < .95 else ts
        b = r.choice(G.bfs)
        if longtag and r.random() < .1: b = '"' + 'b' * r.choice([500, 1024, 3000]) + '"'
        return [b] + ts
    def chain():
        n = r.choice([1, 1, 2, 2, 3, 4]) if deep else 1
        ms = r.sample(['@m1', '@m2', '@æ', '@<x'], r.choice([1, 1, 1, 2, 3])) if maps and r.random() < .4 else []
        return ST.reading([rt() for _ in range(n)], ms)
    def cohort(w=None, n=None):
        n = n if n is not None else (r.choice([0, 0, 1, 1, 2, 3, 5]) if not big or r.random() < .9 else r.choice([20, 45]))
        rs = []; seen = set()
        for _ in range(n):
            c = chain(); k = str([frozenset(x['t']) for x in c]) 
            if k in seen: continue
            seen.add(k); rs.append(c)
        wt = [r.choice(['<st>', 'wt1', 'N', '"<x>"', '@m1', '<æ>', '"base"']) for _ in range(r.choice([1, 1, 2]))] if r.random() < .12 else []
        return ST.cohort(w or r.choice(G.wfs), rs, wt=wt)
    G.cohort = cohort
    items = []
    def some_text(p):
        while r.random() < p: items.append(ST.txt(r.choice(TEXTS) if not longtag or r.random() < .8 else 'long ' * r.choice([200, 250, 500, 1000])))
    some_text(.3)
    for i in range(r.choice([0, 1, 1, 2, 3, 5]) if not big else r.choice([6, 9])):
        for _ in range(r.choice([1, 2, 3, 4, 6]) if not big else r.choice([3, 10, 20])):
            items.append(cohort()); some_text(.15)
        if r.random() < .8: items.append(cohort('"<$.>"')); some_text(.2)
        if r.random() < .15: items.append(ST.flush()); some_text(.2)
    if not items: items.append(ST.txt('only text'))
    G.items = items
    x = r.random()
    if x < .5: pass
    elif x < .7: g.section(); g.rule('SELECT', g.lst([lit('nosuchtag')]), [])
    else:
        g.section()
        for _ in range(r.choice([1, 2, 3])):
            g.rule(r.choice(['REMOVE', 'SELECT', 'ADD']), g.lst([lit(r.choice(['N', 'V', 'n1', 'x1', 'sg']))]), [], ml=None) if r.random() < .6 else g.rule('ADD', g.lst([lit(r.choice(['N', 'V', 'A']))]), [], ml=[lit(r.choice(['n9', '@z1']))])
            d = g.rules[-1]
            if d['type'] == 'ADD' and not d['ml']: d['ml'] = [lit('n8')]
    if r.random() < .2: G.opt['trace'] = 1
    if r.random() < .15: G.opt['splitm'] = 1
    if r.random() < .1: G.opt['uniq'] = 1
    if r.random() < .2: G.opt['nwin'] = r.choice([0, 1, 3, 5])
    return G


# ------------------------------------------------------------------ P09: windows
@profile
def p_win(rng):
    G = Gen(rng); r = rng; g = G.g; o = G.opt
    # delimiters
    dl = r.choice([['"<$.>"'], ['"<$.>"', '"<$?>"'], ['DELIM'], ['"<$.>"', 'DELIM'], ['"."']])
    g.delim = g.lst([lit(x) for x in dl], name='_DELIMS_')
    if r.random() < .6:
        sd = r.choice([['"<$,>"'], ['SOFT'], ['"<$,>"', 'SOFT']])
        g.softd = g.lst([lit(x) for x in sd], name='_SDELIMS_')
    o['soft'] = r.choice([2, 3, 4, 5, 300]) if r.random() < .8 else 300
    o['hard'] = r.choice([3, 4, 5, 6, 8, 500]) if r.random() < .7 else 500
    if o['soft'] > o['hard'] and r.random() < .8: o['hard'] = o['soft'] + r.choice([0, 1, 2])
    o['nwin'] = r.choice([0, 1, 1, 2, 2, 3, 4])
    G.wfs = ['"<a>"', '"<b>"', '"<c>"', '"<$.>"', '"<$,>"', '"<$?>"']
    G.bfs = ['"a"', '"b"', '"."']
    p = r.choice([.05, .15, .3])
    def rt():
        ts = r.sample(['N', 'V', 'A', 'M'], r.choice([1, 1, 2]))
        if r.random() < .12: ts.append('DELIM')
        if r.random() < .15: ts.append('SOFT')
        return [r.choice(G.bfs[:2] if r.random() < .9 else G.bfs)] + ts
    G.reading_tags = rt
    items = []
    for i in range(r.choice([5, 8, 12, 16, 24])):
        w = r.choice(G.wfs[:3]) if r.random() > p else r.choice(G.wfs[3:])
        items.append(G.cohort(w=w, n=r.choice([0, 1, 1, 2])))
        if r.random() < .07: items.append(ST.txt(r.choice(['text', '<s>', ''])))
        if r.random() < .03: items.append(ST.flush())
    if r.random() < .1: items.insert(0, ST.txt('first'))
    G.items = items
    sets = [g.lst([lit(t)]) for t in ('N', 'V', 'A', 'M', '"<$.>"')] + [g.lst([lit('>>>')]), g.lst([lit('<<<')])]
    if r.random() < .15: g.section('BEFORE-SECTIONS')
    else: g.section()
    n = 0
    for _ in range(r.choice([2, 3, 5, 6])):
        n += 1
        off = r.choice([-3, -2, -1, -1, 0, 1, 1, 2, 3])
        sc = r.choice(['', '*', '*', '**'])
        lt = r.choice(['', 'W', 'W', 'W', '<', '>'])
        kw = {}
        if r.random() < .15: off = r.choice([-2, -1, 1, 2]); lt = '@' + (lt if r.random() < .5 else '')
        if off == 0 and not sc: lt = lt.replace('W', '').replace('<', '').replace('>', '')
        if sc and r.random() < .3: kw['bar'] = r.choice(sets)
        if r.random() < .2: kw['link'] = g.test(off=r.choice([-1, 1]), scan=r.choice(['', '*']), letters=r.choice(['', 'W']), tgt=r.choice(sets))
        if r.random() < .15 and not (off == 0 and sc) and sc != '**': kw['no'] = True
        g.rule('ADD', r.choice(sets[:4] + [g.any()]), [g.test(off=off, scan=sc, letters=lt, tgt=r.choice(sets), **kw)], ml=[lit('h%d' % n)])
    if r.random() < .35:
        g.section(); g.rule(r.choice(['REMOVE', 'SELECT']), r.choice(sets[:4]), [g.test(off=r.choice([-1, 1]), scan='*', letters='W', tgt=g.lst([lit('h1')]))])
    if r.random() < .1: o['aspan'] = 1
    return G


# ------------------------------------------------------------------ P10: stream commands and variables
@profile
def p_cmd(rng):
    G = Gen(rng); r = rng; g = G.g; o = G.opt
    NM = ['va', 'vb', 'Vc', 'news']; VL = ['1', 'x', 'Y', 'yes', '2']
    o['nwin'] = r.choice([0, 1, 2, 2, 3])
    G.reading_tags = lambda: [r.choice(G.bfs)] + r.sample(['N', 'V', 'A', 'K'], r.choice([1, 1, 2]))
    items = []; ign = False
    def vars_():
        return [(r.choice(NM), r.choice(VL) if r.random() < .6 else None) for _ in range(r.choice([1, 1, 1, 2, 3]))]
    def uniqv(vs): return list({a: (a, b) for a, b in vs}.values())
    for i in range(r.choice([3, 6, 10, 14])):
        x = r.random()
        if x < .6: items.append(G.cohort(n=r.choice([0, 1, 2])))
        if r.random() < .3: items.append(G.cohort(w='"<$.>"', n=r.choice([0, 1])))
        if r.random() < .3: items.append(ST.setvar(uniqv(vars_())))
        if r.random() < .15: items.append(ST.remvar(list({a for a, b in vars_()})))
        if r.random() < .1: items.append(ST.txt(r.choice(['text', '<s>', ''])))
        if r.random() < .12: items.append(ST.flush())
        if r.random() < .06 and not ign:
            items.append(ST.flush()); items.append(ST.cmd('IGNORE'))
            for _ in range(r.choice([0, 1, 3])):
                items.append(G.cohort(n=r.choice([0, 1, 2])))
                if r.random() < .3: items.append(ST.txt(r.choice(['text', '<s>', ''])))
                if r.random() < .1: items.append(ST.setvar(uniqv(vars_())))
            if r.random() < .9: items.append(ST.cmd('RESUME'))
            else: ign = True
        if r.random() < .015:
            if r.random() < .8: items.append(ST.flush())
            items.append(ST.cmd('EXIT'))
    if not any(i['k'] == 'coh' for i in items): items.append(G.cohort())
    G.items = items
    tg = [g.lst([lit(t)]) for t in ('N', 'V', 'A', 'K')] + [g.any()]
    def vpat():
        x = r.random(); loc = r.random() < .25
        if x < .35: return var(r.choice(NM), None, loc)
        if x < .75: return var(r.choice(NM), r.choice(VL), loc)
        if x < .85: return var(r.choice(['va', 'VB', 'VC', 'NEWS']), r.choice([None, 'x', 'y']), loc, nk='ic', vk=r.choice(['ic', 'lit']))
        return var(r.choice(['v[ab]', 'n.*', 'Vc', '^V', 'b$']), r.choice([None, 'x', '[xY]']), loc, nk='rx', vk='rx')
    def tests():
        ts = []
        for _ in range(r.choice([0, 1, 1])):
            ts.append(g.test(off=r.choice([-1, 0, 1]), no=r.random() < .25, tgt=g.lst([vpat()]) if r.random() < .7 else r.choice(tg)))
        return ts
    n = 0
    if r.random() < .2: g.section('BEFORE-SECTIONS')
    else: g.section()
    for _ in range(r.choice([1, 2, 3, 4, 5])):
        n += 1
        x = r.random()
        if x < .5:
            t = g.lst([vpat()] if r.random() < .6 else [[lit(r.choice(['N', 'V'])), vpat()]]) if r.random() < .5 else r.choice(tg)
            g.rule('ADD', t, tests(), ml=[lit('h%d' % n)])
        elif x < .75:
            g.rule('SETVARIABLE', r.choice(tg), tests(), ml=[lit(r.choice(NM))], sl=[lit(r.choice(VL + ['*']))] , fl=['OUTPUT'] if r.random() < .4 else [])
            d = g.rules[-1]
            if d['sl'][0]['s'] == '*': d['sl'] = [anyp()]
        elif x < .9:
            g.rule('REMVARIABLE', r.choice(tg), tests(), ml=[lit(r.choice(NM))], fl=['OUTPUT'] if r.random() < .4 else [])
        else:
            g.rule(r.choice(['SELECT', 'REMOVE']), r.choice(tg[:4]), tests())
        if r.random() < .2: g.section()
    if r.random() < .3: o['trace'] = 1
    return G


# ------------------------------------------------------------------ P06: unification and varstrings
FAM = dict(GEN=['m', 'f', 'n'], NUM=['sg', 'pl', 'du'], CAS=['nom', 'acc', 'dat'])
RXC = ['"<(.+)a>"', '"<(.)(.+)>"', '"<([^b]*)b(.*)>"', '"<(x|y)?(.*)>"', '"(.+)d"', '"([a-zC])([a-z]*)"', '"([a-zA-Z]*)"', '<sem:(.+)>', '<s(e)m:(.)(.*)>', '/^x([0-9])$', '/^no(m)?']


def uni_env(G):
    """readings that have at most one tag of each family, and the unifiers over those families"""
    r = G.r; g = G.g
    G.wfs = ['"<aba>"', '"<xba>"', '"<yb>"', '"<Cab>"', '"<e>"']; G.bfs = ['"a"', '"abd"', '"Cd"', '"e"']
    G.tags = ['N', 'V', 'A']
    def rt():
        ts = [r.choice(['N', 'V', 'A'])]
        for f in FAM.values():
            if r.random() < .6: ts.append(r.choice(f))
        if r.random() < .4: ts.append('<sem:%s>' % r.choice(['hum', 'Food', 'act']))
        if r.random() < .3: ts.append('x%d' % r.choice([1, 2, 3]))
        for f in (['h1', 'h2', 'i1', 'i2', 'j1'],):
            for t in f:
                if r.random() < .2: ts.append(t)
        if r.random() < .3: r.shuffle(ts)
        return [r.choice(G.bfs)] + ts
    G.reading_tags = rt
    L = {}
    def lt(n, ms): L[n] = g.lst(ms, name=n); return L[n]
    for f, v in FAM.items(): lt(f, [lit(x) for x in v])
    lt('AGR', [[lit(a), lit(b)] for a in FAM['GEN'] for b in FAM['NUM'] if r.random() < .7] + [[lit('zz')]])
    lt('SEMS', [lit('<sem:%s>' % x) for x in ('hum', 'Food', 'act')])
    lt('WFS', [lit(x) for x in G.wfs[:4]]); lt('BFS', [lit(x) for x in G.bfs])
    lt('AB', [ANYB]); lt('AW', [ANYW]); lt('AT', [rxlike()])
    lt('SE1', [lit('h1'), lit('h2')]); lt('SE2', [lit('i1'), lit('i2')]); lt('SE3', [lit('j1'), [lit('h1'), lit('i1')]]); lt('SE4', [lit('h2')]); lt('SE5', [lit('i2')]); lt('SE6', [lit('j1')])
    T = [g.tu(L[x]) for x in L if x[:2] != 'SE' or x == 'SEMS']
    ops = [g.ops([L['GEN'], L['NUM']], [r.choice(['+', 'OR'])], name='GN'), g.ops([L['CAS'], L['GEN'], L['x']] if 'x' in L else [L['CAS'], L['GEN']], ['+'], name='CG')]
    T += [g.tu(x) for x in ops if r.random() < .5]
    sems = [g.ops([L['SE1'], L['SE2'], L['SE3']], [r.choice(['OR', '+']), 'OR'], name='SEM'), g.ops([L['SE4'], L['SE5'], L['SE6']], ['OR', 'OR'], name='SIN')]
    T += [g.su(x) for x in sems] * 2
    G.ulist = L
    return T


def rxlike(): return ANYT


@profile
def p_unif(rng):
    G = Gen(rng); r = rng; g = G.g; o = G.opt
    T = uni_env(G); L = G.ulist
    for t in ('N', 'V', 'A', 'sg', 'm', '<sem:hum>'): G.setids.append(g.lst([lit(t)]))
    plain = list(G.setids)
    U = list(T)
    for _ in range(4):
        a = r.choice(T); b = r.choice(plain + T[:3])
        U.append(g.ops([a, b] if r.random() < .5 else [b, a], [r.choice(['+', '+', '-', 'OR'])]))
    cap = [g.lst([rxtag(x[1:], slash=True) if x[0] == '/' else rxtag(x)]) for x in r.sample(RXC, 4)]
    ngr = [len([c for c in s if c == '(']) for s in RXC]
    def mode(): return r.random() < .55
    g.section(r.choice(['SECTION', 'SECTION', 'BEFORE-SECTIONS']))
    n = 0
    o['maxruns'] = 18
    for _ in range(r.choice([2, 3, 4, 5])):
        n += 1; fl = []
        if mode():
            u = r.choice(U)
            same = [x for x in U if x == u or g.sets[x - 1].get('sets') and u in g.sets[x - 1]['sets']]
            def uset():
                y = r.random()
                return u if y < .55 else r.choice(same) if y < .8 else r.choice(U) if y < .93 else r.choice(plain)
            G.set = uset
            tgt = u if r.random() < .7 else r.choice(plain)
            ts = [G.test(link=.3) for _ in range(r.choice([1, 1, 1, 2, 2, 3]))]
            fl.append('KEEPORDER')
            if r.random() < .1: fl.append('CAPTURE_UNIF') if 0 else None
            x = r.random()
            if x < .55: g.rule(r.choice(['SELECT', 'REMOVE', 'REMOVE', 'IFF']), tgt, ts, fl=fl)
            elif x < .7: g.rule('ADD', tgt, ts, fl=fl, ml=[lit('h%d' % (n + 10))])
            else:
                li = [k for k in ('GEN', 'NUM', 'CAS', 'SEMS')]
                k = r.choice(li); tu = [i for i in T if g.sets[i - 1]['name'] == '$$' + k][0]
                tgt = tu if r.random() < .5 else r.choice(plain); q = lit('q%d' % n)
                if r.random() < .8: ts = [g.test(off=r.choice([-1, 0, 1]), scan=r.choice(['', '*']) , tgt=tu) if tgt != tu else r.choice(ts)] + ts[:1]
                ts = [g.test(off=0, no=True, tgt=g.lst([q]))] + ts
                ut = dict(k='ut', si=L[k], src='')
                y = r.random()
                vt = vtag(r.choice(['u{$$%s}', 'y{$$%s}', '%%u{$$%s}z', 'x:{$$%s}>', 'v%%U{$$%s}z']) % k, {'$$' + k: L[k]})
                if y < .15: g.rule('ADD', g.ops([r.choice(plain), L[k]], ['-']), ts, ml=[q, ut], mlsrc='(%s) + $$%s' % (q['src'], k), fl=fl)
                elif y < .3: g.rule('APPEND', tgt, ts, ml=[lit('"new"'), q, ut], mlsrc='("new" %s) + $$%s' % (q['src'], k), fl=fl)
                elif y < .65: g.rule('ADD', tgt, ts, ml=[q, vt], fl=fl)
                elif y < .85: g.rule('SUBSTITUTE', tgt, ts, sl=[lit(r.choice(['N', 'V', 'A']))], ml=[q, vt], fl=fl)
                else: g.rule('APPEND', tgt, ts, ml=[lit('"new"'), q, vt], fl=fl)
        else:
            c = r.choice(cap)
            q = lit('q%d' % n)
            txt = r.choice(['c$1', '$1', 'c:$1>', 'c$1x', 'c%U$1x', 'c%L$1', 'c%u$1', 'c%l$1y', 'c%u%L$1', 'x$1', 'ses:$1>', 'c$1$1'])
            if all(ngr_of(g, c) > 1 for _ in [0]) and r.random() < .5: txt = r.choice(['c$2', 'c$2$1', 'c$1%U$2z', 'ses:%l$2$1>'])
            v = vtag(txt)
            gd = g.test(off=0, no=True, tgt=g.lst([q]))
            where = r.random()
            ts = [gd]
            tg = c if where < .5 else g.ops([r.choice(plain), c], ['+']) if where < .7 else r.choice(plain)
            if where >= .7: ts.append(g.test(off=r.choice([-1, 0, 1]), tgt=c, scan=r.choice(['', '', '*'])))
            if r.random() < .4:
                vv = g.lst([vtag(r.choice(['c$1', 'x$1', '<sem:$1>', '"$1"', '"<$1>"', '"$1d"', '"<%L$1a>"']))])
                ts.append(g.test(off=r.choice([-1, 0, 1, 1]), scan=r.choice(['', '*']), tgt=vv, no=r.random() < .3))
            if r.random() < .15: ts.append(g.test(off=r.choice([-1, 1]), tgt=r.choice(cap)))
            fl.append('KEEPORDER')
            y = r.random()
            if y < .35: g.rule('ADD', tg, ts, ml=[q, v], fl=fl)
            elif y < .45: g.rule('MAP', tg, ts[1:], ml=[vtag('@' + txt.strip('<>'))], fl=fl)
            elif y < .6: g.rule('SUBSTITUTE', tg, ts, sl=[lit(r.choice(['N', 'V', 'A', 'sg', 'm']))], ml=[q, v], fl=fl)
            elif y < .7: g.rule('APPEND', tg, ts, ml=[vtag('"$1y"'), q, lit('N')], fl=fl)
            elif y < .8: g.rule('COPY', tg, ts, ml=[q, v], fl=fl)
            elif y < .9: g.rule('REPLACE', tg, ts, ml=[lit('"r"'), q, v] if r.random() < .5 else [q, v], fl=fl)
            else: g.rule(r.choice(['SELECT', 'REMOVE']), tg, ts[1:], fl=fl)
        if r.random() < .2: g.section()
    G.stream(nw=r.choice([1, 1, 2]))
    if r.random() < .3: o['trace'] = 1
    return G


def ngr_of(g, c):
    return g.sets[c - 1]['m'][0][0]['gc']


# ------------------------------------------------------------------ P13: the sequence of cohorts
STG = ['N', 'V', 'A', 'K', 's1', 's2']


def struct_env(G, dep=False):
    r = G.r; g = G.g
    G.tags = list(STG)
    G.reading_tags = lambda: [r.choice(G.bfs)] + r.sample(STG, r.choice([1, 2, 2, 3]))
    for t in STG: G.lists.append(g.lst([lit(t)])); G.setids.append(G.lists[-1])
    for _ in range(3): G.setids.append(g.lst([lit(r.choice(G.wfs)), lit(r.choice(STG))]))
    for _ in range(2): G.setids.append(g.ops(r.sample(G.setids, 2), [r.choice(['OR', '+', '-'])]))
    G.boundary = lambda: r.choice(G.setids) if r.random() < .7 else g.lst([lit('>>>')])
    G.new = []


def struct_test(G, spread=(-2, -1, -1, 0, 1, 1, 2), dep=False):
    """a small test on the neighbourhood"""
    r = G.r; g = G.g; kw = {}
    off = r.choice(spread); sc = r.choice(['', '', '*'])
    if off == 0 and sc: sc = ''
    if sc and r.random() < .2: kw['bar'] = r.choice(G.setids)
    if r.random() < .25: kw['no'] = True
    if r.random() < .15: kw['link'] = g.test(off=r.choice([-1, 1]), tgt=r.choice(G.setids))
    if dep and r.random() < .3:
        kw.pop('bar', 0); return g.test(dep=r.choice(['p', 'c', 's', 'c', 'p']), tgt=r.choice(G.setids), no=kw.get('no', False))
    return g.test(off=off, scan=sc, tgt=r.choice(G.setids), **kw)


def where_test(G, zero=.1, attach=False):
    """the contextual target of MOVE, SWITCH, COPYCOHORT and the like"""
    r = G.r; g = G.g; kw = {}
    off = r.choice([-2, -1, -1, 1, 1, 2]); sc = r.choice(['', '', '*', '*'])
    if r.random() < zero: off = 0; sc = '*'
    if r.random() < .12: off = r.choice([1, 2, -1, -2]); return g.test(off=off, letters='@', tgt=r.choice(G.setids))
    if sc and r.random() < .25: kw['bar'] = r.choice(G.setids)
    if off and r.random() < .2: kw['link'] = g.test(off=r.choice([-1, 1]), scan=r.choice(['', '*']), tgt=r.choice(G.setids))
    L = 'A' if attach and kw.get('link') and r.random() < .25 else ''
    return g.test(off=off, scan=sc, letters=L, tgt=r.choice(G.setids), **kw)


def new_cohort(G, n=1, star=.2, wf=None):
    """a cohort recipe and the tag its readings are known by"""
    r = G.r
    k = 'c%d' % (len(G.new) + 1)
    ml = [lit(wf or '"<%s>"' % r.choice(['new', 'nw', 'a']))]
    for i in range(r.choice([1, 1, 2])):
        ml += [lit('"b%d"' % i), lit(k)]
        if r.random() < star: ml.insert(r.choice([len(ml), len(ml) - 1]), anyp())
        for t in r.sample(STG, r.choice([0, 1, 1])): ml.append(lit(t))
        if r.random() < .15: ml.append(lit(r.choice(['@m1', '@m2'])))
    G.new.append(k)
    return ml, k


def struct_rule(G, dep=False, kinds=None, star=.2):
    r = G.r; g = G.g
    kids = lambda p=.35: (r.choice(G.setids + [g.any()] * 3) if dep and r.random() < p else 0)
    ts = [struct_test(G, dep=dep) for _ in range(r.choice([0, 1, 1, 1, 2]))]
    tgt = r.choice(G.setids)
    fl = ['NOITERATE'] if r.random() < .1 else []
    ty = r.choice(kinds or ['ADDCOHORT', 'ADDCOHORT', 'REMCOHORT', 'REMCOHORT', 'COPYCOHORT', 'MOVE', 'MOVE', 'MOVE', 'SWITCH'])
    if ty == 'ADDCOHORT':
        ml, k = new_cohort(G, star=star)
        # the new cohort must not be a target of its own rule
        ts.insert(0, g.test(off=0, no=True, tgt=g.lst([lit(k)])))
        ml = [p for p in ml if p['k'] != 'any' or True]
        g.rule(ty, tgt, ts, ml=ml, fl=fl + [r.choice(['BEFORE', 'AFTER'])], childset1=kids())
        if r.random() < .4: G.setids.append(g.lst([lit(k)]))
    elif ty == 'REMCOHORT':
        ign = r.random() < .25 and not dep
        g.rule(ty, tgt, ts, fl=fl + (['IGNORED'] if ign else []), childset1=0)
    elif ty == 'COPYCOHORT':
        k = 'k%d' % (len(G.new) + 1); G.new.append(k)
        ml = [lit(k)] + [lit(t) for t in r.sample(STG, r.choice([0, 1]))] + ([lit('@m3')] if r.random() < .1 else [])
        sl = [lit(t) for t in r.sample(STG, r.choice([1, 2]))] if r.random() < .3 else []
        sl = [p for p in sl if all(p['src'] != q['src'] for q in ml)]
        ts.insert(0, g.test(off=0, no=True, tgt=g.lst([lit(k)])))
        ro = ['REVERSE'] if r.random() < .3 else []
        w = where_test(G, 0)
        g.rule(ty, tgt, ts, ml=ml, sl=sl, fl=fl + ro + ([] if ro else [r.choice(['BEFORE', 'AFTER'])]), dep_target=w,
               dep_tests=[struct_test(G)] if r.random() < .25 else [], childset2=kids(.25), childset1=0)
        if r.random() < .4: G.setids.append(g.lst([lit(k)]))
    elif ty == 'MOVE':
        if r.random() < .6: fl = ['NOITERATE']
        g.rule(ty, tgt, ts, fl=fl + [r.choice(['BEFORE', 'AFTER'])], dep_target=where_test(G, 0, True), dep_tests=[struct_test(G)] if r.random() < .3 else [],
               childset1=kids(.5), childset2=kids(.3))
    elif ty == 'SWITCH':
        if r.random() < .6: fl = ['NOITERATE']
        g.rule(ty, tgt, ts, fl=fl, dep_target=where_test(G, 0, True), dep_tests=[struct_test(G)] if r.random() < .3 else [])
    elif ty == 'DELIMIT':
        g.rule(ty, tgt, ts)
    elif ty == 'SPLITCOHORT':
        n = r.choice([2, 2, 3, 4])
        ml = []; parts = []
        for i in range(n):
            p, k = new_cohort(G, wf='"<w%d>"' % (i + 1)); parts.append(p)
        # the tree of the parts: a root, and who takes the children of the old cohort
        sd = [[-1, -1] for _ in range(n)]; rt = 0
        if r.random() < .6:
            root = r.randrange(n); order = [root] + r.sample([i for i in range(n) if i != root], n - 1)
            par = {x: r.choice(order[:j]) for j, x in enumerate(order) if j}
            child = r.randrange(n)
            for i in range(n):
                s = 'c' if i == child else str(i + 1)
                t = 'p' if i == root else str(par[i] + 1)
                if s == 'c': s = r.choice(['c', 'd'])
                if t == 'p': t = r.choice(['p', 'm'])
                parts[i].insert(r.randrange(2, len(parts[i]) + 1), lit(s + '->' + t))
                sd[i] = [0 if i == child else i + 1, 0 if i == root else par[i] + 1]
        if r.random() < .3:
            rt = r.randrange(n) + 1; parts[rt - 1].insert(r.randrange(2, len(parts[rt - 1]) + 1), lit('R:*'))
        for p in parts: ml += p
        ml2 = [q for q in ml if '->' not in q.get('src', '') and q.get('src') != 'R:*']
        g.rule(ty, tgt, ts + [g.test(off=0, no=True, tgt=g.lst([lit(k) for k in G.new[-n:]]))], ml=ml2, mlsrc='(' + ' '.join(q['src'] for q in ml) + ')', sd=sd, rt=rt, fl=fl)
        if r.random() < .4: G.setids.append(g.lst([lit(G.new[-1])]))
    elif ty == 'MERGECOHORTS':
        ml, k = new_cohort(G, star=star)
        if r.random() < .5: ml[0] = lit(r.choice(['"<a b>"', '"<a b c>"']))
        if r.random() < .2: fl.append('DETACH') if dep else None
        ws = [where_test(G, 0) for _ in range(r.choice([1, 1, 2]))]
        g.rule(ty, tgt, ts + [g.test(off=0, no=True, tgt=g.lst([lit(k)]))], ml=ml, dep_tests=ws, fl=fl)
        if r.random() < .4: G.setids.append(g.lst([lit(k)]))


@profile
def p_struct(rng):
    """cohorts added, removed, hidden, copied, moved, switched, split and merged; no dependencies in the input"""
    G = Gen(rng); r = rng; g = G.g; o = G.opt
    struct_env(G)
    g.section(r.choice(['SECTION', 'SECTION', 'BEFORE-SECTIONS']))
    o['maxruns'] = 18
    G.maxlinks = 1
    kinds = None
    x = r.random()
    if x < .2: kinds = ['SPLITCOHORT', 'SPLITCOHORT', 'ADDCOHORT', 'REMCOHORT', 'MOVE', 'SWITCH']
    elif x < .4: kinds = ['MERGECOHORTS', 'MERGECOHORTS', 'ADDCOHORT', 'REMCOHORT', 'MOVE', 'SWITCH']
    elif x < .6: kinds = ['DELIMIT', 'DELIMIT', 'REMCOHORT', 'REMCOHORT', 'MOVE', 'SWITCH']
    for j in range(r.choice([1, 2, 3, 4, 5])):
        if r.random() < .2:
            y = r.random()
            if y < .5: g.rule('ADD', r.choice(G.setids), [struct_test(G)], ml=[lit('h%d' % j)])
            else: g.rule(r.choice(['SELECT', 'REMOVE']), r.choice(G.setids), [struct_test(G)])
        else: struct_rule(G, False, kinds)
        if r.random() < .15: g.section()
    if r.random() < .5: probe(G, [struct_test(G) for _ in range(2)])
    G.stream(nw=r.choice([1, 1, 2, 3]))
    for it in list(G.items):
        if it['k'] == 'coh' and r.random() < .15: G.items.insert(G.items.index(it) + 1, ST.txt(r.choice(['text', ' ', '<br/>', ' a b '])))
    o['nwin'] = r.choice([1, 2, 2])
    if r.random() < .5: o['trace'] = 1
    if r.random() < .1: o['tnr'] = o['trace']
    return G


def add_deps(G, items, p=1.0, loops=False, span=False):
    """number every cohort of every window and give it a parent in the same window (0: root);
    span: one numbering for the whole stream, with parents in neighbouring windows"""
    r = G.r
    if span:
        cs = [it for it in items if it['k'] == 'coh']
        for k, it in enumerate(cs):
            if not it['rs']: it['rs'] = [ST.reading([G.reading_tags()])]
            it['ds'] = k + 1
            it['dp'] = 0 if r.random() < .1 else -1 if r.random() < .1 else max(1, min(len(cs), k + 1 + r.choice([-4, -3, -2, -1, 1, 2, 3, 4])))
            if it['dp'] == it['ds']: it['dp'] = -1
        return
    win = []; wins = [win]
    for it in items:
        if it['k'] == 'coh':
            win.append(it)
            if it['w'] == '"<$.>"': win = []; wins.append(win)
        elif it['k'] == 'cmd' and it['c'] == 'FLUSH': win = []; wins.append(win)
    for win in wins:
        n = len(win)
        order = r.sample(range(1, n + 1), n)
        shape = r.choice(['rand', 'rand', 'left', 'right', 'flat'])
        for j, k in enumerate(order):
            it = win[k - 1]; it['ds'] = k
            if not it['rs']: it['rs'] = [ST.reading([G.reading_tags()])]   # the dependency tag is one of a reading
            if shape == 'left': d = k - 1
            elif shape == 'right': d = k + 1 if k < n else 0
            elif shape == 'flat': d = 0 if j == 0 else order[0]
            else: d = 0 if j == 0 or r.random() < .1 else r.choice(order[:j])
            it['dp'] = d
            if r.random() < .04: it['dp'] = -1      # a cohort that is its own parent has none
        if loops and n > 1 and r.random() < .3:
            it = r.choice(win); it['dp'] = r.choice([k for k in range(1, n + 1) if k != it['ds']])


@profile
def p_sdep(rng):
    """structure rules on dependency trees"""
    G = Gen(rng); r = rng; g = G.g; o = G.opt
    struct_env(G)
    g.section(r.choice(['SECTION', 'SECTION', 'BEFORE-SECTIONS']))
    o['maxruns'] = 18
    kinds = None
    x = r.random()
    if x < .2: kinds = ['SPLITCOHORT', 'SPLITCOHORT', 'ADDCOHORT', 'REMCOHORT', 'MOVE', 'SWITCH']
    elif x < .4: kinds = ['MERGECOHORTS', 'MERGECOHORTS', 'ADDCOHORT', 'REMCOHORT', 'MOVE', 'SWITCH']
    else: kinds = ['MOVE', 'MOVE', 'MOVE', 'SWITCH', 'ADDCOHORT', 'REMCOHORT', 'COPYCOHORT', 'COPYCOHORT']
    for j in range(r.choice([1, 2, 3, 4])):
        if r.random() < .15: g.rule('ADD', r.choice(G.setids), [struct_test(G, dep=True)], ml=[lit('h%d' % j)])
        else: struct_rule(G, True, kinds)
        if r.random() < .15: g.section()
    probe(G, [g.test(dep=d, tgt=r.choice(G.setids)) for d in r.sample(['p', 'c', 's'], r.choice([1, 2]))])
    G.stream(nw=r.choice([1, 1, 2, 3]))
    add_deps(G, G.items)
    for it in list(G.items):
        if it['k'] == 'coh' and r.random() < .1: G.items.insert(G.items.index(it) + 1, ST.txt(r.choice(['text', ' ', '<br/>', ' a b '])))
    if r.random() < .4: o['trace'] = 1
    if r.random() < .15: o['dabs'] = 1
    return G


def dep_test(G, depth=0):
    """a dependency test: parents, children, siblings, ancestors, descendants, with all their modifiers"""
    r = G.r; g = G.g; kw = {}
    dep = r.choice(['p', 'p', 'c', 'c', 'c', 's', 's', 'pp', 'cc'])
    if r.random() < .25 and dep in ('p', 'c', 's'): kw['scan'] = '*'
    if r.random() < .25: kw['look'] = r.choice(['l', 'r'] if dep in ('p', 'pp') else ['l', 'r', 'll', 'rr'])
    L = ''
    if r.random() < .2: L += 'S'
    if r.random() < .15: L += r.choice(['W', '<', '>'])
    if r.random() < .1: L += 'C'
    x = r.random()
    if x < .1: kw['all'] = True
    elif x < .2: kw['none'] = True
    elif x < .3: kw['no'] = True; L = L.replace('C', '')
    if r.random() < .08: kw['neg'] = True
    if depth < 2 and r.random() < .3 and not kw.get('none'):
        kw['link'] = dep_test(G, depth + 1) if r.random() < .5 else struct_test(G)
    if r.random() < .15: kw['bar'] = r.choice(G.setids)
    if r.random() < .08: kw['cbar'] = r.choice(G.setids)
    return g.test(dep=dep, letters=L, tgt=r.choice(G.setids), **kw)


def link_rule(G, kinds=('SETPARENT', 'SETPARENT', 'SETPARENT', 'SETCHILD', 'SETCHILD', 'REMPARENT', 'SWITCHPARENT')):
    r = G.r; g = G.g
    ty = r.choice(kinds); fl = []
    tests = [r.choice([dep_test, struct_test])(G) for _ in range(r.choice([0, 0, 1, 1, 2]))]
    tgt = r.choice(G.setids + [0]) or g.any()
    if ty in ('REMPARENT', 'SWITCHPARENT'):
        if ty == 'SWITCHPARENT':
            tests.append(g.test(dep='p', tgt=g.ops('-', g.any(), g.lst([lit('>>>')])) if False else r.choice(G.setids)))
            return g.rule(ty, tgt, tests, fl=fl, childset1=r.choice(G.setids) if r.random() < .5 else 0)
        return g.rule(ty, tgt, tests, fl=fl)
    if r.random() < .2: fl.append('NEAREST')
    if r.random() < .15 and not fl: fl.append('ALLOWLOOP')
    if r.random() < .15: fl.append('ALLOWCROSS')
    if r.random() < .2: fl.append('SAFE' if r.random() < .6 else 'UNSAFE')
    if r.random() < .2: fl.append('REVERSE')
    kw = {}
    x = r.random()
    if x < .2: t = dep_test(G)
    else:
        off = r.choice([-3, -2, -1, -1, 1, 1, 2, 3]); sc = r.choice(['', '*', '*', '*', '**'])
        if r.random() < .1: off = 0; sc = '*'
        L = ''
        if r.random() < .15: L += r.choice(['W', '<', '>'])
        if r.random() < .06 and not sc: L += '@'
        if r.random() < .25 and sc: kw['bar'] = r.choice(G.setids)
        if r.random() < .08 and sc: kw['cbar'] = r.choice(G.setids)
        if r.random() < .3: kw['link'] = struct_test(G) if r.random() < .6 else dep_test(G)
        if kw.get('link') and r.random() < .1: L += 'A'
        t = g.test(off=off, scan=sc, letters=L, tgt=r.choice(G.setids), **kw)
    dt = [r.choice([dep_test, struct_test])(G) for _ in range(r.choice([0, 0, 0, 1]))]
    return g.rule(ty, tgt, tests, fl=fl, dep_target=t, dep_tests=dt)


@profile
def p_deps(rng):
    """attachment of dependencies and tests that follow them"""
    G = Gen(rng); r = rng; g = G.g; o = G.opt
    struct_env(G)
    g.section(r.choice(['SECTION', 'SECTION', 'BEFORE-SECTIONS']))
    o['maxruns'] = 12
    for j in range(r.choice([1, 2, 2, 3])):
        link_rule(G)
        if r.random() < .1: g.section()
    probe(G, [dep_test(G) for _ in range(r.choice([1, 2, 3]))])
    G.stream(nw=r.choice([1, 1, 2, 3]))
    x = r.random()
    if x < .65: add_deps(G, G.items, loops=r.random() < .3, span=r.random() < .3)
    elif x < .75: o['pdep'] = 1
    for it in list(G.items):
        if it['k'] == 'coh':
            if it['ds'] and r.random() < .02: it['dp'] = r.choice([50, 99])     # there is no such cohort
    if r.random() < .4: o['trace'] = 1
    if r.random() < .15: o['dabs'] = 1
    if r.random() < .1: o['unitags'] = 1
    if r.random() < .15 and all(x['type'] != 'SWITCHPARENT' for x in g.rules): o['loops'] = 1
    if r.random() < .25: o['nocross'] = 1
    if r.random() < .3: o['nwin'] = r.choice([0, 1, 3])
    return G


RNAMES = ['n1', 'n2', 'n3', 'rel']


def add_rels(G, items):
    """relations between the cohorts of the stream, by identifiers of their own"""
    r = G.r
    cs = [it for it in items if it['k'] == 'coh']
    ids = r.sample(range(1000, 1400), len(cs))   # never the number of a cohort: see known finding rtagid
    for k, it in enumerate(cs):
        if r.random() < .7: it['rid'] = ids[k]
    for k, it in enumerate(cs):
        rel = {}
        for _ in range(r.choice([0, 0, 1, 1, 2, 3])):
            j = max(0, min(len(cs) - 1, k + r.choice([-5, -3, -2, -1, 0, 1, 1, 2, 3, 5])))
            x = ids[j] if r.random() < .95 else 777        # sometimes there is no such cohort
            n = r.choice(RNAMES)
            if x not in rel.setdefault(n, []): rel[n].append(x)
        it['rrel'] = [[n, xs] for n, xs in rel.items()]
        if (it['rid'] or it['rrel']) and not it['rs']: it['rs'] = [ST.reading([G.reading_tags()])]


def rel_test(G, depth=0):
    r = G.r; g = G.g; kw = {}
    x = r.random()
    if x < .6: n = r.choice(RNAMES); rel = dict(k='lit', s=n, src=n)
    else: rel = dict(k='any', src='*')
    if r.random() < .3: kw['look'] = r.choice(['l', 'll', 'rr'])
    x = r.random()
    if x < .15: kw['all'] = True
    elif x < .3: kw['none'] = True
    elif x < .4: kw['no'] = True
    if r.random() < .1: kw['neg'] = True
    L = 'S' if r.random() < .15 else ''
    if depth < 2 and r.random() < .3 and not kw.get('none'):
        kw['link'] = rel_test(G, depth + 1) if r.random() < .5 else struct_test(G)
    if 'S' in L and r.random() < .3: kw['bar'] = r.choice(G.setids)
    return g.test(rel=rel, letters=L, tgt=r.choice(G.setids), **kw)


def rel_rule(G):
    r = G.r; g = G.g; fl = []
    two = r.random() < .35
    ty = r.choice(['ADD', 'ADD', 'SET', 'SET', 'REM']) + 'RELATION' + ('S' if two else '')
    n1 = r.choice(RNAMES); n2 = r.choice(RNAMES)
    tests = [r.choice([rel_test, struct_test])(G) for _ in range(r.choice([0, 0, 1, 1, 2]))]
    if r.random() < .15: fl.append('NEAREST')
    if r.random() < .2: fl.append('SAFE' if r.random() < .6 else 'UNSAFE')
    if r.random() < .2: fl.append('REVERSE')
    kw = {}
    if r.random() < .25: t = rel_test(G)
    else:
        off = r.choice([-3, -2, -1, -1, 1, 1, 2, 3]); sc = r.choice(['', '*', '*', '**'])
        if r.random() < .1: off = 0; sc = r.choice(['', '*'])
        L = r.choice(['W', '<', '>']) if r.random() < .2 and (off or sc) else ''
        if r.random() < .25 and sc: kw['bar'] = r.choice(G.setids)
        if r.random() < .3: kw['link'] = struct_test(G) if r.random() < .6 else rel_test(G)
        t = g.test(off=off, scan=sc, letters=L, tgt=r.choice(G.setids), **kw)
    dt = [r.choice([rel_test, struct_test])(G) for _ in range(r.choice([0, 0, 0, 1]))]
    return g.rule(ty, r.choice(G.setids), tests, ml=[lit(n1)], sl=[lit(n2)] if two else None, fl=fl, dep_target=t, dep_tests=dt,
                  relargs=n1 + (',' + n2 if two else ''))


@profile
def p_rels(rng):
    """relation rules and tests"""
    G = Gen(rng); r = rng; g = G.g; o = G.opt
    struct_env(G)
    g.relnames = list(RNAMES)
    g.section(r.choice(['SECTION', 'SECTION', 'BEFORE-SECTIONS']))
    o['maxruns'] = 12
    for j in range(r.choice([1, 2, 2, 3, 4])):
        rel_rule(G)
        if r.random() < .1: g.section()
        if r.random() < .15: struct_rule(G, kinds=['ADDCOHORT', 'ADDCOHORT', 'REMCOHORT', 'MOVE', 'SWITCH'], star=0)
    probe(G, [rel_test(G) for _ in range(r.choice([1, 2, 3]))])
    G.stream(nw=r.choice([1, 1, 2, 3, 4]))
    if r.random() < .8: add_rels(G, G.items)
    if r.random() < .4: o['trace'] = 1
    if r.random() < .15: o['printids'] = 1
    if r.random() < .3: o['nwin'] = r.choice([0, 1, 3])
    return G


# ------------------------------------------------------------------ P20: sub-readings
def sub_no(G, star=True):
    x = G.r.random()
    if x < .1 and star: return ANY
    return G.r.choice([0, 1, 1, 1, 2, 2, 3, -1, -1, -2, -3])


@profile
def p_subs(rng):
    """rules and tests that address one depth of chains of sub-readings"""
    G = Gen(rng); r = rng; g = G.g
    G.tags = ['N', 'V', 'A', 'sg', 'pl', 'x1']
    maps = r.random() < .3
    if maps: G.leaf = lambda: lit(r.choice(['@m1', '@m2'])) if r.random() < .2 else lit(r.choice(['n1', 'n2', 'n3']))
    else: G.leaf = lambda: lit(r.choice(['n1', 'n2', 'n3']))
    G.mk_sets(6, 2)
    def tst():
        kw = {}
        off = r.choice([-2, -1, 0, 0, 0, 1, 1, 2]); sc = r.choice(['', '', '*'])
        L = ''
        if sc and r.random() < .2: L += 'S'
        if r.random() < .12: L += 'C'
        kw['no'] = r.random() < .2 and 'C' not in L and not (off == 0 and sc)
        if r.random() < .1: kw['neg'] = True
        if r.random() < .2 and sc: kw['bar'] = r.choice(G.setids)
        if r.random() < .25: kw['link'] = tst2()
        return g.test(off=off, scan=sc, letters=L, tgt=G.set(), sub=sub_no(G) if r.random() < .75 else 0, **kw)
    def tst2():
        return g.test(off=r.choice([-1, 0, 0, 1]), no=r.random() < .15, tgt=G.set(), sub=sub_no(G) if r.random() < .7 else 0)
    g.section(r.choice(['SECTION', 'SECTION', 'BEFORE-SECTIONS']))
    for _ in range(r.choice([2, 3, 4, 5])):
        ts = [tst() for _ in range(r.choice([0, 1, 1, 2]))]
        x = r.random(); fl = []
        n = sub_no(G, False)
        if x < .4:
            ty = r.choice(['SELECT', 'REMOVE', 'REMOVE', 'IFF'])
            n = sub_no(G, ty != 'IFF')
            if r.random() < .15: fl.append('UNSAFE')
            g.rule(ty, G.set(), ts, fl=fl, sub=n)
        elif x < .65:
            ty = r.choice(['ADD', 'ADD', 'MAP', 'REPLACE'])
            pool = ['n1', 'n2', 'n3', 'N', 'sg'] + (['@m1', '@m2'] if maps else [])
            ml = [lit(t) for t in r.sample(pool, r.choice([1, 1, 2]))]
            if sum(p['s'][0] == '@' for p in ml) > 1: ml = ml[:1]
            g.rule(ty, G.set(), ts, ml=ml, sub=n)
        elif x < .8:
            sl = [lit(r.choice(G.tags + ['n1', 'n2', '"a"']))]
            ml = [lit('"new"')] if sl[0]['s'][0] == '"' else r.choice([[anyp()], [lit('n3')], [lit('n1'), lit('q1')]])
            g.rule('SUBSTITUTE', G.set(), ts, sl=sl, ml=ml, sub=n)
        elif x < .87:
            k = 'c%d' % r.randrange(1, 9)
            g.rule('COPY', G.set(), ts + [g.test(off=0, no=True, tgt=g.lst([lit(k)]), sub=ANY)], ml=[lit(k)], sub=n)
        elif x < .93:
            k = '"new%d"' % r.randrange(1, 9)
            g.rule('APPEND', G.set(), ts + [g.test(off=0, no=True, tgt=g.lst([lit(k)]))], ml=[lit(k), lit(r.choice(['n1', 'n2', 'V']))])
        elif maps:
            g.rule('UNMAP', G.set(), ts, sub=n, fl=r.choice([[], ['UNSAFE']]))
        else:
            g.rule('SELECT', G.set(), ts, sub=n)
        if r.random() < .12: g.section()
    probe(G, [tst() for _ in range(r.choice([1, 2, 3]))])
    def cohort(w=None, n=None):
        n = n if n is not None else r.choice([0, 1, 1, 2, 3])
        rs = []
        for _ in range(n):
            rs.append(ST.reading([G.reading_tags() for _ in range(r.choice([1, 2, 2, 3, 4]))],
                                 [r.choice(['@m1', '@m2'])] if maps and r.random() < .2 else []))
        return ST.cohort(w or r.choice(G.wfs), rs, wt=['wt1'] if r.random() < .05 else [])
    G.cohort = cohort
    G.stream(nw=r.choice([1, 1, 2]))
    G.opt['maxruns'] = 18
    if r.random() < .5: G.opt['trace'] = 1
    return G


# ------------------------------------------------------------------ P19: enclosures
@profile
def p_encl(rng):
    """streams with nested, unmatched and interleaved parentheses; rules with the enclosure flags, positions and tags"""
    G = Gen(rng); r = rng; g = G.g; o = G.opt
    G.tags = ['N', 'V', 'A', 'sg', 'pl']
    styles = [('"<$(>"', '"<$)>"'), ('"<$[>"', '"<$]>"'), ('<pl>', '<pr>'), ('"<$q>"', '"<$q>"')]
    g.parens = [list(p) for p in r.sample(styles[:3], r.choice([1, 2, 2, 3]) if r.random() < .95 else 3)]
    G.mk_sets(5, 2)
    marks = [g.lst([special('encl')]), g.lst([special('parl')]), g.lst([special('parr')]),
             g.lst([[special('parl')], [special('parr')]])]
    pw = [g.lst([lit(p[0])]) for p in g.parens] + [g.lst([lit(p[1])]) for p in g.parens]
    marks += [g.ops([marks[1], r.choice(pw)], ['+']), g.ops([marks[2], r.choice(pw)], ['+'])]
    def some():
        x = r.random()
        return g.any() if x < .15 else r.choice(marks) if x < .3 else r.choice(pw) if x < .4 else G.set()
    def tst(depth=0):
        kw = {}
        if depth == 0 and r.random() < .12: kw['neg'] = True
        if depth < 2 and r.random() < .3: kw['link'] = tst(depth + 1)
        x = r.random()
        if x < .3:
            return g.test(off=None, letters=r.choice(['L', 'R']), tgt=some(), **kw)
        off = r.choice([-3, -2, -1, -1, 0, 1, 1, 2, 3]); sc = r.choice(['', '', '*', '*', '**'])
        L = ''
        if r.random() < .08: L += '@'; off = off or 1
        if r.random() < .12 and not (off == 0 and not sc): L += 'W'
        if r.random() < .1 and sc: L += 'S'
        if r.random() < .1: L += 'C'
        if sc and r.random() < .4: kw['bar'] = r.choice(marks) if r.random() < .6 else G.set()
        if r.random() < .2 and 'C' not in L and sc != '**' and not (off == 0 and sc): kw['no'] = True
        return g.test(off=off, scan=sc, letters=L, tgt=some(), **kw)
    def flags():
        x = r.random()
        return ['ENCL_INNER'] if x < .2 else ['ENCL_OUTER'] if x < .4 else ['ENCL_FINAL'] if x < .55 else ['ENCL_ANY'] if x < .6 else []
    n = 0
    def rules(k):
        nonlocal n
        for _ in range(k):
            n += 1
            ts = [tst() for _ in range(r.choice([0, 1, 1, 2]))]
            x = r.random(); fl = flags()
            if x < .3: g.rule(r.choice(['SELECT', 'REMOVE', 'REMOVE', 'IFF']), G.set(), ts, fl=fl)
            elif x < .75: g.rule('ADD', some(), ts, ml=[lit('h%d' % n)], fl=fl)
            elif x < .85: g.rule('SUBSTITUTE', G.set(), ts, sl=[lit(r.choice(G.tags))], ml=[lit('s%d' % n)], fl=fl)
            elif x < .92:
                k2 = '"new%d"' % n
                g.rule('APPEND', some(), ts + [g.test(off=0, no=True, tgt=g.lst([lit(k2)]))], ml=[lit(k2), lit(r.choice(G.tags))], fl=fl)
            else:
                g.rule('MAP', some(), ts, ml=[lit('@m%d' % n)], fl=fl)
    if r.random() < .3: g.section('BEFORE-SECTIONS'); rules(r.choice([1, 2]))
    g.section(); rules(r.choice([2, 3, 4]))
    if r.random() < .3: g.section(); rules(1)
    if r.random() < .3: g.section('AFTER-SECTIONS'); rules(r.choice([1, 2]))
    pc = r.choice([.25, .4, .55])
    def cohort(w=None, n=None):
        x = r.random()
        if w is None and x < pc:
            p = r.choice(g.parens); side = r.randrange(2); t = p[side]
            tags = lambda: r.sample(G.tags, r.choice([0, 1, 1, 2]))
            if t[0] == '"': return ST.cohort(t, [ST.reading([[r.choice(G.bfs)] + tags()]) for _ in range(r.choice([0, 1, 1, 2]))],
                                             **{('pl', 'pr')[side]: t})
            return ST.cohort(r.choice(G.wfs), [ST.reading([[r.choice(G.bfs)] + tags() + [t]])], **{('pl', 'pr')[side]: t})
        return Gen.cohort(G, w, n)
    G.cohort = cohort
    G.wfs = ['"<a>"', '"<b>"', '"<c>"']
    o['maxruns'] = 6
    items = []
    for i in range(r.choice([1, 1, 2])):
        items += [cohort() for _ in range(r.choice([3, 5, 7, 9, 12]))]
        if r.random() < .6: items.append(G.cohort(w='"<$.>"', n=r.choice([0, 1])))
        if r.random() < .1: items.append(ST.flush())
        elif r.random() < .15: items.append(ST.txt('text'))
    G.items = items
    if r.random() < .3: o['trace'] = 1
    if r.random() < .12: o['trace'] = 1; o['tencl'] = 1
    return G


# ------------------------------------------------------------------ P21: WITH, PROTECT, delayed and ignored readings, RESTORE
@profile
def p_with(rng):
    """rules nested in WITH (to three levels), with references to the cohorts of the outer contexts"""
    G = Gen(rng); r = rng; g = G.g; o = G.opt
    G.tags = ['N', 'V', 'A', 'sg', 'pl', 'x1']
    G.leaf = lambda: lit(r.choice(['n1', 'n2', 'q1', 'n3']))
    G.mk_sets(4, 1)
    G.setids += [g.lst([lit(x) for x in r.sample(G.tags, k)]) for k in (2, 3, 3)]
    broad = G.setids[-3:]
    g.relnames = ['r0', 'r1', 'r2']
    base_set = G.set
    G.set = lambda: r.choice(broad) if r.random() < .6 else base_set()
    n = [0]; links = r.random() < .3
    def wt(depth=0):
        """a context of a WITH: plain scans, so that where it was satisfied is clear"""
        off = r.choice([-2, -1, -1, 0, 1, 1, 2]); sc = r.choice(['', '', '*', '*'])
        kw = {}; L = ''
        if sc and r.random() < .2: kw['bar'] = r.choice(G.setids)
        if depth < 2 and r.random() < .35:
            if r.random() < .4: L += 'w'
            kw['link'] = wt(depth + 1)
        elif r.random() < .1: L += 'w'
        if r.random() < .12: L += 'X'
        if r.random() < .08: L += 'W'
        if off == 0 and not sc: L = L.replace('W', '')
        if depth == 0 and r.random() < .06: kw['neg'] = True
        elif r.random() < .06 and not (off == 0 and sc): kw['no'] = True
        return g.test(off=off, scan=sc, letters=L, tgt=G.set() if r.random() < .8 else g.any(), **kw)
    def nt(nctx, depth=0):
        """a context of a nested rule"""
        x = r.random()
        j = r.choice(['jC%d' % i for i in range(1, min(nctx, 3) + 1)] * 2 + ['jM', 'jT', 'x']) if nctx else r.choice(['jM', 'jT'])
        off = r.choice([-2, -1, 0, 0, 1, 1, 2]); sc = r.choice(['', '', '*'])
        kw = {}
        tg = G.set()
        if nctx and r.random() < .3: tg = g.lst([ctx(r.randrange(1, nctx + 1))])
        elif r.random() < .1: tg = g.lst([special(r.choice(['mark', 'tgt']))])
        if depth == 0 and r.random() < .25: kw['link'] = nt(nctx, 1)
        if x < .3: return g.test(off=0 if r.random() < .3 else None, jump=j, tgt=tg, **kw)
        if sc and r.random() < .2: kw['bar'] = g.lst([ctx(r.randrange(1, nctx + 1))]) if nctx and r.random() < .5 else r.choice(G.setids)
        if r.random() < .1 and not (off == 0 and sc): kw['no'] = True
        elif r.random() < .1: kw['neg'] = True
        if r.random() < .1: kw['jump'] = j
        return g.test(off=off, scan=sc, tgt=tg, **kw)
    def body(nctx, level):
        out = []
        for _ in range(r.choice([1, 1, 2, 2, 3])):
            n[0] += 1; k = n[0]
            x = r.random(); fl = []
            tg = g.any() if r.random() < .4 else G.set()
            if nctx and r.random() < .4:
                cs = r.sample(range(1, nctx + 1), 1 if r.random() < .8 or nctx < 2 else 2)
                tg = g.lst([ctx(c) for c in cs])
            ts = [nt(nctx) for _ in range(r.choice([0, 0, 1, 1, 2]))]
            if level < 3 and x < .15:
                ws = [wt() for _ in range(r.choice([0, 1, 1, 2]))]
                out.append(g.rule('WITH', tg, ws, subs=body(len(ws), level + 1), nested=True)); continue
            if r.random() < .1: fl.append(r.choice(['ITERATE', 'NOITERATE']))
            if links and x > .6:
                w = 1 if nctx and r.random() < .4 else 0
                tt = lambda: g.lst([ctx(r.randrange(1, nctx + 1))]) if nctx and r.random() < .3 else g.lst([special('mark')]) if r.random() < .15 else G.set()
                j = r.choice(['jC%d' % i for i in range(1, min(nctx, 3) + 1)] + ['jM', 'jT']) if nctx else r.choice(['jM', 'jT'])
                to = g.test(off=0 if r.random() < .3 else None, jump=j, tgt=g.any() if r.random() < .5 else G.set()) if w else \
                    g.test(off=r.choice([-2, -1, 1, 1, 2]), scan=r.choice(['', '*', '*']), tgt=tt())
                if r.random() < .7: out.append(g.rule(r.choice(['SETPARENT', 'SETPARENT', 'SETCHILD']), tg, ts, dep_target=to, nested=True, fl=r.choice([[], [], ['SAFE'], ['NEAREST']])))
                else: out.append(g.rule(r.choice(['ADDRELATION', 'SETRELATION']), tg, ts, dep_target=to, nested=True, ml=[lit('r%d' % (k % 3))], relargs='r%d' % (k % 3)))
                continue
            if x < .4: out.append(g.rule(r.choice(['SELECT', 'REMOVE', 'REMOVE', 'IFF']), tg if r.random() < .3 else G.set(), ts, nested=True, fl=fl + (['UNSAFE'] if r.random() < .15 else [])))
            elif x < .68: out.append(g.rule('ADD', tg, ts, ml=[lit('h%d' % k)], nested=True, fl=fl))
            elif x < .76: out.append(g.rule('MAP', tg, ts, ml=[lit('@m%d' % k)], nested=True, fl=fl))
            elif x < .88:
                if r.random() < .3: fl.append('REPEAT')
                out.append(g.rule('SUBSTITUTE', tg, ts, sl=[lit(r.choice(G.tags))], ml=[lit('s%d' % k)] if r.random() < .7 else [anyp()], nested=True, fl=fl))
            elif x < .94:
                q = '"new%d"' % k
                out.append(g.rule('APPEND', tg, ts + [g.test(off=0, no=True, tgt=g.lst([lit(q)]))], ml=[lit(q), lit(r.choice(['q1', 'N']))], nested=True, fl=fl))
            else: out.append(g.rule('SETVARIABLE', tg, ts, sl=[lit('v')], ml=[lit(str(k))], nested=True, fl=fl))
        return out
    g.section(r.choice(['SECTION', 'SECTION', 'BEFORE-SECTIONS']))
    for _ in range(r.choice([1, 2, 2, 3])):
        if r.random() < .75:
            ws = [wt() for _ in range(r.choice([0, 1, 1, 2, 2, 3]))]
            fl = []
            if r.random() < .15: fl.append('ITERATE')
            i = g.rule('WITH', G.set(), ws, subs=(), fl=fl)
            # nested rules are numbered after the rule that holds them
            g.rules[i - 1]['subs'] = body(len(ws), 1)
        else:
            n[0] += 1
            g.rule(r.choice(['SELECT', 'REMOVE']), G.set(), [wt()])
        if r.random() < .15: g.section()
    for _ in range(r.choice([0, 1])):
        n[0] += 1
        g.rule('ADD', G.set(), [wt()], ml=[lit('h%d' % n[0])])
    G.stream(nw=r.choice([1, 1, 2]))
    if links and g.hasdep and r.random() < .5: add_deps(G, G.items)
    o['maxruns'] = 18
    if r.random() < .5: o['trace'] = 1
    return G


@profile
def p_prot(rng):
    """protected readings, readings removed at once, delayed or ignored, and RESTORE"""
    G = Gen(rng); r = rng; g = G.g; o = G.opt
    G.tags = ['N', 'V', 'A', 'sg', 'pl', 'x1']
    G.leaf = lambda: lit(r.choice(['n1', 'n2', 'q1', 'n3']))
    G.mk_sets(4, 1)
    one = [g.lst([lit(t)]) for t in G.tags]
    G.setids += one + [g.lst([lit(x) for x in r.sample(G.tags, k)]) for k in (2, 3)]
    broad = G.setids[-8:]
    base_set = G.set
    G.set = lambda: r.choice(broad) if r.random() < .6 else base_set()
    if r.random() < .15: o['unsafe'] = 1
    if r.random() < .1: o['nomap'] = 1
    mode = r.choice(['p', 'r', 'r', 'pr'])
    n = [0]
    def tst(depth=0):
        off = r.choice([-2, -1, -1, 0, 0, 1, 1, 2]); sc = r.choice(['', '', '*', '*', '**'])
        kw = {}; L = ''
        if r.random() < .35: L += ''.join(x for x in 'DdI' if r.random() < .45)
        if r.random() < .12: L += 'C'
        if sc and r.random() < .15: kw['bar'] = r.choice(G.setids)
        if depth < 1 and r.random() < .25: kw['link'] = tst(depth + 1)
        if depth == 0 and r.random() < .08: kw['neg'] = True
        elif r.random() < .2 and not (off == 0 and sc) and sc != '**' and 'C' not in L: kw['no'] = True
        return g.test(off=off, scan=sc, letters=L, tgt=G.set() if r.random() < .85 else g.any(), **kw)
    def tests(k=None): return [tst() for _ in range(k if k is not None else r.choice([0, 0, 1, 1, 1, 2]))]
    kinds = (['PROTECT'] * 3 + ['UNPROTECT'] if 'p' in mode else []) + (['RESTORE'] * 4 if 'r' in mode else []) + ['REMOVE'] * 4 + ['SELECT', 'IFF'] + \
        ['ADD', 'MAP', 'SUBSTITUTE', 'REPLACE', 'APPEND', 'COPY', 'UNMAP']
    def look():
        return [f for f in ('LOOKDELETED', 'LOOKDELAYED', 'LOOKIGNORED') if r.random() < .08]
    g.section(r.choice(['SECTION', 'SECTION', 'BEFORE-SECTIONS']))
    for _ in range(r.choice([3, 4, 5, 6, 7])):
        n[0] += 1; k = n[0]
        ty = r.choice(kinds); fl = []
        if ty in ('SELECT', 'REMOVE', 'IFF'):
            x = r.random()
            if x < .3: fl.append('DELAYED')
            elif x < .6: fl.append('IGNORED')
            elif x < .65: fl.append('IMMEDIATE')
            if r.random() < .15: fl.append('UNSAFE')
            if 'p' in mode and ty != 'REMOVE': ty = 'REMOVE'
            g.rule(ty, G.set(), tests(), fl=fl + look())
        elif ty == 'RESTORE':
            x = r.random()
            if x < .3: fl.append('DELAYED')
            elif x < .6: fl.append('IGNORED')
            elif x < .65: fl.append('IMMEDIATE')
            if r.random() < .2: fl.append(r.choice(['ITERATE', 'NOITERATE']))
            g.rule(ty, g.any() if r.random() < .5 else G.set(), tests(), fl=fl, mset=r.choice(broad) if r.random() < .8 else g.any())
        elif ty in ('PROTECT', 'UNPROTECT'): g.rule(ty, G.set(), tests())
        elif ty == 'ADD': g.rule(ty, G.set(), tests(), ml=[lit('h%d' % k)], fl=look())
        elif ty == 'MAP': g.rule(ty, G.set(), tests(), ml=[lit('@m%d' % k)])
        elif ty == 'REPLACE': g.rule(ty, G.set(), tests(1), ml=[lit('q%d' % k), lit(r.choice(G.tags))])
        elif ty == 'SUBSTITUTE': g.rule(ty, G.set(), tests(), sl=[lit(r.choice(G.tags))], ml=[lit('s%d' % k)] if r.random() < .6 else [anyp()])
        elif ty == 'UNMAP': g.rule(ty, G.set(), tests())
        elif ty == 'COPY': g.rule(ty, G.set(), tests() + [g.test(off=0, no=True, tgt=g.lst([lit('c%d' % k)]))], ml=[lit('c%d' % k)])
        else:
            q = '"new%d"' % k
            g.rule('APPEND', G.set(), tests() + [g.test(off=0, no=True, letters='DdI', tgt=g.lst([lit(q)]))], ml=[lit(q), lit(r.choice(['q1', 'N']))])
        if r.random() < .15: g.section()
    probe(G, [tst() for _ in range(r.choice([1, 2, 3]))])
    G.stream(nw=r.choice([1, 1, 2]))
    o['maxruns'] = 18
    if r.random() < .5: o['trace'] = 1
    return G


# ------------------------------------------------------------------ P22: options that only report
OBS_OF = ['dis', 'dis', 'link', 'sets', 'tags', 'unif', 'sched', 'cmd', 'ident', 'win', 'map', 'map', 'edit', 'edit', 'struct', 'struct', 'sdep', 'deps', 'rels', 'rels',
          'encl', 'encl', 'subs', 'subs', 'with', 'prot', 'prot']


@profile
def p_obs(rng):
    """a grammar and stream of any other profile, run with options that must not change what is done"""
    r = rng
    q = r.choice(OBS_OF)
    G = PROFILES[q](r)
    o = G.opt
    x = []
    if r.random() < .6:
        o['trace'] = 1
        if r.random() < .3: o['tno'] = 1
        if r.random() < .3: o['tnr'] = 1
        if q == 'encl' and r.random() < .5: o['tencl'] = 1
    if r.random() < .3: o['printids'] = 1
    if r.random() < .25: o['pdep'] = 1
    if r.random() < .3: o['unitags'] = 1
    if r.random() < .25: x += ['--profile', '{W}/p.sqlite']
    if r.random() < .3: x += r.choice([['-v'], ['-v', '0'], ['-v', '1'], ['-v', '3'], ['--quiet']])
    if r.random() < .3: x += ['--debug-rules', r.choice(['1-999', '10-14', '%d' % r.randrange(8, 30)])]
    if r.random() < .2: x += r.choice([['-d'], ['--debug', '2'], ['-d', '1']])
    if r.random() < .15: x += ['--stderr', '{W}/err']
    o['_extra'] = o.get('_extra', []) + x
    return G


# ------------------------------------------------------------------ P18: nothing carries over
HIST_OF = ['dis', 'pos', 'link', 'tmpl', 'sets', 'tags', 'tags', 'unif', 'unif', 'sched', 'sched', 'map', 'edit', 'subs', 'encl', 'encl', 'prot', 'prot', 'with', 'struct', 'deps']


@profile
def p_hist(rng):
    """a stream of several parts, each ended by a flush, in which the same windows come again in other surroundings"""
    r = rng
    while True:
        q = r.choice(HIST_OF)
        G = PROFILES[q](r)
        if not any(it['k'] == 'cmd' for it in G.items): break
    base = G.items
    if len(base) > 14: base = base[:r.randrange(8, 14)]
    plain = not any(it['k'] == 'coh' and (it['ds'] or it['rid']) for it in base)
    parts = [base]
    for _ in range(r.choice([1, 1, 2, 3])):
        p = copy.deepcopy(r.choice(parts))
        x = r.random()
        if plain and x < .25: p = p[::-1]
        elif plain and x < .5:
            p = [it for it in p if r.random() < .6] or p
        elif plain and x < .7:
            r.shuffle(p)
        elif plain and x < .85 and not any(it['k'] == 'coh' and (it['pl'] or it['pr']) for it in p):
            # the same words with other analyses
            rs = [it['rs'] for it in p if it['k'] == 'coh']; r.shuffle(rs)
            for it in p:
                if it['k'] == 'coh' and rs: it['rs'] = rs.pop()
        parts.append(p)
    if r.random() < .5: r.shuffle(parts)
    G.parts = [copy.deepcopy(p) + [ST.flush()] for p in parts]
    G.items = [it for p in G.parts for it in copy.deepcopy(p)]
    G.of = q
    return G


# ------------------------------------------------------------------ P16: the written form of a grammar
FORM_OF = ['dis', 'pos', 'link', 'tmpl', 'sets', 'tags', 'unif', 'sched', 'map', 'edit', 'win', 'encl', 'subs', 'with', 'prot', 'struct', 'deps', 'rels']


@profile
def p_form(rng):
    """a grammar of any other profile, written differently, compiled or written out again before it runs"""
    r = rng
    q = os.environ.get('Q') or r.choice(FORM_OF)
    G = PROFILES[q](r)
    o = G.opt
    G.how = os.environ.get('H') or r.choice(['bin', 'bin', 'bin2', 'text2', 'text2', 'text2', 'binbin', 'bintext', 'textbin', 'texttext', None, None, None])
    if G.how == 'bintext' and any(d.get('pre') for d in G.g.sets): G.how = 'textbin'     # a binary grammar has no names for its sets
    if G.how and 'text' in G.how or G.how is None and r.random() < .8:
        # rules have other line numbers then
        o['trace'] = o['tno'] = o['tnr'] = o['tencl'] = 0
        G.pick = None
    G.respell = not (o['trace'] or o['tno'] or o['tnr'] or o['tencl'] or getattr(G, 'pick', None))
    if os.environ.get('R') == '0': G.respell = None
    G.of = q
    return G


# ------------------------------------------------------------------ P17: the same analyses through another format
# format -> profiles whose streams and results the format can express (the limits are those of the formats, see DESIGN.md)
VIA_IN = dict(
    jsonl=['dis', 'pos', 'link', 'sets', 'tags', 'unif', 'sched', 'edit', 'subs', 'prot', 'struct', 'deps', 'ident'],
    binary=['dis', 'pos', 'link', 'sets', 'tags', 'unif', 'sched', 'edit', 'subs', 'prot', 'struct', 'ident'],
    niceline=['dis', 'pos', 'link', 'sets', 'unif', 'sched'],
    apertium=['dis', 'link', 'sets', 'sched'],
    fst=['sets', 'sched'])
VIA_OUT = dict(
    jsonl=['dis', 'pos', 'link', 'sets', 'tags', 'sched', 'subs', 'prot', 'win'],
    binary=['dis', 'pos', 'link', 'sets', 'tags', 'sched', 'subs', 'prot', 'win', 'unif'],
    niceline=['dis', 'pos', 'link', 'sets', 'sched'],
    apertium=['dis', 'pos', 'link', 'sets', 'sched'],
    fst=['dis', 'pos', 'link', 'sets', 'sched'])


def plain_stream(items, fs):
    """what the simpler formats can express of a stream"""
    if not set(fs) & {'niceline', 'apertium', 'fst'}: return items
    out = []
    for it in items:
        if it['k'] != 'coh':
            continue
        it = dict(it, wt=[], dl=[])
        if set(fs) & {'apertium', 'fst'}:
            it['rs'] = [[dict(t=[t for t in x['t'] if t[0] != '<'], m=x['m']) for x in ch] for ch in it['rs']]
        out.append(it)
    return out


@profile
def p_via(rng):
    """a grammar of any other profile, run on the stream converted to another format, its output converted back"""
    r = rng
    while True:
        fi = os.environ.get('FI', r.choice([''] + 4 * ['jsonl', 'binary'] + ['niceline', 'apertium', 'fst', 'jsonl']))
        fo = os.environ.get('FO', r.choice(['', ''] + 2 * ['jsonl', 'binary'] + ['niceline', 'apertium', 'fst']))
        qs = [q for q in VIA_IN.get(fi, VIA_OUT.get(fo, [])) if not fo or q in VIA_OUT[fo]]
        if (fi or fo) and qs: break
    q = os.environ.get('Q') or r.choice(qs)
    G = PROFILES[q](r)
    o = G.opt
    o['trace'] = o['tno'] = o['tnr'] = o['tencl'] = 0
    if fo: o['unitags'] = 0
    G.pick = None
    # conversions before the run
    chain = r.choice([[], [], ['jsonl'], ['binary'], ['jsonl', 'binary'], ['binary', 'jsonl']]) if q not in ('deps', 'ident', 'struct', 'map') else []
    if os.environ.get('CH') is not None: chain = [x for x in os.environ['CH'].split(',') if x]
    if {fi, fo} & {'apertium', 'fst'}: chain = r.choice([[], ['apertium'], ['niceline'], ['fst'], ['apertium', 'niceline', 'fst'], ['fst', 'apertium']])
    G.via = (fi or None, fo or None, chain)
    G.of = q
    G.items = plain_stream(G.items, (fi, fo))
    return G
