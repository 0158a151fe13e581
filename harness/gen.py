"""Random and systematic generation of cases.  Every case is one grammar (built
with gram.Gram), one option setting and one input stream; what the specification
needs is derived from the same objects, never from the implementation's output."""
import random, itertools, copy
import forms
from gram import *
import stream as ST

WF = ['"<a>"', '"<b>"', '"<c>"', '"<d>"', '"<e>"']
BF = ['"a"', '"b"', '"c"', '"d"', '"E"']
TG = ['N', 'V', 'A', 'Det', 'sg', 'pl', 'x1', 'x2']
SEC = ['<h1>', '<h2>', '<H1>']


class Gen:
    """one case under construction"""
    def __init__(s, rng):
        s.r = rng
        s.g = Gram(rng)
        s.opt = dict(ST.DEFOPT)
        s.tags = list(TG)
        s.bfs = list(BF); s.wfs = list(WF); s.secs = list(SEC)
        s.lists = []; s.setids = []
        s.numtags = {}
        s.leaf = None
        s.maxlinks = 2

    # ---------- tags and sets
    def tagp(s):
        r = s.r
        x = r.random()
        if s.leaf and x < 0.35: return s.leaf()
        if x < 0.7: return lit(r.choice(s.tags))
        if x < 0.85: return lit(r.choice(s.bfs))
        if x < 0.93: return lit(r.choice(s.wfs))
        return lit(r.choice(s.secs))

    def mk_sets(s, nl=5, ns=3):
        r = s.r
        for _ in range(nl):
            ms = []
            for _ in range(r.choice([1, 1, 2, 2, 3])):
                ms.append([s.tagp() for _ in range(r.choice([1, 1, 1, 2, 2, 3]) if r.random() < .5 else 1)])
            # no two equal members, no repeated tags inside a member
            ms = [list({p['src']: p for p in m}.values()) for m in ms]
            ms = list({tuple(sorted(p['src'] for p in m)): m for m in ms}.values())
            ff = [lit(r.choice(s.tags))] if r.random() < .1 else []
            ff = [p for p in ff if all(p['src'] != q['src'] for m in ms for q in m)]
            i = s.g.lst(ms, ff); s.lists.append(i); s.setids.append(i)
        for _ in range(ns):
            n = r.choice([2, 2, 3, 3, 4])
            xs = [r.choice(s.setids) for _ in range(n)]
            ops = [r.choice(['OR', 'OR', '+', '-', '^']) for _ in range(n - 1)]
            i = s.g.ops(xs, ops); s.setids.append(i)
        return s

    def set(s):
        r = s.r
        if r.random() < .06: return s.g.any()
        if r.random() < .03: return s.boundary()
        return r.choice(s.setids)

    def boundary(s):
        k = s.r.choice(['>>>', '<<<'])
        for x in s.g.sets:
            if x['k'] == 'list' and len(x['m']) == 1 and len(x['m'][0]) == 1 and x['m'][0][0].get('s') == k: return x['id']
        return s.g.lst([lit(k)])

    # ---------- tests
    def test(s, depth=0, link=None, notmpl=False, plain=False):
        r = s.r
        g = s.g
        kw = {}
        lk = 0
        canlink = depth < s.maxlinks and r.random() < (.35 if link is None else link)
        if canlink: lk = s.test(depth + 1)
        x = r.random()
        letters = ''
        off = r.choice([-3, -2, -1, -1, -1, 0, 0, 1, 1, 1, 2, 3])
        scan = r.choice(['', '', '', '*', '*', '**'])
        if x < .06:
            letters += '@'; off = r.choice([-3, -2, -1, 1, 2, 3]); 
            if r.random() < .7: scan = ''
        if r.random() < .12: letters += 'C'
        if r.random() < .10 and not (off == 0 and not scan): letters += r.choice(['W', '<', '>'])
        if r.random() < .08: letters += r.choice(['O', 'o'])
        if r.random() < .08 and scan: letters += 'S'
        if 'S' in letters and r.random() < .2: letters += 'N'
        kw['no'] = r.random() < .15 and scan != '**'
        if kw['no'] and 'C' in letters: letters = letters.replace('C', '')
        if kw['no'] and off == 0 and scan: kw['no'] = False
        kw['neg'] = r.random() < .10
        if not lk:
            if r.random() < .06 and scan: kw['all'] = True
            elif r.random() < .06 and scan: kw['none'] = True
        elif r.random() < .04 and scan: kw['all'] = True
        if scan or 'S' in letters:
            if r.random() < .25: kw['bar'] = s.set()
            if r.random() < .12: kw['cbar'] = s.set()
        if depth and r.random() < .06: kw['jump'] = r.choice(['jM', 'x', 'jT']) if r.random() < .8 else 'x'
        if r.random() < .08: letters += 'X'
        if not notmpl and r.random() < .08:
            alts = [s.test(depth + 1, notmpl=True) for _ in range(r.choice([1, 2, 2, 3]))]
            if r.random() < .5: return g.test(ors=alts if len(alts) > 1 else alts + [s.test(depth + 1, notmpl=True)], link=lk, neg=kw['neg'])
            t = g.template(alts)
            if r.random() < .5: return g.test(tmpl=t, link=lk, neg=kw['neg'])
            return g.test(off=off, scan=scan, tmpl=t, link=lk, neg=kw['neg'], letters=letters.replace('C', ''))
        return g.test(off=off, scan=scan, letters=letters, tgt=s.set(), link=lk, **kw)

    def tests(s, n=None):
        return [s.test() for _ in range(n if n is not None else s.r.choice([0, 1, 1, 1, 2, 2, 3]))]

    # ---------- streams
    def reading_tags(s):
        r = s.r
        n = r.choice([1, 1, 2, 2, 3])
        ts = r.sample(s.tags, n)
        if r.random() < .2: ts.insert(0, r.choice(s.secs))
        return [r.choice(s.bfs)] + ts

    def cohort(s, w=None, n=None):
        r = s.r
        n = n if n is not None else r.choice([0, 1, 2, 2, 3, 3, 4])
        rs = []; seen = set()
        for _ in range(n):
            t = s.reading_tags()
            k = frozenset(t)
            if k in seen: continue
            seen.add(k); rs.append(ST.reading([t]))
        wt = [r.choice(['<st>', 'wt1', 'N'])] if r.random() < .06 else []
        return ST.cohort(w or r.choice(s.wfs), rs, wt=wt)

    def window(s, n=None, delim=True):
        r = s.r
        n = n or r.choice([1, 2, 3, 3, 4, 4, 5, 6])
        out = []
        for i in range(n):
            out.append(s.cohort())
            if r.random() < .05: out.append(ST.txt(r.choice(['free text', '<s>', '</p> x', ' lead', 'æøå', ''])))
        if delim: out.append(s.cohort(w='"<$.>"', n=r.choice([0, 1])))
        return out

    def stream(s, nw=None, text=True):
        r = s.r
        items = []
        nw = nw or r.choice([1, 1, 2, 2, 3, 4])
        if text and r.random() < .15: items.append(ST.txt('first line'))
        for i in range(nw):
            items += s.window(delim=(i < nw - 1 or r.random() < .5))
            if r.random() < .05: items.append(ST.flush())
        s.items = items
        return s

    # ---------- finish
    def pick_rules(s, how):
        """--rules / --rule: the rules of some lines, or of one name"""
        r = s.r; o = s.opt; g = s.g
        ln = sorted(set(d['line'] for d in g.rules if d['line'] and d['type'] != 'ANCHOR'))
        if not ln: return
        if how == 'name':
            nm = [d['name'] for d in g.rules if d['name']]
            if not nm: how = 'rule'
            else:
                n = r.choice(nm); o['_extra'] = o.get('_extra', []) + ['--rule', n]
                L = {d['line'] for d in g.rules if d['name'] == n}
        if how == 'rule':
            l = r.choice(ln); o['_extra'] = o.get('_extra', []) + ['--rule', str(l)]; L = {l}
        elif how == 'fill':
            l = r.choice(ln); o['_rules'] = str(l); L = set(range(1, l + 1))
        elif how == 'range':
            a, b = sorted([r.choice(ln), r.choice(ln)]); L = set(range(a, b + 1)); o['_rules'] = '%d-%d' % (a, b)
            if r.random() < .4: l = r.choice(ln); L.add(l); o['_rules'] += ',%d' % l
        elif how == 'list':
            L = r.sample(ln, min(len(ln), r.choice([2, 2, 3])))
            if len(L) == 1: L = L * 2
            o['_rules'] = ','.join(map(str, L))
            if len(set(L)) == 1: L = range(1, L[0] + 1)
            L = set(L)
        o['rules'] = [i + 1 for i, d in enumerate(g.rules) if d['line'] in L]

    def case(s, cid):
        g = s.g
        if not g.delim:
            g.delim = g.lst([lit('"<$.>"')], name='_DELIMS_')
        text = g.render()
        o = s.opt
        if getattr(s, 'pick', None): s.pick_rules(s.pick)
        o['delimset'] = g.delim; o['softset'] = g.softd or 0
        o['nsec'] = max([d['section'] for d in g.rules] + [-1]) + 1
        o['hasdep'] = max(o['hasdep'], g.hasdep); o['hasrel'] = max(o['hasrel'], g.hasrel)
        ST.finish(s.items)
        files = {}
        if getattr(s, 'respell', None) is not None: text, files = forms.respell(g.marked, s.r, cid, keep_lines=not s.respell)
        return dict(id=cid, files=files, gtext=text, itext=ST.text(s.items), items=s.items, opt=o, g=g.json(), num=s.numtags, how=getattr(s, 'how', None), via=getattr(s, 'via', None))


def dis_rules(G, n=None, trace=True):
    r = G.r; g = G.g
    n = n or r.choice([2, 3, 4, 5, 6])
    for _ in range(n):
        ty = r.choice(['SELECT', 'SELECT', 'REMOVE', 'REMOVE', 'REMOVE', 'IFF'])
        fl = []
        if r.random() < (.5 if G.opt['unsafe'] else .12): fl.append(r.choice(['UNSAFE', 'SAFE']))
        if r.random() < .05: fl.append(r.choice(['ITERATE', 'NOITERATE']))
        g.rule(ty, g.any() if r.random() < .05 else G.set(), G.tests(), fl=fl, wf=r.choice(G.wfs) if r.random() < .1 else '',
               name='r%d' % r.randrange(99) if r.random() < .2 else '')
        if r.random() < .15: g.section()


def p_dis(rng):
    G = Gen(rng).mk_sets()
    g = G.g; r = rng
    if r.random() < .2: G.opt['unsafe'] = 1
    if r.random() < .15:
        g.section('BEFORE-SECTIONS'); dis_rules(G, r.choice([1, 2]))
    g.section()
    dis_rules(G)
    if r.random() < .15:
        g.section('AFTER-SECTIONS'); dis_rules(G, r.choice([1, 2]))
    G.stream()
    if r.random() < .5: G.opt['trace'] = 1
    if r.random() < .1: G.opt['aspan'] = 1
    return G


PROFILES = dict(dis=p_dis)


def cases(profile, n, seed, tag=None):
    out = []
    for i in range(n):
        rng = random.Random('%s/%s/%d' % (profile, seed, i))
        G = PROFILES[profile](rng)
        if G is None: continue
        out.append(G.case('%s-%d' % (tag or profile, i)))
    return out


import profiles  # noqa: E402,F401  (registers its profiles)
