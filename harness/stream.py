"""Items of an input stream: text for vislcg3 and JSON for the specification."""

def reading(chain, m=()):
    """chain: list of tag lists (main reading first, each starting with its baseform); m: mapping tags of the main reading"""
    return [dict(t=list(t), m=list(m) if i == 0 else []) for i, t in enumerate(chain)]


def cohort(w, rs, wt=(), dl=(), ds=0, dp=-1, rid=0, rrel=(), pl='', pr=''):
    return dict(k='coh', w=w, wt=list(wt), rs=list(rs), dl=list(dl), ds=ds, dp=dp, rid=rid, rrel=[list(x) for x in rrel], pl=pl, pr=pr)


def cohort_lines(c, rng=None):
    L = [c['w'] + ''.join(' ' + t for t in c['wt'])]
    extra = ''
    if c['ds']: extra += ' #%d->%d' % (c['ds'], c['dp'] if c['dp'] >= 0 else c['ds'])
    if c['rid']: extra += ' ID:%d' % c['rid']
    for n, xs in c['rrel']:
        for x in xs: extra += ' R:%s:%d' % (n, x)
    for pre, rs in (('', c['rs']), (';', c['dl'])):
        for ch in rs:
            for k, s in enumerate(ch):
                tags = list(s['t']) + list(s['m'])
                L.append(pre + '\t' * (k + 1) + ' '.join(tags) + (extra if k == 0 else ''))
    return L


def item_lines(it):
    if it['k'] == 'coh': return cohort_lines(it)
    if it['k'] == 'text': return it['s'].split('\n') if 'lines' not in it else it['lines']
    return [it['s']]


def finish(items):
    for it in items: it['lines'] = item_lines(it)
    return items


def text(items):
    return '\n'.join(l for it in items for l in item_lines(it)) + '\n'


def txt(s): return dict(k='text', s=s)
def flush(): return dict(k='cmd', c='FLUSH', s='<STREAMCMD:FLUSH>')
def cmd(c, **kw): return dict(k='cmd', c=c, s='<STREAMCMD:%s>' % c, **kw)


def setvar(vs):
    """vs: list of (name, value or None)"""
    arg = ','.join(n if v is None else n + '=' + v for n, v in vs)
    return dict(k='cmd', c='SETVAR', s='<STREAMCMD:SETVAR:%s>' % arg, vs=[[n, v if v is not None else '*'] for n, v in vs],
                plain=int(len(vs) == 1 and vs[0][1] is None))


def remvar(ns):
    return dict(k='cmd', c='REMVAR', s='<STREAMCMD:REMVAR:%s>' % ','.join(ns), ns=list(ns))


DEFOPT = dict(aspan=0, unsafe=0, mp='@', trace=0, tnr=0, tno=0, tencl=0, nopo=0, magic=1, nomap=0, nocorr=0, nobef=0, nosec=0, noaft=0,
              maxruns=0, secs=[], nsec=1, rules=[], nwin=2, soft=300, hard=500, softset=0, delimset=0, splitm=0, endtags=0, printids=0, uniq=0,
              hasdep=0, hasrel=0, pdep=0, unitags=0, dabs=0, loops=0, nocross=0, acattach=0, cap=14)
