"""Builder for grammars: one structured object gives both the grammar text for
vislcg3 and the JSON description that the TLA+ specification interprets."""
import random, json

NF = 38
FI = {n: i for i, n in enumerate(
    "SCAN1 SCANA CARE NOT NEG ABS SPL SPR SPB PASSO NOPO SELF NOBAR MARK JUMP ATT WITH DEL DLY IGN ACT INACT "
    "ALL NONE DEPP DEPC DEPS DEEP GLOB LEFT RIGHT LMOST RMOST LPAR RPAR REL BAG OVR".split())}
LETTER = {'C': 'CARE', '<': 'SPL', '>': 'SPR', 'W': 'SPB', '@': 'ABS', 'O': 'NOPO', 'o': 'PASSO', 'S': 'SELF', 'N': 'NOBAR',
          'X': 'MARK', 'D': 'DEL', 'd': 'DLY', 'I': 'IGN', 'A': 'ATT', 'w': 'WITH', 'T': 'ACT', 't': 'INACT', 'B': 'BAG',
          'L': 'LPAR', 'R': 'RPAR'}
ANY = 32767


def esc(t):
    """a tag as written inside a grammar list"""
    o = ''
    for c in t:
        if c in '\\;()# ' and not (t[0] == '"'):
            o += '\\'
        elif t[0] == '"' and c in '\\':
            o += '\\'
        o += c
    return o


# ---- tag patterns: dicts with the JSON fields plus 'src' (grammar text) ----
def lit(s): return dict(k='lit', s=s, src=('\\' if s[:1] == '^' else '') + esc(s))
def anyp(): return dict(k='any', src='*')
def ic(s): return dict(k='ic', s=s, src=esc(s) + 'i')


def rx(ast, gc, src, icase=0): return dict(k='rx', re=ast, gc=gc, ic=icase, src=src)
def num(key, op, v, off=0, opsrc=None, vsrc=None):
    """numeric pattern; values are scaled by 10; v: number, 'MIN' or 'MAX' (with an offset)"""
    mm = v if v in ('MIN', 'MAX') else 'N'
    vs_ = vsrc or (v if mm != 'N' else numtxt(v))
    if mm != 'N' and off: vs_ = '%s%s%s' % (v, '+' if off > 0 else '-', numtxt(abs(off)))
    return dict(k='num', key=key, op=op, v=mm, n=off if mm != 'N' else v, src='<%s%s%s>' % (key, opsrc or op, vs_))


def numtxt(v):
    """a value scaled by 10 as text"""
    if v % 10 == 0: return str(v // 10)
    return '%s%d.%d' % ('-' if v < 0 else '', abs(v) // 10, abs(v) % 10)


OPSRC = {'=': ['=', ':'], '!=': ['!=', '<>', '!:'], '<': ['<'], '>': ['>'], '<=': ['<=', '=<', '<:'], '>=': ['>=', '=>', '>:']}


def meta(text):
    a, g = rxparse(text)
    return dict(k='meta', re=a, gc=g, ic=0, src='META:/' + text.replace(' ', '\\ ') + '/r')


def rxline(text, src=None):
    a, g = rxparse(text.replace('__', '(^|$| | .+ )'))
    return dict(k='rxl', re=a, gc=0, ic=0, src='/' + text.replace('\\', '\\\\').replace(' ', '\\ ') + '/l')


def setref(g, sid): return dict(k='set', si=sid, src='SET:' + g.static(sid))


# ---- a tiny regular-expression parser (the subset the specification knows) ----
class _RxP:
    def __init__(self, s): self.s = s; self.i = 0; self.g = 0
    def alt(self):
        xs = [self.seq()]
        while self.i < len(self.s) and self.s[self.i] == '|':
            self.i += 1; xs.append(self.seq())
        return xs[0] if len(xs) == 1 else dict(n='|', xs=xs)
    def seq(self):
        xs = []
        while self.i < len(self.s) and self.s[self.i] not in '|)':
            xs.append(self.rep())
        return dict(n='s', xs=xs)
    def rep(self):
        a = self.atom()
        while self.i < len(self.s) and self.s[self.i] in '*+?':
            c = self.s[self.i]; self.i += 1
            a = dict(n='*', x=a, lo=1 if c == '+' else 0, hi=1 if c == '?' else -1)
        return a
    def atom(self):
        c = self.s[self.i]; self.i += 1
        if c == '(':
            self.g += 1; g = self.g
            x = self.alt(); assert self.s[self.i] == ')'; self.i += 1
            return dict(n='(', x=x, g=g)
        if c == '[':
            neg = 0
            if self.s[self.i] == '^': neg = 1; self.i += 1
            cs = []
            while self.s[self.i] != ']':
                if self.i + 2 < len(self.s) and self.s[self.i + 1] == '-' and self.s[self.i + 2] != ']':
                    cs += [chr(x) for x in range(ord(self.s[self.i]), ord(self.s[self.i + 2]) + 1)]; self.i += 3
                else:
                    cs.append(self.s[self.i]); self.i += 1
            self.i += 1
            return dict(n='[', cs=cs, neg=neg)
        if c == '.': return dict(n='.')
        if c == '^': return dict(n='^')
        if c == '$': return dict(n='$')
        if c == '\\':
            c = self.s[self.i]; self.i += 1
        return dict(n='c', c=c)


def rxparse(s):
    p = _RxP(s); a = p.alt(); assert p.i == len(s), s
    return a, p.g


def rxtag(text, icase=0, slash=False):
    """text: '"..."' or '<...>' (anchored) or, with slash, a free pattern"""
    a, g = rxparse(text)
    gsrc = text.replace('\\', '\\\\') if slash else text
    gsrc = gsrc.replace('(', '\\(').replace(')', '\\)') if (slash or text[0] != '"') else gsrc
    if slash:
        return rx(a, g, '/' + gsrc + '/' + ('r' if not icase else 'ri'), icase)
    ast = dict(n='s', xs=[dict(n='^'), a, dict(n='$')])
    return rx(ast, g, gsrc + ('r' if not icase else 'ri'), icase)


ANYB = dict(k='anyb', src='".*"r')
ANYW = dict(k='anyw', src='"<.*>"r')
ANYT = dict(k='anyt', src='<.*>r')
SPECIAL = {'tgt': '_TARGET_', 'mark': '_MARK_', 'att': '_ATTACHTO_', 'same': '_SAME_BASIC_', 'encl': '_ENCL_',
           'parl': '_LEFT_', 'parr': '_RIGHT_'}


def special(k): return dict(k=k, src=SPECIAL[k])
def ctx(i): return dict(k='ctx', i=i, src='_C%d_' % i)


def var(name, value=None, local=False, nk='lit', vk=None):
    d = dict(k='var', nk=nk, n=name, vk='none', v='', loc=int(local), src=('LVAR:' if local else 'VAR:'))
    d['nre'] = dict(re=rxparse('.')[0], gc=0, ic=0); d['vre'] = d['nre']
    nsrc = name
    if nk == 'rx':
        a, g = rxparse(name)
        d['nre'] = dict(re=a, gc=g, ic=0); nsrc = '/' + name + '/r'
    elif nk == 'ic':
        nsrc = '/' + name + '/i'
    d['src'] += nsrc
    if value is not None:
        d['vk'] = vk or 'lit'; d['v'] = value
        vs = value
        if d['vk'] == 'rx':
            a, g = rxparse(value); d['vre'] = dict(re=a, gc=g, ic=0); vs = '/' + value + '/r'
        elif d['vk'] == 'ic': vs = '/' + value + '/i'
        d['src'] += '=' + vs
    return d


def vs(parts, src): return dict(k='vs', ps=[dict(g=p[0], s=p[1], m=p[2]) for p in parts], src=src)


def vstext(text, sets=None):
    """varstring from text with $1..$9, %u %U %l %L and {$$LIST}; sets: name -> id of the LIST"""
    parts = []; i = 0; cur = ''
    def fl():
        nonlocal cur
        if cur: parts.append((0, cur, '')); cur = ''
    while i < len(text):
        if text[i] == '%' and i + 1 < len(text) and text[i + 1] in 'uUlL':
            fl(); parts.append((0, '', text[i + 1])); i += 2
        elif text[i] == '$' and i + 1 < len(text) and text[i + 1].isdigit():
            fl(); parts.append((int(text[i + 1]), '', '')); i += 2
        elif text[i] == '{' and sets:
            j = text.index('}', i); fl(); parts.append((sets[text[i + 1:j]], '', 'S')); i = j + 1
        else:
            cur += text[i]; i += 1
    fl()
    return parts


def vtag(text, sets=None):
    if text[0] in '"<' :
        return vs(vstext(text, sets), text + 'v')
    return vs(vstext(text, sets), 'VSTR:' + text)



def capt(p):
    return (p['k'] in ('rx', 'meta') and p['gc'] > 0)


class Gram:
    def __init__(s, rng=None):
        s.rng = rng or random.Random(0)
        s.sets = []; s.tests = []; s.rules = []; s.tmpls = []
        s.header = []          # option lines
        s.body = []            # ('section', kind, flags) | ('rule', idx) | ('anchor', name, idx)
        s.nsec = 0; s.cursec = -1
        s.anchors = []; s.relnames = []; s.parens = []
        s.delim = None; s.softd = None
        s.hasdep = 0; s.hasrel = 0; s.statics = []
        s.inline = 0.4
        s.fancy = 0.15
        s.mp = '@'

    def static(s, sid):
        n = s.sets[sid - 1]['name']
        if n not in s.statics: s.statics.append(n)
        return n

    # ---------------- sets
    def _add(s, d):
        s.sets.append(d); d['id'] = len(s.sets); return len(s.sets)

    def lst(s, members, ff=(), name=None, unify=False):
        """members: list of pattern or list of patterns"""
        ms = [m if isinstance(m, list) else [m] for m in members]
        allp = [p for m in ms for p in m] + list(ff)
        ef = int(any(capt(p) for p in allp) or any(p['k'] == 'set' and s.sets[p['si'] - 1]['ef'] for p in allp))
        i = s._add(dict(k='list', ff=list(ff), m=ms, tu=0, cu=0, ef=ef))
        s.sets[i - 1]['name'] = name or 'L%d' % i
        return i

    def ops(s, sets, ops, name=None):
        c = [s.sets[i - 1] for i in sets]
        cu = int(any(x['tu'] or x['cu'] for x in c)); ef = int(cu or any(x['ef'] for x in c))
        i = s._add(dict(k='ops', sets=list(sets), ops=list(ops), tu=0, cu=cu, ef=ef))
        s.sets[i - 1]['name'] = name or 'S%d' % i
        return i

    def calc(s, a, op, b, name=None):
        """set difference, symmetric difference and intersection of the members of two LISTs"""
        A, B = s.sets[a - 1], s.sets[b - 1]
        key = lambda m: frozenset(p['src'] for p in m)
        ka = {key(m) for m in A['m']}; kb = {key(m) for m in B['m']}
        assert not A['ff'] and not B['ff']
        if op == '\\': ms = [m for m in A['m'] if key(m) not in kb]
        elif op == '∩': ms = [m for m in A['m'] if key(m) in kb]
        else: ms = [m for m in A['m'] if key(m) not in kb] + [m for m in B['m'] if key(m) not in ka]
        allp = [p for m in ms for p in m]
        ef = int(any(capt(p) for p in allp) or any(p['k'] == 'set' and s.sets[p['si'] - 1]['ef'] for p in allp))
        i = s._add(dict(k='list', ff=[], m=ms, tu=0, cu=0, ef=ef, noinline=1))
        s.sets[i - 1]['name'] = name or 'D%d' % i
        s.sets[i - 1]['_calc'] = (a, op, b)
        return i

    def any(s):
        for x in s.sets:
            if x['k'] == 'any': return x['id']
        i = s._add(dict(k='any', tu=0, cu=0, ef=0)); s.sets[i - 1]['name'] = '(*)'
        return i

    def tu(s, sid):
        i = s._add(dict(k='ops', sets=[sid], ops=[], tu=1, cu=1, ef=1)); s.sets[i - 1]['name'] = '$$' + s.sets[sid - 1]['name']
        s.sets[i - 1]['pre'] = True
        return i

    def su(s, sid):
        m = s.sets[sid - 1]; assert m['k'] == 'ops'
        i = s._add(dict(k='su', sets=list(m['sets']), ops=[], tu=0, cu=1, ef=1)); s.sets[i - 1]['name'] = '&&' + m['name']
        s.sets[i - 1]['pre'] = True
        return i

    def mem(s, m):
        return m[0]['src'] if len(m) == 1 else '(' + ' '.join(p['src'] for p in m) + ')'

    def listdef(s, d):
        ms = [s.mem(m) for m in d['m']] + ['^' + p['src'].replace('\\ ', ' ').replace(' ', '\\ ') for p in d['ff']]
        return ' '.join(ms)

    def inline_src(s, sid):
        """source of a set where a set may be written inline"""
        d = s.sets[sid - 1]
        if d['k'] == 'list' and not d['ff'] and s.rng.random() < s.inline and not d.get('noinline'):
            # (a b) is one composite; several members are OR-ed
            return (s.rng.choice([' OR ', ' | '])).join('(' + ' '.join(p['src'] for p in m) + ')' for m in d['m'])
        if d['k'] == 'ops' and not d.get('pre') and s.rng.random() < s.inline * 0.7 and not d.get('noinline'):
            o = s.sets[d['sets'][0] - 1]['name']
            for op, i in zip(d['ops'], d['sets'][1:]):
                o += ' %s %s' % (op if op != 'OR' else s.rng.choice(['OR', '|']), s.sets[i - 1]['name'])
            return o
        return d['name']

    # ---------------- tests
    def test(s, off=None, scan='', letters='', sub=0, tgt=0, bar=0, cbar=0, link=0, neg=False, all=False, none=False, no=False,
             dep='', jump='', rel=None, tmpl=0, ors=None, look=''):
        """off: offset or None; scan '', '*', '**'; letters: position letters; dep: c p s cc pp (with scan for deep);
        lr letters l ll r rr go in `look`"""
        f = [0] * NF
        def on(n): f[FI[n]] = 1
        for c in letters: on(LETTER[c])
        if neg: on('NEG')
        if all: on('ALL')
        if none: on('NONE')
        if no: on('NOT')
        k = 't'
        if ors: k = 'ors'
        elif tmpl: k = 'tmpl'
        if dep == 'c': on('DEPC')
        if dep == 'cc': on('GLOB')
        if dep == 'p': on('DEPP')
        if dep == 'pp': on('DEPP'); on('GLOB')
        if dep == 's': on('DEPS')
        if scan:
            if dep in ('c', 's'): on('DEEP')
            else: on('SCAN1' if scan == '*' else 'SCANA')
        lr = {'l': 'LEFT', 'll': 'LMOST', 'r': 'RIGHT', 'rr': 'RMOST', '': None}[look]
        if lr: on(lr)
        jf = ''
        if jump: on('JUMP'); jf = {'x': 'M', 'jM': 'M', 'jA': 'A', 'jT': 'T', 'jC1': '1', 'jC2': '2', 'jC3': '3'}[jump]
        if rel: on('REL')
        if tmpl and (off is not None or scan or letters): on('OVR')
        if dep: s.hasdep = 1
        if rel: s.hasrel = 1
        if link: assert not none
        d = dict(k=k, f=f, off=off or 0, sub=sub, tgt=tgt, bar=bar, cbar=cbar, link=link, jump=jf,
                 rel={x: rel[x] for x in rel if x != 'src'} if rel else dict(k='any'), tmpl=tmpl, ors=ors or [])
        if not (scan or 'S' in letters or dep):
            d['bar'] = d['cbar'] = 0
        # text
        mods = ''.join(x + ' ' for x, y in (('NEGATE', neg), ('ALL', all), ('NONE', none), ('NOT', no)) if y)
        post = letters
        if jump: post += jump
        pos = (str(off) if off is not None else '') + dep + scan + post + look
        if s.rng.random() < s.fancy and off is not None and not dep and scan:      # order of the parts is free
            pos = scan + (str(off)) + post + look
        if rel: pos = pos + 'r:' + rel['src']
        if sub: pos += '/*' if sub == ANY else '/%d' % sub
        d['_pos'] = pos; d['_mods'] = mods
        s.tests.append(d); d['id'] = len(s.tests)
        d['_bar'] = bar; d['_cbar'] = cbar
        return d['id']

    def test_src(s, tid):
        d = s.tests[tid - 1]
        o = d['_mods']
        if d['k'] == 'ors':
            o += ' OR '.join('(' + s.test_src(x) + ')' for x in d['ors'])
        elif d['k'] == 'tmpl':
            nm = s.tests[d['tmpl'] - 1]['_name']
            o += (d['_pos'] + '\x01 ' if d['_pos'] else '') + 'T:' + nm
        else:
            o += d['_pos'] + '\x01 ' + s.inline_src(d['tgt'])
        if d['_cbar']: o += ' CBARRIER ' + s.inline_src(d['_cbar'])
        if d['_bar']: o += ' BARRIER ' + s.inline_src(d['_bar'])
        if d['link']: o += ' LINK ' + s.test_src(d['link'])
        return o

    def template(s, alts):
        """a template of alternatives (test ids)"""
        if len(alts) == 1:
            tid = alts[0]
        else:
            tid = s.test(ors=list(alts))
        d = s.tests[tid - 1]
        if '_name' in d: return tid
        d['_name'] = 'tm%d' % (len(s.tmpls) + 1)
        s.tmpls.append(tid)
        return tid

    # ---------------- rules
    def section(s, kind='SECTION', flags=''):
        s.body.append(('section', kind, flags))
        if kind in ('BEFORE-SECTIONS', 'MAPPINGS', 'CORRECTIONS'): s.cursec = -1
        elif kind == 'AFTER-SECTIONS': s.cursec = -2
        elif kind == 'NULL-SECTION': s.cursec = -3
        else:
            s.cursec = s.nsec; s.nsec += 1

    def rule(s, type, target, tests=(), ml=None, sl=None, fl=(), wf='', name='', mset=0, dep_target=0, dep_tests=(), childset1=0, childset2=0,
             sub=0, nested=False, subs=(), sd=(), rt=0, spot=None, relargs='', mlsrc=None, slsrc=None, where=''):
        t2 = type
        # a list that repeats a tag right after itself is one the grammar parser reads as having it once
        uniq = lambda ps: [p for i, p in enumerate(ps) if i == 0 or ps[i-1]['src'] != p['src']]
        if mlsrc is None: ml = uniq(ml or [])
        if slsrc is None: sl = uniq(sl or [])
        d = dict(type=type, type2=t2, wf=wf, line=0, name=name, fl=list(fl), target=target, tests=list(tests), sub=sub,
                 ml=ml or [], sl=sl or [], cs1l=spot or [], mset=mset, section=-9 if nested else s.cursec, subs=list(subs), relargs=relargs,
                 dep_target=dep_target, dep_tests=list(dep_tests), childset1=childset1, childset2=childset2, sd=[list(x) for x in sd], rt=rt)
        d['_mlsrc'] = mlsrc; d['_slsrc'] = slsrc; d['_where'] = where
        if childset1 or childset2 or type in ('SETPARENT', 'SETCHILD', 'REMPARENT', 'SWITCHPARENT', 'SPLITCOHORT', 'MERGECOHORTS'): s.hasdep = 1
        if 'RELATION' in type or type == 'MERGECOHORTS': s.hasrel = 1
        # look flags go to every test of the rule (in the main context)
        lk = [n for n, fl_ in (('DEL', 'LOOKDELETED'), ('DLY', 'LOOKDELAYED'), ('IGN', 'LOOKIGNORED')) if fl_ in fl]
        if lk:
            seen = set()
            def go(t):
                if not t or t in seen: return
                seen.add(t)
                x = s.tests[t - 1]
                for n in lk: x['f'][FI[n]] = 1
                go(x['link'])
                for y in x['ors']: go(y)
            for t in list(tests): go(t)
        if type == 'WITH' and 'KEEPORDER' not in d['fl']: d['_kw'] = 1
        tt = list(tests) + list(dep_tests) + ([dep_target] if dep_target else [])
        if any(s.tests[t - 1]['jump'] == 'M' for t in tt) and 'REMEMBERX' not in d['fl']:
            d['fl'].append('REMEMBERX'); d['_autox'] = 1
        s.rules.append(d)
        if not nested: s.body.append(('rule', len(s.rules)))
        return len(s.rules)

    def anchor(s, name):
        s.rules.append(dict(type='ANCHOR', type2='ANCHOR', wf='', line=0, name='', fl=[], target=s.any(), tests=[], sub=0, ml=[], sl=[], cs1l=[], mset=0,
                            section=s.cursec, subs=[], relargs='', dep_target=0, dep_tests=[], childset1=0, childset2=0, sd=[], rt=0, _anchor=name))
        s.body.append(('rule', len(s.rules)))
        s.anchors.append([name, len(s.rules)])

    # ---------------- text
    def tags_src(s, ml): return '(' + ' '.join(p['src'] for p in ml) + ')'

    def rule_src(s, i, ind=''):
        d = s.rules[i - 1]
        r = s.rng
        if '_anchor' in d: return 'ANCHOR %s' % d['_anchor']
        o = ''
        if d['wf']: o += d['wf'] + ' '
        ty = d['type']
        kw = ty
        o += kw
        if d['name']: o += ':' + d['name']
        flags = [f for f in d['fl'] if not (f == 'REMEMBERX' and d.get('_autox')) and f not in ('BEFORE', 'AFTER', 'REVERSE', 'WITHCHILD')]
        if d['sub']: flags.append('SUB:' + ('*' if d['sub'] == ANY else str(d['sub'])))
        r.shuffle(flags)
        for f in flags: o += ' ' + f
        cs1done = False
        if d['childset1'] and ty in ('MOVE', 'REMCOHORT', 'ADDCOHORT', 'SWITCHPARENT', 'COPYCOHORT'):
            o += ' WITHCHILD ' + s.inline_src(d['childset1']); cs1done = True
        if ty == 'SUBSTITUTE': o += ' ' + (d['_slsrc'] or s.tags_src(d['sl']))
        if d['mset']: o += ' ' + (d['_mlsrc'] or s.inline_src(d['mset']))
        elif d['ml']: o += ' ' + (d['_mlsrc'] or s.tags_src(d['ml']))
        if ty in ('COPY', 'COPYCOHORT', 'REPLACE') and d['sl']: o += ' EXCEPT ' + (d['_slsrc'] or s.tags_src(d['sl']))
        if ty in ('ADDRELATIONS', 'SETRELATIONS', 'REMRELATIONS', 'SETVARIABLE'): o += ' ' + (d['_slsrc'] or s.tags_src(d['sl']))
        if ty == 'ADDCOHORT': o += ' ' + ('BEFORE' if 'BEFORE' in d['fl'] else 'AFTER')
        if d['cs1l']: o += ' ' + ('BEFORE' if 'BEFORE' in d['fl'] else 'AFTER') + ' ' + s.tags_src(d['cs1l'])
        if r.random() < s.fancy: o += ' TARGET'
        o += ' ' + s.inline_src(d['target'])
        if r.random() < s.fancy and d['tests']: o += ' IF'
        for t in d['tests']: o += ' (' + s.test_src(t) + ')'
        if ty == 'MOVE': o += ' ' + ('BEFORE' if 'BEFORE' in d['fl'] else 'AFTER')
        elif ty in ('SWITCH', 'MERGECOHORTS'): o += ' WITH'
        elif d['dep_target']: o += ' FROM' if 'REVERSE' in d['fl'] else ' TO'
        if ty == 'COPYCOHORT' and 'REVERSE' not in d['fl']: o += ' ' + ('BEFORE' if 'BEFORE' in d['fl'] else 'AFTER')
        if ty in ('MOVE', 'COPYCOHORT') and d['childset2']: o += ' WITHCHILD ' + s.inline_src(d['childset2'])
        for t in ([d['dep_target']] if d['dep_target'] else []) + list(d['dep_tests']): o += ' (' + s.test_src(t) + ')'
        return o

    def render(s):
        r = s.rng
        L = list(s.header)
        if s.delim: L.append('DELIMITERS = %s ;' % ' '.join(s.mem(m) for m in s.sets[s.delim - 1]['m']))
        else: L.append('DELIMITERS = "<$.>" ;')
        if s.softd: L.append('SOFT-DELIMITERS = %s ;' % ' '.join(s.mem(m) for m in s.sets[s.softd - 1]['m']))
        if s.statics: L.append('STATIC-SETS = %s ;' % ' '.join(s.statics))
        for l, rr in s.parens: L.append('PARENTHESES = (%s %s) ;' % (l, rr))
        for d in s.sets:
            if r.random() < s.fancy * .3: L.append(r.choice(['# a comment ; with ( odd " things', '', '   ', '#']))
            if d.get('pre') or d['k'] == 'any' or d['id'] in (s.delim, s.softd): continue
            if d.get('_calc'):
                a, op, b = d['_calc']
                L.append('SET %s = %s %s %s ;' % (d['name'], s.sets[a - 1]['name'], op, s.sets[b - 1]['name']))
            elif d['k'] == 'list':
                L.append('LIST %s %s %s ;' % (d['name'], r.choice(['=', '=', '=']), s.listdef(d)))
            else:
                o = s.sets[d['sets'][0] - 1]['name']
                for op, i in zip(d['ops'], d['sets'][1:]):
                    o += ' %s %s' % (op if op != 'OR' else r.choice(['OR', '|']), s.sets[i - 1]['name'])
                L.append('SET %s = %s ;' % (d['name'], o))
        for t in s.tmpls:
            d = s.tests[t - 1]
            L.append('TEMPLATE %s = %s ;' % (d['_name'], s.test_src(t)))
        for b in s.body:
            if r.random() < s.fancy * .3: L.append('# between rules')
            if b[0] == 'section':
                L.append(b[1] + (' ' + b[2] if b[2] else '') + r.choice(['', '', ' ']) + (' ;' if b[2] and False else ''))
            else:
                i = b[1]; d = s.rules[i - 1]
                src = s.rule_src(i)
                d['line'] = len(L) + 1
                if d['type'] == 'WITH':
                    L.append(src + ' {')
                    s._emit_nested(d, L, '  ')
                    L.append('} ;')
                else:
                    L.append(src + ' ;')
        if r.random() < s.fancy: L.append('END'); L.append('REMOVE (*) ;')
        s.marked = '\n'.join(L) + '\n'        # with the ends of test positions marked
        s.text = s.marked.replace('\x01', '')
        for d in s.rules:
            t = d['type']
            if t == 'ADDCOHORT' or t == 'MOVE': d['type2'] = t + ('-BEFORE' if 'BEFORE' in d['fl'] else '-AFTER')
            else: d['type2'] = t
        return s.text

    def _emit_nested(s, d, L, ind):
        for j in d['subs']:
            e = s.rules[j - 1]
            src = s.rule_src(j)
            e['line'] = len(L) + 1
            if e['type'] == 'WITH':
                L.append(ind + src + ' {'); s._emit_nested(e, L, ind + '  '); L.append(ind + '} ;')
            else:
                L.append(ind + src + ' ;')

    def json(s):
        def pat(p): return {k: v for k, v in p.items() if k != 'src'}
        S = []
        for d in s.sets:
            if d['k'] == 'list':
                S.append(dict(k='list', ff=[pat(p) for p in d['ff']], m=[[pat(p) for p in m] for m in d['m']], tu=d['tu'], cu=d['cu'], ef=d['ef']))
            elif d['k'] == 'any': S.append(dict(k='any', tu=0, cu=0, ef=0))
            else: S.append(dict(k=d['k'], sets=d['sets'], ops=d['ops'], tu=d['tu'], cu=d['cu'], ef=d['ef']))
        T = [{k: v for k, v in d.items() if not k.startswith('_')} for d in s.tests]
        R = []
        for d in s.rules:
            x = {k: v for k, v in d.items() if not k.startswith('_')}
            for f in ('ml', 'sl', 'cs1l'): x[f] = [pat(p) for p in x[f]]
            R.append(x)
        return dict(sets=S, tests=T, rules=R, anchors=s.anchors + [['START', 1], ['END', len(s.rules) + 1]], parens=s.parens, relnames=s.relnames)
