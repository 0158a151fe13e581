"""Other ways to write the same grammar: blank space, comments, letter case of keywords, alternative
keywords, lists put together in steps, definitions nobody uses, includes."""
import re

KW = set('''OR LINK BARRIER CBARRIER NOT NEGATE ALL NONE IF TARGET TO FROM WITH BEFORE AFTER EXCEPT AND
NEAREST ALLOWLOOP ALLOWCROSS DELAYED IMMEDIATE IGNORED LOOKDELETED LOOKDELAYED LOOKIGNORED UNSAFE SAFE REMEMBERX RESETX KEEPORDER VARYORDER
ENCL_INNER ENCL_OUTER ENCL_FINAL ENCL_ANY WITHCHILD NOCHILD ITERATE NOITERATE UNMAPLAST REVERSE NOMAPPED NOPARENT CAPTURE_UNIF REPEAT DETACH'''.split())
RULE = set('''ADDRELATIONS SETRELATIONS REMRELATIONS ADDRELATION SETRELATION REMRELATION SETVARIABLE REMVARIABLE SETPARENT SETCHILD REMPARENT SWITCHPARENT
RESTORE IFF MAP ADD APPEND SELECT REMOVE REPLACE SUBSTITUTE COPYCOHORT COPY UNMAP PROTECT UNPROTECT DELIMIT JUMP MOVE SWITCH REMCOHORT ADDCOHORT
SPLITCOHORT MERGECOHORTS WITH LIST SET TEMPLATE PARENTHESES DELIMITERS SOFT-DELIMITERS STATIC-SETS ANCHOR'''.split())


def tokens(s):
    """pieces of a statement that stay together; True marks blank space in between"""
    out = []; cur = ''; i = 0
    while i < len(s):
        c = s[i]
        if c == '\\' and i + 1 < len(s):
            cur += s[i:i + 2]; i += 2; continue
        if c == '"' and (not cur or cur in ('(', '^') or cur.endswith('(')):
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur += s[i:j + 1]; i = j + 1; continue
        if c == ' ':
            if cur: out.append(cur); cur = ''
            i += 1
            while i < len(s) and s[i] == ' ': i += 1
            continue
        cur += c; i += 1
    if cur: out.append(cur)
    return out


def respell(text, rng, cid, keep_lines=False):
    """(text, {file name suffix: text of an included file}); with keep_lines every rule stays on its line"""
    r = rng
    files = {}

    def case(w):
        x = r.random()
        if x < .75: return w
        if x < .9: return w.lower()
        return ''.join(c.lower() if r.random() < .5 else c for c in w)

    def gap():
        x = r.random()
        if keep_lines: return ' ' if x < .8 else r.choice(['  ', '\t', '   '])
        if x < .78: return ' '
        return r.choice(['\n', '  ', '\t', '\n\t', ' # or ) " ; REMOVE (*) ;\n', '\n#\n', ' #\n  '])

    def stmt(line):
        m = re.match(r'\s*', line); ind = m.group(0)
        tk = tokens(line[len(ind):])
        if not tk: return line
        first = tk[0].split(':')[0]
        o = []
        depth = 0
        isdef = first in ('LIST', 'SET', 'TEMPLATE', 'DELIMITERS', 'SOFT-DELIMITERS', 'STATIC-SETS', 'PARENTHESES')
        ruled = False
        for k, t in enumerate(tk):
            w = t.split(':')[0]
            if not ruled and w in RULE and (k == 0 or (k == 1 and tk[0][0] == '"')):
                t = case(w) + t[len(w):]; ruled = True
            elif first != 'LIST' and t.lstrip('(') in KW and not (isdef and first not in ('SET', 'TEMPLATE')):
                b = t.lstrip('('); t = t[:len(t) - len(b)] + case(b)
            elif t in ('OR', '|') and first in ('SET', 'TEMPLATE') and r.random() < .3:
                t = 'OR' if t == '|' else t
            # room inside parentheses
            if t[0] == '(' and len(t) > 1 and r.random() < .12 and not keep_lines: t = '(' + gap() + t[1:]
            o.append(t)
        s = o[0]
        for k, t in enumerate(o[1:], 1):
            if t == ';' and r.random() < .3: s += t if not re.search(r'\\$', s) and s[-1] in ')' else ' ' + t
            elif k == 1 and s[0] == '"': s += r.choice([' ', ' ', '  ', '\t']) + t     # the word form of a rule stands on its line
            elif s[-1] == '\x01': s = s[:-1] + ' ' + t
            else: s += gap() + t
        return ind + s

    lines = text.split('\n')
    # definitions come in statements of one line each
    out = []
    used = 0
    for l in lines:
        if l.startswith('LIST ') and l.endswith(' ;') and not keep_lines and r.random() < .25:
            tk = tokens(l)
            # top-level members
            ms = []; cur = []; d = 0
            for t in tk[3:-1]:
                cur.append(t)
                if t[0] == '(' : d = 1
                if d and t[-1] == ')' and not t.endswith('\\)'): d = 0
                if not d: ms.append(' '.join(cur)); cur = []
            if not cur and len(ms) > 1 and not any(m[0] == '^' or 'SET:' in m for m in ms):
                k = r.randrange(1, len(ms))
                if r.random() < .4: r.shuffle(ms)
                out.append('LIST %s = %s ;' % (tk[1], ' '.join(ms[:k]))); out.append('LIST %s += %s ;' % (tk[1], ' '.join(ms[k:]))); continue
            if not cur and len(ms) > 0 and r.random() < .4:
                # a member said twice
                ms.insert(r.randrange(len(ms) + 1), r.choice(ms))
                out.append('LIST %s = %s ;' % (tk[1], ' '.join(ms))); continue
        out.append(l)
        if l.startswith('LIST ') and not keep_lines:
            if r.random() < .1:
                used += 1; out.append(r.choice(['LIST Unused%d = a b "c" ;', 'LIST Unused%d = (a b) xx ;', 'SET Unused%d = (a) - (*) ;', 'TEMPLATE unused%d = (-1\x01 (a)) OR (1\x01 (b)) ;']) % used)
            if r.random() < .06:
                used += 1; out.append('SET Alias%d = %s ;' % (used, l.split()[1]))
            if r.random() < .06: out.append(l)
    lines = out
    if not keep_lines:
        lines = [{'BEFORE-SECTIONS': r.choice(['MAPPINGS', 'CORRECTIONS', 'BEFORE-SECTIONS']), 'SECTION': r.choice(['SECTION', 'CONSTRAINTS', 'section'])}.get(l.strip(), l)
                 if l.strip() in ('BEFORE-SECTIONS', 'SECTION') else l for l in lines]
    sect = ('BEFORE-SECTIONS', 'SECTION', 'AFTER-SECTIONS', 'NULL-SECTION', 'MAPPINGS', 'CORRECTIONS', 'CONSTRAINTS', 'END')
    res = []
    for l in lines:
        b = l.strip()
        if not b or b.startswith('#') or b.upper().split(' ')[0] in sect: res.append(l)
        else: res.append(stmt(l))
    if not keep_lines:
        # some lines at the start or in the middle go into a file of their own
        flat = list(res)
        if r.random() < .4:
            depth = 0; ok = []           # places between statements at the outer level
            for k, l in enumerate(lines):
                if depth == 0: ok.append(k)
                depth += l.rstrip().endswith('{'); depth -= l.strip() == '} ;'
            a = r.choice(ok); b = r.choice(ok)
            if a > b: a, b = b, a
            inc = flat[a:b]
            if len('\n'.join(inc)) > 5 and not any(x.strip() == 'END' for x in lines[a:b]):
                nm = 'g%s.inc' % cid
                files[nm] = '\n'.join(inc) + r.choice(['\n', '\n\n', ''])  if not lines[b - 1].strip().startswith('#') and not lines[b-1].strip().upper().split(' ')[0] in sect else '\n'.join(inc) + '\n'
                flat[a:b] = ['INCLUDE %s ;' % nm]
                if all(not x.strip() or x.split()[0] in ('LIST', 'SET') for x in lines[a:b]) and r.random() < .3: flat[a] = 'INCLUDE STATIC %s ;' % nm
        # WITH blocks on fewer lines
        k = 0
        while k + 1 < len(flat):
            if r.random() < .3 and '#' not in flat[k] and '#' not in flat[k + 1] and (flat[k].rstrip().endswith('{') or flat[k + 1].strip() == '} ;' or flat[k + 1].strip() == '};'):
                flat[k] = flat[k].rstrip() + r.choice([' ', '', '\t']) + flat[k + 1].strip(); del flat[k + 1]
            else: k += 1
        res = flat
    return '\n'.join(res), files
