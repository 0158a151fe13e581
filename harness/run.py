"""Run the implementation on cases and the specification on what it did."""
import os, sys, json, subprocess, tempfile, concurrent.futures as cf, re, time, shutil
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(ROOT, 'bin'))
import build as B
from stream import DEFOPT
BIN = B.BIN
JAR = '/opt/veriftools/tla/tla2tools.jar'
WORK = None


def workdir():
    global WORK
    if WORK is None:
        base = os.path.join(ROOT, 'work'); os.makedirs(base, exist_ok=True)
        WORK = tempfile.mkdtemp(prefix='run-', dir=base)
        import atexit
        atexit.register(lambda: shutil.rmtree(WORK, ignore_errors=True))
    return WORK


ENV = dict(os.environ, LC_ALL='C.UTF-8', LANG='C.UTF-8')
ENV.pop('CG3_DEFAULT', None); ENV.pop('CG3_OVERRIDE', None)


NTIME = [0]


def sh(argv, inp=b'', timeout=None, cwd=None, env=None):
    # an implementation that hangs on everything must not use up the whole check
    if timeout is None: timeout = 20 if NTIME[0] < 8 else 4 if NTIME[0] < 40 else 1
    try:
        p = subprocess.run(argv, input=inp, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout, env=dict(ENV, **env) if env else ENV, cwd=cwd)
        return p.returncode, p.stdout, p.stderr
    except subprocess.TimeoutExpired as e:
        NTIME[0] += 1
        return -99, e.stdout or b'', b'timeout'


def opt_args(o):
    a = []
    if o['trace']: a.append('--trace')
    if o['tno']: a.append('--trace-name-only')
    if o['tnr']: a += ['--trace-no-removed']
    if o['tencl']: a += ['--trace-encl']
    if o['aspan']: a.append('--always-span')
    if o['unsafe']: a.append('--unsafe')
    if o['nopo']: a.append('--no-pass-origin')
    if not o['magic']: a.append('--no-magic-readings')
    if o['nomap']: a.append('--no-mappings')
    if o['nocorr']: a.append('--no-corrections')
    if o['nobef']: a.append('--no-before-sections')
    if o['nosec']: a.append('--no-sections')
    if o['noaft']: a.append('--no-after-sections')
    if o['maxruns'] == 1: a.append('--single-run')
    elif o['maxruns']: a += ['--max-runs', str(o['maxruns'])]
    if o.get('_secs'): a += ['--sections', o['_secs']]
    if o.get('_rules'): a += ['--rules', o['_rules']]
    if o['nwin'] != 2: a += ['--num-windows', str(o['nwin'])]
    if o['soft'] != 300: a += ['--soft-limit', str(o['soft'])]
    if o['hard'] != 500: a += ['--hard-limit', str(o['hard'])]
    if o['splitm']: a.append('--split-mappings')
    if o['endtags']: a.append('--show-end-tags')
    if o['printids']: a.append('--print-ids')
    if o['uniq']: a.append('--unique-tags')
    if o['unitags']: a.append('--unicode-tags')
    if o['dabs']: a.append('--dep-absolute')
    if o['loops']: a.append('--dep-allow-loops')
    if o['nocross']: a.append('--dep-no-crossing')
    if o['pdep']: a.append('--print-dep')
    if o.get('_extra'): a += list(o['_extra'])
    return a


RELRX = re.compile(r' R:[^ :]+:\d+')


def canon(line, relnames):
    """relations are printed in no particular order: sort every run of R: tags by name (as declared), then number"""
    if ' R:' not in line: return line
    def key(t):
        n, x = t[3:].rsplit(':', 1)
        return (relnames.index(n) if n in relnames else 998, int(x))
    def f(m):
        return ''.join(sorted(re.findall(r' R:[^ :]+:\d+', m.group(0)), key=key))
    return re.sub(r'(?: R:[^ :]+:\d+)+', f, line)


CC = ('cg-comp', ''); GB = ('vislcg3', '--grammar-bin'); GT = ('vislcg3', '--grammar-out')
HOW = {None: [], 'bin': [CC], 'bin2': [GB], 'text2': [GT], 'binbin': [CC, GB], 'textbin': [GT, CC], 'texttext': [GT, GT], 'bintext': [CC, GT]}


class Skip(Exception):
    pass


def run_case(c):
    """fills in c['out']; c has gtext, itext, opt, optional runner"""
    d = workdir()
    g = os.path.join(d, 'g%s.cg3' % c['id']); 
    with open(g, 'w') as f: f.write(c['gtext'])
    # files an option has written: {W} stands for the place of this run
    args = [a.replace('{W}/', g + '.') for a in opt_args(c['opt'])]
    how = c.get('how')
    tmp = [g] + [a for a in args if a.startswith(g + '.')]
    for nm, tx in (c.get('files') or {}).items():
        with open(os.path.join(d, nm), 'w') as f: f.write(tx)
        tmp.append(os.path.join(d, nm))
    try:
        gg = g
        for k, (prog, opt) in enumerate(HOW[how]):
            b = '%s.%d' % (g, k); tmp.append(b)
            if prog == 'cg-comp': a = [os.path.join(BIN, 'cg-comp'), gg, b]
            else: a = [os.path.join(BIN, 'vislcg3'), '-g', gg, '--grammar-only', opt, b]
            rc, o, e = sh(a)
            if rc: return dict(rc=rc, err=e.decode('utf8', 'replace'), out=None)
            gg = b
        data = c['itext'].encode(); fin, fout, chain = c.get('via') or (None, None, [])
        conv = [os.path.join(BIN, 'cg-conv')] + (['-D'] if c['opt']['hasdep'] and re.search(r'#\d+(->|→)', c['itext']) else [])
        for a in chain:
            # through other formats, and back to CG
            for io in (['--in-cg', '--out-' + a], ['--in-' + a, '--out-cg']):
                rc, data, e = sh(conv + io, data)
                if rc: return dict(rc=rc, err=e.decode('utf8', 'replace'), out=None)
        if fin:
            # a binary stream is divided into windows already: the grammar says where
            rc, data, e = sh([os.path.join(BIN, 'vislcg3'), '-g', gg] + opt_args(dict(DEFOPT, **{k: c['opt'][k] for k in ('soft', 'hard', 'pdep', 'nwin') if k in c['opt']})) + ['--no-before-sections', '--no-sections', '--no-after-sections', '--out-' + fin], data) if fin == 'binary' else \
                sh(conv + ['--in-cg', '--out-' + fin], data)
            if rc: return dict(rc=rc, err=e.decode('utf8', 'replace'), out=None)
            args = args + ['--in-' + fin]
        if fout: args = args + ['--out-' + fout]
        rc, o, e = sh([os.path.join(BIN, 'vislcg3'), '-g', gg] + args, data, env=c.get('env'))
        if fout and rc == 0 and o: rc, o, e = sh(conv[:1] + (['-D'] if b'"ds"' in o else []) + ['--in-' + fout, '--out-cg'], o)
        out = o.decode('utf8', 'replace')
        if fout == 'jsonl': out = re.sub(r'(?m)^;\t.*\n', '', out)     # JSONL always has the removed readings
        return dict(rc=rc, err=e.decode('utf8', 'replace'), out=out)
    finally:
        for t in tmp:
            if not c.get('keep'):
                try: os.unlink(t)
                except OSError: pass


def raw(args, gtext, itext):
    """the output of one run, given as text"""
    g = os.path.join(workdir(), 'raw-%d.cg3' % time.time_ns())
    with open(g, 'w') as f: f.write(gtext)
    rc, o, e = sh([os.path.join(BIN, 'vislcg3'), '-g', g] + list(args), itext.encode())
    os.unlink(g)
    return o.decode('utf8', 'replace') if rc == 0 else None


def split_out(s):
    if s.endswith('\n'): s = s[:-1]
    elif s == '': return []
    return s.split('\n') if s != '' else ['']


def run_all(cases, workers=12):
    with cf.ThreadPoolExecutor(workers) as ex:
        res = list(ex.map(run_case, cases))
    for c, r in zip(cases, res):
        c['rc'] = r['rc']; c['err'] = r['err']
        if r['out'] is not None:
            c['out'] = [canon(l, c['g']['relnames']) for l in split_out(r['out'])]
        else:
            c['out'] = None
    return cases


CFG = "SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\n"


def case_json(c):
    d = dict(id=c['id'], items=c['items'], out=c['out'], opt={k: v for k, v in c['opt'].items() if not k.startswith('_')})
    d.update(c['g'])
    if c.get('num'): d['num'] = c['num']
    return d


def run_tlc(cases, workers=8, heap='6g', timeout=840, module='CG3'):
    """returns (dict id -> (ok, info)), stats"""
    d = workdir()
    f = os.path.join(d, 'cases-%d.ndjson' % time.time_ns())
    with open(f, 'w') as o:
        for c in cases: o.write(json.dumps(case_json(c), ensure_ascii=False) + '\n')
    cfg = os.path.join(d, 'CG3-%d.cfg' % time.time_ns())
    with open(cfg, 'w') as o: o.write(CFG)
    meta = tempfile.mkdtemp(dir=d)
    env = dict(ENV, CG3_CASES=f)
    t0 = time.time()
    try:
        p = subprocess.run(['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC', '-cp', JAR + ':/opt/veriftools/tla/CommunityModules-deps.jar', '-Dtlc2.TLC.stopAfter=%d' % timeout,
                            'tlc2.TLC', '-workers', str(workers), '-metadir', meta, '-noGenerateSpecTE', '-config', cfg,
                            os.path.join(ROOT, 'spec', module + '.tla')],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=env, timeout=timeout + 30, cwd=os.path.join(ROOT, 'spec'))
        out = p.stdout.decode('utf8', 'replace')
    except subprocess.TimeoutExpired as e:
        out = (e.stdout or b'').decode('utf8', 'replace') + '\nTIMEOUT'
    shutil.rmtree(meta, ignore_errors=True)
    res = {}
    # records may be wrapped over several lines
    for m in re.finditer(r'<<\s*"@(OK|BAD|SKIP)",\s*"?([^",]+)"?,\s*(.*?)>>\n(?=<<|\S)', out, re.S):
        i = m.group(2)
        if m.group(1) == 'SKIP': res[i] = (None, 'skip')
        elif m.group(1) == 'OK': res[i] = (True, int(m.group(3).strip()))
        else: res[i] = (False, re.sub(r'\s*\n\s*', ' ', m.group(3)))
    st = re.search(r'(\d+) states generated, (\d+) distinct', out)
    stats = dict(states=int(st.group(2)) if st else 0, transitions=int(st.group(1)) if st else 0, wall=time.time() - t0)
    return res, stats, out
