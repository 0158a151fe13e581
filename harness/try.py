import sys, time, json
import gen, run
prof = sys.argv[1]; n = int(sys.argv[2]); seed = sys.argv[3] if len(sys.argv) > 3 else '1'; show = int(sys.argv[4]) if len(sys.argv) > 4 else 3
import build
if '-nb' not in sys.argv: build.build()
t = time.time()
cs = gen.cases(prof, n, seed)
t1 = time.time()
run.run_all(cs)
bad = [c for c in cs if c['rc'] != 0 or c['out'] is None]
print('gen %.1fs run %.1fs errors %d' % (t1 - t, time.time() - t1, len(bad)))
errs = {}
for c in cs:
    for l in c['err'].splitlines():
        if 'Error' in l or 'Warning' in l:
            errs.setdefault(l.split('line')[0][-80:] , []).append(c['id'])
for k, v in sorted(errs.items(), key=lambda x: -len(x[1]))[:12]: print(len(v), k, v[:3])
for c in bad[:show]: print(c['id'], c['rc'], c['err'][-500:]); print(c['gtext'])
good = [c for c in cs if c not in bad]
res, st, out = run.run_tlc(good)
print(st, 'results', len(res), 'of', len(good))
by = {c['id']: c for c in cs}
nbad = [i for i in res if res[i][0] is False]; print('skipped', sum(v[0] is None for v in res.values()))
miss = [c['id'] for c in good if c['id'] not in res]
print('BAD', len(nbad), nbad[:30], 'missing', len(miss), miss[:5], 'rule hits', sum(v[1] for v in res.values() if v[0]), 'cases with hits', sum(1 for v in res.values() if v[0] and v[1]))
if miss or not st['states']:
    k = out.find('Error:'); print(out[max(0,k-300):k+900]); print(out[-900:])
for i in sorted(nbad, key=lambda i: len(by[i]['gtext']) + len(by[i]['itext']))[:show]:
    c = by[i]
    print('=' * 70, i, run.opt_args(c['opt'])); print(res[i][1]); print(c['gtext']); print(c['itext']); print('--- out'); print('\n'.join(c['out']))
print('last finished', list(res)[-6:])
