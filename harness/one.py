"""debug: python3 one.py PROFILE SEED INDEX [trace] -> writes /tmp/one.{cg3,in,out} and shows spec verdict"""
import sys, random, json
import gen, run
prof, seed, i = sys.argv[1], sys.argv[2], int(sys.argv[3])
G = gen.PROFILES[prof](random.Random('%s/%s/%d' % (prof, seed, i)))
if 'trace' in sys.argv: G.opt['trace'] = 1
c = G.case('%s-%d' % (prof, i)); run.run_all([c])
open('/tmp/one.cg3', 'w').write(c['gtext']); open('/tmp/one.in', 'w').write(c['itext']); open('/tmp/one.out', 'w').write('\n'.join(c['out'] or []))
print(run.opt_args(c['opt'])); print(c['err'])
r, s, o = run.run_tlc([c], timeout=60); print(r); 
if not r: print(o[-1500:])
