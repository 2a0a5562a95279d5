"""python3 tools/seed.py new ID PROP FILE 'old' 'new' 'needs' 'breaks'   -- writes (in the tree $SEED_REPO) seeded/ID/{patch.diff,meta.json}
   python3 tools/seed.py run ID...   -- applies to /repo, builds, tests, demo, check; undoes"""
import sys, os, json, subprocess as sp, time
V = '/verif'
W = os.environ.get('SEED_REPO', '/repo') + '/'
def sh(c, **k): return sp.run(c, shell=True, capture_output=True, text=True, **k)
def undo(): sh('git -C /repo checkout -- .'); sh('bash /opt/vp/build.sh')
base = json.load(open('/opt/vp/BASELINE.json'))
def tests():
    sh('bash /opt/vp/test.sh /tmp/seed_o.json')
    o = json.load(open('/tmp/seed_o.json'))
    b = base.get('passed') or base.get('stable') or base
    b = b if isinstance(b, list) else list(b)
    return [x for x in b if x not in o['passed']]
if sys.argv[1] == 'new':
    _, _, i, prop, f, old, new, needs, br = sys.argv
    d = V + '/seeded/' + i
    os.makedirs(d, exist_ok=True)
    s = open(W + f).read()
    old = old.encode().decode('unicode_escape'); new = new.encode().decode('unicode_escape')
    n = s.count(old)
    if n != 1: sys.exit('old text found %d times' % n)
    open(W + f, 'w').write(s.replace(old, new))
    p = sh('git -C ' + W + ' diff').stdout
    sh('git -C ' + W + ' checkout -- .')
    open(d + '/patch.diff', 'w').write(p)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': br}, open(d + '/meta.json', 'w'), indent=1)
    print(p)
else:
    for i in sys.argv[2:]:
        d = V + '/seeded/' + i
        prop = json.load(open(d + '/meta.json'))['property']
        sh('bash /opt/vp/build.sh')
        r0 = sh('bash %s/demo.sh' % d, cwd='/repo')
        a = sh('git -C /repo apply %s/patch.diff' % d)
        b = sh('bash /opt/vp/build.sh')
        miss = tests()
        r1 = sh('bash %s/demo.sh' % d, cwd='/repo')
        t = time.time()
        c = sh('python3-vt checks/%s.py' % prop.lower(), cwd=V)
        undo()
        print('%s %s: apply %d build %d tests-lost %s demo clean %d patched %d check %d (%.0fs)' % (i, prop, a.returncode, b.returncode, miss, r0.returncode, r1.returncode, c.returncode, time.time() - t))
        if r0.returncode or not r1.returncode: print('   demo:', r0.stdout[-300:], r0.stderr[-300:], r1.stdout[-200:])
        print('   ' + '\n   '.join(l[:260] for l in c.stdout.strip().split('\n')[-4:]))
