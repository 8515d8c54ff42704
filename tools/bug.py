"""Plant bugs: python3 tools/bug.py bugs.py [id...]   (development only)
bugs.py calls bug(id, prop, [(file, old, new)...], demo, needs, breaks, extra checks)."""
import json, os, shutil, subprocess, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
B = []
HEAD = '''import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import warnings
warnings.simplefilter('ignore')
from aksharamukha import transliterate as T


def tr(s, t, x, **k):
    k.setdefault('nativize', False)
    return T.process(s, t, x, **k)


'''


def bug(id, prop, edits, demo, needs, breaks, also=()):
    B.append((id, prop, edits, demo, needs, breaks, also))


def sh(cmd, **k):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **k)


def one(id, prop, edits, demo, needs, breaks, also):
    C = '/tmp/bug/' + id
    shutil.rmtree(C, ignore_errors=True)
    os.makedirs('/tmp/bug', exist_ok=True)
    shutil.copytree('/repo', C, symlinks=True)
    for f, old, new in edits:
        p = os.path.join(C, 'aksharamukha', f)
        t = open(p, encoding='utf-8', newline='').read()
        if t.count(old) != 1:
            print(id, 'EDIT matches', t.count(old), 'times in', f)
            return
        open(p, 'w', encoding='utf-8', newline='').write(t.replace(old, new))
    d = os.path.join(HERE, 'seeded', id)
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run('git diff', shell=True, cwd=C, capture_output=True).stdout
    open(d + '/patch.diff', 'wb').write(diff)
    open(d + '/demo.py', 'w', encoding='utf-8').write(HEAD + demo.strip() + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# cwd: /repo\nexport PYTHONUTF8=1\nexec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(d + '/demo.sh', 0o755)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1, ensure_ascii=False)
    ap = sh('git apply --check %s/patch.diff' % d, cwd='/repo')
    t = open('/opt/vp/test.sh').read().replace('/repo', C)
    open(C + '.test.sh', 'w').write(t)
    b = open('/opt/vp/build.sh').read().replace('/repo', C)
    sh('bash %s.test.sh %s.json' % (C, C))
    base = json.load(open('/opt/vp/BASELINE.json'))
    try:
        res = json.load(open(C + '.json'))
    except Exception as e:
        res = None
    def passed(r):
        for k in ('passed', 'stable'):
            if k in r and isinstance(r[k], list):
                return set(r[k])
        return None
    bp, rp = passed(base), passed(res) if res else None
    lost = sorted(bp - rp)[:3] if bp is not None and rp is not None else 'no result'
    d0 = sh('bash %s/demo.sh' % d, cwd='/repo', timeout=300)
    d1 = sh('bash %s/demo.sh' % d, cwd=C, timeout=300)
    out = []
    for p in (prop,) + tuple(also):
        r = sh('VERIF_REPO=%s ./check.sh %s' % (C, p), cwd=HERE)
        v = [l for l in r.stdout.split('\n') if l.startswith('  ')][:1]
        out.append('%s:%d %s' % (p, r.returncode, v[0][:150] if v else r.stdout[-100:]))
    ok = ap.returncode == 0 and lost == [] and d0.returncode == 0 and d1.returncode != 0
    print(id, 'VALID' if ok else 'INVALID apply=%d lost=%s demo0=%d demo1=%d %s' % (ap.returncode, lost, d0.returncode, d1.returncode, (d0.stderr[-200:] + '|' + d1.stderr[-100:])), '\n     ', '\n      '.join(out), flush=True)
    shutil.rmtree(C, ignore_errors=True)
    if not ok:
        shutil.rmtree(d)


exec(open(sys.argv[1], encoding='utf-8').read())
for b in B:
    if len(sys.argv) < 3 or b[0] in sys.argv[2:]:
        one(*b)
