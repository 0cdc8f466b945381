"""Writes /verif/seeded/<id>/ from the descriptions in bugs/*.py and (with --try) confirms each in a scratch copy of /repo."""
import os, sys, json, shutil, subprocess, glob, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
OUT = '/verif/seeded'


def load():
    out = []
    for f in sorted(glob.glob(HERE + '/bugs/*.py')):
        ns = {}
        exec(open(f).read(), ns)
        ns['id'] = os.path.basename(f)[:-3]
        out.append(ns)
    return out


def sh(c, cwd=None, t=900):
    r = subprocess.run(['bash', '-c', c], cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=t)
    return r.returncode, r.stdout


def make(b):
    w = '/tmp/seedw-' + b['id']
    shutil.rmtree(w, ignore_errors=True)
    sh('git clone -q /repo %s; cp /repo/Cargo.lock %s/' % (w, w))
    for f, old, new in b['EDITS']:
        p = os.path.join(w, f)
        s = open(p).read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d matches in %s of %r' % (b['id'], s.count(old), f, old))
        open(p, 'w').write(s.replace(old, new))
    rc, diff = sh('git diff', w)
    d = os.path.join(OUT, b['id'])
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    open(d + '/patch.diff', 'w').write(diff)
    shutil.copy(HERE + '/demo.sh', d + '/demo.sh')
    os.chmod(d + '/demo.sh', 0o755)
    shutil.copy(HERE + '/demo.lock', d + '/demo.lock')
    open(d + '/main.rs', 'w').write(open(HERE + '/prelude.rs').read() + b['DEMO'])
    if 'cs::' in b['DEMO']:
        shutil.copy(HERE + '/cs.rs', d + '/cs.rs')
    json.dump({'property': b['PROP'], 'needs': b['NEEDS'], 'what_it_breaks': b['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
    return w, d


def confirm(b, tests=False):
    w, d = make(b)
    r = {}
    rc, o = sh(d + '/demo.sh', '/repo')
    r['clean'] = (rc, o[-300:])
    rc, o = sh(d + '/demo.sh', w)
    r['patched'] = (rc, o[-300:])
    good = r['clean'][0] == 0 and 'fine' in r['clean'][1] and r['patched'][0] != 0
    if tests and good:
        want = json.load(open('/opt/vp/BASELINE.json'))
        cmd = '. /opt/vp/env.sh; CARGO_TARGET_DIR=/tmp/seedt-%s cargo test --offline --lib 2>&1 | grep -E "^test .* (ok|FAILED)|error"' % b['id']
        rc, o = sh(cmd, w, 1800)
        r['tests'] = [l for l in o.splitlines() if 'FAILED' in l or l.startswith('error')]
        r['passed'] = sum(l.endswith('ok') for l in o.splitlines())
        shutil.rmtree('/tmp/seedt-' + b['id'], ignore_errors=True)
    shutil.rmtree(w, ignore_errors=True)
    print(b['id'], 'GOOD' if good else 'BAD', json.dumps(r)[:1200], flush=True)


if __name__ == '__main__':
    pats = [a for a in sys.argv[1:] if not a.startswith('-')]
    bs = [b for b in load() if not pats or any(p in b['id'] for p in pats)]
    if '--try' in sys.argv or '--tests' in sys.argv:
        from concurrent.futures import ThreadPoolExecutor
        with ThreadPoolExecutor(2 if '--tests' in sys.argv else 3) as ex:
            list(ex.map(lambda b: confirm(b, '--tests' in sys.argv), bs))
    else:
        for b in bs:
            w, d = make(b)
            shutil.rmtree(w, ignore_errors=True)
