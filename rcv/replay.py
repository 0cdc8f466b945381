"""Concrete side: builds /verif/harness against /repo's working tree in a scratch directory and runs it.
Used to replay counterexamples of refuted obligations on the real code and as the bounded stand-in for undecided ones."""
import os, subprocess, tempfile, shutil, json, time
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(prop, seed, tier, cexs, limit=300):
    root = os.environ.get('RCV_ROOT', '/repo')
    t0 = time.time()
    out = {'ran': False, 'cases': 0, 'failures': [], 'note': ''}
    d = tempfile.mkdtemp(prefix='rcv-replay-')
    try:
        shutil.copytree(os.path.join(VERIF, 'harness'), os.path.join(d, 'h'), ignore=shutil.ignore_patterns('target'))
        toml = os.path.join(d, 'h', 'Cargo.toml')
        s = open(toml).read().replace('path = "/repo"', 'path = "%s"' % root)
        open(toml, 'w').write(s)
        json.dump(cexs, open(os.path.join(d, 'cex.json'), 'w'), default=str)
        tgt = os.environ.get('RCV_TARGET') or os.path.join(d, 't')
        b = subprocess.run(['bash', '-c', '. /opt/vp/env.sh >/dev/null 2>&1; cd %s/h && CARGO_TARGET_DIR=%s cargo build --offline 2>&1' % (d, tgt)],
                           stdout=subprocess.PIPE, text=True, timeout=600)
        exe = os.path.join(tgt, 'debug', 'replay')
        if b.returncode != 0 or not os.path.exists(exe):
            out['note'] = 'the harness does not build: ' + b.stdout[-600:]
            return out
        try:
            r = subprocess.run([exe, prop, str(seed), tier, os.path.join(d, 'cex.json')], stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=limit, cwd=d)
            txt = r.stdout
            rc = r.returncode
        except subprocess.TimeoutExpired as e:
            txt = e.stdout or b''
            txt = txt.decode() if isinstance(txt, bytes) else txt
            rc = 0
            out['note'] = 'stopped at its time limit of %d s' % limit
        out['ran'] = True
        for l in txt.splitlines():
            if l.startswith('CASES '):
                out['cases'] = int(l[6:])
            elif l.startswith('FAIL '):
                try:
                    out['failures'].append(json.loads(l[5:]))
                except ValueError:
                    out['failures'].append({'id': l[5:]})
        if rc not in (0, 1):
            out['note'] += ' harness ended with %d' % rc
        return out
    finally:
        out['secs'] = round(time.time() - t0, 1)
        shutil.rmtree(d, ignore_errors=True)
