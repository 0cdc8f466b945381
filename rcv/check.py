"""Check of one property: generate its obligations from /repo's current source, discharge them, report.

usage: python3-vt rcv/check.py C01 [--tier quick|thorough]
exit 0: every obligation accepted (or, where the verifier could not decide one, the bounded stand-in found nothing)
exit 1: a VIOLATION line"""
import sys, os, time, json, importlib
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)
sys.path.insert(0, os.path.join(VERIF, 'contracts'))
sys.setrecursionlimit(20000)
import oblig, harn, replay, meta

TRUSTED = [
    'rcv: the verifier itself (Rust parser, symbolic executor, polynomial normaliser), /verif/rcv; no independent proof of its soundness',
    'models of std (Vec, slices, iterators, Option/Result, HashMap, mem::replace) in rcv/models.py',
    'models of amcl_wrapper 0.1.7: FieldElement = integers mod the BLS12-381 group order; G1 = free module over it on the generators used; random() = fresh independent scalar',
    'model of merlin 1.3: a transcript is the list of its events; a challenge is a function of that list, injective and non-zero',
    'z3 4.8 / python z3-solver for integer side conditions',
]


def known():
    p = os.path.join(VERIF, 'known_findings.jsonl')
    out = []
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l:
                out.append(json.loads(l))
    return out


def main():
    prop = sys.argv[1]
    tier = sys.argv[sys.argv.index('--tier') + 1] if '--tier' in sys.argv else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    budget = 400 if tier == 'quick' else 600
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': meta.LEVEL.get(prop, 'other')}
    problem = None
    obs, res = [], {}
    try:
        mod = importlib.import_module(prop.lower())
        harn.get_prog()
        obs = list({o.id: o for o in mod.obligations(tier)}.values())
        res = oblig.run_all(obs, deadline=t0 + budget)
    except Exception as e:       # source not parsed etc.
        import traceback
        problem = traceback.format_exc()[-1500:]
        for o in obs:
            res.setdefault(o.id, oblig.Res('unknown', 'internal: ' + problem))
    if not obs:
        problem = problem or 'no obligation generated'
    refuted = [o for o in obs if res[o.id].status == 'refuted']
    unknown = [o for o in obs if res[o.id].status == 'unknown']
    proved = [o for o in obs if res[o.id].status == 'proved']
    used = sorted({f for o in obs for f in res[o.id].used})
    if obs and not used and not refuted:
        problem = 'no function of the crate was executed'
    t1 = time.time()

    stand = None
    if not os.environ.get('RCV_NO_REPLAY'):
        cexs = [{'obligation': o.id, 'detail': res[o.id].detail, 'cex': res[o.id].cex} for o in refuted]
        stand = replay.run(prop, seed, tier, cexs, limit=(280 if tier == "quick" else 240))

    listed = [k for k in known() if k.get('property') == prop and k.get('status') == 'open']
    viol = []
    evd = os.environ.get('RCV_EVID') or os.path.join(VERIF, 'evidence')
    rep = os.path.join(evd, 'replay')
    os.makedirs(rep, exist_ok=True)
    repf = os.path.join(rep, '%s.json' % prop)
    open_refuted = [o for o in refuted if not any(k.get('obligation') == o.id for k in listed)]
    failing = [f for f in (stand or {}).get('failures', []) if not any(k.get('input') == f.get('id') for k in listed)]
    for k in listed:
        print('KNOWN-FINDING: property=%s %s' % (prop, k['what']))
    if open_refuted or failing:
        rec = {'property': prop,
               'failed_obligations': [{'id': o.id, 'functions': o.fns, 'obligation': o.text, 'scope': o.scope, 'verifier_output': res[o.id].detail,
                                       'counterexample': res[o.id].cex} for o in open_refuted],
               'failing_inputs': failing,
               'replay': 'cd /verif && python3-vt rcv/check.py %s  (regenerates the obligations from /repo and, where an input is listed, runs it against the real code)' % prop}
        json.dump(rec, open(repf, 'w'), indent=1, default=str)
        for o in open_refuted[:5]:
            print('failed obligation %s: %s' % (o.id, res[o.id].detail[:300]))
        for f in failing[:5]:
            print('failing input: %s' % json.dumps(f)[:400])
        viol.append('VIOLATION property=%s replay=%s%s' % (prop, repf, '' if failing else ' no-failing-input-found'))
    elif os.path.exists(repf):
        os.remove(repf)

    unb = [o for o in obs if o.scope == 'unbounded']
    fns = {}
    for o in obs:
        for f in o.fns:
            fns.setdefault(f, []).append(o.id)
    cov = {
        'obligations': len(obs), 'discharged': len(proved),
        'checker_cmd': 'cd /verif && python3-vt rcv/check.py %s --tier %s' % (prop, tier),
        'trusted_base': TRUSTED,
        'explanation': 'Deductive obligations over the real source, parsed on this run. "unbounded" ones hold for all inputs and sizes; '
                       'the others hold for all field/group values and challenges at the stated size (loops unrolled at that size) and are labelled bounded, not counted as proved for all sizes.',
        'unbounded': {'obligations': len(unb), 'discharged': sum(res[o.id].status == 'proved' for o in unb)},
        'bounded': {'obligations': len(obs) - len(unb), 'discharged': sum(res[o.id].status == 'proved' and o.scope != 'unbounded' for o in obs)},
        'refuted': [o.id for o in refuted],
        'undecided': [{'id': o.id, 'why': res[o.id].detail[:300]} for o in unknown],
        'functions_under_contract': sorted(fns),
        'crate_functions_executed': used,
        'polynomial_identities': sum(getattr(res[o.id], 'ident', 0) or 0 for o in obs),
        'of_which_by_randomised_identity_test': sum(getattr(res[o.id], 'pit', 0) or 0 for o in obs),
        'smt_queries': sum(res[o.id].queries or 0 for o in obs),
        'verifier_cpu_s': round(sum(res[o.id].secs for o in obs), 1),
        'samples': [{'id': o.id, 'text': o.text, 'scope': o.scope, 'status': res[o.id].status, 's': round(res[o.id].secs, 2)} for o in obs[:3] + unb[:3]],
    }
    if stand is not None:
        cov['bounded_stand_in'] = {k: stand[k] for k in ('ran', 'cases', 'note', 'secs') if k in stand}
    if problem:
        cov['problem'] = problem
    ev['coverage'] = cov
    ev['assumptions'] = sorted(set(meta.ASSUME.get(prop, [])) | {a for o in obs for a in res[o.id].assumptions})
    ev['wall_s'] = round(time.time() - t0, 2)
    ev['violations'] = len(viol)
    os.makedirs(evd, exist_ok=True)
    json.dump(ev, open(os.path.join(evd, prop + '.json'), 'w'), indent=1, default=str)
    for o in unknown:
        print('undecided (bounded stand-in %s) %s: %s' % ('ran' if stand else 'not needed', o.id, res[o.id].detail[:160].replace('\n', ' ')))
    print('%s: %d obligations, %d discharged, %d refuted, %d undecided; %.1f s' % (prop, len(obs), len(proved), len(refuted), len(unknown), time.time() - t0))
    if problem:
        print('problem: ' + problem[-400:])
    for v in viol:
        print(v)
    if viol:
        return 1
    if problem and not (stand and stand.get('ran')):
        return 2
    return 0


if __name__ == '__main__':
    sys.stdout.flush()
    sys.exit(main())
