from circ import *
from c09 import match_up_to_unit, stmt, honest_entry, V
import itertools


def exact(n):
    def run():
        w = [fsym('w', i) for i in range(n)]
        cnt = isym('cnt')
        h = H()
        st = stmt(h, 'verify_hamming_distance', Seq.of(w), cnt, ncom=n)
        res, _ = eliminate(st.eqs(), lambda a: a[0] != 'f' or a[1] in ('V', 'w'))
        aux = sorted({a for e in res for a in alg.pvars(e) if a[0] == 'f' and a[1] not in ('V', 'w')}, key=lambda a: (int(str(a[2])) if len(a) > 2 and str(a[2]).isdigit() else 0, key(a)))
        if len(aux) == n:
            want = []
            tot = -P(cnt)
            for i in range(n):
                d, t = V(i) - w[i], Poly.atom(aux[i])
                want.append(d * (ONE - d * t))
                tot = tot + d * t
            want.append(tot)
            # an auxiliary unknown may also be attached to the sum by elimination
            if match_up_to_unit(h, res, [x for x in want if not x.is_zero()]):
                return
            if n == 1 and match_up_to_unit(h, res, [tot, (V(0) - w[0]) * (ONE - P(cnt))]):
                return      # d = 0 -> term 0; d != 0 -> term 1; the sum of the terms is the count
        numeric(n)
        raise Undecided('residual %s' % [poly_str(e)[:200] for e in res])
    return run


def numeric(n, maxc=None):
    w = [CONSTS[i] for i in range(n)]
    for cnt in range(0, n + 2):
        h = H()
        st = stmt(h, 'verify_hamming_distance', fl(w), Lin(cnt), ncom=n)
        for pat in itertools.product((0, 1), repeat=n):
            for delta in (1, MODP - 1, CONSTS[50]):
                vals = [(x + delta * p) % MODP for x, p in zip(w, pat)]
                g = {'gadget': 'hamming', 'orig': [str(x) for x in vals], 'new': [str(x) for x in w], 'count': cnt}
                if sum(pat) == cnt:
                    must_accept(st, vals, 'hamming distance %d, stated %d' % (sum(pat), cnt), dict(g, kind='honest'))
                else:
                    must_reject(st, vals, 'hamming distance %d, stated %d' % (sum(pat), cnt), g)


def honest(n):
    def run():
        for pat in itertools.product((0, 1), repeat=n):
            w = [fsym('w', i) for i in range(n)]
            o = [fsym('o', i) if p else w[i] for i, p in enumerate(pat)]

            def args(h):
                for a, b in zip(o, w):
                    if a != b:
                        h.ex.poly_nonzero.add(a - b)
                        h.ex.poly_nonzero.add(b - a)
                return [Seq.of(o), Seq.of(w), Lin(sum(pat))]
            honest_entry('prove_hamming_distance', args,
                         {'gadget': 'hamming', 'kind': 'honest', 'orig': [str(10 * i + 3 * p) for i, p in enumerate(pat)], 'new': [str(10 * i) for i in range(n)], 'count': sum(pat)},
                         'hamming %s' % (pat,))
    return run


def big(n):
    def run():
        w = [CONSTS[i] for i in range(n)]
        h = H()
        for k in sorted({0, 1, n // 2, n - 1, n}):
            st = stmt(h, 'verify_hamming_distance', fl(w), Lin(k), ncom=n)
            for kk in sorted({k, k + 1, k - 1}):
                if 0 <= kk <= n:
                    vals = [(x + (1 + i) * (1 if (i * 7) % n < kk else 0)) % MODP for i, x in enumerate(w)]
                    d = sum(1 for a, b in zip(vals, w) if a != b)
                    g = {'gadget': 'hamming', 'orig': [str(x) for x in vals], 'new': [str(x) for x in w], 'count': k}
                    if d == k:
                        must_accept(st, vals, 'hamming distance %d of %d, stated %d' % (d, n, k), dict(g, kind='honest'))
                    else:
                        must_reject(st, vals, 'hamming distance %d of %d, stated %d' % (d, n, k), g)
    return run


def at(orig, new, cnt):
    """one statement: accepted exactly when the distance is cnt; honest prover when it is"""
    n = len(new)
    d = sum(1 for a, b in zip(orig, new) if (a - b) % MODP)
    g = {'gadget': 'hamming', 'orig': [str(x % MODP) for x in orig], 'new': [str(x % MODP) for x in new], 'count': cnt}
    h = H()
    st = stmt(h, 'verify_hamming_distance', fl(new), Lin(cnt), ncom=n)
    if d != cnt:
        must_reject(st, [x % MODP for x in orig], 'hamming distance %d of %d, stated %d' % (d, n, cnt), g)
    else:
        must_accept(st, [x % MODP for x in orig], 'hamming distance %d of %d, stated %d' % (d, n, cnt), dict(g, kind='honest'))
        honest_entry('prove_hamming_distance', lambda h: [fl(orig), fl(new), Lin(cnt)], dict(g, kind='honest'), 'hamming')


def steer(n):
    """vectors and counts on which the code takes a path of its own"""
    def run():
        w, o, cnt = [fsym('w', i) for i in range(n)], [fsym('o', i) for i in range(n)], isym('cnt')
        seen = set()

        def models(fn):
            h = H()
            h.ex.st.assume(b_ge0(cnt))
            h.ex.st.assume(b_le(cnt, Lin(2 ** 40)))
            for m in path_models(h, lambda: fn(h)):
                try:
                    c = m(next(iter(cnt.t))[0])
                except Exception:
                    c = n
                new, orig = [m(fatom('w', i)) % MODP for i in range(n)], [m(fatom('o', i)) % MODP for i in range(n)]
                d = sum(1 for a, b in zip(orig, new) if (a - b) % MODP)
                for cc in sorted({c, d, max(d - 1, 0), d + 1}):
                    for oo in (orig, new, [(x + 1) % MODP for x in new]):
                        if 0 <= cc < 2 ** 40 and (tuple(oo), tuple(new), cc) not in seen and len(seen) < 60:
                            seen.add((tuple(oo), tuple(new), cc))
                            at(oo, new, cc)
        models(lambda h: h.call('verify_hamming_distance', Seq.of(w), cnt, Seq.of([fsym('Vc', i) for i in range(n)]), h.verifier(h.transcript('t'))))
        models(lambda h: h.call('prove_hamming_distance', Seq.of(o), Seq.of(w), cnt, h.prover(h.transcript('t'))))
    return run


def special(n):
    def run():
        new = [(0, 1, MODP - 1, 5, 5, 0)[i % 6] for i in range(n)]
        for k in sorted({0, 1, n // 2, n}):
            at([(x + (1 if i < k else 0)) % MODP for i, x in enumerate(new)], new, k)
            at([(x + (MODP - x if i < k and x else 1 if i < k else 0)) % MODP for i, x in enumerate(new)], new, k)
            at([(x + (1 if i < k else 0)) % MODP for i, x in enumerate(new)], new, k + 1)
    return run


def lengths():
    for a, b in itertools.product(range(4), repeat=2):
        if a == b:
            continue
        h = H()
        outs = val1(h.ex.explore(lambda: h.call('prove_hamming_distance', fl(range(a)), fl(range(b)), Lin(1), h.prover(h.transcript('t')))), 'lengths %d, %d' % (a, b))
        for o in outs:
            if not is_err(o.v):
                raise Refuted('prover accepts vectors of lengths %d and %d' % (a, b), {'gadget': 'hamming', 'kind': 'lengths', 'a': a, 'b': b})
        h = H()
        outs = val1(h.ex.explore(lambda: h.call('verify_hamming_distance', fl(range(b)), Lin(1), Seq.of([fsym('c', i) for i in range(a)]),
                                                 h.verifier(h.transcript('t')))), 'lengths %d, %d' % (a, b))
        for o in outs:
            if not is_err(o.v):
                raise Refuted('verifier accepts vectors of lengths %d and %d' % (a, b), {'gadget': 'hamming', 'kind': 'lengths', 'a': a, 'b': b})


def obligations(tier):
    fns = ['verify_hamming_distance', 'hamming_distance_gadget', 'vector_sum_constraints']
    for n in range(0, 9 if tier == 'quick' else 16):
        yield Ob('C10.exact.n=%d' % n, fns, 'constraints are exactly d_i(1 - d_i t_i) = 0 and sum d_i t_i = count, for every vector and count', exact(n), scope='vectors of length %d' % n)
    for n in range(0, 6):
        yield Ob('C10.honest.n=%d' % n, ['prove_hamming_distance', 'hamming_distance_gadget'], 'honest witness for every pattern of differing positions, all values',
                 honest(n), scope='vectors of length %d' % n)
    for n in (1, 2, 3):
        yield Ob('C10.numeric.n=%d' % n, fns, 'every pattern and every count, decided by elimination', lambda n=n: numeric(n), scope='length %d, listed differences' % n)
    lits = [x for l in literals(9, 300, ('hamming_distance.rs', 'vector_sum.rs', 'non_zero.rs'), 3) for x in (l - 1, l, l + 1)]
    for n in (1, 2, 3):
        yield Ob('C10.steer.n=%d' % n, fns + ['prove_hamming_distance'], 'vectors and counts for which the code branches', steer(n), scope='length %d; one input per path' % n)
    for n in (1, 4, 6, 12):
        yield Ob('C10.special.n=%d' % n, fns + ['prove_hamming_distance'], 'vectors with zeros, repeats and extreme values', special(n), scope='length %d, listed vectors' % n)
    for n in dict.fromkeys([17, 32, 40, 64] + lits):
        yield Ob('C10.big.n=%d' % n, fns, 'longer vectors', big(n), scope='length %d, sampled vectors' % n)
    yield Ob('C10.lengths', ['prove_hamming_distance', 'verify_hamming_distance', 'hamming_distance_gadget'], 'different lengths are an error', lengths, scope='lengths up to 3')
