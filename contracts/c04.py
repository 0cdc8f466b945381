from common import *


def vec(name, n):
    return Seq.of([fsym(name, i) for i in range(n)])


def s_vec(us, N):
    lg = log2(N)
    s = []
    for i in range(N):
        t = ONE
        for j in range(lg):
            t = t * (us[j] if (i >> (lg - 1 - j)) & 1 else us[j].inverse(True))
        s.append(t)
    return s


def complete(N):
    def run():
        h = H()
        Q = fsym('Q')
        Gf, Hf, G, Hh, a, b = vec('Gf', N), vec('Hf', N), vec('G', N), vec('H', N), vec('a', N), vec('b', N)
        Pt = ZERO
        for i in range(N):
            Pt = Pt + fsym('a', i) * fsym('Gf', i) * fsym('G', i) + fsym('b', i) * fsym('Hf', i) * fsym('H', i) \
                + fsym('a', i) * fsym('b', i) * Q

        def go():
            T = h.transcript('t')
            pf = h.static('IPP', 'create_ipp', T, Q, Gf, Hf, G, Hh, a, b)
            pf = h.ex.deref(pf)
            T2 = h.transcript('t')
            r = h.static('IPP', 'verify_ipp', Lin(N), T2, Gf, Hf, Pt, Q, G, Hh, pf.f['a'], pf.f['b'], pf.f['L'], pf.f['R'])
            return r, pf, h.tr(T), h.tr(T2)
        outs = val1(h.ex.explore(go), 'create_ipp/verify_ipp')
        for o in outs:
            r, pf, t1, t2 = o.v
            if r.var != 'Ok':
                raise Refuted('an honest inner-product proof of length %d is rejected: %r' % (N, r))
            for k in 'LR':
                if h.ex.seq_len(pf.f[k]) != Lin(log2(N)):
                    raise Refuted('%s has %s points for length %d' % (k, h.ex.seq_len(pf.f[k]), N))
            if len(t1.items()) != len(t2.items()):
                raise Refuted('prover and verifier transcripts differ in length')
    return run


def scalars(N):
    def run():
        h = H()
        lg = log2(N)
        Lv, Rv = vec('L', lg), vec('R', lg)

        def go():
            T = h.transcript('t')
            r = h.static('IPP', 'verification_scalars', Lv, Rv, Lin(N), T)
            return r, challenges(h, T)
        for o in val1(h.ex.explore(go), 'verification_scalars'):
            h.ex.st = o.st
            r, us = o.v
            r = ok(r, 'verification_scalars')
            sq, isq, s = [h.ex.deref(x) for x in r.xs]
            want = s_vec(us, N)
            for nm, got, w in (('u^2', sq, [u * u for u in us]), ('u^-2', isq, [(u * u).inverse(True) for u in us]), ('s', s, want)):
                gi = got.items()
                if len(gi) != len(w):
                    raise Refuted('%s has length %d, expected %d' % (nm, len(gi), len(w)))
                for i, (x, y) in enumerate(zip(gi, w)):
                    if not h.zero(h.ex.P(x) - y):
                        raise Refuted('%s[%d] = %s, expected %s (length %d)' % (nm, i, poly_str(h.ex.P(x))[:200], poly_str(y)[:200], N))
    return run


def exact(N):
    def run():
        h = H()
        lg = log2(N)
        Q, Pt = fsym('Q'), fsym('P')
        Gf, Hf, G, Hh = vec('Gf', N), vec('Hf', N), vec('G', N), vec('H', N)
        Lv, Rv = vec('L', lg), vec('R', lg)
        a, b = fsym('pa'), fsym('pb')

        def go():
            T = h.transcript('t')
            r = h.static('IPP', 'verify_ipp', Lin(N), T, Gf, Hf, Pt, Q, G, Hh, a, b, Lv, Rv)
            return r, challenges(h, T)
        outs = val1(h.ex.explore(go), 'verify_ipp')
        acc, rej = accepted(outs)
        if not acc:
            raise Refuted('verify_ipp never accepts')
        for o in acc:
            us = o.v[1]
            s = s_vec(us, N)
            want = a * b * Q - Pt
            for i in range(N):
                want = want + a * s[i] * fsym('Gf', i) * fsym('G', i) + b * s[N - 1 - i] * fsym('Hf', i) * fsym('H', i)
            for j in range(lg):
                want = want - us[j] * us[j] * fsym('L', j) - (us[j] * us[j]).inverse(True) * fsym('R', j)
            eqs, other = feqs(o.st)
            if not any(same_up_to_unit(h, h.ex.unfold(e), want) for e in eqs):
                raise Refuted('verify_ipp accepts without the equation P = <a s,G\'> + <b/s,H\'> + ab Q - <u^2,L> - <u^-2,R>; checked: %s'
                              % [poly_str(e)[:300] for e in eqs])
            if len(eqs) != 1 or other:
                raise Undecided('further conditions')
        for o in rej:
            if not any(isinstance(x, tuple) and x[0] == 'not' and x[1][0] == 'feq' for x in o.st.pc):
                raise Refuted('rejected without the equation failing: %r' % (o.v[0],))
    return run


def obligations(tier):
    for N in [1, 2, 4, 8, 16, 32, 64, 128] + ([256] if tier == 'thorough' else []):
        yield Ob('C04.complete.n=%d' % N, ['IPP::create_ipp', 'IPP::verify_ipp'], 'honest proof accepted for all vectors, factors, '
                 'challenges', complete(N), scope='length %d; all values' % N, timeout=150)
    for N in [1, 2, 4, 8, 16, 32, 64, 128, 256] + ([512, 1024] if tier == 'thorough' else []):
        yield Ob('C04.scalars.n=%d' % N, ['IPP::verification_scalars'], 'u^2, u^-2, s as specified', scalars(N),
                 scope='length %d; all values' % N, timeout=150)
        if N <= 512:
            yield Ob('C04.exact.n=%d' % N, ['IPP::verify_ipp'], 'accepts iff the recomputed point equals P', exact(N),
                     scope='length %d; all values' % N, timeout=150)
