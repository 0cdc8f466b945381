from common import *

SHAPES = [(0, 0, 1, 0, 0), (1, 0, 1, 1, 0), (2, 0, 3, 1, 0), (3, 0, 1, 1, 0), (4, 0, 0, 1, 0), (0, 1, 1, 1, 1), (2, 2, 2, 1, 1),
          (3, 2, 1, 1, 1), (5, 0, 2, 1, 1), (8, 0, 1, 1, 0), (9, 0, 1, 1, 0)]


def enc_value(pay):
    """payload -> the encoded value (field/group element polynomial, number) or text"""
    if len(pay.parts) == 1:
        p = pay.parts[0]
        if isinstance(p, str):
            return ('text', p)
        if p[1] in ('fe', 'pt'):
            return ('elem', p[2])
        if p[1] in ('le64', 'be64', 'le32', 'n'):
            return ('num', L(p[2]))
    return ('other', pay)


def expected(c, coms, proof, N):
    f = proof.f
    ip = f['ipp_proof'].f
    ev = [('text', None)]
    ev += [('elem', x) for x in coms]
    ev += [('num', Lin(len(coms)))]
    ev += [('elem', f[k]) for k in ('A_I1', 'A_O1', 'S1')]
    ev += [('text', None)]
    if c.two:
        ev += [('chal', 'callback')]
    ev += [('elem', f[k]) for k in ('A_I2', 'A_O2', 'S2')]
    ev += [('chal', 'y'), ('chal', 'z')]
    ev += [('elem', f['T_%d' % k]) for k in (1, 3, 4, 5, 6)]
    ev += [('chal', 'u'), ('chal', 'x')]
    ev += [('elem', f[k]) for k in ('t_x', 't_x_blinding', 'e_blinding')]
    ev += [('chal', 'w'), ('text', None), ('num', Lin(N))]
    for l, r in zip(ip['L'].items(), ip['R'].items()):
        ev += [('elem', l), ('elem', r), ('chal', 'round')]
    return ev


def check_events(h, who, got, want):
    for i, w in enumerate(want):
        if i >= len(got):
            raise Refuted('%s: transcript stops after %d events; the protocol prescribes %s next' % (who, i, show(w)))
        k, lab, pay = got[i]
        if w[0] == 'chal':
            if k != 'chal':
                raise Refuted('%s: event %d is message %r where challenge %s is prescribed' % (who, i, lab, w[1]))
            if L(pay.parts[0][2]) != Lin(48):
                raise Refuted('%s: challenge %s uses %s bytes instead of a full-width challenge' % (who, w[1], pay.parts[0][2]))
            continue
        if k == 'chal':
            raise Refuted('%s: event %d: challenge %r is drawn before %s is absorbed' % (who, i, lab, show(w)))
        kind, val = enc_value(pay)
        if kind == 'other':
            raise Undecided('%s: payload of event %d not understood: %r' % (who, i, pay))
        if w[0] != kind:
            raise Refuted('%s: event %d absorbs %s where %s is prescribed' % (who, i, show((kind, val)), show(w)))
        if kind == 'elem' and not h.zero(h.ex.P(val) - h.ex.P(w[1])):
            raise Refuted('%s: event %d (label %r) absorbs a value different from the proof element prescribed: %s' % (
                who, i, lab, show((kind, val))))
        if kind == 'num' and val != w[1]:
            raise Refuted('%s: event %d absorbs %s instead of %s' % (who, i, val, w[1]))
    if len(got) != len(want):
        raise Undecided('%s: %d further transcript events' % (who, len(got) - len(want)))


def show(w):
    return '%s %s' % (w[0], str(w[1])[:80])


def same(h, a, b):
    if len(a) != len(b):
        raise Refuted('prover has %d transcript events, verifier %d' % (len(a), len(b)))
    for i, (x, y) in enumerate(zip(a, b)):
        if x[0] != y[0] or x[1] != y[1]:
            raise Refuted('event %d: prover %s %r, verifier %s %r' % (i, x[0], x[1], y[0], y[1]))
        u, v = enc_value(x[2]), enc_value(y[2])
        if u[0] == 'elem' and v[0] == 'elem':
            if not h.zero(h.ex.P(u[1]) - h.ex.P(v[1])):
                raise Refuted('event %d (%r): prover and verifier absorb different values' % (i, x[1]))
        elif u != v:
            raise Refuted('event %d (%r): prover absorbs %r, verifier %r' % (i, x[1], x[2], y[2]))


def fs(shape):
    def run():
        n1, n2, m, q1, q2 = shape
        h = H()
        c = Circuit(n1, n2, m, q1, q2)
        N = pow2ceil(n1 + n2)
        G, Hh = gens('G', N), gens('H', N)
        box = {}

        def go():
            T, coms, proof = run_prover(h, c, G, Hh)
            pe = events(h, T)
            proof = ok(proof, 'prove')
            T2, r = run_verifier(h, c, coms, proof, G, Hh)
            return pe, events(h, T2), coms, proof
        outs = val1(h.ex.explore(go), 'prove/verify')
        for o in outs:
            pe, ve, coms, proof = o.v
            h.ex.st = o.st
            body = [e for e in pe if not (e[0] == 'msg' and e[1].parts == ('new',))]
            vbody = [e for e in ve if not (e[0] == 'msg' and e[1].parts == ('new',))]
            want = expected(c, coms, proof, N)
            check_events(h, 'prover', body, want)
            check_events(h, 'verifier', vbody, want)
            same(h, body, vbody)
    return run


def adversarial(shape):
    """the verifier absorbs every element of an arbitrary proof"""
    def run():
        n1, n2, m, q1, q2 = shape
        h = H()
        c = Circuit(n1, n2, m, q1, q2)
        N = pow2ceil(n1 + n2)
        proof = symbolic_proof(h, log2(N))
        coms = [fsym('Vc', i) for i in range(m)]

        def go():
            T2, r = run_verifier(h, c, coms, proof, gens('G', N), gens('H', N))
            return r, events(h, T2)
        outs = val1(h.ex.explore(go), 'verify')
        for o in outs:
            h.ex.st = o.st
            vbody = [e for e in o.v[1] if not (e[0] == 'msg' and e[1].parts == ('new',))]
            check_events(h, 'verifier', vbody, expected(c, coms, proof, N))
    return run


def obligations(tier):
    extra = [(11, 6, 2, 1, 1), (17, 0, 1, 1, 0)] if tier == 'thorough' else []
    extra += [(0, 0, 300, 0, 0)]
    for s in SHAPES + extra + core_sizes(SHAPES + extra, 40, 20):
        yield Ob('C03.order.n1=%d.n2=%d.m=%d.q=%d+%d' % s, ['Prover::prove', 'Verifier::verify', 'TranscriptProtocol'],
                 'prover and verifier transcripts are the prescribed event sequence, equal event by event', fs(s),
                 scope='circuit size %s; all values' % (s,))
        yield Ob('C03.absorb.n1=%d.n2=%d.m=%d.q=%d+%d' % s, ['Verifier::verify'],
                 'for an arbitrary proof the verifier absorbs each element before the next challenge', adversarial(s),
                 scope='circuit size %s; all values' % (s,))
