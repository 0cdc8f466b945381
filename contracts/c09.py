from circ import *
import gad

RND = __import__('random').Random(9)


def V(i):
    return Poly.atom(fatom('V', i))


def stmt(h, verify, *a, ncom=None):
    """statement built by a verify_* entry point over ncom commitments"""
    st = Stmt(h, lambda vf, vs: h.call(verify, *a, Seq.of([fsym('Vc', i) for i in range(ncom)]), vf), 0, verify)
    st.ncom = ncom
    return st


def honest_entry(prove, args, g, what):
    """honest prover through the entry point: all constraints hold"""
    h = H()

    def go():
        pv = h.prover(h.transcript('t'))
        ok(h.call(prove, *args(h), pv), prove)
        return pv
    outs = val1(h.ex.explore(go), what)
    if not outs:
        raise Undecided('no path')
    for o in outs:
        h.ex.st = o.st
        val = h.prover_val(o.v)
        for i, c in enumerate(h.constraints(o.v)):
            if not h.zero(h.lc_eval(c, val)):
                raise Refuted('%s: constraint %d of the honest prover does not hold: %s' % (what, i, poly_str(h.lc_eval(c, val))[:200]), g)


def match_up_to_unit(h, res, want):
    """the same set of equations, each up to a non-zero constant"""
    left = list(want)
    for e in res:
        f = next((w for w in left if same_up_to_unit(h, e, w)), None)
        if f is None:
            if any(same_up_to_unit(h, e, w) for w in want):
                continue
            return False
        left.remove(f)
    return not left


def non_zero():
    h = H()
    st = stmt(h, 'verify_non_zero_val', ncom=2)
    g = {'gadget': 'nonzero'}
    must_reject(st, [0, None], 'non-zero gadget for 0', g)
    for x in (1, 2, MODP - 1, 12345):
        must_accept(st, [x, None], 'non-zero gadget for %d' % x, dict(g, kind='honest', v=str(x)))
    res, _ = eliminate(st.eqs(), lambda a: a[1] == 'V')
    if not match_up_to_unit(h, res, [V(0) * V(1) - ONE]):
        raise Undecided('residual %s' % [poly_str(e) for e in res])


def non_zero_honest():
    def args(h):
        x = fsym('x')
        h.ex.poly_nonzero.add(x)
        return [x, Some(fsym('r')), NONE]
    honest_entry('prove_non_zero_val', args, {'gadget': 'nonzero', 'kind': 'honest', 'v': '7'}, 'non-zero')
    for x in (1, MODP - 1, 5):
        honest_entry('prove_non_zero_val', lambda h: [fc(x), Some(fsym('r')), NONE], {'gadget': 'nonzero', 'kind': 'honest', 'v': str(x)}, 'non-zero for %d' % x)


def special(n, k):
    """sets with zero, one, minus one, repeated, consecutive and large elements"""
    base = [[RND.randrange(MODP) if i % 3 else i + 2 for i in range(n)],
            [(0, 1, MODP - 1, 0, 2, 1)[i % 6] for i in range(n)],
            [n - i for i in range(n)]]
    return base[k % 3]


def steered(verify, n, ncom):
    """concrete sets that steer the verifier's code down each of its paths (none when it has only one)"""
    h = H()
    S = Seq.of([fsym('s', i) for i in range(n)])

    def go():
        vf = h.verifier(h.transcript('t'))
        return h.call(verify, S, Seq.of([fsym('Vc', i) for i in range(ncom)]), vf)
    return [[m(fatom('s', i)) for i in range(n)] for m in path_models(h, go)]


def member_of(s, sym=False):
    n = len(s)
    S = Seq.of([x if sym else fc(x) for x in s])
    h = H()
    st = stmt(h, 'verify_set_membership', S, ncom=n + 1)
    res, _ = eliminate(st.eqs(), lambda a: a == fatom('V', 0) or a[1] == 's')
    prod = ONE
    for x in s:
        prod = prod * ((x if sym else fc(x)) - V(0))
    res = [e for e in res if not e.is_zero()]
    if match_up_to_unit(h, res, [prod]):
        return
    if not sym:
        g = {'gadget': 'member', 'set': [str(x) for x in s]}
        for x in [0, 1, MODP - 1, 77, s[0] + 1 if s else 5, MODP - s[0] if s else 6] + ([s[0] * s[1] % MODP, (s[0] + s[1]) % MODP, (s[0] - s[1]) % MODP] if n > 1 else []):
            if x % MODP not in s:
                must_reject(st, [x] + [None] * n, 'set membership of %d in %s' % (x, s), g)
        for i, x in enumerate(s):
            must_accept(st, [x] + [None] * n, 'set membership of element %d' % i, dict(g, kind='honest', v=str(x)))
    raise Undecided('residual %s' % [poly_str(e)[:200] for e in res])


def member(n, sym, k=0):
    def run():
        if not sym:
            return member_of(special(n, k))
        try:
            member_of([fsym('s', i) for i in range(n)], True)
        except Undecided:
            for s in steered('verify_set_membership', n, n + 1):
                member_of(s)
            raise
    return run


def member_honest(n, sym):
    def run():
        s = [fsym('s', i) for i in range(n)] if sym else [fc(10 + 3 * i) for i in range(n)]
        for k in (range(n) if n < 12 else (0, 1, n // 2, n - 2, n - 1)):
            honest_entry('prove_set_membership', lambda h: [s[k], Some(fsym('r')), Seq.of(s), NONE],
                         {'gadget': 'member', 'kind': 'honest', 'set': [str(10 + 3 * i) for i in range(n)], 'v': str(10 + 3 * k)}, 'element %d of a set of %d' % (k, n))
    return run


def alt_stmt(n, s, h=None):
    h = h or H()
    return h, stmt(h, 'verify_set_membership_alt', Seq.of([Lin(x) for x in s]), ncom=n + 1)


def alt(n, s):
    def run():
        h, st = alt_stmt(n, s)
        g = {'gadget': 'member_alt', 'set': [str(x) for x in s]}
        res, _ = eliminate(st.eqs(), lambda a: a[1] == 'V')
        vi = n          # the value is the last commitment
        why = None
        bits = {is_bit_eq(e) for e in res}
        lin = [e for e in res if linear(e) is not None]
        others = {a for e in res for a in alg.pvars(e)} - {fatom('V', i) for i in range(n + 1)}
        if others:
            why = 'left-over variables'
        elif not all(fatom('V', i) in bits for i in range(n)):
            why = 'a committed bit is not constrained to 0/1'
        elif not in_span(lin, sum((V(i) for i in range(n)), ZERO) - ONE):
            why = 'bits not constrained to sum 1'
        else:
            for k in range(n):
                sub = {fatom('V', i): (ONE if i == k else ZERO) for i in range(n)}
                rest = [e for e in (subst(e, sub) for e in res) if not e.is_zero()]
                if any(e.is_const() for e in rest):
                    why = 'element %d is not accepted' % k
                    break
                # common roots of the remaining polynomials in the value
                rts = None
                for e in rest:
                    r = set(alg.roots(alg.univ(e, fatom('V', vi))))
                    rts = r if rts is None else rts & r
                if rts != {s[k] % MODP}:
                    why = 'with bit %d set the value may be %s' % (k, rts)
                    break
        if why is None:
            return
        for x in [0, 1, 2, 9999, MODP - 1] + ([s[0] + s[1], s[0] + 1, abs(s[0] - s[1])] if n > 1 else []) + ([sum(s)] if s else []):
            if x % MODP not in s:
                must_reject(st, [None] * n + [x], 'set membership (alt) of %d in %s' % (x, s), g)
        for x in s:
            must_accept(st, [None] * n + [x], 'set membership (alt) of %d in %s' % (x, s), dict(g, kind='honest', v=str(x)))
        raise Undecided(why)
    return run


def alt_honest(s):
    def run():
        for x in (s if len(s) < 20 else s[:2] + s[-2:] + s[len(s) // 2:len(s) // 2 + 1]):
            honest_entry('prove_set_membership_alt', lambda h: [Lin(x), Some(fsym('r')), Seq.of([Lin(y) for y in s]), NONE],
                         {'gadget': 'member_alt', 'kind': 'honest', 'set': [str(y) for y in s], 'v': str(x)}, 'alt %d in %s' % (x, s))
    return run


def nonmember_of(s, sym=False):
    n = len(s)
    S = Seq.of([x if sym else fc(x) for x in s])
    h = H()
    st = stmt(h, 'verify_set_non_membership', S, ncom=2 * n + 1)
    g = {'gadget': 'nonmember', 'set': [] if sym else [str(x) for x in s]}
    inv = [fatom('V', 2 * i + 2) for i in range(n)]
    res, _ = eliminate(st.eqs(), lambda a: a == fatom('V', 0) or a in inv or a[1] == 's')
    want = [((x if sym else fc(x)) - V(0)) * Poly.atom(inv[i]) - ONE for i, x in enumerate(s)]
    if match_up_to_unit(h, res, want):
        return
    if not sym:
        for i, x in enumerate(s):
            must_reject(st, [x] + [None] * (2 * n), 'non-membership of element %d' % i, g)
        for x in (0, 1, 777, MODP - 1):
            if x not in s:
                must_accept(st, [x] + [None] * (2 * n), 'non-membership of %d' % x, dict(g, kind='honest', v=str(x)))
    raise Undecided('residual %s' % [poly_str(e)[:200] for e in res])


def nonmember(n, sym, k=0):
    def run():
        if not sym:
            return nonmember_of(special(n, k))
        try:
            nonmember_of([fsym('s', i) for i in range(n)], True)
        except Undecided:
            for s in steered('verify_set_non_membership', n, 2 * n + 1):
                nonmember_of(s)
            raise
    return run


def nonmember_honest(n):
    def run():
        def args(h):
            s = [fsym('s', i) for i in range(n)]
            v = fsym('v')
            for x in s:
                h.ex.poly_nonzero.add(x - v)
                h.ex.poly_nonzero.add(v - x)
            return [v, Some(fsym('r')), Seq.of(s), NONE]
        honest_entry('prove_set_non_membership', args, {'gadget': 'nonmember', 'kind': 'honest', 'set': [str(5 + i) for i in range(n)], 'v': '3'}, 'non-membership, set of %d' % n)
    return run


def obligations(tier):
    big = tier == 'thorough'
    yield Ob('C09.nonzero', ['verify_non_zero_val', 'is_nonzero_gadget'], 'the constraints are exactly value * inverse = 1', non_zero)
    yield Ob('C09.nonzero.honest', ['prove_non_zero_val', 'is_nonzero_gadget'], 'honest witness for every non-zero value', non_zero_honest)
    for n in range(0, 6):
        yield Ob('C09.member.n=%d' % n, ['verify_set_membership', 'set_membership_gadget'], 'the constraints are exactly prod(s_i - v) = 0, for every set and value',
                 member(n, True), scope='sets of %d' % n)
    def lits(hi, *files):
        return [x for l in literals(6, hi, files + ('gadgets/mod.rs', 'helper_constraints/mod.rs'), 3) for x in (l, l + 1)]
    for n in list(range(0, 11)) + [16, 24, 48] + ([64, 100] if big else []) + lits(80, 'set_membership.rs'):
        for k in range(3 if n < 12 else 2):
            yield Ob('C09.member.numeric.n=%d.%d' % (n, k), ['verify_set_membership', 'set_membership_gadget'], 'the constraints are exactly prod(s_i - v) = 0',
                     member(n, False, k), scope='one set of %d elements, every value' % n, timeout=100)
    for n in list(range(1, 9)) + [16, 48] + lits(80, 'set_membership.rs'):
        yield Ob('C09.member.honest.n=%d' % n, ['prove_set_membership', 'set_membership_gadget'], 'honest witness for every element of every set',
                 member_honest(n, n <= 5), scope='sets of %d' % n)
    for n in range(0, 6):
        yield Ob('C09.nonmember.n=%d' % n, ['verify_set_non_membership', 'set_non_membership_gadget', 'is_nonzero_gadget'],
                 'the constraints are exactly (s_i - v) * inv_i = 1 for every i', nonmember(n, True), scope='sets of %d' % n)
        yield Ob('C09.nonmember.honest.n=%d' % n, ['prove_set_non_membership'], 'honest witness for every value outside every set', nonmember_honest(n), scope='sets of %d' % n)
    for n in [1, 2, 3, 4, 7, 8, 16, 17, 33, 48] + lits(130, 'set_non_membership.rs', 'non_zero.rs'):
        for k in range(3):
            yield Ob('C09.nonmember.numeric.n=%d.%d' % (n, k), ['verify_set_non_membership', 'set_non_membership_gadget'],
                     'the constraints are exactly (s_i - v) * inv_i = 1 for every i', nonmember(n, False, k), scope='one set of %d' % n)
    sets = [[5], [0], [0, 1], [3, 4, 5], [7, 0, 2 ** 64 - 1], [2, 4, 6, 8, 10], [1, 2, 4, 8, 16, 32, 64, 128], list(range(100, 117)), [0, 5, 10, 15], list(range(1, 40, 3)), [6, 6, 1], [9, 2, 9, 2]] + [[2 ** 40 + 5 * i for i in range(n)] for n in [48] + lits(90, 'set_membership_alt.rs', 'vector_sum.rs', 'bit.rs')]
    for s in sets:
        yield Ob('C09.alt.%d-%d' % (len(s), s[0]), ['verify_set_membership_alt', 'vector_product_gadget', 'bit_gadget', 'vector_sum_constraints'],
                 'bits are 0/1, sum to 1, and the value is the selected element: exactly the members are accepted', alt(len(s), s), scope='set %s, every value' % s)
        if len(set(s)) == len(s):           # a set: the elements are distinct
            yield Ob('C09.alt.honest.%d-%d' % (len(s), s[0]), ['prove_set_membership_alt'], 'honest witness for every element', alt_honest(s), scope='set %s' % s)
