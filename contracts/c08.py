from circ import *


def bits_and_rows(st, keepV):
    """eliminate everything except the bit candidates and the kept committed values: returns (bit atoms, linear rows, other equations)"""
    # a bit candidate is what is left of a multiplier after its linear relations are used
    res, trail = eliminate(st.eqs(), lambda a: a[1] == 'AR' or a in keepV)
    bits, rows, other = set(), [], []
    for e in res:
        b = is_bit_eq(e)
        if b is not None:
            bits.add(b)
        elif linear(e) is not None:
            rows.append(e)
        else:
            other.append(e)
    return bits, rows, other, trail


def range_row(e, bits, v):
    """e == c*(A(v) - sum 2^i b_i) for i = 0..n-1 over distinct bits: returns (A as (coefficient, constant), n, set of bits)"""
    lin = linear(e)
    d, c0 = lin
    bs = {a: c for a, c in d.items() if a in bits}
    rest = {a: c for a, c in d.items() if a not in bits}
    if set(rest) - {v}:
        return None
    if not bs:
        return (rest.get(v, 0), c0), 0, frozenset()
    # normalise so that the smallest power is 1: try every bit as the unit
    n = len(bs)
    want = {pow(2, i, MODP) for i in range(n)}
    for c in bs.values():
        inv = pow(-c, -1, MODP)
        got = {(-x) * pow(-(-c) % MODP, -1, MODP) % MODP for x in bs.values()}
        got = {x * pow(c, -1, MODP) % MODP for x in bs.values()}
        if got == want:
            k = pow(-c, -1, MODP)
            return (rest.get(v, 0) * k % MODP, c0 * k % MODP), n, frozenset(bs)
    return None


def bit_gadget():
    h = H()
    st = Stmt(h, lambda vf, vs: h.call('bit_gadget', vf, alloc(vs[0])), 1, 'bit_gadget')
    V0 = fatom('V', 0)
    res, _ = eliminate(st.eqs(), lambda a: a == V0)
    g = {'gadget': 'bit'}
    for x in (2, 3, MODP - 1, MODP - 2, MODP // 2 + 1, 4, 1 << 64):
        must_reject(st, [x], 'bit gadget for %d' % x, g)
    for x in (0, 1):
        must_accept(st, [x], 'bit gadget for %d' % x, dict(g, v=str(x)))
    if not any(is_bit_eq(e) == V0 for e in res) or len(res) != 1:
        # more than one residual equation, or another one: accept only if it is satisfied by 0 and 1 and contains v^2 = v
        if not any(is_bit_eq(e) == V0 for e in res):
            raise Undecided('residual equations %s' % [poly_str(e) for e in res])
        for e in res:
            for x in (0, 1):
                if num_eval(h.ex, e, lambda a: x) != 0:
                    raise Undecided('residual equations')
    for x in (0, 1):
        h = H()
        complete(h, lambda pv, vs: h.call('bit_gadget', pv, alloc(vs[0], fc(x))), [fc(x)], 'bit gadget for %d' % x, dict(g, kind='honest', v=str(x)))


def positive(n):
    def run():
        h = H()
        st = Stmt(h, lambda vf, vs: h.call('positive_no_gadget', vf, alloc(vs[0]), Lin(n)), 1, 'positive_no_gadget')
        V0 = fatom('V', 0)
        g = {'gadget': 'positive', 'n': n}
        bits, rows, other, _ = bits_and_rows(st, {V0})
        good = not other and len(rows) >= 1
        if good:
            rr = [range_row(r, bits, V0) for r in rows]
            good = any(x and x[0] == (1, 0) and x[1] == n for x in rr) and all(in_span([rows[0]], r) for r in rows) if n else \
                all(linear(r)[1] == 0 and set(linear(r)[0]) == {V0} for r in rows)
        if good:
            free = {a for e in rows for a in alg.pvars(e)} - bits - {V0}
            good = not free
        if not good:
            hi = 1 << n
            for x in sorted({hi, hi + 1, hi + 2, 2 * hi - 1, 2 * hi, 3 * hi, MODP - 1, MODP - 2, MODP // 2, MODP // 3}):
                if hi <= x < MODP:
                    must_reject(st, [x], 'positive_no_gadget with %d bits for %d' % (n, x), g)
            raise Undecided('positive_no_gadget with %d bits: constraints are not in the recognised form' % n)
        samples = set(range(min(1 << n, 40))) | {(1 << n) - 1, 1 << max(n - 1, 0)} | {(1 << n) * 5 // 7, (1 << n) // 3}
        if n == 0:
            samples = {0}
        for x in sorted(s for s in samples if 0 <= s < (1 << n)):
            h = H()
            complete(h, lambda pv, vs: h.call('positive_no_gadget', pv, alloc(vs[0], fc(x)), Lin(n)), [fc(x)],
                     'positive_no_gadget with %d bits for %d' % (n, x), dict(g, kind='honest', v=str(x)))
    return run


def positive_complete(n):
    """honest witness for every value below 2^n at once: v = sum of its n bits"""
    def run():
        h = H()
        bs = [fsym('bit', i) for i in range(n)]
        # v symbolic integer 0 <= v < 2^n
        v = isym('v')
        h.ex.st.assume(b_ge0(v))
        h.ex.st.assume(b_lt(v, Lin(1 << n)))
        outs = val1(h.ex.explore(honest(h, lambda pv, vs: h.call('positive_no_gadget', pv, alloc(vs[0], P(v)), Lin(n)), [P(v)], 'positive')), 'positive')
        for o in outs:
            h.ex.st = o.st
            val = h.prover_val(o.v)
            for c in h.constraints(o.v):
                # binary expansion: a v with 0 <= v < 2^n is the sum of 2^i * (bit i of v), i < n
                exp = sum((iv(b_eq0(iapp('bits', v, Lin(i), Lin(1)) - 1)).scale(1 << i) for i in range(n)), ZERO)
                e = h.lc_eval(c, val)
                ats = [a for a in atoms_of(e) if a in atoms_of(P(v))]
                pv_ = next(iter(P(v).m))[0][0]
                if not h.zero(subst(e, {pv_: exp}) if pv_ in alg.pvars(e) else e):
                    raise Undecided('constraint %s' % poly_str(h.lc_eval(c, val))[:300])
    return run


def bound(mn, mx, n):
    def run():
        g = {'gadget': 'bound', 'min': str(mn), 'max': str(mx), 'n': n}
        h = H()
        st = Stmt(h, lambda vf, vs: h.call('bound_check_gadget', vf, alloc(vs[0]), alloc(vs[1]), alloc(vs[2]), Lin(mx), Lin(mn), Lin(n)), 3, 'bound_check')
        V0 = fatom('V', 0)
        bits, rows, other, _ = bits_and_rows(st, {V0})
        good = not other
        if good:
            rr = [(range_row(r, bits, V0), r) for r in rows]
            lo = [r for x, r in rr if x and x[0] == (1, -mn % MODP) and x[1] == n]
            hi = [r for x, r in rr if x and x[0] == (MODP - 1, mx) and x[1] == n]
            if not lo or not hi:
                # the second form may be implied: max - v - sum = combination
                good = False
            else:
                a = range_row(lo[0], bits, V0)[2]
                b = range_row(hi[0], bits, V0)[2]
                good = not (a & b) and all(in_span([lo[0], hi[0]], r) for r in rows)
        if not good and not other and len(bits) == 2 * n:
            bl = sorted(bits, key=key)
            for A, B in ((bl[:n], bl[n:]), (bl[n:], bl[:n])):
                e1 = Poly.atom(V0) - fc(mn) - sum((Poly.atom(a).scale(1 << i) for i, a in enumerate(A)), ZERO)
                e2 = fc(mx) - Poly.atom(V0) - sum((Poly.atom(a).scale(1 << i) for i, a in enumerate(B)), ZERO)
                if all(in_span([e1, e2], r) for r in rows) and in_span(rows, e1) and in_span(rows, e2):
                    good = True
                    break
        outside = sorted({mn - 1, mn - 2, mx + 1, mx + 2, mx + 3, mn + (1 << n), mx + (1 << n), mx - (1 << n), mn - (1 << n), -mn - 1, MODP // 2, MODP - 1})
        if not good:
            for x in outside:
                x %= MODP
                if not mn <= x <= mx:
                    must_reject(st, [x, None, None], 'bound check [%d, %d] with %d bits for %d' % (mn, mx, n, x), g)
            raise Undecided('bound check: constraints are not in the recognised form')
        # with these rows v - min and max - v are both in [0, 2^n); as 2^(n+1) < p that is min <= v <= max
        for x in sorted({mn, mx, (mn + mx) // 2, min(mn + 1, mx), max(mx - 1, mn)}):
            h = H()
            a, b = fc(x - mn), fc(mx - x)
            complete(h, lambda pv, vs: h.call('bound_check_gadget', pv, alloc(vs[0], fc(x)), alloc(vs[1], a), alloc(vs[2], b), Lin(mx), Lin(mn), Lin(n)),
                     [fc(x), a, b], 'bound check [%d, %d] with %d bits for %d' % (mn, mx, n, x), dict(g, kind='honest', v=str(x)))
    return run


def bound_entry(mn, mx, n, more=()):
    """the entry point prove_bounded_num commits val, val-lower, upper-val and satisfies the constraints"""
    def run():
        for x in sorted({mn, mx, (mn + mx) // 2} | {x for x in more if mn <= x <= mx}):
            h = H()

            def go():
                pv = h.prover(h.transcript('t'))
                r = ok(h.call('prove_bounded_num', Lin(x), Some(fsym('r')), Lin(mn), Lin(mx), Lin(n), NONE, pv), 'prove_bounded_num')
                return pv
            outs = val1(h.ex.explore(go), 'prove_bounded_num')
            for o in outs:
                h.ex.st = o.st
                vs = h.ex.deref(o.v).f['v'].items()
                if len(vs) < 1 or not h.zero(h.ex.P(vs[0]) - fc(x)):
                    raise Refuted('prove_bounded_num commits %s first instead of the value' % vs[:1], {'gadget': 'bound', 'kind': 'honest', 'v': str(x), 'min': str(mn), 'max': str(mx), 'n': n})
                val = h.prover_val(o.v)
                for c in h.constraints(o.v):
                    if not h.zero(h.lc_eval(c, val)):
                        raise Refuted('prove_bounded_num(%d in [%d, %d], %d bits): a constraint does not hold' % (x, mn, mx, n),
                                      {'gadget': 'bound', 'kind': 'honest', 'v': str(x), 'min': str(mn), 'max': str(mx), 'n': n})
    return run


def steer(n):
    """bounds and values on which the code takes a path of its own"""
    def run():
        mn, mx, v = isym('mn'), isym('mx'), isym('v')
        at = [next(iter(x.t))[0] for x in (mn, mx, v)]
        seen = set()

        def models(fn, withv):
            h = H()
            for c in (b_ge0(mn), b_le(mn, mx), b_lt(mx, Lin(2 ** 64)), b_lt(mx - mn, Lin(1 << n))) + ((b_le(mn, v), b_le(v, mx)) if withv else ()):
                h.ex.st.assume(c)
            for m in path_models(h, lambda: fn(h)):
                try:
                    b = [m(a) for a in at]
                except Exception:
                    continue
                if 0 <= b[0] <= b[1] < 2 ** 64 and b[1] - b[0] < 1 << n and tuple(b) not in seen:
                    seen.add(tuple(b))
                    bound(b[0], b[1], n)()
                    bound_entry(b[0], b[1], n, {b[2]} if withv else set())()
        models(lambda h: h.call('verify_bounded_num', mn, mx, Lin(n), Seq.of([fsym('Vc', i) for i in range(3)]), h.verifier(h.transcript('t'))), False)
        models(lambda h: h.call('prove_bounded_num', v, Some(fsym('r')), mn, mx, Lin(n), NONE, h.prover(h.transcript('t'))), True)
    return run


def obligations(tier):
    yield Ob('C08.bit', ['bit_gadget'], 'satisfiable exactly for 0 and 1', bit_gadget)
    ns = list(range(0, 13)) + [15, 16, 17, 24, 31, 32, 33, 47, 63, 64, 65, 100, 128, 200, 252] if tier == 'quick' else list(range(0, 254))
    lits = [x for l in literals(10, 252, ('bound_check.rs', 'positive_no.rs'), 4) for x in (l - 1, l, l + 1)]
    for n in dict.fromkeys(ns + lits):
        yield Ob('C08.positive.n=%d' % n, ['positive_no_gadget', 'ConstraintSystem::allocate_multiplier', 'ConstraintSystem::constrain'],
                 'satisfiable exactly for values in [0, 2^n): exact for every field value; honest witness for samples and, symbolically, for every value',
                 positive(n), scope='n=%d' % n)
    for n in [1, 2, 3, 4, 8, 16, 32, 64]:
        yield Ob('C08.positive.honest.n=%d' % n, ['positive_no_gadget'], 'the honest witness satisfies the constraints for every value below 2^n',
                 positive_complete(n), scope='n=%d' % n)
    U = 2 ** 64 - 1
    bs = [(0, 0, 1), (0, 1, 1), (3, 3, 2), (1, 4, 2), (5, 12, 3), (10, 100, 7), (0, 255, 8), (1, 256, 8), (100, 5000, 13), (0, 2 ** 31, 32), (7, 2 ** 32, 33),
          (0, U, 64), (U, U, 1), (2 ** 63, U, 63), (1, U, 64), (0, 9, 20), (12, 18, 64)]
    bs += [b for l in lits for b in ([(5, (1 << l) + 4, l), (3, 9, l)] if l < 64 else [(3, 9, l)])]
    for n in (3, 40, 64):
        yield Ob('C08.bound.steer.n=%d' % n, ['verify_bounded_num', 'prove_bounded_num', 'bound_check_gadget'], 'bounds and values for which the code branches', steer(n), scope='%d bits; one input per path' % n)
    for b in dict.fromkeys(bs):
        yield Ob('C08.bound.[%d,%d].n=%d' % b, ['bound_check_gadget', 'positive_no_gadget', 'constrain_lc_with_scalar'],
                 'satisfiable exactly for min <= v <= max: exact for every field value', bound(*b), scope='bounds and width as named')
        yield Ob('C08.bound.entry.[%d,%d].n=%d' % b, ['prove_bounded_num', 'bound_check_gadget'], 'the entry point commits the value and satisfies the constraints',
                 bound_entry(*b), scope='bounds and width as named; 3 values')
