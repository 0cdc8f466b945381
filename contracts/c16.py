from common import *


def vec(nm, n):
    return Seq.of([fsym(nm, i) for i in range(n)]) if isinstance(n, int) else Seq.fam(n, lambda i: fsym(nm, i))


def zeros(n):
    return Seq.of([ZERO] * n) if isinstance(n, int) else Seq.fam(n, lambda i: ZERO)


def ip(a, b):
    return sum((P(x) * P(y) for x, y in zip(a, b)), ZERO)


def items(h, v):
    return [h.ex.P(x) for x in h.ex.deref(v).items()]


def poly3(nm, n, zero=None):
    return St('VecPoly3', {str(k): (zeros(n) if k == zero else vec('%s%d' % (nm, k), n)) for k in range(4)})


def cex(n, what):
    return {'gadget': 'vecpoly', 'n': n, 'what': what}


def special(n):
    def run():
        h = H()
        l, r = poly3('l', n, 0), poly3('r', n, 2)
        x = fsym('x')

        def go():
            t = h.ex.deref(h.static('VecPoly3', 'special_inner_product', l, r))
            tc = [h.ex.P(t.f['t%d' % k]) for k in range(1, 7)]
            return tc, h.ex.P(h.meth(t, 'eval', x)), items(h, h.meth(l, 'eval', x)), items(h, h.meth(r, 'eval', x))
        for tc, tx, lx, rx in paths(h, go, 'VecPoly3'):
            L_ = [l.f[str(k)].items() for k in range(4)]
            R_ = [r.f[str(k)].items() for k in range(4)]
            for nm, got, src in (('left', lx, L_), ('right', rx, R_)):
                if len(got) != n:
                    raise Refuted('eval of a degree-3 polynomial of length %d has length %d' % (n, len(got)), cex(n, 'eval3'))
                for i in range(n):
                    if not zero_here(h, got[i] - sum((P(src[k][i]) * x.pow(Lin(k)) for k in range(4)), ZERO)):
                        raise Refuted('VecPoly3::eval entry %d of %d' % (i, n), cex(n, 'eval3'))
            for d in range(1, 7):
                want = sum((ip(L_[a], R_[d - a]) for a in range(4) if 0 <= d - a < 4), ZERO)
                if not zero_here(h, tc[d - 1] - want):
                    raise Refuted('special_inner_product: coefficient of degree %d is wrong for length %d' % (d, n), cex(n, 'special'))
            if not zero_here(h, tx - sum((tc[d - 1] * x.pow(Lin(d)) for d in range(1, 7)), ZERO)):
                raise Refuted('Poly6::eval', cex(n, 'poly6'))
            if not zero_here(h, tx - ip(lx, rx)):
                raise Refuted('special_inner_product does not commute with evaluation, length %d' % n, cex(n, 'special'))
    return run


def deg1(n):
    def run():
        h = H()
        mk = lambda nm: St('VecPoly1', {'0': vec(nm + '0', n), '1': vec(nm + '1', n)})
        l, r = mk('l'), mk('r')
        x = fsym('x')

        def go():
            t = h.ex.deref(h.meth(l, 'inner_product', r))
            return [h.ex.P(t.f[str(k)]) for k in range(3)], h.ex.P(h.meth(t, 'eval', x)), items(h, h.meth(l, 'eval', x)), items(h, h.meth(r, 'eval', x))
        for tc, tx, lx, rx in paths(h, go, 'VecPoly1'):
            for got, src in ((lx, l), (rx, r)):
                if len(got) != n or any(not zero_here(h, got[i] - P(src.f['0'].items()[i]) - P(src.f['1'].items()[i]) * x) for i in range(n)):
                    raise Refuted('VecPoly1::eval, length %d' % n, cex(n, 'eval1'))
            if not zero_here(h, tx - ip(lx, rx)):
                raise Refuted('VecPoly1::inner_product does not commute with evaluation, length %d' % n, cex(n, 'ip1'))
            if not zero_here(h, tx - tc[0] - tc[1] * x - tc[2] * x * x):
                raise Refuted('Poly2::eval', cex(n, 'poly2'))
    return run


def zero(n):
    def run():
        h = H()
        for ty, k in (('VecPoly1', 2), ('VecPoly3', 4)):
            for z, j in ((z, j) for z in paths(h, lambda: h.ex.deref(h.static(ty, 'zero', Lin(n))), ty + '::zero') for j in range(k)):
                xs = items(h, z.f[str(j)])
                if len(xs) != n or any(not zero_here(h, x) for x in xs):
                    raise Refuted('%s::zero(%d)' % (ty, n), cex(n, 'zero'))
    return run


def all_lengths(deg):
    """any common length"""
    def run():
        h = H()
        n = isym('n')
        h.ex.st.pc = h.ex.st.pc + (b_ge0(n),) if isinstance(h.ex.st.pc, tuple) else h.ex.st.pc + [b_ge0(n)]
        x = fsym('x')
        ty = 'VecPoly3' if deg == 3 else 'VecPoly1'
        if deg == 3:
            l, r = poly3('l', n, 0), poly3('r', n, 2)
        else:
            l, r = [St(ty, {k: vec(nm + k, n) for k in '01'}) for nm in 'lr']
        k = 4 if deg == 3 else 2

        def go():
            t = h.ex.deref(h.static(ty, 'special_inner_product', l, r) if deg == 3 else h.meth(l, 'inner_product', r))
            tx = h.ex.P(h.meth(t, 'eval', x))
            return t, tx
        t, tx = single(h, go, ty)
        ix = fresh_ix()
        i = Lin.atom(ix)
        ev = lambda p: sum((h.ex.P(h.ex.seq_get(p.f[str(j)], i)) * x.pow(Lin(j)) for j in range(k)), ZERO)
        want = mk_sum(ix, ev(l) * ev(r), Lin(0), n)
        if not zero_here(h, tx - want):
            raise Undecided('identity over a symbolic length: %s' % poly_str(tx - want)[:200])
    return run


def eval_all(ty, k):
    """eval at a symbolic length, entry by entry"""
    def run():
        h = H()
        n = isym('n')
        x = fsym('x')
        p = St(ty, {str(j): vec('l%d' % j, n) for j in range(k)})
        v = single(h, lambda: h.ex.deref(h.meth(p, 'eval', x)), ty + '::eval')
        if h.ex.seq_len(v) != n:
            raise Undecided('length')
        i = isym('i')
        h.ex.st.assume(b_ge0(i)) if hasattr(h.ex.st, 'assume') else None
        got = h.ex.P(h.ex.seq_get(v, i))
        if not zero_here(h, got - sum((fsym('l%d' % j, i) * x.pow(Lin(j)) for j in range(k)), ZERO)):
            raise Undecided('entry is %s' % poly_str(got)[:100])
    return run


def obligations(tier):
    big = tier == 'thorough'
    sizes = list(range(0, 9)) + [16, 17, 33, 64, 100] + ([200, 300] if big else []) + [x for l in literals(9, 600, ('vector_poly.rs', 'utils/mod.rs'), 3) for x in (l, l + 1)]
    for n in sizes:
        yield Ob('C16.special.n=%d' % n, ['VecPoly3::special_inner_product', 'VecPoly3::eval', 'Poly6::eval'], 'all six coefficients, and t(x) = <l(x), r(x)>', special(n), scope='length %d, all entries and x' % n)
        yield Ob('C16.deg1.n=%d' % n, ['VecPoly1::inner_product', 'VecPoly1::eval', 'Poly2::eval'], 't(x) = <l(x), r(x)>', deg1(n), scope='length %d, all entries and x' % n)
        yield Ob('C16.zero.n=%d' % n, ['VecPoly1::zero', 'VecPoly3::zero'], 'all entries zero', zero(n), scope='length %d' % n)
    yield Ob('C16.all.special', ['VecPoly3::special_inner_product', 'Poly6::eval'], 't(x) = sum of l(x)_i r(x)_i for every length', all_lengths(3))
    yield Ob('C16.all.deg1', ['VecPoly1::inner_product', 'Poly2::eval'], 't(x) = sum of l(x)_i r(x)_i for every length', all_lengths(1))
    yield Ob('C16.all.eval3', ['VecPoly3::eval'], 'every entry, every length', eval_all('VecPoly3', 4))
    yield Ob('C16.all.eval1', ['VecPoly1::eval'], 'every entry, every length', eval_all('VecPoly1', 2))
