from common import *


def lc_fam(name, n):
    """linear combination with n terms over arbitrary variables (n may be symbolic)"""
    return St('LinearCombination', {'terms': Seq.fam(n, lambda i: Tup((SymVar(isym('tag_' + name, i), isym('ix_' + name, i)), fsym(name, i))))})


VARS = [SymVar(0, 0), SymVar(1, 2), SymVar(2, 1), SymVar(3, 0), SymVar(4, 0)]


def lc_num(name, vs):
    return St('LinearCombination', {'terms': Seq.of([Tup((VARS[v], fsym(name, i))) for i, v in enumerate(vs)])})


def sizes():
    return [40] + [x for l in literals(7, 3000, ('linear_combination.rs',), 3) for x in (l, l + 1)]


def variants(kind, name, unbounded):
    """operand values of a kind, with their specification value"""
    if kind == 'L':
        if unbounded:
            yield lc_fam(name, isym('n_' + name))
        else:
            for vs in ((), (0,), (1,), (2,), (3,), (4,), (1, 2), (2, 2), (3, 4, 3), (0, 1, 2, 3, 4, 0)):
                yield lc_num(name, vs)
            for n in sizes():
                yield lc_num(name, [(i * i + 3) % 5 for i in range(n)])
    elif kind == 'V':
        if unbounded:
            yield SymVar(isym('tag_' + name), isym('ix_' + name))
        for v in VARS:
            yield v
    elif kind == 'S':
        yield fsym(name)
        if not unbounded:
            for c in (0, 1, -1, 5):
                yield Poly.const(c)


def spec(h, v):
    if isinstance(v, Poly):
        return v
    if isinstance(v, SymVar):
        return uval(v)
    return lc_value(h, v, uval)


OPS = [  # source, operand kinds, specification
    ('a + b', 'LL', lambda a, b: a + b), ('a + b', 'LV', lambda a, b: a + b), ('a + b', 'LS', lambda a, b: a + b),
    ('a - b', 'LL', lambda a, b: a - b), ('a - b', 'LV', lambda a, b: a - b), ('a - b', 'LS', lambda a, b: a - b),
    ('a + b', 'VL', lambda a, b: a + b), ('a + b', 'VV', lambda a, b: a + b), ('a + b', 'VS', lambda a, b: a + b),
    ('a - b', 'VL', lambda a, b: a - b), ('a - b', 'VV', lambda a, b: a - b), ('a - b', 'VS', lambda a, b: a - b),
    ('a + b', 'SV', lambda a, b: a + b), ('a - b', 'SV', lambda a, b: a - b), ('a * b', 'SV', lambda a, b: a * b),
    ('a * b', 'SL', lambda a, b: a * b), ('&a * b', 'SL', lambda a, b: a * b),
    ('-a', 'L', lambda a: -a), ('-a', 'V', lambda a: -a),
    ('{ let mut c = a; c += b; c }', 'LL', lambda a, b: a + b), ('{ let mut c = a; c += b; c }', 'LV', lambda a, b: a + b),
    ('{ let mut c = a; c += b; c }', 'LS', lambda a, b: a + b),
    ('LinearCombination::from(a)', 'V', lambda a: a), ('LinearCombination::from(a)', 'S', lambda a: a),
    ('LinearCombination::default()', '', lambda: ZERO),
    ('a.clone()', 'L', lambda a: a),
    ('a.get_terms().iter().collect::<LinearCombination>()', 'L', lambda a: a),
    ('a.get_terms().into_iter().collect::<LinearCombination>()', 'L', lambda a: a),
]


def name_of(i):
    src, kinds, _ = OPS[i]
    return '%s[%s]' % (src.replace(' ', ''), kinds)


def op(i, unbounded):
    def run():
        src, kinds, sp = OPS[i]
        import itertools
        for combo in itertools.product(*[list(variants(k, 'xy'[j], unbounded)) for j, k in enumerate(kinds)]):
            h = H()
            for r in paths(h, lambda: rs(h, src, **dict(zip('ab', combo))), src):
                got = lc_value(h, r, uval)
                want = sp(*[spec(h, v) for v in combo])
                if not zero_here(h, got - want):
                    raise Refuted('%s with %s: the value differs from the specified one by %s when %s' % (src, list(combo), poly_str(got - want)[:300], pc_str(h.ex.st)),
                                  {'op': src, 'kinds': kinds})
    return run


METH = {'add': lambda a, b: a + b, 'sub': lambda a, b: a - b, 'mul': lambda a, b: a * b, 'neg': lambda a: -a,
        'add_assign': lambda a, b: a + b, 'sub_assign': lambda a, b: a - b, 'mul_assign': lambda a, b: a * b}
KIND = {'LinearCombination': 'L', 'Variable': 'V', 'FieldElement': 'S'}


def impls():
    """every operator impl of the crate over linear combinations, variables and field elements, by-value and by-reference ones
    apart: the caller cannot tell which of them an expression uses, so each must satisfy the contract of the operator"""
    import re
    for (ty, m), l in sorted(get_prog().methods.items()):
        if ty not in KIND or m not in METH:
            continue
        for f in l:
            r = re.match(r'\w+<(.*)>$', f.trait or '')
            arg = r.group(1).lstrip('&') if r else None
            if m == 'neg':
                ks = ['']
            elif arg in KIND or arg == 'Self' or arg is None:
                ks = [KIND.get(arg, KIND[ty])]
            elif re.match(r'^[A-Z]\w?$', arg):
                ks = ['L', 'V', 'S']
            else:
                continue
            yield f, m, KIND[ty], ks


def impl(f, m, k0, ks, unbounded):
    def run():
        import itertools
        for k in ks:
            for combo in itertools.product(*[list(variants(x, 'xy'[j], unbounded)) for j, x in enumerate(k0 + k)]):
                h = H()

                def go():
                    c = h.cell(combo[0])
                    r = h.ex.call_fn(f, list(combo[1:]), c if m.endswith('_assign') else combo[0])
                    return h.ex.deref(c) if m.endswith('_assign') else h.ex.deref(r)
                for r in paths(h, go, f.key):
                    want = METH[m](*[spec(h, v) for v in combo])
                    got = lc_value(h, r, uval)
                    if not zero_here(h, got - want):
                        raise Refuted('%s with %s: the value differs from the specified one by %s when %s' % (f.key, list(combo), poly_str(got - want)[:300], pc_str(h.ex.st)), {'op': m, 'kinds': k0 + k})
    return run


def from_iter(f):
    def run():
        for a in variants('L', 'x', False):
            h = H()
            for r in paths(h, lambda: h.ex.call_fn(f, [a.f['terms']]), f.key):
                if not zero_here(h, lc_value(h, r, uval) - spec(h, a)):
                    raise Refuted('%s of %s gives %s' % (f.key, a, r), {'op': 'collect'})
    return run


def simplify_num():
    """every way the variables of up to 4 terms can coincide, and longer ones"""
    import itertools
    cases = [c for n in range(0, 5) for c in itertools.product(range(min(n, 3)), repeat=n)]
    cases += [(0, 1, 2, 3, 4) * 2, (4, 4, 4, 0, 4, 0, 1, 1)] + [tuple((i * i + 3) % 5 for i in range(n)) for n in sizes()]
    for vs in cases:
        for num in (False, True):
            h = H()
            a = lc_num('x', vs)
            if num:
                # cancelling and zero coefficients
                a = St('LinearCombination', {'terms': Seq.of([Tup((VARS[v], Poly.const((1, -1, 0, 1, 5, -5, 1)[i % 7]))) for i, v in enumerate(vs)])})
            for r in paths(h, lambda: rs(h, 'a.simplify()', a=a), 'simplify'):
                if not zero_here(h, lc_value(h, r, uval) - lc_value(h, a, uval)):
                    raise Refuted('simplify changes the value of %s to %s when %s' % (a, r, pc_str(h.ex.st)), {'op': 'simplify', 'vars': vs})
                ts = [h.ex.deref(t).xs[0] for t in h.ex.as_lc(h.ex.deref(r)).f['terms'].items()]
                if len(set(ts)) != len(ts):
                    raise Refuted('simplify leaves a variable twice: %s' % (r,), {'op': 'simplify', 'vars': vs})
    for vs in ((), (0,), (1, 1), (0, 1, 2)):
        h = H()
        n = single(h, lambda: rs(h, 'a.len()', a=lc_num('x', vs)), 'len')
        if n != Lin(len(vs)):
            raise Refuted('len of a combination with %d terms is %s' % (len(vs), n))


def obligations(tier):
    for i in range(len(OPS)):
        yield Ob('C06.op.%s' % name_of(i), ['LinearCombination/Variable/FieldElement operator ' + OPS[i][0]],
                 'the value under every assignment is the operation on the operand values', op(i, False),
                 scope='operands with up to 6 terms, all coefficient values')
        yield Ob('C06.all.%s' % name_of(i), ['LinearCombination/Variable/FieldElement operator ' + OPS[i][0]],
                 'the value under every assignment is the operation on the operand values', op(i, True))
    for f, m, k0, ks in impls():
        nm = '%s.%s' % (f.impl_ty, f.trait)
        yield Ob('C06.impl.' + nm, [f.key], 'the operator contract', impl(f, m, k0, ks, False), scope='operands with up to %d terms, all coefficient values' % max(sizes()))
        yield Ob('C06.impl-all.' + nm, [f.key], 'the operator contract', impl(f, m, k0, ks, True))
    for f in get_prog().methods.get(('LinearCombination', 'from_iter'), []):
        yield Ob('C06.impl.' + f.trait, [f.key], 'collecting terms keeps the value', from_iter(f), scope='up to %d terms' % max(sizes()))
    yield Ob('C06.simplify', ['LinearCombination::simplify', 'LinearCombination::len'],
             'value kept, one term per variable', simplify_num, scope='all coincidence patterns of up to 4 terms, and two longer ones')
