import sys
from circ import *
import gad, hashlib, json, os

R = __import__('random').Random(1107)


# ---------------------------------------------------------------- specification (documented round structure)

def mimc_spec(xl, xr, cs):
    for c in cs:
        t = xl + c
        xl, xr = t * t * t + xr, xl
    return xl


def sbox_spec(kind, x):
    if kind == 'Cube':
        return x * x * x
    if kind == 'Quint':
        return x * x * x * x * x
    if isinstance(x, M):
        return M(pow(x.v, -1, MODP) if x.v else 0)
    raise Undecided('symbolic inverse')


class M:
    """integers modulo the group order, for the numeric specification"""
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v % MODP

    def __add__(self, o):
        return M(self.v + o.v)

    def __mul__(self, o):
        return M(self.v * o.v)


def perm_spec(state, w, fb, fe, pr, rk, mds, kind, seen=None, box=None):
    k = 0
    rounds = ['f'] * fb + ['p'] * pr + ['f'] * fe
    for r in rounds:
        state = [s + rk[k + i] for i, s in enumerate(state)]
        k += w
        if seen is not None:
            seen += state if r == 'f' else [state[-1]]
        state = [(box or sbox_spec)(kind, s) if (r == 'f' or i == w - 1) else s for i, s in enumerate(state)]
        out = []
        for i in range(w):
            t = state[0] * mds[0][i]
            for j in range(1, w):
                t = t + state[j] * mds[j][i]
            out.append(t)
        state = out
    return state


class PP:
    def __init__(self, w, fb, fe, pr, off=0):
        self.w, self.fb, self.fe, self.pr = w, fb, fe, pr
        n = (fb + fe + pr) * w
        self.rk = [CONSTS[(off + i) % 2000] for i in range(n)]
        self.mds = [[CONSTS[2000 + (off + i * w + j) % 1900] for j in range(w)] for i in range(w)]

    def value(self):
        return St('PoseidonParams', {'width': Lin(self.w), 'full_rounds_beginning': Lin(self.fb), 'full_rounds_end': Lin(self.fe),
                                     'partial_rounds': Lin(self.pr), 'round_keys': fl(self.rk), 'MDS_matrix': Seq.of([fl(r) for r in self.mds])})

    def spec(self, xs, kind, seen=None):
        return perm_spec([M(x) for x in xs], self.w, self.fb, self.fe, self.pr, [M(x) for x in self.rk], [[M(x) for x in r] for r in self.mds], kind, seen)

    def spec_sym(self, xs, kind, box=None):
        return perm_spec([P(x) for x in xs], self.w, self.fb, self.fe, self.pr, [fc(x) for x in self.rk], [[fc(x) for x in r] for r in self.mds], kind, None, box)

    def cex(self):
        return {'w': self.w, 'fb': self.fb, 'fe': self.fe, 'pr': self.pr, 'rk': [str(x) for x in self.rk], 'mds': [[str(x) for x in r] for r in self.mds]}


def num(h, p):
    p = h.ex.P(p)
    if not p.is_const():
        raise Undecided('not numeric: %s' % poly_str(p)[:100])
    return fr(p.m.get((), 0))


def fixed_commitments(h, st):
    """values of the commitments the verifier builds itself (known openings with blinding 0)"""
    out = {}
    vs = h.ex.deref(st.vf).f['V'].items()
    for i, p in enumerate(vs):
        d = linear(h.ex.P(p))
        if d is not None and set(d[0]) <= {fatom('g')} and d[1] == 0:
            out[i] = d[0].get(fatom('g'), 0)
    return out, len(vs)


def circuit_value(h, st, V, img, what, g):
    """the statement with numeric committed values and symbolic image: the residual must be image = constant; returns the constant"""
    fx, n = fixed_commitments(h, st)
    vals = dict(enumerate(V))
    vals.update({i: x for i, x in fx.items() if i not in vals})
    sub = {fatom('V', i): fc(x) for i, x in vals.items()}
    eqs = [subst(e, sub) for e in st.eqs()]
    images = {fatom('img', i) if isinstance(img, int) else fatom('img') for i in ([0] if not isinstance(img, int) else range(img))}
    res, trail = eliminate(eqs, lambda a: a in images)
    left = {a for e in res for a in alg.pvars(e)}
    return res, left - images, trail, sub


def expect_image(h, st, V, want, what, g):
    """exactly: satisfiable iff img == want"""
    res, free, trail, sub = circuit_value(h, st, V, None, what, g)
    im = Poly.atom(fatom('img'))
    res = [e for e in res if not e.is_zero()]
    if not free and len(res) >= 1 and all(same_up_to_unit(h, e, im - fc(want)) for e in res):
        # every other variable is determined: trail is complete
        det = {a for a, _ in trail}
        allv = {a for e in st.eqs() for a in alg.pvars(e)} - set(sub) - {fatom('img')}
        if allv <= det:
            return
    # search for a wrong image with a witness
    for wrong in (0, 1, (want + 1) % MODP, CONSTS[7]):
        if wrong == want:
            continue
        s = alg.System([subst(subst(e, sub), {fatom('img'): fc(wrong)}) for e in st.eqs()])
        s.limit = 3000
        r = s.solve({}, prefer)
        if r.sat:
            fx, n = fixed_commitments(h, st)
            full = [V[i] if i < len(V) else fx.get(i, 0) for i in range(n)]
            raise Refuted('%s: satisfiable with image %d, the hash is %d' % (what, wrong, want), dict(g, kind='evil', img=str(wrong), **st.witness(r.sol, full)))
    s = alg.System([subst(subst(e, sub), {fatom('img'): fc(want)}) for e in st.eqs()])
    s.limit = 3000
    r = s.solve({}, prefer)
    if r.sat is False:
        raise Refuted('%s: unsatisfiable with the true image' % what, dict(g, kind='honest', img=str(want)))
    raise Undecided('%s: residual %s, free %s' % (what, [poly_str(e)[:120] for e in res[:4]], sorted(map(str, free))[:4]))


# ---------------------------------------------------------------- MiMC

def mimc_consts(r, pat='generic'):
    if pat == 'zeros':      # zeros and repeats among the constants
        return [0 if i % 3 == 1 else CONSTS[0] if i % 3 == 2 else CONSTS[i % 100] for i in range(r)]
    return [CONSTS[i % 120] * (1 + i // 120) % MODP for i in range(r)]


def mimc_native_at(h, xy, cs):
    r = len(cs)
    x, y = fc(xy[0]), fc(xy[1])
    v = single(h, lambda: h.call('mimc', x, y, fl(cs), Lin(r)), 'mimc')
    want = mimc_spec(M(xy[0]), M(xy[1]), [M(c) for c in cs]).v
    if not h.zero(h.ex.P(v) - fc(want)):
        raise Refuted('mimc with %d rounds is not the documented function' % r, {'gadget': 'mimc', 'kind': 'native', 'consts': [str(c) for c in cs], 'x': [str(x % MODP) for x in xy]})


def mimc_stmt(h, cs):
    return Stmt(h, lambda vf, vs: h.call('verify_mimc_preimage', fsym('img'), fl(cs), Lin(len(cs)), Seq.of([fsym('Vc', 0), fsym('Vc', 1)]), vf), 0, 'mimc')


def mimc_circuit_at(h, st, xy, cs):
    want = mimc_spec(M(xy[0]), M(xy[1]), [M(c) for c in cs]).v
    g = {'gadget': 'mimc', 'consts': [str(c) for c in cs], 'x': [str(x % MODP) for x in xy]}
    expect_image(h, st, [x % MODP for x in xy], want, 'MiMC with %d rounds' % len(cs), g)


def mimc_honest_at(xy, cs):
    want = mimc_spec(M(xy[0]), M(xy[1]), [M(c) for c in cs]).v
    h = H()

    def go():
        pv = h.prover(h.transcript('t'))
        ok(h.call('prove_mimc_preimage', fl(list(xy)), Some(Seq.of([fsym('r1'), fsym('r2')])), fc(want), fl(cs), Lin(len(cs)), NONE, pv), 'prove_mimc_preimage')
        return pv
    check_honest(h, go, 'MiMC with %d rounds' % len(cs), {'gadget': 'mimc', 'kind': 'honest', 'consts': [str(c) for c in cs], 'x': [str(x % MODP) for x in xy], 'img': str(want)})


def mimc_points(cs):
    return [(0, 0), (1, 2), (CONSTS[11], CONSTS[12]), (MODP - 1, 5), (-cs[0] if cs else 3, 4)]


def mimc_native(r, pat='generic'):
    def run():
        h = H()
        if r <= 3:
            cs = [fsym('mc', i) for i in range(r)]
            x, y = fsym('x'), fsym('y')
            for v in paths(h, lambda: h.call('mimc', x, y, Seq.of(cs), Lin(r)), 'mimc'):
                if not zero_here(h, h.ex.P(v) - mimc_spec(x, y, cs)):
                    raise Refuted('mimc with %d rounds is not the documented function when %s' % (r, pc_str(h.ex.st)), {'gadget': 'mimc', 'kind': 'native', 'rounds': r})
        cs = mimc_consts(r, pat)
        for xy in mimc_points(cs):
            mimc_native_at(h, xy, cs)
    return run


def mimc_circuit(r, pat='generic'):
    def run():
        cs = mimc_consts(r, pat)
        h = H()
        st = mimc_stmt(h, cs)
        for xy in mimc_points(cs)[:5 if r <= 64 else 2]:
            mimc_circuit_at(h, st, xy, cs)
        if r <= 2:
            # for all inputs and constants at once
            h = H()
            ss = [fsym('mc', i) for i in range(r)]
            st = Stmt(h, lambda vf, vs: h.call('verify_mimc_preimage', fsym('img'), Seq.of(ss), Lin(r), Seq.of([fsym('Vc', 0), fsym('Vc', 1)]), vf), 0, 'mimc')
            res, tr = eliminate(st.eqs(), lambda a: a[1] in ('V', 'mc', 'img'))
            want = mimc_spec(fsym('V', 0), fsym('V', 1), ss) - fsym('img')
            if not all(same_up_to_unit(h, e, want) for e in res) or not res:
                raise Undecided('residual')
    return run


def mimc_honest(r, pat='generic'):
    def run():
        cs = mimc_consts(r, pat)
        for xy in mimc_points(cs)[2:3] if r > 64 else mimc_points(cs):
            mimc_honest_at(xy, cs)
    return run


def mimc_steer(r):
    """inputs and constants on which the code takes a path of its own"""
    def run():
        ss = [fsym('mc', i) for i in range(r)]
        x = [fsym('x', i) for i in range(2)]
        seen = set()

        def models(fn):
            h = H()
            for m in path_models(h, lambda: fn(h)):
                cs = [m(next(iter(a.m))[0][0]) % MODP for i, a in enumerate(ss)]
                xy = [m(next(iter(a.m))[0][0]) % MODP for i, a in enumerate(x)]
                if (tuple(cs), tuple(xy)) not in seen:
                    seen.add((tuple(cs), tuple(xy)))
                    yield xy, cs
        for xy, cs in models(lambda h: h.call('mimc', x[0], x[1], Seq.of(ss), Lin(r))):
            mimc_native_at(H(), xy, cs)
        for xy, cs in models(lambda h: h.call('verify_mimc_preimage', fsym('img'), Seq.of(ss), Lin(r), Seq.of([fsym('Vc', 0), fsym('Vc', 1)]), h.verifier(h.transcript('t')))):
            h = H()
            st = mimc_stmt(h, cs)
            mimc_circuit_at(h, st, xy, cs)
            mimc_honest_at(xy, cs)
        for xy, cs in models(lambda h: h.call('prove_mimc_preimage', Seq.of(x), Some(Seq.of([fsym('r1'), fsym('r2')])), fsym('img'), Seq.of(ss), Lin(r), NONE, h.prover(h.transcript('t')))):
            mimc_honest_at(xy, cs)
            h = H()
            mimc_circuit_at(h, mimc_stmt(h, cs), xy, cs)
    return run


def check_honest(h, go, what, g):
    outs = val1(h.ex.explore(go), what)
    if not outs:
        raise Undecided('no path')
    for o in outs:
        h.ex.st = o.st
        val = h.prover_val(o.v)
        for i, c in enumerate(h.constraints(o.v)):
            if not h.zero(h.lc_eval(c, val)):
                raise Refuted('%s: constraint %d of the honest prover does not hold' % (what, i), g)


# ---------------------------------------------------------------- Poseidon

def inputs(n, k=0):
    return [[CONSTS[(200 * k + 17 * i + 3) % 1999] for i in range(n)], [0] * n, [1] + [0] * (n - 1), [MODP - 1 - i for i in range(n)]][k % 4] if k < 4 else \
        [R.randrange(MODP) for _ in range(n)]


def perm_native(pp, kind):
    def run():
        for k in range(4):
            xs = inputs(pp.w, k)
            h = H()
            v = single(h, lambda: h.call('Poseidon_permutation', fl(xs), pp.value(), SB(kind)), 'Poseidon_permutation')
            got = [num(h, x) for x in h.ex.deref(v).items()]
            want = [m.v for m in pp.spec(xs, kind)]
            if got != want:
                raise Refuted('Poseidon_permutation of %s is not the documented function' % xs, dict(pp.cex(), gadget='poseidon', kind='native', sbox=kind, x=[str(x) for x in xs]))
        if pp.w == 3 and pp.fb + pp.fe + pp.pr <= 1 and kind != 'Inverse':
            h = H()
            xs = [fsym('x', i) for i in range(pp.w)]
            v = single(h, lambda: h.call('Poseidon_permutation', Seq.of(xs), pp.value(), SB(kind)), 'Poseidon_permutation')
            for a, b in zip(h.ex.deref(v).items(), pp.spec_sym(xs, kind)):
                if not h.zero(h.ex.P(a) - b):
                    raise Refuted('Poseidon_permutation is not the documented function for all inputs', dict(pp.cex(), gadget='poseidon', kind='native', sbox=kind))
    return run


def hash_native(k, pp, kind):
    def run():
        for j in range(4):
            xs = inputs(k, j)
            h = H()
            if k == 2:
                v = single(h, lambda: h.call('Poseidon_hash_2', fc(xs[0]), fc(xs[1]), pp.value(), SB(kind)), 'hash')
            else:
                v = single(h, lambda: h.call('Poseidon_hash_%d' % k, fl(xs), pp.value(), SB(kind)), 'hash')
            want = pp.spec([0] + xs, kind)[1].v
            if num(h, v) != want:
                raise Refuted('Poseidon_hash_%d of %s is not the documented function' % (k, xs), dict(pp.cex(), gadget='poseidon', kind='native', k=k, sbox=kind, x=[str(x) for x in xs]))
    return run


def hash_circuit(k, pp, kind):
    def run():
        h = H()
        st = Stmt(h, lambda vf, vs: h.call('verify_knowledge_of_preimage_of_Poseidon_%d' % k, fsym('img'), pp.value(), SB(kind),
                                           Seq.of([fsym('Vc', i) for i in range(k)]), fsym('g'), fsym('h'), vf), 0, 'Poseidon_%d' % k)
        for j in range(4):
            xs = inputs(k, j)
            seen = []
            want = pp.spec([0] + xs, kind, seen)[1].v
            if kind == 'Inverse' and any(x.v == 0 for x in seen):
                continue        # no inverse: outside the documented domain
            expect_image(h, st, xs, want, 'Poseidon_%d %s' % (k, kind), dict(pp.cex(), gadget='poseidon', k=k, sbox=kind, x=[str(x) for x in xs]))
    return run


def hash_honest(k, pp, kind):
    def run():
        for j in range(4):
            xs = inputs(k, j)
            seen = []
            want = pp.spec([0] + xs, kind, seen)[1].v
            if kind == 'Inverse' and any(x.v == 0 for x in seen):
                continue
            h = H()

            def go():
                pv = h.prover(h.transcript('t'))
                ok(h.call('prove_knowledge_of_preimage_of_Poseidon_%d' % k, fl(xs), Some(Seq.of([fsym('r', i) for i in range(k)])), fc(want), pp.value(), SB(kind), NONE, pv), 'prove')
                return pv
            check_honest(h, go, 'Poseidon_%d %s' % (k, kind), dict(pp.cex(), gadget='poseidon', k=k, sbox=kind, kind='honest', x=[str(x) for x in xs], img=str(want)))
    return run


def perm_gadget(pp, kind):
    """permutation gadget with all outputs public: satisfiable exactly for the native output"""
    def run():
        w = pp.w
        h = H()
        im = [fsym('img', i) for i in range(w)]
        st = Stmt(h, lambda vf, vs: h.call('Poseidon_permutation_gadget', vf, Seq.of([alloc(v) for v in vs]), pp.value(), SB(kind), Seq.of(im)), w, 'permutation gadget')
        for j in range(3):
            xs = inputs(w, j)
            seen = []
            want = [m.v for m in pp.spec(xs, kind, seen)]
            if kind == 'Inverse' and any(x.v == 0 for x in seen):
                continue
            sub = {fatom('V', i): fc(x) for i, x in enumerate(xs)}
            res, tr = eliminate([subst(e, sub) for e in st.eqs()], lambda a: a[1] == 'img')
            rest = list(res)
            for i in range(w):
                m = [e for e in rest if same_up_to_unit(h, e, im[i] - fc(want[i]))]
                if not m:
                    raise Undecided('permutation gadget: residual %s' % [poly_str(e)[:100] for e in res])
                rest = [e for e in rest if e not in m]
            if rest:
                raise Undecided('permutation gadget: further equations')
    return run


# ------------------------------------------------ all inputs, any constants: the permutation over the contract of the S-box
# apply_sbox and synthesize_sbox are proved against their contract on their own (C11.sbox.*); here callers see only the contract:
# the result is sb(kind, input), one fixed function.  Equal terms then mean equal values for every input.

_SB = {}


def sb(kind, x):
    x = P(x)
    if x.is_const():
        return fc(sbox_spec(kind, M(fr(x.m.get((), 0)))).v)
    k = (kind, x)
    if k not in _SB:
        _SB[k] = fsym('sb' + kind, Lin(len(_SB)))
    return _SB[k]


def with_sbox_contract(h, kind, vals=None):
    def app(ex, a, fn):
        ex.used[fn.key + ' (by contract)'] = 1
        return sb(kind, ex.P(ex.deref(a[1])))
    out = []

    def val(v):
        if v.tag.c == 5:
            return out[v.idx.c]
        return (vals or {}).get(v.idx.c, fsym('V', v.idx)) if v.tag.c == 0 else atom_val(v)

    def syn(ex, a, fn):
        ex.used[fn.key + ' (by contract)'] = 1
        x = h.lc_eval(a[2], val) + ex.P(ex.deref(a[3]))
        out.append(sb(kind, x))
        return Ok(SymVar(5, len(out) - 1))
    for nm, c in (('apply_sbox', app), ('synthesize_sbox', syn)):
        f = get_prog().method('SboxType', nm)
        if f is None or len(f.node.params) != (1 if nm == 'apply_sbox' else 3):
            raise Undecided('SboxType::%s not found' % nm)
        h.ex.contracts[f.key] = c
    return val


def sbox_native(kind):
    def run():
        h = H()
        x = fsym('x')
        for v in paths(h, lambda: h.meth(SB(kind), 'apply_sbox', x), 'apply_sbox'):
            want = {'Cube': x * x * x, 'Quint': x * x * x * x * x, 'Inverse': x.inverse()}[kind]
            if not zero_here(h, h.ex.P(v) - want):
                raise Refuted('apply_sbox %s gives %s when %s' % (kind, poly_str(h.ex.P(v))[:100], pc_str(h.ex.st)), {'gadget': 'poseidon', 'kind': 'sbox', 'sbox': kind})
    return run


def sbox_circuit(kind):
    """the constraints of synthesize_sbox hold exactly when the returned variable is the S-box of (input + round key)"""
    def run():
        for nt in (0, 1, 2, 3):
            h = H()
            ts = [(SymVar(0, i), fsym('co', i)) for i in range(nt)] + ([(SymVar(4, 0), fsym('co', 9))] if nt != 1 else [])
            box = {}

            def fn(vf, vs):
                box['r'] = ok(h.ex.deref(h.meth(SB(kind), 'synthesize_sbox', vf, lc_val(h, ts), fsym('rk'))), 'synthesize_sbox')
                return UNIT
            st = Stmt(h, fn, nt, 'synthesize_sbox')
            z = sum((atom_val(v) * c for v, c in ts), ZERO) + fsym('rk')
            o = atom_val(h.ex.deref(box['r']))
            oa = next(iter(o.m))[0][0]
            keep = lambda a: a == oa or a[1] in ('V', 'co', 'rk')
            # name the input so that it stays one term
            xin = fsym('xin')
            if nt:
                (am,) = [next(iter(fsym('co', 0).m))[0][0]]
                eqs = [subst(e, {am: fsym('co', 0)}) for e in st.eqs()]
            else:
                eqs = st.eqs()
            res, tr = eliminate(eqs, keep)
            rest = {a for e in res for a in alg.pvars(e) if not keep(a)}
            if rest:
                raise Undecided('left-over variables %s' % rest)
            if kind == 'Inverse':
                want = [z * o - ONE]
            else:
                want = [o - (z * z * z if kind == 'Cube' else z * z * z * z * z)]
            if not res or not all(any(same_up_to_unit(h, e, w) for w in want) for e in res):
                raise Undecided('residual %s' % [poly_str(e)[:100] for e in res])
            det = {a for a, _ in tr}
            free = {a for e in st.eqs() for a in alg.pvars(e) if not keep(a)} - det
            if free:
                raise Undecided('undetermined %s' % free)
    return run


def perm_all(pp, kind):
    def run():
        h = H()
        with_sbox_contract(h, kind)
        xs = [fsym('x', i) for i in range(pp.w)]
        for v in paths(h, lambda: h.call('Poseidon_permutation', Seq.of(xs), pp.value(), SB(kind)), 'Poseidon_permutation'):
            for i, (a, b) in enumerate(zip(h.ex.deref(v).items(), pp.spec_sym(xs, kind, sb))):
                if not zero_here(h, h.ex.P(a) - b):
                    raise Refuted('Poseidon_permutation: output %d is not the documented function of the inputs' % i, dict(pp.cex(), gadget='poseidon', kind='native', sbox=kind, x=[str(x) for x in inputs(pp.w, 0)]))
    return run


def concretely(cons, want, img, k, kind, what, cex):
    """the constraints at concrete inputs, S-boxes computed: the true image must satisfy them"""
    back = {next(iter(v.m))[0][0]: x for (kd, x), v in _SB.items() if kd == kind}

    def ev(p, env):
        r = 0
        for mo, c in p.m.items():
            t = fr(c)
            for a, e in mo:
                if a not in env:
                    if a not in back:
                        raise Undecided('unknown %s in a constraint' % (a,))
                    env[a] = sbox_spec(kind, M(ev(back[a], env))).v % MODP
                if not e.is_const():
                    raise Undecided('exponent')
                t = t * pow(env[a], e.c, MODP) % MODP
            r += t
        return r % MODP
    sys.setrecursionlimit(100000)
    for t in range(3):
        xs = inputs(k, t)
        env = {fatom('V', i): x % MODP for i, x in enumerate(xs)}
        w = ev(want, env)
        env[next(iter(img.m))[0][0]] = w
        if any(ev(c, env) for c in cons):
            raise Refuted('%s: the circuit does not accept the hash of %s' % (what, [str(x)[:12] for x in xs]), dict(cex, kind='honest', x=[str(x % MODP) for x in xs], img=str(w)))


def hash_all(k, pp, kind):
    """native hash, verifier circuit and prover circuit, all inputs"""
    def run():
        cex = dict(pp.cex(), gadget='poseidon', k=k, sbox=kind, x=[str(x) for x in inputs(k, 0)])
        xs = [fsym('V', Lin(i)) for i in range(k)]
        want = pp.spec_sym([ZERO] + xs, kind, sb)[1]
        h = H()
        with_sbox_contract(h, kind)
        args = xs if k == 2 else [Seq.of(xs)]
        for v in paths(h, lambda: h.call('Poseidon_hash_%d' % k, *args, pp.value(), SB(kind)), 'hash'):
            if not zero_here(h, h.ex.P(v) - want):
                raise Refuted('Poseidon_hash_%d is not the documented function when %s' % (k, pc_str(h.ex.st)), dict(cex, kind='native'))
        img = fsym('img')
        for side in ('verify', 'prove'):
            h = H()
            val = with_sbox_contract(h, kind, {i: ZERO for i in range(k, k + 8)})

            def go():
                if side == 'verify':
                    cs = h.verifier(h.transcript('t'))
                    ok(h.ex.deref(h.call('verify_knowledge_of_preimage_of_Poseidon_%d' % k, img, pp.value(), SB(kind), Seq.of([fsym('Vc', i) for i in range(k)]), fsym('g'), fsym('h'), cs)), side)
                else:
                    cs = h.prover(h.transcript('t'))
                    ok(h.ex.deref(h.call('prove_knowledge_of_preimage_of_Poseidon_%d' % k, Seq.of(xs), Some(Seq.of([fsym('r', i) for i in range(k)])), img, pp.value(), SB(kind), NONE, cs)), side)
                return cs
            for cs in paths(h, go, side):
                f = h.ex.deref(cs).f
                coms = [h.ex.P(x) for x in (f['V'] if side == 'verify' else f['v']).items()]
                zero = [ZERO] * (len(coms) - k)
                if side == 'verify' and any(not h.zero(a) for a in coms[k:]) or side == 'prove' and any(not h.zero(a - b) for a, b in zip(coms, xs + zero)):
                    raise Undecided('commitments %s' % coms[:10])
                cons = [h.lc_eval(c, val) for c in h.constraints(cs)]
                cons = [c for c in cons if not h.zero(c)]
                if len(cons) != 1 or not same_up_to_unit(h, cons[0], want - img):
                    concretely(cons, want, img, k, kind, '%s %s' % (side, pp.cex()['w']), cex)
                    raise Undecided('%s: %d constraints' % (side, len(cons)))
    return run


HERE = os.path.dirname(os.path.abspath(__file__))


def tables(w):
    """the constants of PoseidonParams::new are the published tables (reference digests taken from the published tables as shipped)"""
    def run():
        ref = json.load(open(os.path.join(HERE, 'poseidon_tables.json')))[str(w)]
        h = H()
        h.ex.fuel = 10 ** 8
        tot = ref['rounds']
        v = single(h, lambda: h.static('PoseidonParams', 'new', Lin(w), Lin(4), Lin(4), Lin(tot - 8)), 'PoseidonParams::new')
        rk = [num(h, x) for x in h.ex.deref(v.f['round_keys']).items()]
        mds = [[num(h, x) for x in h.ex.deref(r).items()] for r in h.ex.deref(v.f['MDS_matrix']).items()]
        got = digest(rk, mds)
        fields = [v.f[k] for k in ('width', 'full_rounds_beginning', 'full_rounds_end', 'partial_rounds')]
        if fields != [Lin(w), Lin(4), Lin(4), Lin(tot - 8)]:
            raise Refuted('PoseidonParams::new stores %s' % fields, {'gadget': 'poseidon', 'kind': 'tables', 'w': w})
        if len(rk) != tot * w or got != ref['digest']:
            raise Refuted('the Poseidon constants for width %d are not those of the published tables' % w, {'gadget': 'poseidon', 'kind': 'tables', 'w': w})
        # a shorter instance uses a prefix
        v2 = single(h, lambda: h.static('PoseidonParams', 'new', Lin(w), Lin(2), Lin(3), Lin(1)), 'PoseidonParams::new')
        rk2 = [num(h, x) for x in h.ex.deref(v2.f['round_keys']).items()]
        if rk2 != rk[:6 * w]:
            raise Refuted('fewer rounds do not use a prefix of the constants', {'gadget': 'poseidon', 'kind': 'tables', 'w': w})
    return run


def digest(rk, mds):
    d = hashlib.sha256()
    for x in rk:
        d.update(x.to_bytes(32, 'big'))
    for r in mds:
        for x in r:
            d.update(x.to_bytes(32, 'big'))
    return d.hexdigest()


def obligations(tier):
    big = tier == 'thorough'
    ml = [x for l in literals(10, 1000, ('mimc.rs',), 4) for x in (l, l + 1)]
    for r in dict.fromkeys([0, 1, 2, 3, 5, 16, 64, 110, 322] + ml + ([500] if big else [])):
        for pat in ['generic'] + (['zeros'] if r in (2, 3, 5, 16) else []):
            t = '%s%d' % ('zeros.' if pat == 'zeros' else 'r=', r)
            yield Ob('C11.mimc.native.' + t, ['mimc'], 'the native function is the documented recurrence' + (', all inputs and constants' if r <= 3 else ''),
                     mimc_native(r, pat), scope='%d rounds%s' % (r, ', all inputs and constants' if r <= 3 else ', 5 inputs'))
            yield Ob('C11.mimc.circuit.' + t, ['verify_mimc_preimage', 'mimc_gadget', 'enforce_mimc_2_inputs'], 'satisfiable exactly for the hash value; witness unique',
                     mimc_circuit(r, pat), scope='%d rounds%s' % (r, ', all inputs and constants' if r <= 2 else ', sampled inputs'))
            yield Ob('C11.mimc.honest.' + t, ['prove_mimc_preimage'], 'honest witness', mimc_honest(r, pat), scope='%d rounds, sampled inputs' % r, timeout=150)
    for r in (1, 2, 3):
        yield Ob('C11.mimc.steer.r=%d' % r, ['mimc', 'verify_mimc_preimage', 'prove_mimc_preimage'], 'inputs and constants for which the code branches', mimc_steer(r), scope='%d rounds; one input per path' % r)
    for kind in ('Cube', 'Quint', 'Inverse'):
        for k, w in ((2, 3), (4, 5), (8, 9)):
            for rr in [(1, 0, 0), (0, 0, 1), (1, 1, 1), (2, 2, 3)] + ([(4, 4, 20)] if big or k < 8 else []):
                pp = PP(w, *rr, off=13 * sum(rr))
                t = '%s.w=%d.rounds=%d+%d+%d' % (kind, w, rr[0], rr[2], rr[1])
                yield Ob('C11.perm.native.' + t, ['Poseidon_permutation', 'SboxType::apply_sbox'], 'the native permutation is the documented round structure', perm_native(pp, kind),
                         scope='4 inputs, generic constants')
                yield Ob('C11.hash.native.%d.' % k + t, ['Poseidon_hash_%d' % k], 'the hash is output 1 of the permutation of (0, inputs)', hash_native(k, pp, kind), scope='4 inputs')
                yield Ob('C11.hash.circuit.%d.' % k + t, ['verify_knowledge_of_preimage_of_Poseidon_%d' % k, 'Poseidon_hash_%d_gadget' % k, 'Poseidon_hash_%d_constraints' % k,
                                                          'Poseidon_permutation_constraints', 'SboxType::synthesize_sbox'],
                         'satisfiable exactly for the hash value; witness unique', hash_circuit(k, pp, kind), scope='4 inputs', timeout=120)
                yield Ob('C11.hash.honest.%d.' % k + t, ['prove_knowledge_of_preimage_of_Poseidon_%d' % k], 'honest witness', hash_honest(k, pp, kind), scope='4 inputs')
            pp = PP(w, 1, 1, 2, off=5)
            yield Ob('C11.perm.gadget.%s.w=%d' % (kind, w), ['Poseidon_permutation_gadget'], 'satisfiable exactly for the native outputs', perm_gadget(pp, kind), scope='3 inputs')
    for kind in ('Cube', 'Quint', 'Inverse'):
        yield Ob('C11.sbox.native.' + kind, ['SboxType::apply_sbox'], 'contract of the native S-box, every input', sbox_native(kind))
        yield Ob('C11.sbox.circuit.' + kind, ['SboxType::synthesize_sbox'], 'contract of the S-box circuit: returned variable = S-box of input + round key, every value, nothing else constrained', sbox_circuit(kind), scope='inputs of up to 4 terms; all values')
    pos = ('poseidon.rs', 'poseidon_hash.rs')
    rl = [x for l in literals(10, 400, pos, 6) for x in (l, l + 1)]
    for k, w in ((2, 3), (4, 5), (8, 9)):
        rs_ = [(1, 1, 1), (4, 4, 56), (3, 2, 9)] + ([(4, 4, 140)] if w < 9 or big else [])
        rs_ += [(1, 1, l) for l in rl if l <= 200 // (w // 3)] + [(2, 2, l // w + 1) for l in rl if l // w <= 200 // (w // 3)] + [(l, 1, 2) for l in rl if l <= 40 // (w // 3)] + [(1, l, 2) for l in rl if l <= 40 // (w // 3)]
        for rr, kd in [(rr, 'Quint') for rr in dict.fromkeys(rs_)] + [((2, 1, 3), 'Cube'), ((2, 1, 3), 'Inverse')]:
            pp = PP(w, *rr, off=7)
            t = '%s.w=%d.rounds=%d+%d+%d' % (kd, w, rr[0], rr[2], rr[1])
            yield Ob('C11.all.perm.' + t, ['Poseidon_permutation'], 'documented round structure, every input, over the S-box contract', perm_all(pp, kd), scope='rounds and width as named, generic constants; all inputs', timeout=150)
            yield Ob('C11.all.hash.%d.' % k + t, ['Poseidon_hash_%d' % k, 'Poseidon_hash_%d_gadget' % k, 'Poseidon_hash_%d_constraints' % k, 'Poseidon_permutation_constraints',
                     'prove_knowledge_of_preimage_of_Poseidon_%d' % k, 'verify_knowledge_of_preimage_of_Poseidon_%d' % k],
                     'native hash = circuit on both sides, every input and image, over the S-box contract', hash_all(k, pp, kd), scope='rounds and width as named, generic constants; all inputs', timeout=150)
    for w in (3, 5, 9):
        yield Ob('C11.tables.w=%d' % w, ['PoseidonParams::new', 'gen_round_keys', 'gen_MDS_matrix'], 'constants are those of the published tables', tables(w))
