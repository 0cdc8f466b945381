"""Circuits as systems of polynomial equations: what the crate's gadget code records on a verifier (statement) and on a prover
(honest witness)."""
from common import *
import alg
from gad import fc, fl, CONSTS, params, SB


def alloc(v, x=None):
    return St('AllocatedQuantity', {'variable': v, 'assignment': NONE if x is None else Some(x)})


class Stmt:
    """constraint system recorded on a verifier"""

    def __init__(self, h, fn, ncom, what):
        self.h = h

        def go():
            vf = h.verifier(h.transcript('t'))
            vs = [h.ex.deref(h.meth(vf, 'commit', fsym('Vc', i))) for i in range(ncom)]
            r = fn(vf, vs)
            if isinstance(h.ex.deref(r), En):
                ok(h.ex.deref(r), what)
            return vf
        self.vf = single(h, go, what)
        self.n = h.num_vars(self.vf).c
        self.cons = [h.lc_eval(c, atom_val) for c in h.constraints(self.vf)]
        self.gates = [fsym('AL', i) * fsym('AR', i) - fsym('AO', i) for i in range(self.n)]
        self.ncom = ncom

    def eqs(self):
        return self.cons + self.gates

    def system(self):
        return alg.System(self.eqs())

    def holds(self, val):
        """do all equations hold under the numeric assignment {atom: int}?"""
        def asg(a):
            return val.get(a, 0)
        return all(num_eval(self.h.ex, e, asg) == 0 for e in self.eqs())

    def witness(self, sol, V):
        """a malicious witness in the form the replay harness takes"""
        g = lambda nm, i: sol.get(fatom(nm, i), 0)
        return {'V': [str(x) for x in V], 'L': [str(g('AL', i)) for i in range(self.n)], 'R': [str(g('AR', i)) for i in range(self.n)],
                'O': [str(g('AO', i)) for i in range(self.n)]}


def path_models(h, fn):
    """concrete values for the symbols that steer fn: one assignment {atom: int} per path on which fn's outcome depends on them"""
    out = []
    outs = h.ex.explore(fn)
    if len(outs) < 2 and not any(o.st.panics for o in outs):
        return out
    for o in outs:
        pcs = [list(o.st.pc)] + [list(o.st.pc) + [p[2]] for p in o.st.panics]
        for pc in pcs:
            m = model_of(h, pc)
            if m is not None:
                out.append(m)
    return out


def model_of(h, pc):
    """an assignment of field and integer atoms satisfying the conditions, or None"""
    import z3
    eqs, neg, ints = [], [], []
    work = list(pc)
    while work:
        c = work.pop(0)
        if isinstance(c, bool):
            if not c:
                return None
        elif c[0] == 'and':
            work = list(c[1]) + work
        elif c[0] == 'feq':
            eqs.append(h.ex.unfold(P(c[1])))
        elif c[0] == 'not' and isinstance(c[1], tuple) and c[1][0] == 'feq':
            neg.append(h.ex.unfold(P(c[1][1])))
        else:
            ints.append(c)
    iv = {}
    if ints:
        ax = {}
        z = z3.Solver()
        z.set('timeout', 3000)
        for c in ints:
            z.add(h.ex.sol.zbool(c, ax))
        for l in ax.values():
            for c in l:
                z.add(c)
        if str(z.check()) != 'sat':
            return None
        mo = z.model()
        keys = {key(a): a for c in ints for a in int_atoms(c)}
        for k, a in keys.items():
            v = h.ex.sol.ints.get(k)
            if v is not None and mo[v] is not None:
                iv[a] = mo[v].as_long()
    for seed in range(8):
        asg = dict(iv)
        base = rand_assign(300 + seed)
        get = lambda a: asg[a] if a in asg else base(a)
        good, pinned = True, set()
        try:
            for e in eqs:
                cand = [a for a in sorted(alg.pvars(e), key=repr) if a[0] == 'f' and a not in pinned and alg.degree_in(e, a) == 1]
                if not cand:
                    good = e.is_zero()
                    if not good:
                        break
                    continue
                a = cand[seed % len(cand)]
                asg[a] = 0
                c0 = num_eval(h.ex, e, get)
                asg[a] = 1
                c1 = (num_eval(h.ex, e, get) - c0) % MODP
                if c1 == 0:
                    good = False
                    break
                asg[a] = -c0 * pow(c1, -1, MODP) % MODP
                pinned |= alg.pvars(e)
            if good and all(num_eval(h.ex, e, get) == 0 for e in eqs) and all(num_eval(h.ex, e, get) != 0 for e in neg):
                return get
        except NotNumeric:
            continue
    return None


def int_atoms(b):
    out = set()
    st = [b]
    while st:
        x = st.pop()
        if isinstance(x, Lin):
            for a, _ in x.t:
                out.add(a)
                st.extend(a[1:])
        elif isinstance(x, tuple):
            st.extend(x)
    return out


def fatom(nm, *ix):
    p = fsym(nm, *ix)
    (mo,) = p.m
    return mo[0][0]


PREF = {'AO': 3, 'AL': 2, 'AR': 1}


def prefer(a):
    return PREF.get(a[1], 0) if a[0] == 'f' else 0


def honest(h, fn, vals, what):
    """run a gadget on a prover with committed values `vals`; returns (prover, constraint residuals)"""
    def go():
        pv = h.prover(h.transcript('t'))
        vs = []
        for i, x in enumerate(vals):
            vs.append(h.ex.deref(h.ex.deref(h.meth(pv, 'commit', x, fsym('bl', i))).xs[1]))
        r = fn(pv, vs)
        if isinstance(h.ex.deref(r), En):
            ok(h.ex.deref(r), what)
        return pv
    return go


def complete(h, fn, vals, what, cex=None):
    """honest prover: every constraint holds under the recorded assignment, on every path"""
    outs = val1(h.ex.explore(honest(h, fn, vals, what)), what)
    if not outs:
        raise Undecided('no path')
    for o in outs:
        h.ex.st = o.st
        val = h.prover_val(o.v)
        for i, c in enumerate(h.constraints(o.v)):
            if not h.zero(h.lc_eval(c, val)):
                raise Refuted('%s: constraint %d of the honest prover does not hold (%s) when %s' % (
                    what, i, poly_str(h.lc_eval(c, val))[:200], pc_str(o.st)), cex)
        s = h.ex.deref(o.v)
        for i, (a, b, c) in enumerate(zip(s.f['a_L'].items(), s.f['a_R'].items(), s.f['a_O'].items())):
            if not h.zero(h.ex.P(a) * h.ex.P(b) - h.ex.P(c)):
                raise Refuted('%s: multiplier %d of the honest prover does not multiply' % (what, i), cex)
    return outs


def solve(st, V, limit=20000):
    """is the statement satisfiable for these numeric committed values?  -> alg.Result"""
    s = st.system()
    s.limit = limit
    return s.solve({fatom('V', i): Poly.const(x % MODP) for i, x in enumerate(V) if x is not None}, prefer)


def must_reject(st, V, what, gadget):
    r = solve(st, V)
    if r.sat:
        full = [x if x is not None else r.sol.get(fatom('V', i), 0) for i, x in enumerate(V)]
        val = dict(r.sol)
        for i, x in enumerate(full):
            val[fatom('V', i)] = x % MODP
        if not st.holds(val):
            raise Undecided('%s: spurious solution' % what)
        raise Refuted('%s: a false statement is satisfiable, committed values %s' % (what, full), dict(gadget, kind='evil', **st.witness(r.sol, [x % MODP for x in full])))
    if r.sat is None:
        raise Undecided('%s: %s' % (what, r.why))


def must_accept(st, V, what, gadget=None):
    r = solve(st, V)
    if r.sat is False:
        raise Refuted('%s: a true statement is unsatisfiable, committed values %s' % (what, V), gadget)
    if r.sat is None:
        raise Undecided('%s: %s' % (what, r.why))


# ------------------------------------------------------------ elimination with a chosen set of parameters

def put1(x, a, v):
    """subst(x, {a: v}) when the atoms of x are plain unknowns"""
    acc, hit = {}, {}
    for mo, c in x.m.items():
        for i, (b, e) in enumerate(mo):
            if b == a:
                if e.t or e.c < 1:
                    return subst(x, {a: v})
                k = mo[:i] + mo[i + 1:]
                hit.setdefault(e.c, {})[k] = c
                break
        else:
            acc[mo] = c
    r = Poly(acc)
    for n, d in hit.items():
        w = v
        for _ in range(n - 1):
            w = w * v
        q = Poly(d)
        r = r + (q * w)
    return r


def plain(a):
    return a[0] == 'f' and all(type(x) is int or type(x) is Lin and not x.t for x in a[2:])


def eliminate(eqs, keep, pref=None):
    """Gaussian elimination of every variable not in `keep` that occurs linearly with a constant coefficient.
    Returns (residual equations, substitution list)"""
    pr = pref or prefer
    okey = {}

    def order(a):
        k = okey.get(a)
        if k is None:
            k = okey[a] = (-pr(a), key(a))
        return k

    def cand(e, vs):
        for a in sorted((a for a in vs if not keep(a)), key=order):
            sp = alg.split_linear(e, a)
            if sp is not None:
                return a, sp
        return None
    rows = []
    for e in eqs:
        if not e.is_zero():
            vs = alg.pvars(e)
            rows.append([e, vs, all(plain(a) for a in vs), 0])      # 0: candidate not computed yet
    trail = []
    while True:
        best = None
        for row in sorted(rows, key=lambda r: len(r[0].m)):
            if row[3] == 0:
                row[3] = cand(row[0], row[1])
            if row[3] is not None:
                best = row
                break
        if best is None:
            return [r[0] for r in rows], trail
        a, (c, r) = best[3]
        v = (-r).scale(pow(alg.ci(c), -1, MODP))
        trail.append((a, v))
        out = []
        for row in rows:
            if row is best:
                continue
            if a in row[1]:
                y = put1(row[0], a, v) if row[2] else subst(row[0], {a: v})
                if y.is_zero():
                    continue
                vs = alg.pvars(y)
                row = [y, vs, all(plain(b) for b in vs), 0]
            out.append(row)
        rows = out


def is_bit_eq(e):
    """b^2 - b (up to a constant)?"""
    vs = alg.pvars(e)
    if len(vs) != 1:
        return None
    a = next(iter(vs))
    f = alg.univ(e, a)
    if len(f) == 3 and f[0] == 0 and (f[1] + f[2]) % MODP == 0 and f[2] % MODP:
        return a
    return None


def linear(e):
    """{atom: coefficient}, constant -- or None"""
    d = {}
    c0 = 0
    for mo, c in e.m.items():
        c = fr(c)
        if not mo:
            c0 = c
        elif len(mo) == 1 and mo[0][1].is_const() and mo[0][1].c == 1:
            d[mo[0][0]] = c
        else:
            return None
    return d, c0


def in_span(rows, e):
    """is the linear form e in the span of the linear forms rows?  (rows: list of Poly)"""
    rows = [linear(r) for r in rows]
    x = linear(e)
    cols = sorted({a for d, _ in rows + [x] for a in d}, key=key) + [None]
    M = [[(d.get(c, 0) if c is not None else k) % MODP for c in cols] for d, k in rows]
    v = [(x[0].get(c, 0) if c is not None else x[1]) % MODP for c in cols]
    r = 0
    for j in range(len(cols)):
        p = next((i for i in range(r, len(M)) if M[i][j]), None)
        if p is None:
            continue
        M[r], M[p] = M[p], M[r]
        inv = pow(M[r][j], -1, MODP)
        M[r] = [y * inv % MODP for y in M[r]]
        for i in range(len(M)):
            if i != r and M[i][j]:
                f = M[i][j]
                M[i] = [(y - f * z) % MODP for y, z in zip(M[i], M[r])]
        if v[j]:
            f = v[j]
            v = [(y - f * z) % MODP for y, z in zip(v, M[r])]
        r += 1
    return not any(v)
