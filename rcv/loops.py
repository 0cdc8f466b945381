"""Loops with a symbolic number of iterations: infer a closed form F(k) of the state after k iterations and prove it by induction
(F(0) = entry state; one run of the body from F(k), k arbitrary, gives F(k+1)).  Only a proved form is used."""
from values import *
from terms import *
from exec import BreakE, ContE, RetE, PanicE, Infeasible, NeedFork, Env

MISSING = object()


class Refit(Exception):
    pass


def leaves(a, b, path=()):
    """paths at which b differs from a"""
    if a is b:
        return
    if isinstance(a, (St, Tup, En, Opq)) and type(a) is type(b):
        if isinstance(a, St) and a.name == b.name and set(a.f) == set(b.f):
            for k in a.f:
                yield from leaves(a.f[k], b.f[k], path + (('f', k),))
            return
        if isinstance(a, Tup) and len(a.xs) == len(b.xs):
            for i, (x, y) in enumerate(zip(a.xs, b.xs)):
                yield from leaves(x, y, path + (('t', i),))
            return
        if isinstance(a, En) and a.var == b.var and len(a.args) == len(b.args):
            for i, (x, y) in enumerate(zip(a.args, b.args)):
                yield from leaves(x, y, path + (('a', i),))
            return
        if isinstance(a, Opq) and a.kind == b.kind and len(a.data) == len(b.data):
            for i, (x, y) in enumerate(zip(a.data, b.data)):
                yield from leaves(x, y, path + (('d', i),))
            return
    try:
        if a == b:
            return
    except Exception:
        pass
    yield path


def at(v, path):
    for k, x in path:
        v = v.f[x] if k == 'f' else v.xs[x] if k == 't' else v.args[x] if k == 'a' else v.data[x]
    return v


def put(v, path, w):
    if not path:
        return w
    (k, x), rest = path[0], path[1:]
    if k == 'f':
        return v.set(x, put(v.f[x], rest, w))
    if k == 't':
        return Tup(put(y, rest, w) if i == x else y for i, y in enumerate(v.xs))
    if k == 'a':
        return En(v.name, v.var, [put(y, rest, w) if i == x else y for i, y in enumerate(v.args)])
    return Opq(v.kind, *[put(y, rest, w) if i == x else y for i, y in enumerate(v.data)])


def same(ex, a, b, depth=0):
    """proved equal under the current path condition?"""
    import harn
    if a is b:
        return True
    try:
        if a == b:
            return True
    except Exception:
        pass
    if isinstance(a, Lin) and isinstance(b, Lin):
        return ex.decide(b_eq(a, b)) is True
    if isinstance(a, (Lin, Poly)) and isinstance(b, (Lin, Poly)):
        d = P(a) - P(b)
        if d.is_zero():
            return True
        try:
            return bool(harn.zero_poly(ex, d)) or bool(harn.zero_cases(ex, ex.unfold(d), [c for c in ex.st.pc if not isinstance(c, bool)], 0, True))
        except Exception:
            return False
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs):
        return all(same(ex, x, y, depth) for x, y in zip(a.xs, b.xs))
    if isinstance(a, St) and isinstance(b, St) and a.name == b.name and set(a.f) == set(b.f):
        return all(same(ex, a.f[k], b.f[k], depth) for k in a.f)
    if isinstance(a, En) and isinstance(b, En) and a.var == b.var and len(a.args) == len(b.args):
        return all(same(ex, x, y, depth) for x, y in zip(a.args, b.args))
    if isinstance(a, Opq) and isinstance(b, Opq) and a.kind == b.kind and len(a.data) == len(b.data):
        return all(same(ex, x, y, depth) for x, y in zip(a.data, b.data))
    if isinstance(a, SymVar) and isinstance(b, SymVar):
        return same(ex, a.tag, b.tag) and same(ex, a.idx, b.idx)
    if is_bool(a) and is_bool(b):
        return ex.decide(b_or(b_and(a, b), b_and(b_not(a), b_not(b)))) is True
    if isinstance(a, Bytes) and isinstance(b, Bytes) and len(a.parts) == len(b.parts):
        return all(x == y if isinstance(x, str) or isinstance(y, str) else x[:2] == y[:2] and len(x) == len(y) and all(same(ex, p, q) for p, q in zip(x[2:], y[2:]))
                   for x, y in zip(a.parts, b.parts))
    if isinstance(a, Seq) and isinstance(b, Seq):
        return seq_same(ex, a, b, depth)
    return False


def cuts(s):
    out, off = [], Lin(0)
    for g in s.segs:
        n = g.length()
        if n is None:
            return None
        off = off + n
        out.append(off)
    return out


def seq_same(ex, a, b, depth=0):
    la, lb = a.length(), b.length()
    if la is None or lb is None or depth > 3:
        return False
    if ex.decide(b_eq(la, lb)) is not True:
        return False
    j = Lin.atom(('i', '$j%d' % fresh_id()))
    base = ex.st
    cs = cuts(a)[:-1] + cuts(b)[:-1]
    try:
        # generic position, split at every segment boundary
        work = [[b_ge0(j), b_ge0(la - 1 - j)]]
        for c in dict.fromkeys(cs):
            nxt = []
            for w in work:
                for t in (b_ge0(c - 1 - j), b_ge0(j - c)):
                    if t is False:
                        continue
                    w2 = w + ([t] if t is not True else [])
                    if ex.sol.sat(list(ex.hyp) + list(base.pc) + [x for x in w2 if not isinstance(x, bool)]) != 'unsat':
                        nxt.append(w2)
            work = nxt
            if len(work) > 24:
                return False
        for w in work:
            ex.st = base.clone()
            for c in w:
                ex.st.assume(c)
            ex.merging += 1
            jj = next((c for c in [Lin(0)] + list(dict.fromkeys(cs)) if ex.decide(b_eq(j, c)) is True), j)
            try:
                x, y = simp(ex, ex.seq_get(a, jj)), simp(ex, ex.seq_get(b, jj))
                if not same(ex, x, y, depth + 1):
                    return False
            except (NeedFork, PanicE, CannotMerge):
                return False
            finally:
                ex.merging -= 1
    finally:
        ex.st = base
    return True


def simp(ex, v):
    """resolve the case distinctions the path condition decides"""
    if isinstance(v, Lin):
        for a, co in v.t:
            if a[0] == 'ia' and a[1] == 'ite':
                c, x, y = a[2:5]
                d = ex.decide(c)
                if d is not None:
                    return simp(ex, v - Lin.atom(a).scale(co) + (x if d else y).scale(co))
        return v
    if isinstance(v, Tup):
        return Tup(simp(ex, x) for x in v.xs)
    if isinstance(v, St):
        return St(v.name, {k: simp(ex, x) for k, x in v.f.items()})
    if isinstance(v, En):
        return En(v.name, v.var, [simp(ex, x) for x in v.args])
    if isinstance(v, SymVar):
        return SymVar(simp(ex, v.tag), simp(ex, v.idx))
    return v


class Summ:
    """one loop over one family segment"""

    def __init__(self, ex, n, seg, env):
        self.ex, self.n, self.seg, self.env = ex, n, seg, env
        self.N = seg.n
        self.kat = ('i', '$L%d' % fresh_id())
        self.k = Lin.atom(self.kat)
        self.base = ex.st
        self.r0 = getattr(ex, 'rnd_count', 0)
        self.forms = {}       # (cell, path) -> function Lin -> value, or None while unsolved
        self.atoms = {}       # (cell, path) -> stand-in atom

    def state(self, k):
        """F(k)"""
        st = self.base.clone()
        for (cid, path), f in self.forms.items():
            v = f(k) if f is not None else self.atoms.get((cid, path), MISSING)
            if v is not MISSING:
                st.cells[cid] = put(st.cells[cid], path, v)
        return st

    def body(self, st):
        """one iteration at index k from st; returns (state, number of random draws)"""
        ex, k = self.ex, self.k
        ex.st = st
        ex.st.assume(b_ge0(k))
        ex.st.assume(b_ge0(self.N - 1 - k))
        saved = (ex.merging, getattr(ex, 'loop_ix', ()), ex.rnd_count)
        np = len(st.panics)
        ex.merging += 1
        ex.loop_ix = saved[1] + (k,)
        ex.rnd_count = self.r0
        try:
            vs = [self.seg.v] if self.seg.k == 'f' else list(self.seg.v)
            for v in vs:
                e2 = Env(self.env)
                ex.bind(self.n.pat, subst_val(v, {self.seg.ix: k}), e2)
                try:
                    ex.ev(self.n.body, e2)
                except ContE as b:
                    if b.label is not None and b.label != self.n.label:
                        raise Unsupported('loop with symbolic bound: labelled continue')
            return ex.st, ex.rnd_count, ex.st.panics[np:]
        except NeedFork:
            raise Unsupported('loop with symbolic bound: the body branches on a symbolic condition')
        except (BreakE, RetE):
            raise Unsupported('loop with symbolic bound: leaves the loop early')
        except PanicE as e:
            raise Unsupported('loop with symbolic bound: panic in the body (%s)' % e.why)
        except Infeasible:
            raise Unsupported('loop with symbolic bound: infeasible body')
        except CannotMerge as e:
            raise Unsupported('loop with symbolic bound: %s' % e)
        finally:
            ex.merging, ex.loop_ix, ex.rnd_count = saved

    def run(self):
        ex = self.ex
        try:
            return self.go()
        finally:
            pass

    def diff(self, st0, st1):
        out = []
        for cid in self.base.cells:
            a, b = st0.cells[cid], st1.cells[cid]
            if a is not b:
                out += [(cid, p) for p in leaves(a, b)]
        return out

    def go(self):
        ex = self.ex
        base = self.base
        fixed = None
        for rnd in range(8):
            st0 = self.state(self.k)
            st1, r1, panics = self.body(st0.clone())
            ch = self.diff(st0, st1)
            new = [c for c in ch if c not in self.forms]
            # a changed leaf below / above one already known: give up
            for c in new:
                if any(c[0] == o[0] and (c[1][:len(o[1])] == o[1] or o[1][:len(c[1])] == c[1]) for o in self.forms):
                    raise Unsupported('loop with symbolic bound: overlapping changes')
            if not new and all(f is not None for f in self.forms.values()):
                # verify
                if self.verify(st1):
                    return self.finish(r1, panics)
                if rnd >= 6:
                    break
                self.refit(st0, st1)
                continue
            for c in new:
                self.forms[c] = None
                v = at(base.cells[c[0]], c[1])
                if isinstance(v, Poly):
                    self.atoms[c] = fsym('$acc', fresh_id())
                elif isinstance(v, Lin):
                    self.atoms[c] = isym('$acc%d' % fresh_id())
            if any(c in self.atoms for c in new):
                st0 = self.state(self.k)
                st1, r1, panics = self.body(st0.clone())
            self.refit(st0, st1)
        raise Unsupported('loop with symbolic bound: no closed form found')

    # ------------------------------------------------------------------
    def refit(self, st0, st1):
        ex, k, kat = self.ex, self.k, self.kat
        unsolved = {atom_of(v) for c, v in self.atoms.items() if self.forms[c] is None}
        prog = False
        for c, f in list(self.forms.items()):
            v0 = at(self.base.cells[c[0]], c[1])
            a, b = at(st0.cells[c[0]], c[1]), at(st1.cells[c[0]], c[1])
            if isinstance(v0, (Poly, Lin)) and f is None:
                g = self.fit_num(c, v0, b, unsolved)
                if g is not None:
                    self.forms[c] = g
                    unsolved.discard(atom_of(self.atoms[c]))
                    prog = True
            elif isinstance(v0, Seq):
                if val_atoms(b) & unsolved and f is None and unsolved - {None}:
                    continue
                g = self.fit_seq(v0, a, b)
                if g is not None:
                    self.forms[c] = g
                    prog = True
        if not prog:
            raise Unsupported('loop with symbolic bound: no closed form for %s' % [
                (c[1], type(at(self.base.cells[c[0]], c[1])).__name__) for c, f in self.forms.items() if f is None][:4])

    def fit_num(self, c, v0, b, unsolved):
        x = self.atoms[c]
        xa = atom_of(x)
        k, kat = self.k, self.kat
        others = unsolved - {xa}
        if isinstance(v0, Lin):
            if not isinstance(b, Lin):
                return None
            d = b - x
            if val_atoms(d) & (unsolved | {xa}):
                return None
            if not depends(d, kat):
                return lambda t, v0=v0, d=d: v0 + d.mul(t)
            return None
        b = P(b)
        if val_atoms(b) & others:
            return None
        # b = u * x + w
        u, w = {}, {}
        for mo, co in b.m.items():
            e = dict(mo).get(xa)
            if e is None:
                w[mo] = co
            elif e == Lin(1):
                u[tuple(y for y in mo if y[0] != xa)] = co
            else:
                return None
        u, w = Poly(u), Poly(w)
        if xa in val_atoms(u) or xa in val_atoms(w):
            return None
        if u == ONE:
            return lambda t, v0=v0, w=w: v0 + mk_sum(kat, w, Lin(0), t)
        if w.is_zero():
            return lambda t, v0=v0, u=u: v0 * mk_prod(kat, u, Lin(0), t)
        return None

    def fit_seq(self, v0, a, b):
        """v0 the entry value, a before and b after iteration k"""
        ex, k, kat = self.ex, self.k, self.kat
        na = len(a.segs)
        if len(b.segs) > na and Seq(b.segs[:na]) == Seq(a.segs) and all(g.k == 'e' for g in b.segs[na:]):
            els = tuple(g.v for g in b.segs[na:])
            return lambda t, v0=v0, els=els: v0.cat(Seq([Seg('b', L(t), kat, els)]))
        la, lb = a.length(), b.length()
        if la is None or lb is None or la != lb and ex.decide(b_eq(la, lb)) is not True:
            return None
        saved = ex.st
        try:
            ex.st = self.base.clone()
            ex.st.assume(b_ge0(k))
            ex.st.assume(b_ge0(self.N - 1 - k))
            ex.merging += 1
            try:
                # store at position k
                if ex.decide(b_ge0(la - 1 - k)) is True:
                    j = Lin.atom(('i', '$j%d' % fresh_id()))
                    e = ex.seq_get(b, k)
                    okk = True
                    for cnd in ((b_ge0(j), b_ge0(k - 1 - j)), (b_ge0(j - k - 1), b_ge0(la - 1 - j))):
                        s2 = ex.st
                        ex.st = s2.clone()
                        for cc in cnd:
                            ex.st.assume(cc)
                        try:
                            if not same(ex, ex.seq_get(b, j), ex.seq_get(a, j)):
                                okk = False
                        finally:
                            ex.st = s2
                        if not okk:
                            break
                    if okk:
                        N = self.N
                        full = ex.decide(b_eq(la, N)) is True

                        def form(t, v0=v0, e=e, la=la, full=full):
                            ix = fresh_ix()
                            head = Seg('f', L(t), ix, subst_val(e, {kat: Lin.atom(ix)}))
                            if full and L(t) == N:
                                return Seq([head])
                            return Seq([head]).cat(ex.seq_slice(v0, L(t), la, check=False))
                        return form
                # scatter: elements change by an amount that depends on k
                ds = []
                if len(a.segs) == len(b.segs) == len(v0.segs) and all(x.k == y.k == z.k and x.n == y.n == z.n for x, y, z in zip(a.segs, b.segs, v0.segs)):
                    for x, y, z in zip(a.segs, b.segs, v0.segs):
                        if x.k == 'b':
                            return None
                        q = ('i', '$q%d' % fresh_id())
                        m = lambda g: g.v if g.k == 'e' else subst_val(g.v, {g.ix: Lin.atom(q)})
                        xv, yv, zv = m(x), m(y), m(z)
                        if not (isinstance(xv, (Poly, Lin)) and isinstance(yv, (Poly, Lin)) and isinstance(zv, (Poly, Lin))):
                            return None
                        ds.append((z.k, z.n, q, P(zv), P(yv) - P(xv)))

                    def form(t, ds=ds):
                        out = []
                        for kk, n, q, zv, d in ds:
                            v = zv + mk_sum(kat, d, Lin(0), L(t))
                            if kk == 'e':
                                out.append(Seg('e', None, None, v))
                            else:
                                out.append(Seg('f', n, q, v))
                        return Seq(out)
                    return form
            finally:
                ex.merging -= 1
        except (NeedFork, PanicE, CannotMerge):
            return None
        finally:
            ex.st = saved
        return None

    def verify(self, st1):
        ex = self.ex
        saved = ex.st
        want = self.state(self.k + 1)
        zero = self.state(Lin(0))
        try:
            ex.st = self.base.clone()
            for c in self.forms:
                if not same(ex, at(zero.cells[c[0]], c[1]), at(self.base.cells[c[0]], c[1])):
                    return False
            ex.st = self.base.clone()
            ex.st.assume(b_ge0(self.k))
            ex.st.assume(b_ge0(self.N - 1 - self.k))
            for c in self.forms:
                if not same(ex, at(st1.cells[c[0]], c[1]), at(want.cells[c[0]], c[1])):
                    return False
        finally:
            ex.st = saved
        return True

    def finish(self, r1, panics):
        ex = self.ex
        st = self.state(self.N)
        st.nid = max(st.nid, ex.st.nid)
        st.panics = self.base.panics + tuple(panics)
        ex.rnd_count = r1
        ex.st = st
        ex.loops = getattr(ex, 'loops', 0) + 1


def atom_of(x):
    if isinstance(x, Lin):
        return x.t[0][0]
    (mo, _), = x.m.items()
    return mo[0][0]


class Handler:
    def for_loop(self, ex, n, it, env):
        for seg in it.segs:
            if seg.k == 'e':
                e2 = Env(env)
                ex.bind(n.pat, seg.v, e2)
                try:
                    ex.ev(n.body, e2)
                except BreakE as b:
                    if b.label is not None and b.label != n.label:
                        raise
                    return UNIT
                except ContE as b:
                    if b.label is not None and b.label != n.label:
                        raise
                continue
            if seg.n is None:
                raise Unsupported('loop over an infinite iterator')
            base, rc = ex.st, getattr(ex, 'rnd_count', 0)
            ok = False
            try:
                Summ(ex, n, seg, env).run()
                ok = True
            finally:
                if not ok:
                    ex.st, ex.rnd_count = base, rc
        return UNIT

    def while_loop(self, ex, n, env):
        raise Unsupported('while loop with symbolic bound')
