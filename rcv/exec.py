"""Symbolic executor for the Rust subset used by the crate."""
import sys
from terms import *
from values import *
from prog import Prog, Fn, ty_name
from rparse import N
from solver import Solver

sys.setrecursionlimit(20000)


class RetE(Exception):
    def __init__(self, v):
        self.v = v


class BreakE(Exception):
    def __init__(self, label=None, v=None):
        self.label = label
        self.v = v


class ContE(Exception):
    def __init__(self, label=None):
        self.label = label


class PanicE(Exception):
    def __init__(self, why, line=0):
        self.why = why
        self.line = line


class Infeasible(Exception):
    pass


class NeedFork(Exception):
    """raised inside a merge attempt when a fork is needed"""


class State:
    __slots__ = ('cells', 'pc', 'nid', 'panics')

    def __init__(self):
        self.cells = {}
        self.pc = ()
        self.nid = 0
        self.panics = ()

    def clone(self):
        s = State()
        s.cells = dict(self.cells)
        s.pc = self.pc
        s.nid = self.nid
        s.panics = self.panics
        return s

    def new(self, v):
        self.nid += 1
        self.cells[self.nid] = v
        return self.nid

    def assume(self, c):
        if c is True:
            return
        if isinstance(c, tuple) and c[0] == 'and':
            for x in c[1]:
                self.assume(x)
            return
        if c not in self.pc:
            self.pc = self.pc + (c,)


class Env:
    __slots__ = ('vars', 'up', 'fn', 'self_ty', 'items', 'tymap')

    def __init__(self, up=None, fn=None):
        self.vars = {}
        self.up = up
        self.fn = fn or (up.fn if up else None)
        self.self_ty = up.self_ty if up else None
        self.items = {}
        self.tymap = up.tymap if up else {}

    def find(self, n):
        e = self
        while e is not None:
            if n in e.vars:
                return e.vars[n]
            e = e.up
        return None

    def finditem(self, n):
        e = self
        while e is not None:
            if n in e.items:
                return e.items[n]
            e = e.up
        return None


class Outcome:
    __slots__ = ('kind', 'v', 'st')

    def __init__(self, kind, v, st):
        self.kind = kind
        self.v = v
        self.st = st


class Exec:
    UNROLL = 5000

    def __init__(self, prog, mode='gadget'):
        self.prog = prog
        self.mode = mode
        self.sol = Solver()
        self.st = State()
        self.contracts = {}       # fn key suffix -> py callable(ex, args, fn)
        self.script = None
        self.pos = 0
        self.alts = None
        self.merging = 0
        self.used = {}            # fn keys executed -> count
        self.assumptions = set()
        self.loop_handler = None
        self.hyp = []             # global hypotheses
        self.fuel = 20000000
        self.summarise = True
        self.obl_nonzero = []
        self.poly_nonzero = set()  # polys assumed non-zero (challenges)

    # ---------------------------------------------------------------- deciding
    def decide(self, c):
        if isinstance(c, bool):
            return c
        return self.sol.decide(tuple(self.hyp) + self.st.pc, c)

    def branch(self, c):
        """decide or fork"""
        d = self.decide(c)
        if d is not None:
            return d
        if self.merging:
            raise NeedFork()
        if self.script is None:
            raise Unsupported('fork outside exploration: %s' % bool_str(c))
        if self.pos < len(self.script):
            ch = self.script[self.pos]
        else:
            ch = True
            self.alts.append(self.script + [False])
            self.script = self.script + [True]
        self.pos += 1
        self.st.assume(c if ch else b_not(c))
        return ch

    def explore(self, fn, limit=400):
        """run fn() from the current state over all forks; returns outcomes.  fn returns a value."""
        base = self.st
        saved = (self.script, self.pos, self.alts, self.merging)
        outs = []
        work = [[]]
        n = 0
        self.merging = 0
        rc0 = getattr(self, 'rnd_count', 0)
        try:
            while work:
                n += 1
                if n > limit:
                    raise Unsupported('too many paths')
                sc = work.pop()
                self.st = base.clone()
                self.rnd_count = rc0
                self.script = sc
                self.pos = 0
                self.alts = []
                try:
                    v = fn()
                    outs.append(Outcome('ret', v, self.st))
                except PanicE as e:
                    outs.append(Outcome('panic', (e.why, e.line), self.st))
                except Infeasible:
                    pass
                except (BreakE, ContE, RetE) as e:
                    outs.append(Outcome(type(e).__name__, e, self.st))
                work.extend(self.alts)
        finally:
            self.script, self.pos, self.alts, self.merging = saved
            self.st = base
        return outs

    def panic_if(self, c, why, line=0):
        d = self.decide(c)
        if d is False:
            return
        if d is True:
            raise PanicE(why, line)
        self.st.panics = self.st.panics + ((why, line, c, self.st.pc),)
        self.st.assume(b_not(c))

    # ---------------------------------------------------------------- places
    def load(self, ref):
        v = self.st.cells[ref.cell]
        for p in ref.path:
            v = self.proj(v, p)
        return v

    def proj(self, v, p):
        while isinstance(v, MutRef):
            v = self.load(v)
        k, x = p
        if k == 'f':
            if isinstance(v, St):
                if x in v.f:
                    return v.f[x]
                raise Unsupported('no field %s in %s' % (x, v.name))
            if isinstance(v, Tup):
                return v.xs[int(x)]
            raise Unsupported('field %s of %s' % (x, type(v).__name__))
        if k == 't':
            if isinstance(v, Tup):
                return v.xs[x]
            if isinstance(v, St):
                return v.f[str(x)]
            raise Unsupported('tuple proj of %s' % type(v).__name__)
        if k == 'i':
            return self.seq_get(v, x)
        if k == 'v':
            return v.args[x]
        if k == 'm':
            return self.map_get_or(v, x)
        raise Unsupported('proj %r' % (p,))

    def resolve(self, ref):
        """follow MutRefs stored along the path"""
        v = self.st.cells[ref.cell]
        cell = ref.cell
        path = []
        for p in ref.path:
            while isinstance(v, MutRef):
                r = self.resolve(v)
                cell, path = r.cell, list(r.path)
                v = self.load(r)
            v = self.proj(v, p)
            path.append(p)
        while isinstance(v, MutRef):
            r = self.resolve(v)
            cell, path = r.cell, list(r.path)
            v = self.load(r)
        return MutRef(cell, path)

    def store(self, ref, val):
        ref = self.resolve(ref)
        self.st.cells[ref.cell] = self.upd(self.st.cells[ref.cell], ref.path, val)

    def upd(self, v, path, val):
        if not path:
            return val
        p, rest = path[0], path[1:]
        k, x = p
        if k == 'f' or k == 't':
            if isinstance(v, St):
                x = str(x)
                return v.set(x, self.upd(v.f.get(x), rest, val))
            if isinstance(v, Tup):
                xs = list(v.xs)
                xs[int(x)] = self.upd(xs[int(x)], rest, val)
                return Tup(xs)
            raise Unsupported('store field')
        if k == 'i':
            old = self.seq_get(v, x) if rest else None
            return self.seq_set(v, x, self.upd(old, rest, val))
        if k == 'v':
            xs = list(v.args)
            xs[x] = self.upd(xs[x], rest, val)
            return En(v.name, v.var, xs)
        if k == 'm':
            return self.map_put(v, x, self.upd(self.map_get_or(v, x) if rest else None, rest, val))
        raise Unsupported('store %r' % (p,))

    def deref(self, v):
        while isinstance(v, MutRef):
            v = self.load(v)
        return v

    # ---------------------------------------------------------------- sequences
    def seq_len(self, s):
        n = s.length()
        if n is None:
            raise Unsupported('length of infinite iterator')
        return n

    def seq_get(self, s, i, line=0):
        s = self.deref(s)
        if isinstance(s, Bytes) or (isinstance(s, Opq) and s.kind == 'bytesarr'):
            return self.bytes_get(s, i)
        if isinstance(s, HMap):
            return self.map_get(s, i)
        if isinstance(s, St) and 'terms' in s.f:
            raise Unsupported('index of LC')
        if isinstance(s, Opq) and s.kind == 'limbs':
            # limbs of a big number: 58 bits each
            return iapp('bits', s.data[0], L(i).mul(Lin(58)), Lin(58))
        if not isinstance(s, Seq):
            raise Unsupported('index of %s' % type(s).__name__)
        i = L(i)
        n = s.length()
        if n is not None:
            self.panic_if(b_ge0(i - n), 'index out of bounds', line)
        if i.is_const() and s.concrete():
            if i.c < 0:
                raise PanicE('negative index', line)
            return s.segs[i.c].v
        if s.concrete() and len(s.segs) > 64 and not i.is_const():
            raise Unsupported('symbolic index into long sequence')
        off = Lin(0)
        res = []
        for g in s.segs:
            ln = g.length()
            v = lambda g=g, off=off: self.seg_at(g, i - off)
            if ln is None:
                c = True
            else:
                c = self.decide(b_ge0(off + ln - 1 - i))
                if c is None:
                    c = b_ge0(off + ln - 1 - i)
            if c is True:
                res.append((True, v()))
                break
            if c is not False:
                res.append((c, v()))
                off = off + ln
                continue
            off = off + ln
        if not res:
            raise PanicE('index out of bounds', line)
        r = res[-1][1]
        for c, v in reversed(res[:-1]):
            try:
                r = merge_val(c, v, r)
            except CannotMerge:
                # fork
                for c2, v2 in res:
                    if self.branch(c2):
                        return v2
                return res[-1][1]
        return r

    def seg_at(self, g, j):
        if g.k == 'e':
            return g.v
        if g.k == 'f':
            return subst_val(g.v, {g.ix: j})
        m = len(g.v)
        q = iapp('div', j, Lin(m))
        r = iapp('mod', j, Lin(m))
        if r.is_const():
            return subst_val(g.v[r.c], {g.ix: q})
        vals = [subst_val(x, {g.ix: q}) for x in g.v]
        out = vals[-1]
        for t in range(m - 2, -1, -1):
            out = merge_val(b_eq(r, t), vals[t], out)
        return out

    def seq_set(self, s, i, v, line=0):
        s = self.deref(s)
        if isinstance(s, HMap):
            return self.map_put(s, i, v)
        if not isinstance(s, Seq):
            raise Unsupported('index store into %s' % type(s).__name__)
        i = L(i)
        n = s.length()
        self.panic_if(b_ge0(i - n), 'index out of bounds', line)
        if i.is_const() and s.concrete():
            xs = list(s.segs)
            xs[i.c] = Seg('e', None, None, v)
            return Seq(xs)
        off = Lin(0)
        for t, g in enumerate(s.segs):
            ln = g.length()
            d = self.decide(b_ge0(off + ln - 1 - i))
            if d is True:
                if g.k == 'e':
                    xs = list(s.segs)
                    xs[t] = Seg('e', None, None, v)
                    return Seq(xs)
                if g.k == 'f':
                    j = i - off
                    e = Lin.atom(g.ix)
                    try:
                        nv = merge_val(b_eq(e, j), v, g.v)
                    except CannotMerge:
                        # split the segment
                        return Seq(list(s.segs[:t]) + self.seg_slice(g, Lin(0), j) + [Seg('e', None, None, v)] +
                                   self.seg_slice(g, j + 1, g.n) + list(s.segs[t+1:]))
                    xs = list(s.segs)
                    xs[t] = Seg('f', g.n, g.ix, nv)
                    return Seq(xs)
                raise Unsupported('store into block segment')
            if d is None:
                # unknown segment: merge into every segment
                out = []
                off2 = Lin(0)
                for g2 in s.segs:
                    ln2 = g2.length()
                    if g2.k == 'e':
                        out.append(Seg('e', None, None, merge_val(b_eq(off2, i), v, g2.v)))
                    elif g2.k == 'f':
                        out.append(Seg('f', g2.n, g2.ix, merge_val(b_eq(off2 + Lin.atom(g2.ix), i), v, g2.v)))
                    else:
                        raise Unsupported('store into block segment')
                    off2 = off2 + ln2
                return Seq(out)
            off = off + ln
        raise PanicE('index out of bounds', line)

    def seg_slice(self, g, lo, hi):
        """sub-segment [lo,hi) of a family segment"""
        if g.k == 'e':
            return [g]
        n = None if hi is None else hi - lo
        if g.k == 'f':
            ix = fresh_ix()
            return [Seg('f', n, ix, subst_val(g.v, {g.ix: Lin.atom(ix) + lo}))]
        m = len(g.v)
        lq, lr = iapp('div', lo, Lin(m)), iapp('mod', lo, Lin(m))
        if not lr.is_const():
            raise Unsupported('slice of block segment')
        if hi is None:
            raise Unsupported('infinite block')
        hq, hr = iapp('div', hi, Lin(m)), iapp('mod', hi, Lin(m))
        if not hr.is_const():
            raise Unsupported('slice of block segment')
        out = []
        if lr.c:
            for t in range(lr.c, m):
                out.append(Seg('e', None, None, subst_val(g.v[t], {g.ix: lq})))
            lq = lq + 1
        ix = fresh_ix()
        out.append(Seg('b', hq - lq, ix, tuple(subst_val(x, {g.ix: Lin.atom(ix) + lq}) for x in g.v)))
        for t in range(hr.c):
            out.append(Seg('e', None, None, subst_val(g.v[t], {g.ix: hq})))
        return out

    def seq_slice(self, s, lo, hi, line=0, check=True):
        s = self.deref(s)
        if not isinstance(s, Seq):
            raise Unsupported('slice of %s' % type(s).__name__)
        n = s.length()
        lo = L(lo)
        if hi is None:
            hi = n
        hi = L(hi) if hi is not None else None
        if check and n is not None:
            self.panic_if(b_ge0(lo - hi - 1), 'slice start after end', line)
            self.panic_if(b_ge0(hi - n - 1), 'slice end out of range', line)
        if s.concrete() and lo.is_const() and hi.is_const():
            return Seq(s.segs[lo.c:hi.c])
        if lo == Lin(0) and hi == n:
            return s
        out = []
        off = Lin(0)
        for g in s.segs:
            ln = g.length()
            # intersection of [off,off+ln) with [lo,hi)
            a = self.imax(lo - off, Lin(0))
            if ln is None:
                b = hi - off if hi is not None else None
                b = self.imax(b, Lin(0)) if b is not None else None
            else:
                b = self.imin(hi - off, ln) if hi is not None else ln
            if b is not None and self.decide(b_ge0(a - b)) is True:
                pass
            elif g.k == 'e':
                d = self.decide(b_ge0(b - a - 1))
                if d is None:
                    d = self.branch(b_ge0(b - a - 1))
                if d:
                    out.append(g)
            else:
                if b is not None:
                    # clamp
                    if self.decide(b_ge0(b - a)) is not True:
                        b = self.imax(b, a)
                out.extend(self.seg_slice(g, a, b))
            if ln is None:
                break
            off = off + ln
        return Seq(out)

    def imax(self, a, b):
        d = self.decide(b_ge0(a - b))
        if d is True:
            return a
        if d is False:
            return b
        return a if self.branch(b_ge0(a - b)) else b

    def imin(self, a, b):
        d = self.decide(b_ge0(b - a))
        if d is True:
            return a
        if d is False:
            return b
        return a if self.branch(b_ge0(b - a)) else b

    def seq_zip(self, a, b):
        """zip: common refinement of segments, truncated to the shorter"""
        if a.concrete() and b.concrete():
            return Seq.of([Tup((x.v, y.v)) for x, y in zip(a.segs, b.segs)])
        out = []
        A = list(a.segs)
        B = list(b.segs)
        while A and B:
            x, y = A[0], B[0]
            lx, ly = x.length(), y.length()
            if lx is None and ly is None:
                ix = fresh_ix()
                out.append(Seg('f', None, ix, Tup((subst_val(x.v, {x.ix: Lin.atom(ix)}), subst_val(y.v, {y.ix: Lin.atom(ix)})))))
                break
            if lx is None or (ly is not None and self.decide(b_eq(lx, ly)) is not True and self.lt_fork(ly, lx)):
                n = ly
                A = self.seg_slice(x, n, lx) + A[1:] if x.k != 'e' else A[1:]
                xp = self.seg_slice(x, Lin(0), n) if x.k != 'e' else [x]
                yp = [y]
                B = B[1:]
            elif ly is None or (self.decide(b_eq(lx, ly)) is not True):
                n = lx
                B = self.seg_slice(y, n, ly) + B[1:] if y.k != 'e' else B[1:]
                yp = self.seg_slice(y, Lin(0), n) if y.k != 'e' else [y]
                xp = [x]
                A = A[1:]
            else:
                n = lx
                xp, yp = [x], [y]
                A = A[1:]
                B = B[1:]
            if len(xp) != 1 or len(yp) != 1:
                raise Unsupported('zip of block segments')
            xp, yp = xp[0], yp[0]
            if n.is_const() and n.c == 0:
                continue
            if xp.k == 'e' and yp.k == 'e':
                out.append(Seg('e', None, None, Tup((xp.v, yp.v))))
                continue
            if xp.k == 'b' and yp.k == 'b' and len(xp.v) == len(yp.v):
                ix = fresh_ix()
                e = Lin.atom(ix)
                out.append(Seg('b', xp.n, ix, tuple(Tup((subst_val(p, {xp.ix: e}), subst_val(q, {yp.ix: e}))) for p, q in zip(xp.v, yp.v))))
                continue
            ix = fresh_ix()
            e = Lin.atom(ix)
            out.append(Seg('f', n, ix, Tup((self.seg_at(xp, e), self.seg_at(yp, e)))))
        return Seq(out)

    def lt_fork(self, a, b):
        d = self.decide(b_lt(a, b))
        if d is None:
            d = self.branch(b_lt(a, b))
        return d

    def seq_sum(self, s):
        """sum of field elements of a sequence (values Poly/Lin)"""
        r = ZERO
        for g in s.segs:
            if g.k == 'e':
                r = r + self.P(g.v)
            elif g.n is None:
                raise Unsupported('infinite sum')
            elif g.k == 'f':
                r = r + mk_sum(g.ix, self.P(g.v), Lin(0), g.n)
            else:
                for x in g.v:
                    r = r + mk_sum(g.ix, self.P(x), Lin(0), g.n)
        return r

    def inner(self, a, b, line=0):
        a, b = self.deref(a), self.deref(b)
        z = self.seq_zip(a, b)
        return self.seq_sum(z.map(lambda t: self.P(t.xs[0]) * self.P(t.xs[1])))

    def P(self, v):
        v = self.deref(v)
        if isinstance(v, (Lin, Poly)):
            return P(v)
        raise Unsupported('expected a field/group element, got %s' % type(v).__name__)

    # ---------------------------------------------------------------- maps (HashMap)
    def key_eq(self, a, b):
        """equality condition of two keys"""
        return self.val_eq(a, b)

    def ground_pos(self, m, k):
        """position of key k, None if absent, False if it takes a comparison of symbolic keys"""
        g = ground(self.deref(k))
        if g is None:
            return False
        d = m.index()
        if d is False or d and g[0] != next(iter(d))[0]:
            return False
        return d.get(g)

    def map_find(self, m, k):
        t = self.ground_pos(m, k)
        if t is not False:
            if t is not None:
                return m.ents[t][1]
            if m.base is not None and hasattr(m.base, 'lookup'):
                return m.base.lookup(self, k)
            return None
        for kk, v in reversed(m.ents):
            c = self.key_eq(kk, k)
            if self.branch(c) if not isinstance(c, bool) else c:
                return v
        if m.base is not None and hasattr(m.base, 'lookup'):
            return m.base.lookup(self, k)
        return None

    def map_get(self, m, k, line=0):
        v = self.map_find(m, k)
        if v is None:
            if m.base is not None:
                return self.map_base(m, k)
            raise PanicE('key not in map', line)
        return v

    def map_base(self, m, k):
        raise Unsupported('opaque map')

    def map_get_or(self, m, k):
        return self.map_get(m, k)

    def map_put(self, m, k, v):
        ents = list(m.ents)
        t = self.ground_pos(m, k)
        if t is not False:
            if t is not None:
                ents[t] = (ents[t][0], v)
                return HMap(ents, m.acc, m.base, m.ix)
            ents.append((k, v))
            ix = dict(m.ix)
            ix[ground(self.deref(k))] = len(ents) - 1
            return HMap(ents, m.acc, m.base, ix)
        for t, (kk, _) in enumerate(ents):
            c = self.key_eq(kk, k)
            if self.branch(c) if not isinstance(c, bool) else c:
                ents[t] = (kk, v)
                return HMap(ents, m.acc, m.base)
        ents.append((k, v))
        return HMap(ents, m.acc, m.base)

    # ---------------------------------------------------------------- equality
    def val_eq(self, a, b):
        a, b = self.deref(a), self.deref(b)
        if a is b:
            return True
        if isinstance(a, Lin) and isinstance(b, Lin):
            return b_eq(a, b)
        if isinstance(a, (Lin, Poly)) and isinstance(b, (Lin, Poly)):
            p = P(a) - P(b)
            if getattr(self, 'defs', None):
                try:
                    p = self.unfold(p)
                except TermTooBig:
                    pass
            return b_feq0(p)
        if is_bool(a) and is_bool(b):
            if a == b:
                return True
            return b_or(b_and(a, b), b_and(b_not(a), b_not(b)))
        if isinstance(a, Tup) and isinstance(b, Tup):
            if len(a.xs) != len(b.xs):
                return False
            return b_and(*[self.val_eq(x, y) for x, y in zip(a.xs, b.xs)])
        if isinstance(a, En) and isinstance(b, En):
            if a.var != b.var:
                return False
            return b_and(*[self.val_eq(x, y) for x, y in zip(a.args, b.args)])
        if isinstance(a, SymVar) and isinstance(b, SymVar):
            return b_and(b_eq(a.tag, b.tag), b_eq(a.idx, b.idx))
        if isinstance(a, St) and isinstance(b, St) and a.name == b.name:
            return b_and(*[self.val_eq(a.f[k], b.f[k]) for k in a.f])
        if isinstance(a, Seq) and isinstance(b, Seq):
            if a == b:
                return True
            if a.concrete() and b.concrete():
                if len(a.segs) != len(b.segs):
                    return False
                return b_and(*[self.val_eq(x.v, y.v) for x, y in zip(a.segs, b.segs)])
            la, lb = a.length(), b.length()
            if self.decide(b_eq(la, lb)) is False:
                return False
            raise Unsupported('equality of symbolic sequences')
        if isinstance(a, Bytes) and isinstance(b, Bytes):
            if a == b:
                return True
            if len(a.parts) == len(b.parts) == 1 and not isinstance(a.parts[0], str) and not isinstance(b.parts[0], str) \
                    and a.parts[0][0] == b.parts[0][0] and a.parts[0][1] == b.parts[0][1]:
                return self.val_eq(a.parts[0][2], b.parts[0][2])
            if all(isinstance(x, str) for x in a.parts + b.parts):
                return False
        if isinstance(a, Opq) and isinstance(b, Opq) and a.kind == b.kind == 'big':
            return b_eq(a.data[0], b.data[0])
        if a == b:
            return True
        raise Unsupported('equality of %s and %s' % (type(a).__name__, type(b).__name__))

    # ---------------------------------------------------------------- calls
    def call_fn(self, fn, args, selfv=None, tymap=None):
        c = self.contract_for(fn)
        if c is not None:
            return c(self, ([selfv] if selfv is not None else []) + list(args), fn)
        return self.run_body(fn, args, selfv, tymap)

    def contract_for(self, fn):
        for k, c in self.contracts.items():
            if fn.key == k or fn.key.endswith('/' + k) or fn.key.endswith(k):
                return c
        return None

    def run_body(self, fn, args, selfv=None, tymap=None):
        node = fn.node
        self.used[fn.key] = self.used.get(fn.key, 0) + 1
        self.fuel -= 1
        if node.body is None or node.body.k == 'unparsed':
            raise Unsupported('body of %s not parsed' % fn.key)
        env = Env(None, fn)
        if fn.outer is not None:
            env.up = fn.outer
        env.self_ty = fn.impl_ty.lstrip('&') if fn.impl_ty else (fn.outer.self_ty if fn.outer else None)
        env.tymap = dict(tymap or {})
        if node.selfp is not None:
            env.vars['self'] = self.st.new(selfv)
        params = node.params
        if len(params) != len(args):
            raise Unsupported('arity of %s: %d vs %d' % (fn.key, len(params), len(args)))
        for (pat, ty), a in zip(params, args):
            a = self.coerce(a, ty, env)
            self.bind(pat, a, env)
        try:
            v = self.ev(node.body, env)
        except RetE as r:
            v = r.v
        return self.coerce(v, node.ret, env)

    def coerce(self, v, ty, env):
        """coerce lazily typed values by declared type"""
        if ty is None:
            return v
        t = ty
        while t[0] == 'ref':
            t = t[2]
        if t[0] == 'path':
            n = t[1][-1]
            if n == 'Self' and env.self_ty:
                n = env.self_ty
            if n == 'FieldElement':
                if isinstance(v, Lin):
                    return embed(v)
            elif n == 'LinearCombination':
                if not isinstance(v, MutRef):
                    return self.as_lc(v)
            elif n in ('Option', 'Result', 'Vec', 'Box') and t[2] and isinstance(v, (En, Seq)):
                if isinstance(v, En) and v.args and v.var in ('Some', 'Ok'):
                    a = t[2][0]
                    if isinstance(a, tuple):
                        return En(v.name, v.var, [self.coerce(v.args[0], a, env)])
                if isinstance(v, Seq) and n == 'Vec' and isinstance(t[2][0], tuple):
                    el = ty_name(t[2][0]).lstrip('&')
                    if el in ('FieldElement', 'LinearCombination') or t[2][0][0] == 'tuple':
                        return v.map(lambda x: self.coerce(x, t[2][0], env))
            elif n in ('FieldElementVector',):
                if isinstance(v, Seq):
                    return v.map(lambda x: P(x) if isinstance(x, Lin) else x)
        elif t[0] == 'tuple' and isinstance(v, Tup):
            ts = t[1]
            if len(ts) == len(v.xs):
                return Tup(self.coerce(x, tt, env) for x, tt in zip(v.xs, ts))
        elif t[0] in ('slice', 'array') and isinstance(v, Seq):
            if ty_name(t[1]) in ('FieldElement',):
                return v.map(lambda x: P(x) if isinstance(x, Lin) else x)
        return v

    def as_lc(self, v):
        v = self.deref(v)
        if self.mode == 'gadget':
            if isinstance(v, (Poly, Lin)):
                return P(v)
            if isinstance(v, Seq):
                return self.lc_of_terms(v)
            if isinstance(v, St) and v.name == 'LinearCombination':
                return self.lc_of_terms(v.f['terms'])
            return v
        # core
        if isinstance(v, St) and v.name == 'LinearCombination':
            return v
        if isinstance(v, SymVar):
            f = self.prog.method('LinearCombination', 'from', 'From<Variable>')
            return self.call_fn(f, [v])
        if isinstance(v, (Poly, Lin)):
            f = self.prog.method('LinearCombination', 'from', 'From<FieldElement>')
            return self.call_fn(f, [P(v)])
        if isinstance(v, Seq):
            fs = self.prog.methods.get(('LinearCombination', 'from_iter'), [])
            for f in sorted(fs, key=lambda f: '&' not in (f.trait or '')):
                r = self.call_fn(f, [v])
                if isinstance(r, St):
                    return r
            return St('LinearCombination', {'terms': v})
        return v

    def lc_of_terms(self, s):
        return self.seq_sum(s.map(lambda t: self.P(t.xs[0]) * self.P(t.xs[1])))

    def call_val(self, f, args):
        f = self.deref(f)
        if isinstance(f, Clo):
            if f.py is not None:
                return f.py(self, *args)
            env = Env(f.env)
            for (pat, ty), a in zip(f.params, args):
                if ty is not None:
                    a = self.coerce(a, ty, env)
                self.bind(pat, a, env)
            try:
                return self.ev(f.body, env)
            except RetE as r:
                return r.v
        if isinstance(f, FnRef):
            if f.py is not None:
                return f.py(self, *args)
            return self.call_fn(f.fn, args)
        raise Unsupported('call of %s' % type(f).__name__)

    # ---------------------------------------------------------------- patterns
    def bind(self, pat, v, env):
        c, bs = self.match_pat(pat, v, env)
        if c is not True:
            raise Unsupported('refutable pattern in binding')
        for n, x in bs:
            env.vars[n] = self.st.new(x)

    def sub(self, v, p):
        """sub-value of v (or reference into it when v is a MutRef)"""
        if isinstance(v, MutRef):
            return MutRef(v.cell, v.path + (p,))
        return self.proj(v, p)

    def match_pat(self, pat, v, env):
        k = pat[0]
        if k == 'wild' or k == 'rest':
            return True, []
        if k == 'bind':
            name = pat[1]
            if pat[4] is not None:
                c, bs = self.match_pat(pat[4], v, env)
                return c, bs + [(name, v)]
            # enum variant / const without args?
            if name in ('None',):
                return self.match_variant('None', [], v, env)
            if name[:1].isupper() and self.is_unit_variant(name):
                return self.match_variant(name, [], v, env)
            return True, [(name, v)]
        if k == 'refp':
            return self.match_pat(pat[1], self.deref(v) if isinstance(v, MutRef) else v, env)
        if k == 'tuple':
            d = self.deref(v)
            if not isinstance(d, Tup):
                raise Unsupported('tuple pattern on %s' % type(d).__name__)
            ps = pat[1]
            if any(p[0] == 'rest' for p in ps):
                raise Unsupported('rest in tuple pattern')
            if len(ps) != len(d.xs):
                raise Unsupported('tuple pattern arity')
            c, bs = True, []
            for j, p in enumerate(ps):
                c1, b1 = self.match_pat(p, self.sub(v, ('t', j)), env)
                c = b_and(c, c1)
                bs += b1
            return c, bs
        if k == 'tstruct':
            return self.match_variant(pat[1][-1] if isinstance(pat[1], (list, tuple)) else pat[1], pat[2], v, env)
        if k == 'pathp':
            p = pat[1]
            return self.match_variant(p[-1] if isinstance(p, (list, tuple)) else p, [], v, env)
        if k == 'lit':
            x = self.ev(pat[1], env)
            return self.val_eq(x, v), []
        if k == 'or':
            cs = []
            for p in pat[1]:
                c, b = self.match_pat(p, v, env)
                if b:
                    raise Unsupported('bindings in or-pattern')
                cs.append(c)
            return b_or(*cs), []
        if k == 'range':
            lo, hi, incl = pat[1], pat[2], pat[3] if len(pat) > 3 else True
            d = L(self.deref(v))
            c = True
            if lo is not None:
                c = b_and(c, b_ge0(d - self.ev(lo, env)))
            if hi is not None:
                h = self.ev(hi, env)
                c = b_and(c, b_ge0(h - d) if incl else b_ge0(h - d - 1))
            return c, []
        if k == 'struct':
            d = self.deref(v)
            name = pat[1][-1] if isinstance(pat[1], (list, tuple)) else pat[1]
            c, bs = True, []
            if isinstance(d, En):
                if d.var != name:
                    return False, []
                d2 = d.args[0] if d.args and isinstance(d.args[0], St) else None
                for fld in pat[2]:
                    n, p = fld[0], fld[1]
                    if d2 is None:
                        raise Unsupported('struct variant pattern')
                    c1, b1 = self.match_pat(p, d2.f[n], env)
                    c = b_and(c, c1)
                    bs += b1
                return c, bs
            if not isinstance(d, St):
                raise Unsupported('struct pattern on %s' % type(d).__name__)
            for fld in pat[2]:
                n, p = fld[0], fld[1]
                c1, b1 = self.match_pat(p, self.sub(v, ('f', n)), env)
                c = b_and(c, c1)
                bs += b1
            return c, bs
        raise Unsupported('pattern %s' % k)

    def is_unit_variant(self, n):
        for _, (_, e) in self.prog.enums.items():
            for va in e.variants:
                if va[0] == n if isinstance(va, tuple) else va == n:
                    return True
        return False

    def match_variant(self, name, ps, v, env):
        d = self.deref(v)
        if isinstance(d, SymVar):
            if name not in SymVar.TAGS:
                raise Unsupported('Variable pattern %s' % name)
            t = SymVar.TAGS.index(name)
            c = b_eq(d.tag, t)
            if ps:
                c1, bs = self.match_pat(ps[0], d.idx, env)
                return b_and(c, c1), bs
            return c, []
        if isinstance(d, En):
            if d.var != name:
                return False, []
            c, bs = True, []
            if len(ps) != len(d.args) and not (len(ps) == 0):
                raise Unsupported('variant arity %s' % name)
            for j, p in enumerate(ps):
                c1, b1 = self.match_pat(p, self.sub(v, ('v', j)), env)
                c = b_and(c, c1)
                bs += b1
            return c, bs
        if isinstance(d, Opq) and d.kind == 'optsym':
            # symbolic Option: data = (cond_is_some, value)
            c, val = d.data
            if name == 'None':
                return b_not(c), []
            if name == 'Some':
                c1, bs = self.match_pat(ps[0], val, env)
                return b_and(c, c1), bs
        if isinstance(d, Opq) and d.kind == 'enumsym':
            # symbolic C-like enum: data=(name, Lin tag, variants)
            nm, t, variants = d.data
            if name in variants:
                return b_eq(t, variants.index(name)), []
        if isinstance(d, St) and d.name == name:
            c, bs = True, []
            for j, p in enumerate(ps):
                c1, b1 = self.match_pat(p, self.sub(v, ('t', j)), env)
                c = b_and(c, c1)
                bs += b1
            return c, bs
        raise Unsupported('variant pattern %s on %s' % (name, type(d).__name__))

    # ---------------------------------------------------------------- conditional with merging
    def cond(self, c, th, el):
        """evaluate th() if c else el(); merges when possible, otherwise forks"""
        d = self.decide(c)
        if d is not None:
            return th() if d else el()
        base = self.st
        ok = False
        try:
            self.merging += 1
            saved = (self.script, self.pos)
            try:
                self.st = base.clone()
                self.st.assume(c)
                v1 = th()
                s1 = self.st
                self.st = base.clone()
                self.st.nid = s1.nid
                self.st.assume(b_not(c))
                v2 = el()
                s2 = self.st
                merged = base.clone()
                merged.nid = max(s1.nid, s2.nid)
                mine1 = [p for p in s1.panics if p not in base.panics]
                mine2 = [p for p in s2.panics if p not in base.panics]
                for cid in base.cells:
                    a, b = s1.cells[cid], s2.cells[cid]
                    if a is not b:
                        merged.cells[cid] = merge_val(c, a, b)
                # cells created on one side
                for s in (s1, s2):
                    for cid, x in s.cells.items():
                        if cid not in merged.cells:
                            merged.cells[cid] = x
                v = merge_val(c, v1, v2)
                # keep consequences learned on both sides
                for x in s1.pc:
                    if x in s2.pc and x not in merged.pc:
                        merged.pc = merged.pc + (x,)
                for s in (s1, s2):
                    g = c if s is s1 else b_not(c)
                    for x in s.pc:
                        if x not in merged.pc and x != g:
                            merged.assume(b_or(b_not(g), x))
                merged.panics = base.panics + tuple(mine1) + tuple(mine2)
                ok = True
            finally:
                self.merging -= 1
                self.script, self.pos = saved
        except (CannotMerge, NeedFork, RetE, BreakE, ContE, PanicE, Infeasible):
            ok = False
        finally:
            if not ok:
                self.st = base
        if ok:
            self.st = merged
            return v
        return th() if self.branch(c) else el()
