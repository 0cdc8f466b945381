"""Values of the symbolic executor.  All immutable; mutation goes through cells of the State."""
from terms import *


class Unsupported(Exception):
    """construct outside the verifier's reach"""


class CannotMerge(Exception):
    pass


class Tup:
    __slots__ = ('xs',)

    def __init__(self, xs):
        self.xs = tuple(xs)

    def __repr__(self):
        return '(' + ', '.join(map(repr, self.xs)) + ')'

    def __eq__(self, o):
        return isinstance(o, Tup) and self.xs == o.xs

    def __hash__(self):
        return hash(('T', self.xs))


UNIT = Tup(())


class St:
    """struct value"""
    __slots__ = ('name', 'f')

    def __init__(self, name, f):
        self.name = name
        self.f = f

    def __repr__(self):
        return '%s{%s}' % (self.name, ', '.join('%s:%r' % x for x in self.f.items()))

    def __eq__(self, o):
        return isinstance(o, St) and self.name == o.name and self.f == o.f

    def __hash__(self):
        return hash(('S', self.name, tuple(sorted(self.f))))

    def set(self, k, v):
        d = dict(self.f)
        d[k] = v
        return St(self.name, d)


class En:
    """enum value with known variant"""
    __slots__ = ('name', 'var', 'args')

    def __init__(self, name, var, args=()):
        self.name = name
        self.var = var
        self.args = tuple(args)

    def __repr__(self):
        return self.var + (repr(Tup(self.args)) if self.args else '')

    def __eq__(self, o):
        return isinstance(o, En) and (self.name, self.var, self.args) == (o.name, o.var, o.args)

    def __hash__(self):
        return hash(('E', self.name, self.var, self.args))


NONE = En('Option', 'None')


def Some(x):
    return En('Option', 'Some', (x,))


def Ok(x):
    return En('Result', 'Ok', (x,))


def Err(x):
    return En('Result', 'Err', (x,))


class SymVar:
    """a Variable with symbolic kind and index.  tag: 0 Committed 1 Left 2 Right 3 Output 4 One"""
    __slots__ = ('tag', 'idx')
    TAGS = ['Committed', 'MultiplierLeft', 'MultiplierRight', 'MultiplierOutput', 'One']

    def __init__(self, tag, idx):
        self.tag = L(tag)
        self.idx = L(idx)

    def __repr__(self):
        t = self.TAGS[self.tag.c] if self.tag.is_const() else 'Var<%s>' % self.tag
        return '%s(%s)' % (t, self.idx)

    def __eq__(self, o):
        return isinstance(o, SymVar) and self.tag == o.tag and self.idx == o.idx

    def __hash__(self):
        return hash(('V', self.tag, self.idx))


class Bytes:
    """byte string / string: list of parts (python str | ('enc', kind, value))"""
    __slots__ = ('parts',)

    def __init__(self, parts):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'bytes%r' % (self.parts,)

    def __eq__(self, o):
        return isinstance(o, Bytes) and self.parts == o.parts

    def __hash__(self):
        return hash(('B', self.parts))

    def cat(self, o):
        ps = list(self.parts)
        for x in o.parts:
            if isinstance(x, str) and ps and isinstance(ps[-1], str):
                ps[-1] += x
            elif x != '':
                ps.append(x)
        return Bytes([x for x in ps if x != ''])


class Opq:
    """opaque value: kind + structural data"""
    __slots__ = ('kind', 'data')

    def __init__(self, kind, *data):
        self.kind = kind
        self.data = data

    def __repr__(self):
        return '<%s %s>' % (self.kind, ','.join(map(str, self.data)))

    def __eq__(self, o):
        return isinstance(o, Opq) and self.kind == o.kind and self.data == o.data

    def __hash__(self):
        return hash(('O', self.kind, self.data))


class Clo:
    __slots__ = ('params', 'body', 'env', 'py')

    def __init__(self, params, body, env, py=None):
        self.params = params
        self.body = body
        self.env = env
        self.py = py


class FnRef:
    __slots__ = ('fn', 'py')

    def __init__(self, fn, py=None):
        self.fn = fn
        self.py = py

    def __eq__(self, o):
        return isinstance(o, FnRef) and self.fn is o.fn and self.py is o.py

    def __hash__(self):
        return hash(id(self.fn))


class MutRef:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = tuple(path)

    def __repr__(self):
        return '&mut c%s%s' % (self.cell, ''.join('.%s' % (p[1],) for p in self.path))

    def __eq__(self, o):
        return isinstance(o, MutRef) and self.cell == o.cell and self.path == o.path

    def __hash__(self):
        return hash(('M', self.cell, self.path))


def ground(k):
    """a hashable stand-in for a key with no symbolic part, else None"""
    if type(k) is SymVar:
        if not k.tag.t and not k.idx.t:
            return ('V', k.tag.c, k.idx.c)
        return None
    if type(k) is Lin and not k.t:
        return ('i', k.c)
    return None


class HMap:
    """HashMap model.  entries: tuple of (key, value) concrete; or accumulate-only map `acc` (Seq of (k,v))"""
    __slots__ = ('ents', 'acc', 'base', 'ix')

    def __init__(self, ents=(), acc=None, base=None, ix=None):
        self.ents = tuple(ents)
        self.ix = ix          # ground key -> position, when every key is ground (built on demand; False: not all ground)
        self.acc = acc
        self.base = base      # opaque initial contents (an Opq)

    def index(self):
        if self.ix is None:
            d = {}
            for i, (k, _) in enumerate(self.ents):
                g = ground(k)
                if g is None or d and g[0] != next(iter(d))[0]:
                    d = False
                    break
                d[g] = i
            self.ix = d
        return self.ix

    def __repr__(self):
        return 'HMap(%r,%r,%r)' % (self.ents, self.acc, self.base)

    def __eq__(self, o):
        return isinstance(o, HMap) and self.ents == o.ents and self.acc == o.acc and self.base == o.base

    def __hash__(self):
        return hash(('H', self.ents))


# ------------------------------------------------------------------ sequences

class Seg:
    """k='e': single element v.  k='f': family of n elements, v with index atom ix (0-based inside segment).
    n None: infinite.  k='b': block family: n repetitions of the list vs (index atom ix)."""
    __slots__ = ('k', 'n', 'ix', 'v')

    def __init__(self, k, n, ix, v):
        self.k = k
        self.n = n
        self.ix = ix
        self.v = v

    def length(self):
        if self.k == 'e':
            return L1
        if self.n is None:
            return None
        if self.k == 'b':
            return self.n.scale(len(self.v))
        return self.n

    def canon(self):
        if self.k == 'e':
            return ('e', self.v)
        ix = ('i', '$q')
        m = {self.ix: Lin.atom(ix)}
        if self.k == 'f':
            return ('f', self.n, subst_val(self.v, m))
        return ('b', self.n, tuple(subst_val(x, m) for x in self.v))

    def __repr__(self):
        if self.k == 'e':
            return repr(self.v)
        return '[%r | %s < %s]' % (self.v, iatom_str(self.ix), self.n)


def fresh_ix():
    return ('i', '$k%d' % fresh_id())


class Seq:
    __slots__ = ('segs', '_c')

    def __init__(self, segs=()):
        out = []
        for s in segs:
            if s.k != 'e' and s.n is not None and s.n.is_const():
                n = s.n.c
                if n <= 0:
                    continue
                if n <= 4096:
                    for j in range(n):
                        m = {s.ix: Lin(j)}
                        if s.k == 'f':
                            out.append(Seg('e', None, None, subst_val(s.v, m)))
                        else:
                            for x in s.v:
                                out.append(Seg('e', None, None, subst_val(x, m)))
                    continue
            if s.k == 'b' and len(s.v) == 1:
                s = Seg('f', s.n, s.ix, s.v[0])
            if s.k == 'b' and not s.v:
                continue
            out.append(s)
        self.segs = tuple(out)
        self._c = None

    @staticmethod
    def of(xs):
        return Seq([Seg('e', None, None, x) for x in xs])

    @staticmethod
    def fam(n, f):
        """f: Lin -> value"""
        n = L(n)
        if n.is_const():
            return Seq.of([f(Lin(j)) for j in range(n.c)])
        ix = fresh_ix()
        return Seq([Seg('f', n, ix, f(Lin.atom(ix)))])

    def canon(self):
        if self._c is None:
            self._c = tuple(s.canon() for s in self.segs)
        return self._c

    def __eq__(self, o):
        return isinstance(o, Seq) and self.canon() == o.canon()

    def __hash__(self):
        return hash(('Q', len(self.segs)))

    def __repr__(self):
        return 'Seq[' + ', '.join(map(repr, self.segs)) + ']'

    def concrete(self):
        return all(s.k == 'e' for s in self.segs)

    def items(self):
        assert self.concrete()
        return [s.v for s in self.segs]

    def length(self):
        r = Lin(0)
        for s in self.segs:
            n = s.length()
            if n is None:
                return None
            r = r + n
        return r

    def cat(self, o):
        r = Seq.__new__(Seq)
        r.segs = self.segs + o.segs
        r._c = None
        return r

    def push(self, x):
        r = Seq.__new__(Seq)
        r.segs = self.segs + (Seg('e', None, None, x),)
        r._c = None
        return r

    def map(self, f):
        out = []
        for s in self.segs:
            if s.k == 'e':
                out.append(Seg('e', None, None, f(s.v)))
            elif s.k == 'f':
                out.append(Seg('f', s.n, s.ix, f(s.v)))
            else:
                out.append(Seg('b', s.n, s.ix, tuple(f(x) for x in s.v)))
        return Seq(out)

    def rev(self):
        out = []
        for s in reversed(self.segs):
            if s.k == 'e':
                out.append(s)
            elif s.n is None:
                raise Unsupported('rev of infinite iterator')
            else:
                ix = fresh_ix()
                m = {s.ix: s.n - 1 - Lin.atom(ix)}
                if s.k == 'f':
                    out.append(Seg('f', s.n, ix, subst_val(s.v, m)))
                else:
                    out.append(Seg('b', s.n, ix, tuple(subst_val(x, m) for x in reversed(s.v))))
        return Seq(out)


def subst_val(v, m):
    if not m:
        return v
    if isinstance(v, Lin):
        return subst_lin(v, m)
    if isinstance(v, Poly):
        return subst(v, m)
    if isinstance(v, (bool, str, int)) or v is None:
        return v
    if isinstance(v, tuple):
        if v and isinstance(v[0], str) and v[0] in ('ge', 'eq', 'feq', 'not', 'and', 'or', 'bs'):
            return subst_bool(v, m)
        return tuple(subst_val(x, m) for x in v)
    if isinstance(v, Tup):
        return Tup(subst_val(x, m) for x in v.xs)
    if isinstance(v, St):
        return St(v.name, {k: subst_val(x, m) for k, x in v.f.items()})
    if isinstance(v, En):
        return En(v.name, v.var, [subst_val(x, m) for x in v.args])
    if isinstance(v, SymVar):
        return SymVar(subst_lin(v.tag, m), subst_lin(v.idx, m))
    if isinstance(v, Bytes):
        return Bytes([x if isinstance(x, str) else tuple(subst_val(y, m) for y in x) for x in v.parts])
    if isinstance(v, Opq):
        return Opq(v.kind, *[subst_val(x, m) for x in v.data])
    if isinstance(v, Seq):
        segs = []
        for s in v.segs:
            if s.k == 'e':
                segs.append(Seg('e', None, None, subst_val(s.v, m)))
            else:
                n = None if s.n is None else subst_lin(s.n, m)
                if s.k == 'f':
                    segs.append(Seg('f', n, s.ix, subst_val(s.v, m)))
                else:
                    segs.append(Seg('b', n, s.ix, tuple(subst_val(x, m) for x in s.v)))
        return Seq(segs)
    if isinstance(v, HMap):
        return HMap([(subst_val(k, m), subst_val(x, m)) for k, x in v.ents], None if v.acc is None else subst_val(v.acc, m),
                    v.base)
    if isinstance(v, MutRef):
        return MutRef(v.cell, tuple((p[0], subst_val(p[1], m)) for p in v.path))
    return v


def val_atoms(v):
    """all atoms in a value"""
    if isinstance(v, (Lin, Poly)):
        return atoms_of(v)
    if isinstance(v, (bool, str, int)) or v is None:
        return frozenset()
    s = set()
    if isinstance(v, tuple):
        if v and isinstance(v[0], str) and v[0] in ('ge', 'eq', 'feq', 'not', 'and', 'or', 'bs'):
            return atoms_of(v) | {v}
        for x in v:
            s |= val_atoms(x)
    elif isinstance(v, Tup):
        for x in v.xs:
            s |= val_atoms(x)
    elif isinstance(v, St):
        for x in v.f.values():
            s |= val_atoms(x)
    elif isinstance(v, En):
        for x in v.args:
            s |= val_atoms(x)
    elif isinstance(v, SymVar):
        s |= atoms_of(v.tag) | atoms_of(v.idx)
    elif isinstance(v, Bytes):
        for x in v.parts:
            if not isinstance(x, str):
                s |= val_atoms(x)
    elif isinstance(v, Opq):
        for x in v.data:
            s |= val_atoms(x)
    elif isinstance(v, Seq):
        for g in v.segs:
            if g.n is not None:
                s |= val_atoms(g.n)
            s |= val_atoms(g.v)
    elif isinstance(v, HMap):
        for k, x in v.ents:
            s |= val_atoms(k) | val_atoms(x)
        if v.acc is not None:
            s |= val_atoms(v.acc)
    elif isinstance(v, MutRef):
        for p in v.path:
            s |= val_atoms(p[1])
    return frozenset(s)


def is_bool(v):
    return isinstance(v, bool) or (isinstance(v, tuple) and len(v) > 0 and v[0] in ('ge', 'eq', 'feq', 'not', 'and', 'or', 'bs'))


def merge_val(c, a, b):
    """if c then a else b"""
    if a is b:
        return a
    try:
        if a == b:
            return a
    except Exception:
        pass
    if is_bool(a) and is_bool(b):
        return b_or(b_and(c, a), b_and(b_not(c), b))
    if isinstance(a, Lin) and isinstance(b, Lin):
        return iapp('ite', c, a, b)
    if isinstance(a, (Poly, Lin)) and isinstance(b, (Poly, Lin)):
        i = iv(c)
        return i * P(a) + (ONE - i) * P(b)
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.xs) == len(b.xs):
        return Tup(merge_val(c, x, y) for x, y in zip(a.xs, b.xs))
    if isinstance(a, St) and isinstance(b, St) and a.name == b.name and set(a.f) == set(b.f):
        return St(a.name, {k: merge_val(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, En) and isinstance(b, En) and a.name == b.name and a.var == b.var and len(a.args) == len(b.args):
        return En(a.name, a.var, [merge_val(c, x, y) for x, y in zip(a.args, b.args)])
    if isinstance(a, SymVar) and isinstance(b, SymVar):
        return SymVar(merge_val(c, a.tag, b.tag), merge_val(c, a.idx, b.idx))
    if isinstance(a, Seq) and isinstance(b, Seq):
        if a.concrete() and b.concrete() and len(a.segs) == len(b.segs):
            return Seq.of([merge_val(c, x.v, y.v) for x, y in zip(a.segs, b.segs)])
        if len(a.segs) == len(b.segs) and all(x.k == y.k and x.n == y.n for x, y in zip(a.segs, b.segs)):
            out = []
            for x, y in zip(a.segs, b.segs):
                if x.k == 'e':
                    out.append(Seg('e', None, None, merge_val(c, x.v, y.v)))
                elif x.k == 'f':
                    out.append(Seg('f', x.n, x.ix, merge_val(c, x.v, subst_val(y.v, {y.ix: Lin.atom(x.ix)}))))
                else:
                    raise CannotMerge('block')
            return Seq(out)
        # differing lengths: merge when c decides the extra part is absent
        raise CannotMerge('sequence shapes')
    raise CannotMerge('%s / %s' % (type(a).__name__, type(b).__name__))
