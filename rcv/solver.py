"""z3 bridge: decides integer/boolean side conditions under the path condition."""
import time
import z3
from terms import *

STATS = {'queries': 0, 'time': 0.0, 'cache': 0}


class Solver:
    def __init__(self):
        self.cache = {}
        self.ints = {}
        self.ax = {}

    def zint(self, l, ax):
        r = z3.IntVal(l.c)
        for a, x in l.t:
            r = r + x * self.zatom(a, ax)
        return r

    def zatom(self, a, ax):
        k = key(a)
        v = self.ints.get(k)
        if v is None:
            v = z3.Int('x%d' % len(self.ints))
            self.ints[k] = v
        if k in ax:
            return v
        ax[k] = []
        out = ax[k]
        h = a[0]
        if h == 'i' or h == 'bv':
            if not (h == 'i' and a[1].startswith('$z')):
                out.append(v >= 0)
        elif h == 'mul':
            zs = [self.zatom(x, ax) for x in a[1:]]
            p = zs[0]
            for z in zs[1:]:
                p = p * z
            out.append(v == p)
        elif h == 'ia':
            f = a[1]
            if f in ('div', 'mod'):
                p = self.zint(a[2], ax)
                q = self.zint(a[3], ax)
                out.append(z3.Implies(q > 0, v == (p / q if f == 'div' else p % q)))
            elif f == 'ite':
                out.append(v == z3.If(self.zbool(a[2], ax), self.zint(a[3], ax), self.zint(a[4], ax)))
            elif f in ('min', 'max'):
                p = self.zint(a[2], ax)
                q = self.zint(a[3], ax)
                out.append(v == (z3.If(p <= q, p, q) if f == 'min' else z3.If(p >= q, p, q)))
            elif f == 'pow2':
                e = self.zint(a[2], ax)
                out.append(z3.Implies(e >= 0, v >= e + 1))
                out.append(z3.Implies(e >= 0, v >= 1))
                for j in range(0, 6):
                    out.append(z3.Implies(e == j, v == 2 ** j))
                    out.append(z3.Implies(e > j, v > 2 ** j))
            elif f == 'bits':
                q = self.zint(a[2], ax)
                if a[3].is_const() and a[4].is_const():
                    r = q / (2 ** a[3].c) if a[3].c else q
                    if a[4].c >= 0:
                        r = r % (2 ** a[4].c)
                    out.append(v == r)
                else:
                    out.append(v >= 0)
                    if a[4].is_const() and a[4].c >= 0:
                        out.append(v < 2 ** a[4].c)
            elif f == 'npow2':
                e = self.zint(a[2], ax)
                out.append(v >= e)
                out.append(v >= 1)
                out.append(z3.Implies(e >= 1, v <= 2 * e - 1))
                out.append(z3.Implies(e <= 1, v == 1))
            elif f == 'iv':
                out.append(v == z3.If(self.zbool(a[2], ax), 1, 0))
            elif f in ('lz32', 'lz64', 'tz', 'bitlen'):
                out.append(v >= 0)
            else:
                out.append(v >= 0)
        return v

    def zbool(self, b, ax):
        if isinstance(b, bool):
            return z3.BoolVal(b)
        h = b[0]
        if h == 'ge':
            return self.zint(b[1], ax) >= 0
        if h == 'eq':
            return self.zint(b[1], ax) == 0
        if h == 'not':
            return z3.Not(self.zbool(b[1], ax))
        if h == 'and':
            return z3.And([self.zbool(x, ax) for x in b[1]])
        if h == 'or':
            return z3.Or([self.zbool(x, ax) for x in b[1]])
        k = key(b)
        v = self.ints.get(k)
        if v is None:
            v = z3.Bool('b%d' % len(self.ints))
            self.ints[k] = v
        return v

    def sat(self, conds):
        """'sat' / 'unsat' / 'unknown'"""
        cs = []
        for c in conds:
            if c is False:
                return 'unsat'
            if c is True:
                continue
            cs.append(c)
        if not cs:
            return 'sat'
        ck = frozenset(cs)
        r = self.cache.get(ck)
        if r is not None:
            STATS['cache'] += 1
            return r
        # syntactic contradictions
        s = set(cs)
        for c in cs:
            if b_not(c) in s:
                self.cache[ck] = 'unsat'
                return 'unsat'
        t = time.time()
        ax = {}
        z = z3.Solver()
        z.set('timeout', 3000)
        for c in cs:
            z.add(self.zbool(c, ax))
        for l in ax.values():
            for c in l:
                z.add(c)
        r = str(z.check())
        STATS['queries'] += 1
        STATS['time'] += time.time() - t
        self.cache[ck] = r
        return r

    def decide(self, pc, c):
        """True / False / None"""
        if isinstance(c, bool):
            return c
        if c in pc:
            return True
        n = b_not(c)
        if n in pc:
            return False
        rel = self.relevant(pc, c)
        if self.sat(rel + [n]) == 'unsat':
            return True
        if self.sat(rel + [c]) == 'unsat':
            return False
        return None

    def relevant(self, pc, c):
        return [x for x in pc if not isinstance(x, bool)]
