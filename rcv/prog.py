"""Program index over /repo/src (or a given root)."""
import os
import rparse
from rparse import N


class Fn:
    __slots__ = ('name', 'node', 'file', 'impl_ty', 'trait', 'key', 'outer')

    def __init__(self, name, node, file, impl_ty=None, trait=None, outer=None):
        self.name = name
        self.node = node
        self.file = file
        self.impl_ty = impl_ty
        self.trait = trait
        self.outer = outer
        self.key = '%s::%s' % (file, (impl_ty + '::' if impl_ty else '') + (('<%s>' % trait) if trait else '') + name)

    def __repr__(self):
        return 'Fn(%s)' % self.key


def ty_name(t):
    """head name of a type"""
    if t is None:
        return None
    if t[0] == 'path':
        return t[1][-1]
    if t[0] == 'ref':
        return '&' + (ty_name(t[2]) or '?')
    if t[0] == 'slice':
        return '[]'
    if t[0] == 'array':
        return '[;]'
    if t[0] == 'tuple':
        return '()'
    return t[0]


class Prog:
    def __init__(self, root='/repo'):
        self.root = root
        self.fns = {}        # name -> [Fn]
        self.methods = {}    # (type, name) -> [Fn]
        self.structs = {}
        self.enums = {}
        self.consts = {}     # name -> [(file, node)]
        self.aliases = {}
        self.errors = []
        self.files = {}
        self.traits = {}
        src = os.path.join(root, 'src')
        for d, _, fs in sorted(os.walk(src)):
            for f in sorted(fs):
                if f.endswith('.rs'):
                    p = os.path.join(d, f)
                    rel = os.path.relpath(p, root)
                    try:
                        items, errs = rparse.parse_file(p)
                    except Exception as e:
                        self.errors.append((rel, str(e)))
                        continue
                    for e in errs:
                        self.errors.append((rel, str(e)))
                    self.files[rel] = items
                    self._index(items, rel)

    def _index(self, items, rel, impl_ty=None, trait=None):
        for it in items:
            k = it.k
            if k == 'fn':
                self._addfn(it, rel, impl_ty, trait)
            elif k == 'impl':
                t = ty_name(it.ty)
                tr = ty_name(it.trait) if it.trait else None
                tb = t.lstrip('&')
                for x in it.items:
                    if x.k == 'fn':
                        f = Fn(x.name, x, rel, t, self._trait_str(it.trait) if it.trait else None)
                        x.d['_impl'] = it
                        self.methods.setdefault((tb, x.name), []).append(f)
            elif k == 'trait':
                self.traits[it.name] = (rel, it)
            elif k == 'struct':
                self.structs[it.name] = (rel, it)
            elif k == 'enum':
                self.enums[it.name] = (rel, it)
            elif k == 'const':
                self.consts.setdefault(it.name, []).append((rel, it))
            elif k == 'type':
                self.aliases[it.name] = it
            elif k == 'mod' and it.d.get('items'):
                self._index(it.items, rel)

    def _trait_str(self, t):
        if t[0] == 'path':
            s = t[1][-1]
            if t[2]:
                s += '<' + ','.join(str(ty_name(a)) if isinstance(a, tuple) else str(a) for a in t[2]) + '>'
            return s
        return str(t)

    def _addfn(self, it, rel, impl_ty, trait):
        self.fns.setdefault(it.name, []).append(Fn(it.name, it, rel))

    def find(self, key):
        """key like 'file.rs::name' or 'file.rs::Type::name'"""
        for l in list(self.fns.values()) + list(self.methods.values()):
            for f in l:
                if f.key.endswith(key):
                    return f
        return None

    def fn(self, name, file=None):
        c = self.fns.get(name, [])
        if file:
            c = [f for f in c if f.file.endswith(file)]
        return c[0] if c else None

    def method(self, ty, name, trait=None, file=None):
        c = self.methods.get((ty, name), [])
        if trait is not None:
            c = [f for f in c if (f.trait or '').startswith(trait)]
        if file:
            c = [f for f in c if f.file.endswith(file)]
        return c[0] if c else None


if __name__ == '__main__':
    p = Prog()
    print(p.errors, len(p.fns), len(p.methods))
    for (t, n), l in sorted(p.methods.items()):
        print(t, n, [x.key for x in l])
    print(list(p.consts)[:20], list(p.aliases))
