"""Contracts: specification objects, typed views over memory, wrapper generation."""
import itertools
from terms import *
import ir

R_ = 'R'
# type name -> (C++ spelling, [(field, type)])
TYPES = {
 'V2': ('Vec2<Real>', [('x', 'R'), ('y', 'R')]),
 'V3': ('Vec3<Real>', [('x', 'R'), ('y', 'R'), ('z', 'R')]),
 'V4': ('Vec4<Real>', [('x', 'R'), ('y', 'R'), ('z', 'R'), ('w', 'R')]),
 'Q': ('Quat<Real>', [('x', 'R'), ('y', 'R'), ('z', 'R'), ('w', 'R')]),
}
SCALARS = {'R': ('Real', None), 'i': ('int', ('i', 32)), 'u': ('unsigned int', ('i', 32)), 'B': ('bool', ('i', 8)), 'sz': ('size_t', ('i', 64))}
ENUMS = {}      # name -> (C++ spelling, {label: value})
def enum(name, cpp, **vals):
    ENUMS[name] = (cpp, vals)

FLAGSETS = {}   # C++ class type name -> dict(bit name -> value)

SAMPLERS = {}   # type name -> fn(vals, prefix, rng) choosing structured inputs for replays
def deftype(name, cpp, fields, invariant=None, flags=None, sampler=None):
    if sampler: SAMPLERS[name] = sampler
    TYPES[name] = (cpp, fields)
    if flags: FLAGSETS[name] = flags
    if invariant: INVARIANTS[name] = invariant
INVARIANTS = {}

def cpp_type(t):
    if t in TYPES: return TYPES[t][0]
    if t in SCALARS: return SCALARS[t][0]
    if t in ENUMS: return ENUMS[t][0]
    raise KeyError(t)

def leaves(t, prefix=''):
    """[(path, leaf type)] for an object type"""
    if t in TYPES:
        out = []
        for f, ft in TYPES[t][1]: out += leaves(ft, prefix + '.' + f if prefix else f)
        return out
    return [(prefix, t)]

class View:
    """A typed view; get(path, leaftype) -> term."""
    def __init__(self, t, get, prefix=''):
        self.__dict__.update(_t=t, _get=get, _p=prefix)
    def __getattr__(self, f):
        if f.startswith('__'): raise AttributeError(f)
        for n, ft in TYPES[self._t][1]:
            if n == f:
                p = self._p + '.' + f if self._p else f
                if ft in TYPES: return View(ft, self._get, p)
                return self._get(p, ft)
        raise AttributeError('%s has no %s' % (self._t, f))
    def leaves(self):
        return [self._get((self._p + '.' + p) if self._p and p else (self._p or p), lt_) for p, lt_ in leaves(self._t)]
    def leafpaths(self): return [(self._p + '.' + p) if self._p else p for p, _ in leaves(self._t)]

def same(a, b):
    """component-wise equality of two views / vectors / scalars"""
    la, lb = flat(a), flat(b)
    assert len(la) == len(lb), (la, lb)
    return [eq(x, y) for x, y in zip(la, lb)]

def flat(a):
    if isinstance(a, View): return a.leaves()
    if isinstance(a, (list, tuple)):
        r = []
        for x in a: r += flat(x)
        return r
    if hasattr(a, 'comps'): return list(a.comps())
    return [a]

class Env: pass

class Param:
    __slots__ = ('t', 'name', 'mut', 'arr', 'count', 'stride')
    def __init__(self, t, name, mut, arr=False, count=None, stride=None):
        self.t = t; self.name = name; self.mut = mut; self.arr = arr; self.count = count; self.stride = stride

def parse_params(s):
    out = []
    for p in [x.strip() for x in s.split(',') if x.strip()]:
        t, n = p.rsplit(' ', 1)
        mut = t.endswith('&'); t = t.rstrip('&').strip()
        if t.endswith(']'):        # array: V3[n] or V3[n:stride]
            base, cs = t[:-1].split('[')
            c, _, sd = cs.partition(':')
            out.append(Param(base, n, mut, True, c, sd or None))
        else:
            out.append(Param(t, n, mut))
    return out

REG = {}     # name -> Contract
GROUPS = {}

class Contract:
    def __init__(self, name, params, ret, expr, requires=None, ensures=None, alias=(), cases=None, modular=False,
                 inv=True, group=None, prop=None, **opts):
        self.name = name; self.params = parse_params(params); self.ret = ret; self.expr = expr
        self.requires = requires; self.ensures = ensures; self.alias = alias; self.cases = cases or {}
        self.modular = modular; self.inv = inv; self.opts = opts; self.props = set()
        import sys; self.mod = sys._getframe(2).f_globals.get('__name__')
        if name in REG: raise KeyError('duplicate contract ' + name)
        REG[name] = self

    def wrapper(self):
        sig = []; pre = []
        for p in self.params:
            ct = cpp_type(p.t)
            if p.arr:
                sig.append('%s%s* %s' % ('' if p.mut else 'const ', ct, p.name))
            elif p.t in TYPES:
                q = '' if p.mut else 'const '
                sig.append('%s%s* %s_p' % (q, ct, p.name)); pre.append('%s%s& %s = *%s_p; (void)%s;' % (q, ct, p.name, p.name, p.name))
            elif p.mut:
                sig.append('%s* %s_p' % (ct, p.name)); pre.append('%s& %s = *%s_p; (void)%s;' % (ct, p.name, p.name, p.name))
            else: sig.append('%s %s' % (ct, p.name))
        if self.ret.startswith('&'):
            sig.append('bool* out_p'); body = '*out_p = ((const void*)&(%s) == (const void*)&%s);' % (self.expr, self.ret[1:])
        elif self.ret == 'void': body = self.expr + ';'
        elif self.ret in TYPES:
            ct = cpp_type(self.ret)
            sig.append('%s* out_p' % ct); body = '::new((void*)out_p) %s(%s);' % (ct, self.expr)
        else:
            sig.append('%s* out_p' % cpp_type(self.ret)); body = '*out_p = %s;' % self.expr
        return 'extern "C" void W_%s(%s) { %s %s }' % (self.name, ', '.join(sig), ' '.join(pre), body)

def C(name, params, ret, expr, requires=None, ensures=None, **kw):
    return Contract(name, params, ret, expr, requires, ensures, **kw)

class By:
    """A lemma to be proved from the named facts alone; each must already be among the facts available."""
    def __init__(self, goal, hyps): self.goal = lift(goal); self.hyps = [t for _, t in flatclauses(hyps)]

def flatclauses(x, lab=''):
    """normalise the result of ensures/requires into [(label, term)]"""
    out = []
    if x is None: return out
    if isinstance(x, dict):
        for k, v in x.items(): out += flatclauses(v, lab + ('.' if lab else '') + str(k))
        return out
    if isinstance(x, (list, tuple)):
        if len(x) == 2 and isinstance(x[0], str): return flatclauses(x[1], lab + ('.' if lab else '') + x[0])
        for i, v in enumerate(x): out += flatclauses(v, '%s[%d]' % (lab, i))
        return out
    out.append((lab, x if isinstance(x, By) else lift(x)))
    return out
