"""Mat2 / Mat3 / Mat4 / Mat34: values, cached flags, linear-algebra laws.

A matrix is specified as a list of columns.  Input matrices satisfy `exact`: a cached flag that is set is true
exactly of the value.  Output matrices must satisfy `sound`: they are not marked uninitialised and a flag that is set is
true up to the library's published tolerance."""
from base import *
import vec as _v

TOL = num(Fr(1, 1000))
F23 = dict(Normal=1, Orthogonal=2, Identity=4, Uninitialized=8)
F4 = dict(Normal=1, Orthogonal=2, Identity=4, Trs=8, Uninitialized=16)

class M:
    """specification matrix: columns"""
    def __init__(s, cols): s.c = [[lift(x) for x in c] for c in cols]
    def comps(s): return [x for c in s.c for x in c]
    def __getitem__(s, rc): return s.c[rc[1]][rc[0]]
    n = property(lambda s: len(s.c))
def mat(v):
    if isinstance(v, M): return v
    return M([flat(getattr(v, k)) for k in ('x', 'y', 'z', 't') if any(k == f for f, _ in TYPES[v._t][1])])
def mmul(a, b):
    a, b = mat(a), mat(b); n = a.n
    return M([[sum((a[r, k] * b[k, c] for k in range(1, n)), a[r, 0] * b[0, c]) for r in range(n)] for c in range(n)])
def mvec(a, v):
    a = mat(a); v = comps(v)
    return V(*[sum((a[r, k] * v[k] for k in range(1, a.n)), a[r, 0] * v[0]) for r in range(a.n)])
def mt(a): a = mat(a); return M([[a[c, r] for r in range(a.n)] for c in range(a.n)])
def mk_(a, k): return M([[x * k for x in c] for c in mat(a).c])
def mid(n): return M([[1 if r == c else 0 for r in range(n)] for c in range(n)])
def mdiag(*d): return M([[d[r] if r == c else 0 for r in range(len(d))] for c in range(len(d))])
def minor(a, r, c): return M([[a[i, j] for i in range(a.n) if i != r] for j in range(a.n) if j != c])
def mdet(a):
    a = mat(a)
    if a.n == 1: return a[0, 0]
    t = lift(0)
    for c in range(a.n):
        d = a[0, c] * mdet(minor(a, 0, c))
        t = t + d if c % 2 == 0 else t - d
    return t
def mcof(a):
    a = mat(a)
    return M([[mdet(minor(a, r, c)) * (1 if (r + c) % 2 == 0 else -1) for r in range(a.n)] for c in range(a.n)])
def madj(a): return mt(mcof(a))
def isrot(a):
    """orthonormal with determinant one"""
    a = mat(a)
    return same(mmul(mt(a), a), mid(a.n)) + [eq(mdet(a), 1)]

def aff(v):   # 4x4 from Mat34 view
    r = mat(v.rs); t = flat(v.t)
    return M([r.c[0] + [lift(0)], r.c[1] + [lift(0)], r.c[2] + [lift(0)], t + [lift(1)]])
def aff3(r, t=(0, 0, 0)):
    r = mat(r); return M([r.c[0] + [lift(0)], r.c[1] + [lift(0)], r.c[2] + [lift(0)], [lift(x) for x in comps(t)] + [lift(1)]])

# ---- flags
def fl(v, name): return bit(v.flags, {2: 'F2', 3: 'F3', 4: 'F4'}[mat(v).n], name)
def cols_for(v, trs):
    m = mat(v)
    return [c[:3] for c in m.c[:3]] if trs else m.c
def rowaff(m): m = mat(m); return And(eq(m[3, 0], 0), eq(m[3, 1], 0), eq(m[3, 2], 0), eq(m[3, 3], 1))
def _nerr(cs): return sum(((dot(c, c) - 1) * (dot(c, c) - 1) for c in cs[1:]), (dot(cs[0], cs[0]) - 1) * (dot(cs[0], cs[0]) - 1))
def _pairs(cs): cs = cs[:3]; return [(cs[i], cs[j]) for i in range(len(cs)) for j in range(i + 1, len(cs))]
def _oerr(cs):
    t = None
    for a, b in _pairs(cs):
        d = dot(a, b) * dot(a, b); t = d if t is None else t + d
    return t
def normerr(v):
    if mat(v).n < 4: return _nerr(mat(v).c)
    return ite(fl(v, 'Trs'), _nerr(cols_for(v, True)), _nerr(cols_for(v, False)))
def ortherr(v):
    if mat(v).n < 4: return _oerr(mat(v).c)
    return ite(fl(v, 'Trs'), _oerr(cols_for(v, True)), _oerr(cols_for(v, False)))
def identerr(v):
    m = mat(v); i = mid(m.n)
    return norm2([a - b for a, b in zip(m.comps(), i.comps())])
def exact(v):
    m = mat(v)
    out = [Not(fl(v, 'Uninitialized')), Implies(fl(v, 'Identity'), And(*same(m, mid(m.n)))), Implies(fl(v, 'Identity'), And(fl(v, 'Normal'), fl(v, 'Orthogonal')))]
    if m.n < 4:
        out += [Implies(fl(v, 'Normal'), And(*[eq(dot(c, c), 1) for c in m.c])), Implies(fl(v, 'Orthogonal'), And(*[eq(dot(a, b), 0) for a, b in _pairs(m.c)]))]
    else:
        out.append(Implies(fl(v, 'Trs'), rowaff(m)))
        out.append(Implies(fl(v, 'Identity'), fl(v, 'Trs')))
        for trs in (True, False):
            T_ = fl(v, 'Trs') if trs else Not(fl(v, 'Trs'))
            cs = cols_for(v, trs)
            out += [Implies(And(T_, fl(v, 'Normal')), And(*[eq(dot(c, c), 1) for c in cs])), Implies(And(T_, fl(v, 'Orthogonal')), And(*[eq(dot(a, b), 0) for a, b in _pairs(cs)]))]
    return out
def sound(v):
    m = mat(v)
    d = {'initialised': Not(fl(v, 'Uninitialized')), 'identity-flag': Implies(fl(v, 'Identity'), identerr(v) <= TOL), 'identity-is-orthonormal': Implies(fl(v, 'Identity'), And(fl(v, 'Normal'), fl(v, 'Orthogonal')))}
    if m.n < 4:
        d['normal-flag'] = Implies(fl(v, 'Normal'), normerr(v) <= TOL)
        d['orthogonal-flag'] = Implies(fl(v, 'Orthogonal'), ortherr(v) <= TOL)
    else:
        d['trs-flag'] = Implies(fl(v, 'Trs'), rowaff(m))
        for trs in (True, False):
            T_ = fl(v, 'Trs') if trs else Not(fl(v, 'Trs'))
            cs = cols_for(v, trs)
            d['normal-flag-%s' % trs] = Implies(And(T_, fl(v, 'Normal')), _nerr(cs) <= TOL)
            d['orthogonal-flag-%s' % trs] = Implies(And(T_, fl(v, 'Orthogonal')), _oerr(cs) <= TOL)
    return {'flags ' + k: x for k, x in d.items()}
def optimal(v, tn=TOL, to=TOL, ti=TOL):
    """the flags are exactly what the tolerances say"""
    n = normerr(v) <= tn; o = ortherr(v) <= to
    d = {'initialised': Not(fl(v, 'Uninitialized')), 'normal': Iff(fl(v, 'Normal'), n), 'orthogonal': Iff(fl(v, 'Orthogonal'), o), 'identity': Iff(fl(v, 'Identity'), And(n, o, identerr(v) <= ti))}
    if mat(v).n == 4: d['trs'] = Iff(fl(v, 'Trs'), rowaff(v))
    return {'flags ' + k: x for k, x in d.items()}
def sameflags(a, b):
    return [Iff(fl(a, k), fl(b, k)) for k in (F4 if mat(a).n == 4 else F23)]


def _q2m(rng):
    import math
    k = rng.random()
    if k < 0.3: q = rng.choice([(1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 0, 1), (.5, .5, .5, .5), (.5, -.5, .5, .5), (0, .6, 0, .8)])
    else: q = [rng.gauss(0, 1) for _ in range(4)]
    l = math.sqrt(sum(x * x for x in q)); x, y, z, w = [c / l for c in q]
    return [[1 - 2 * (y * y + z * z), 2 * (x * y + w * z), 2 * (z * x - w * y)], [2 * (x * y - w * z), 1 - 2 * (x * x + z * z), 2 * (y * z + w * x)], [2 * (z * x + w * y), 2 * (y * z - w * x), 1 - 2 * (x * x + y * y)]]
def _sample(n):
    import math
    ft = ['x', 'y', 'z', 't'][:n] if n == 4 else ['x', 'y', 'z'][:n]
    comp = ['x', 'y', 'z', 'w'][:n]
    def f(vals, prefix, rng):
        k = rng.random(); m = 3 if n == 4 else n
        def unit():
            v = [rng.gauss(0, 1) for _ in range(m)] if rng.random() < .6 else rng.choice([[1, 0, 0], [.6, .8, 0], [0, .6, .8], [0, 1, 0], [-1, 0, 0]])[:m]
            l = math.sqrt(sum(x * x for x in v)) or 1
            return [x / l for x in v]
        if m == 3: R = _q2m(rng)
        else:
            a = rng.uniform(-4, 4); R = [[math.cos(a), math.sin(a)], [-math.sin(a), math.cos(a)]]
        if k < .1: cols = [[1.0 if i == j else 0.0 for i in range(m)] for j in range(m)]
        elif k < .3: cols = R
        elif k < .4: cols = [[-x for x in c] for c in R]
        elif k < .6: cols = [unit() for _ in range(m)]
        elif k < .8: cols = [[x * s for x in c] for c, s in zip(R, [rng.choice([1, 2, .5, -1, 3, 0, rng.uniform(.1, 3)]) for _ in R])]
        elif k < .88: cols = [[rng.choice([0, 0, 1, -1, 2, .5]) for _ in range(m)] for _ in range(m)]
        else: cols = [[rng.uniform(-2, 2) for _ in range(m)] for _ in range(m)]
        trs = n == 4 and rng.random() < .75
        if n == 4:
            if trs: cols = [c + [0.0] for c in cols] + [([rng.uniform(-3, 3) for _ in range(3)] if rng.random() < .8 and k > .1 else [0.0] * 3) + [1.0]]
            else:
                cols = [c + [rng.choice([0, 1, .5, rng.uniform(-1, 1)])] for c in cols] + [[rng.uniform(-2, 2) for _ in range(4)]]
                if rng.random() < .4:
                    for c in cols:
                        l = math.sqrt(sum(x * x for x in c)) or 1
                        c[:] = [x / l for x in c]
        for c, nm in zip(cols, ft):
            for x, cn in zip(c, comp): vals['%s.%s.%s' % (prefix, nm, cn)] = float(x)
        cs = [c[:3] for c in cols[:3]] if trs else cols
        d = lambda a, b: sum(x * y for x, y in zip(a, b))
        keep = lambda: rng.random() < .85
        no = all(abs(d(c, c) - 1) < 1e-9 for c in cs) and keep()
        c3 = cs[:3]
        orr = all(abs(d(c3[i], c3[j])) < 1e-9 for i in range(len(c3)) for j in range(i)) and keep()
        ide = no and orr and all(abs(x - (i == j)) < 1e-9 for j, c in enumerate(cols) for i, x in enumerate(c)) and (n < 4 or trs) and keep()
        fl_ = dict(Normal=no, Orthogonal=orr, Identity=ide, Uninitialized=False)
        if n == 4: fl_['Trs'] = trs
        for b, v in fl_.items(): vals['%s.flags:%s' % (prefix, b)] = v
    return f
deftype('M2', 'Mat2<Real>', [('x', 'V2'), ('y', 'V2'), ('flags', 'F2')], exact, sampler=_sample(2))
deftype('M3', 'Mat3<Real>', [('flags', 'F3'), ('x', 'V3'), ('y', 'V3'), ('z', 'V3')], exact, sampler=_sample(3))
deftype('M4', 'Mat4<Real>', [('flags', 'F4'), ('x', 'V4'), ('y', 'V4'), ('z', 'V4'), ('t', 'V4')], exact, sampler=_sample(4))
deftype('M34', 'Mat34<Real>', [('rs', 'M3'), ('t', 'V3')], lambda v: exact(v.rs))
FLAGSETS['F2'] = F23; FLAGSETS['F3'] = F23; FLAGSETS['F4'] = F4
deftype('TOL', 'MatrixTolerance<Real>', [('normal', 'R'), ('orthogonal', 'R'), ('identity', 'R')])

def both(value, v, fl_=sound):
    d = {'value': value}
    d.update(fl_(v)); return d

for n, T_, VT in ((2, 'M2', 'V2'), (3, 'M3', 'V3'), (4, 'M4', 'V4')):
    p = 'm%d_' % n
    X = 'Mat%d<Real>' % n
    AB = '%s a, %s b' % (T_, T_); MAB = '%s& a, %s b' % (T_, T_)
    al = [('a', 'b')]
    cs = ['x', 'y', 'z', 't'] if n == 4 else ['x', 'y', 'z'][:n]
    CV = ', '.join('%s %s' % (VT, c) for c in cs); CA = ', '.join(cs)
    U = ('a', )
    def fromcols(get, cs=cs): return lambda e: both(same(mat(get(e)), M([flat(getattr(e, c)) for c in cs])), get(e), optimal)
    C(p + 'default', '', T_, X + '()', ensures=lambda e: And(*[(fl(e.out, k) if k == 'Uninitialized' else Not(fl(e.out, k))) for k in F23]))
    C(p + 'ctor_k', 'R k', T_, X + '(k)', ensures=lambda e, n=n: both(same(mat(e.out), mdiag(*([e.k] * min(n, 3) + ([1] if n == 4 else [])))), e.out))
    C(p + 'ctor', CV, T_, '%s(%s)' % (X, CA), ensures=fromcols(lambda e: e.out))
    C(p + 'from', CV, T_, '%s::from(%s)' % (X, CA), ensures=fromcols(lambda e: e.out))
    if n < 4: C(p + 'set', '%s& m, %s' % (T_, CV), '&m', 'm.set(%s)' % CA, uninit=('m',), inv=False, ensures=fromcols(lambda e: e.post.m))
    C(p + 'set_any', '%s& m, %s' % (T_, CV), '&m', 'm.set(%s)' % CA, inv=False, ensures=fromcols(lambda e: e.post.m))
    C(p + 'setIdentity', '%s& m' % T_, '&m', 'm.setIdentity()', inv=False, uninit=('m',), ensures=lambda e, n=n: both(same(mat(e.post.m), mid(n)) + [fl(e.post.m, k) for k in (F4 if n == 4 else F23) if k != 'Uninitialized'], e.post.m))
    C(p + 'setm', MAB, '&a', 'a.set(b)', alias=al, inv=False, ensures=lambda e: [same(mat(e.post.a), mat(e.b)), sameflags(e.post.a, e.b)])
    C(p + 'copy', '%s a' % T_, T_, 'a', inv=False, ensures=lambda e: [same(mat(e.out), mat(e.a)), sameflags(e.out, e.a)])
    C(p + 'assign', MAB, '&a', 'a = b', alias=al, inv=False, ensures=lambda e: [same(mat(e.post.a), mat(e.b)), sameflags(e.post.a, e.b)])
    C(p + 'scalea', '%s& a, R k' % T_, '&a', 'a *= k', ensures=lambda e: both(same(mat(e.post.a), mk_(e.a, e.k)), e.post.a))
    C(p + 'diva', '%s& a, R k' % T_, '&a', 'a /= k', requires=lambda e: ne(e.k, 0), ensures=lambda e: both(same(mk_(e.post.a, e.k), mat(e.a)), e.post.a))
    C(p + 'neg', '%s a' % T_, T_, '-a', ensures=lambda e: both(same(mat(e.out), mk_(e.a, -1)), e.out, optimal))
    C(p + 'scale_k', '%s a, R k' % T_, T_, 'a * k', requires=lambda e: ne(e.k, 0), ensures=lambda e: both(same(mat(e.out), mk_(e.a, e.k)), e.out))
    C(p + 'scale_0', '%s a' % T_, T_, 'a * Real(0)', ensures=lambda e: both(same(mat(e.out), mk_(e.a, 0)), e.out))
    C(p + 'div_k', '%s a, R k' % T_, T_, 'a / k', requires=lambda e: ne(e.k, 0), ensures=lambda e: both(same(mk_(e.out, e.k), mat(e.a)), e.out))
    C(p + 'mul', AB, T_, 'a * b', alias=al, ensures=lambda e: both(same(mat(e.out), mmul(e.a, e.b)), e.out), cost=5)
    C(p + 'multiply', '%s& d, %s' % (T_, AB), 'void', X + '::multiply(d, a, b)', alias=al, uninit=('d',), ensures=lambda e: both(same(mat(e.post.d), mmul(e.a, e.b)), e.post.d), cost=5, inv=False,
      requires=lambda e: exact(e.a) + exact(e.b))
    C(p + 'multiply_any', '%s& d, %s' % (T_, AB), 'void', X + '::multiply(d, a, b)', alias=al, ensures=lambda e: both(same(mat(e.post.d), mmul(e.a, e.b)), e.post.d), cost=5, inv=False,
      requires=lambda e: exact(e.a) + exact(e.b))
    if n < 4: C(p + 'mula', MAB, '&a', 'a *= b', alias=al, ensures=lambda e: both(same(mat(e.post.a), mmul(e.a, e.b)), e.post.a), cost=5)
    C(p + 'mulv', '%s a, %s v' % (T_, VT), VT, 'a * v', inv=False, ensures=lambda e: same(e.out, mvec(e.a, e.v)))
    if n < 4: C(p + 'vmul', '%s a, %s v' % (T_, VT), VT, 'v * a', inv=False, ensures=lambda e: same(e.out, mvec(mt(e.a), e.v)))
    if n < 4: C(p + 'vmula', '%s a, %s& v' % (T_, VT), '&v', 'v *= a', inv=False, ensures=lambda e: same(e.post.v, mvec(mt(e.a), e.v)))
    C(p + 'transform', '%s a, %s& d, %s v' % (T_, VT, VT), 'void', 'a.transform(d, v)', inv=False, alias=[('d', 'v')], ensures=lambda e: same(e.post.d, mvec(e.a, e.v)))
    C(p + 'assoc', '%s a, %s b, %s v' % (T_, T_, VT), VT, '(a * b) * v', ensures=lambda e: same(e.out, mvec(e.a, mvec(e.b, e.v))), cost=5)
    C(p + 'eq', AB, 'B', 'a == b', alias=al, inv=False, ensures=lambda e: Iff(e.out, And(*same(mat(e.a), mat(e.b)))))
    C(p + 'ne', AB, 'B', 'a != b', alias=al, inv=False, ensures=lambda e: Iff(e.out, Not(And(*same(mat(e.a), mat(e.b))))))
    C(p + 'transpose', '%s& a' % T_, '&a', 'a.transpose()', ensures=lambda e: both(same(mat(e.post.a), mt(e.a)), e.post.a))
    C(p + 'transposed', '%s a' % T_, T_, 'a.transposed()', ensures=lambda e: both(same(mat(e.out), mt(e.a)), e.out))
    C(p + 'trace', '%s a' % T_, 'R', 'a.trace()', inv=False, ensures=lambda e: eq(e.out, sum((mat(e.a)[i, i] for i in range(1, mat(e.a).n)), mat(e.a)[0, 0])))
    C(p + 'det', '%s a' % T_, 'R', 'a.determinant()', inv=False, ensures=lambda e: eq(e.out, mdet(e.a)))
    if n < 4:
        C(p + 'cofactors', '%s a' % T_, T_, 'a.cofactors()', inv=False, ensures=lambda e: both(same(mat(e.out), mcof(e.a)), e.out, optimal))
        C(p + 'adjoint', '%s a' % T_, T_, 'a.adjoint()', inv=False, ensures=lambda e: both([same(mat(e.out), madj(e.a)), same(mmul(e.a, e.out), mk_(mid(mat(e.a).n), mdet(e.a)))], e.out, optimal))
    def orthdet(e):
        a = mat(e.a); cs_ = a.c if a.n < 4 else cols_for(e.a, True)
        on = And(fl(e.a, 'Normal'), fl(e.a, 'Orthogonal')) if a.n < 4 else And(fl(e.a, 'Normal'), fl(e.a, 'Orthogonal'), fl(e.a, 'Trs'))
        return {'det': Implies(on, eq(mdet(M(cs_)) * mdet(M(cs_)), 1)), 'rows': Implies(on, And(*same(mmul(M(cs_), mt(M(cs_))), mid(len(cs_)))))}
    def inverse(e, o):
        a = mat(e.a); d = mdet(a)
        return both({'right': Implies(ne(d, 0), And(*same(mmul(a, o), mid(a.n)))), 'left': Implies(ne(d, 0), And(*same(mmul(o, a), mid(a.n)))), 'singular': Implies(eq(d, 0), iszero(mat(o)))}, o)
    C(p + 'inversed', '%s a' % T_, T_, 'a.inversed()', lemmas=orthdet, ensures=lambda e: inverse(e, e.out), cost=20)
    if n > 2: C(p + 'invert', '%s& a' % T_, '&a', 'a.invert()', lemmas=orthdet, ensures=lambda e: inverse(e, e.post.a), cost=20)
    C(p + 'optimize', '%s& a' % T_, '&a', 'a.optimize()', inv=False, ensures=lambda e: both(same(mat(e.post.a), mat(e.a)), e.post.a, optimal))
    C(p + 'optimize_tol', '%s& a, TOL k' % T_, '&a', 'a.optimize(&k)', inv=False, ensures=lambda e: both(same(mat(e.post.a), mat(e.a)), e.post.a, lambda v: optimal(v, e.k.normal, e.k.orthogonal, e.k.identity)))
    C(p + 'normalError', '%s a' % T_, 'R', 'a.normalError()', inv=False, ensures=lambda e: eq(e.out, normerr(e.a)))
    C(p + 'orthogonalError', '%s a' % T_, 'R', 'a.orthogonalError()', inv=False, ensures=lambda e: eq(e.out, ortherr(e.a)))
    C(p + 'identityError', '%s a' % T_, 'R', 'a.identityError()', inv=False, ensures=lambda e: eq(e.out, identerr(e.a)))
    for q, g in (('isNormal', lambda a: fl(a, 'Normal')), ('isOrthogonal', lambda a: fl(a, 'Orthogonal')), ('isOrthonormal', lambda a: And(fl(a, 'Normal'), fl(a, 'Orthogonal'))), ('isIdentity', lambda a: fl(a, 'Identity')), ('isInitialized', lambda a: Not(fl(a, 'Uninitialized')))) + ((('isTrs', lambda a: fl(a, 'Trs')),) if n == 4 else ()):
        C(p + q, '%s a' % T_, 'B', 'a.%s()' % q, inv=False, ensures=lambda e, g=g: Iff(e.out, g(e.a)))
    C(p + 'cast', '%s a' % T_, T_, 'a.template cast<double>().template cast<Real>()', inv=False, ensures=lambda e: both(same(mat(e.out), mat(e.a)), e.out, optimal))
    for i in range(n * n):
        C(p + 'data_%d' % i, '%s a' % T_, 'R', 'a.data()[%d]' % i, inv=False, ensures=lambda e, i=i: eq(e.out, mat(e.a).comps()[i]))
        C(p + 'data_w_%d' % i, '%s& a, R k' % T_, 'void', 'a.data()[%d] = k' % i, inv=False, ensures=lambda e, i=i: [eq(x, e.k if j == i else y) for j, (x, y) in enumerate(zip(mat(e.post.a).comps(), mat(e.a).comps()))])
    for nm, val in (('Zero', lambda n: mdiag(*[0] * n)), ('One', mid)):
        C(p + 'const_' + nm, '', T_, X + '::' + nm, ensures=lambda e, val=val, n=n: both(same(mat(e.out), val(n)), e.out))
    if n < 4:
        C(p + 'scale', '%s& a, %s k' % (T_, VT), '&a', 'a.scale(k)', ensures=lambda e: both(same(mat(e.post.a), mmul(e.a, mdiag(*flat(e.k)))), e.post.a, optimal))
        C(p + 'scaled', '%s a, %s k' % (T_, VT), T_, 'a.scaled(k)', ensures=lambda e: both(same(mat(e.out), mmul(e.a, mdiag(*flat(e.k)))), e.out, optimal))

# ---------------------------------------------------------------- rotations
def rot2m(t): return M([[cos(t), sin(t)], [-sin(t), cos(t)]])
def rotc3(c, t):
    s, k = sin(t), cos(t)
    return [M([[1, 0, 0], [0, k, s], [0, -s, k]]), M([[k, 0, -s], [0, 1, 0], [s, 0, k]]), M([[k, s, 0], [-s, k, 0], [0, 0, 1]])][c]
def ext4(m): return M([c + [lift(0)] for c in mat(m).c] + [[0, 0, 0, 1]])
C('m2_from_angle', 'R t', 'M2', 'Mat2<Real>::from(t)', ensures=lambda e: both([same(mat(e.out), rot2m(e.t)), isrot(e.out)], e.out))
C('m2_set_angle', 'M2& a, R t', '&a', 'a.set(t)', inv=False, ensures=lambda e: both([same(mat(e.post.a), rot2m(e.t)), isrot(e.post.a)], e.post.a))
C('m2_rotate', 'M2& a, R t', '&a', 'a.rotate(t)', ensures=lambda e: both(same(mat(e.post.a), mmul(rot2m(e.t), e.a)), e.post.a))
C('m2_rotatePre', 'M2& a, R t', '&a', 'a.rotatePre(t)', ensures=lambda e: both(same(mat(e.post.a), mmul(e.a, rot2m(e.t))), e.post.a))
C('m2_rotated', 'M2 a, R t', 'M2', 'a.rotated(t)', ensures=lambda e: both(same(mat(e.out), mmul(rot2m(e.t), e.a)), e.out))
C('m2_angle', 'M2 a', 'R', 'a.angle()', inv=False, ensures=lambda e: Implies(nonzero(e.a.x), And(eq(norm(e.a.x) * cos(e.out), e.a.x.x), eq(norm(e.a.x) * sin(e.out), e.a.x.y), -PI <= e.out, e.out <= PI)))
C('m2_orthonormalise', 'M2& a', '&a', 'a.orthonormalise()', inv=False, requires=lambda e: nonzero(e.a.x),
  ensures=lambda e: both([isrot(e.post.a), same(V(*mat(e.post.a).c[0]) * norm(e.a.x), e.a.x)], e.post.a))
C('m2_angle_roundtrip', 'M2& a', 'void', 'a.set(a.angle())', requires=lambda e: isrot(e.a), inv=False, ensures=lambda e: same(mat(e.post.a), mat(e.a)))
C('m2_mul_angles', 'R s, R t', 'M2', 'Mat2<Real>::from(s) * Mat2<Real>::from(t)', cost=3,
  ensures=lambda e: Or(And(*same(mat(e.out), rot2m(e.s + e.t))), And(identm(rot2m(e.s)), And(*same(mat(e.out), rot2m(e.t)))), And(identm(rot2m(e.t)), And(*same(mat(e.out), rot2m(e.s))))))
def identm(m): return identerr(m) <= TOL

for n, T_, ext in ((3, 'M3', mat), (4, 'M4', ext4)):
    p = 'm%d_' % n; X = 'Mat%d<Real>' % n
    C(p + 'set_coord', '%s& a, Coord c, R t' % T_, '&a', 'a.set(c, t)', inv=False, uninit=('a',), ensures=lambda e, ext=ext: both([same(mat(e.post.a), ext(rotc3(e.c, e.t))), isrot(e.post.a)], e.post.a))
    C(p + 'from_coord', 'Coord c, R t', T_, X + '::from(c, t)', ensures=lambda e, ext=ext: both([same(mat(e.out), ext(rotc3(e.c, e.t))), isrot(e.out)], e.out))
