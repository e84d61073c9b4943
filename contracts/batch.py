"""Batches: arrays of points through a matrix, bounding volumes of point arrays."""
from base import *
from mat import *
from rot import pt, ap
from box import lo, hi, inside, corners
SZ = {'V2': 16, 'V3': 24, 'V4': 32}
BT = [('m2', 'M2', 'V2', 'transform', mvec), ('m3', 'M3', 'V3', 'transform', mvec), ('m34', 'M34', 'V3', 'transform', ap), ('m4', 'M4', 'V3', 'transform', pt), ('m4', 'M4', 'V4', 'transform', mvec),
      ('m4', 'M4', 'V3', 'transformVector', lambda m, v: pt(m, v, 0)), ('m4', 'M4', 'V4', 'transformVector', lambda m, v: mvec(m, [v.x, v.y, v.z, 0]))]
# every count and stride: k is any element (ghost)
def every(e, f): return same(e.post.d[e.k], f(e.m, e.s[e.k]))
SZR = {v: (lambda e, q=SZ[v]: q if e.bits == 64 else q // 2) for v in SZ}
def IDX(e): return [0 <= lift(e.k, 'I'), e.k < lift(e.n, 'I')]
for p, MT, VT, fn, f in BT:
    nm = 'b_%s_%s_%s' % (p, fn, VT.lower()); z = SZ[VT]
    nat = [dict(n=n, k=k) for n in (1, 2, 3, 5) for k in range(n)]
    C(nm, '%s m, %s[n]& d, %s[n] s, sz n, sz k' % (MT, VT, VT), 'void', 'm.%s(d, s, n)' % fn, inv=False, alias=[('d', 's')], symloops=True, ghosts=('k',), natives=nat, requires=IDX, ensures=lambda e, f=f: every(e, f))
    # strides are in bytes, at least one element
    C(nm + '_stride', '%s m, %s[n:u]& d, %s[n:v] s, sz n, sz u, sz v, sz k' % (MT, VT, VT), 'void', 'm.%s(d, s, n, u, v)' % fn, inv=False, symloops=True, ghosts=('k',), natives=[dict(c, u=a, v=b) for c in nat for a in (z, z + 16) for b in (z, z + 8)][::2],
      requires=lambda e, z=SZR[VT]: [IDX(e), z(e) <= lift(e.u, 'I'), z(e) <= lift(e.v, 'I')], ensures=lambda e, f=f: every(e, f))
    C(nm + '_inplace', '%s m, %s[n:u]& d, %s[n:u] s, sz n, sz u, sz k' % (MT, VT, VT), 'void', 'm.%s(d, s, n, u, u)' % fn, inv=False, alias=[('d', 's')], symloops=True, ghosts=('k',), natives=[dict(c, u=a) for c in nat for a in (z, z + 8)],
      requires=lambda e, z=SZR[VT]: [IDX(e), z(e) <= lift(e.u, 'I')], ensures=lambda e, f=f: every(e, f))
# ------------------------------------------------------------------ bounding volumes of points
ELEM = lambda e: e.sizeof if hasattr(e, 'sizeof') else None
def some(e, f):
    """some given point satisfies f"""
    n = e.case.get('n')
    ks = range(n) if n is not None else [0, e.k] + [t for _, _, t in e.state.sk]
    return Or(*[f(e.p[i]) for i in ks])
def B_(e): return e.post.a if hasattr(e.post, 'a') else e.out
def bounds(d):
    def f(e):
        b = B_(e); L, H = lo(b), hi(b); q = vec(e.p[e.k])
        out = {'inside': [And(L[i] <= q[i], q[i] <= H[i]) for i in range(d)]}
        for i in range(d):
            out['low face %d' % i] = some(e, lambda v, i=i: eq(vec(v)[i], L[i])); out['high face %d' % i] = some(e, lambda v, i=i: eq(vec(v)[i], H[i]))
        return out
    return f
def ball(d):
    def f(e):
        b = B_(e); rr = b.radius * b.radius
        n = e.case.get('n'); ks = range(n) if n is not None else [0, e.k] + [t for _, _, t in e.state.sk]
        q = vec(e.p[e.k]); c = vec(b.center)
        mid = {'centre %d' % i: Or(*[And(eq(c[i] * 2, u + v), u <= q[i], q[i] <= v) for u in dict.fromkeys(vec(e.p[s])[i] for s in ks) for v in dict.fromkeys(vec(e.p[t])[i] for t in ks)]) for i in range(d)}
        return {**mid, 'contains': norm2(vec(e.p[e.k]) - vec(b.center)) <= rr, 'radius': 0 <= b.radius, 'touches': some(e, lambda v: eq(norm2(vec(v) - vec(b.center)), rr))}
    return f
for d in (2, 3):
    for T_, p, cpp in (('A%d' % d, 'a%d_' % d, 'AABB%d<Real>' % d), ('K%d' % d, 'k%d_' % d, 'CAABB%d<Real>' % d), ({2: 'CI', 3: 'SP'}[d], {2: 'ci_', 3: 'sp_'}[d], {2: 'Circle<Real>', 3: 'Sphere<Real>'}[d])):
        f = ball(d) if T_ in ('CI', 'SP') else bounds(d)
        V_ = 'V%d' % d; z = SZ[V_]; nat = [dict(n=n, k=k) for n in (1, 2, 3, 5) for k in range(n)]
        for nm, ps, ret, ex in (('set_pts', T_ + '& a, ', '&a', 'a.set'), ('from_pts', '', T_, cpp + '::from')):
            C(p + nm, ps + V_ + '[n] p, i n, i k', ret, ex + '(n, p)', symloops=True, ghosts=('k',), witness=True, natives=nat, requires=IDX, ensures=f)
            C(p + nm + '_stride', ps + V_ + '[n:u] p, i n, i u, i k', ret, ex + '(n, p, u)', symloops=True, ghosts=('k',), witness=True, natives=[dict(c, u=a) for c in nat for a in (z, z + 8)], requires=lambda e, z=SZR[V_]: [IDX(e), z(e) <= lift(e.u, 'I')], ensures=f)
