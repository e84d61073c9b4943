"""Rotations of matrices, reference frames, affine transforms (Mat4 with affine last row, Mat34)."""
from base import *
from mat import *
from quat import unit, qmul, qm, qconj, half, qrot

def rodrigues(axis, t):
    """rotation matrix about a non-null axis"""
    n = norm(axis); u = [c / n for c in comps(axis)]; s, k = sin(t), cos(t); f = 1 - k
    return M([[k * (1 if i == j else 0) + u[i] * u[j] * f + s * {(0, 0): 0, (1, 0): u[2], (2, 0): -u[1], (0, 1): -u[2], (1, 1): 0, (2, 1): u[0], (0, 2): u[1], (1, 2): -u[0], (2, 2): 0}[(i, j)] for i in range(3)] for j in range(3)])
def orunchanged(res, rot, val, old):
    """res == val, or the rotation is within the identity tolerance and nothing changed"""
    r, v, o = flat(mat(res)), flat(mat(val)), flat(mat(old)); i = identm(rot)
    return {'exact': [Or(i, eq(a, b)) for a, b in zip(r, v)], 'within-identity-tolerance': Implies(i, Or(And(*same(r, v)), And(*same(r, o))))}
ROT = [   # name, params, call arguments, matrix, precondition
 ('q', 'Q q', 'q', lambda e: qm(e.q), lambda e: unit(e.q)),
 ('axis', 'V3 v, R k', 'v, k', lambda e: rodrigues(e.v, e.k), lambda e: nonzero(e.v)),
 ('coord', 'Coord c, R k', 'c, k', lambda e: rotc3(e.c, e.k), lambda e: TRUE),
]
FRAMES = dict(c=[0, 1, 2], d=[0, 1, 2])
def frame(get, ext, n):
    def f(e):
        o = get(e); m = mat(o); c, d = e.c, e.d
        u = V(*m.c[c][:3]); w = V(*m.c[d][:3])
        deg = iszero(cross(e.u, e.v))
        r3 = M([x[:3] for x in m.c[:3]])
        return {'degenerate': Implies(deg, And(*same(m, mid(n)))), 'rotation': isrot(r3), 'affine': same(m, ext(r3)),
                'exact': Implies(Not(deg), And(*same(u * norm(e.u), vec(e.u)))),
                'approx-plane': Implies(Not(deg), eq(dot(w, cross(e.u, e.v)), 0)), 'approx-side': Implies(Not(deg), 0 < dot(w, e.v))}
    return f
for n, T_, ext in ((3, 'M3', mat), (4, 'M4', ext4)):
    p = 'm%d_' % n; X = 'Mat%d<Real>' % n
    C(p + 'set_axis', '%s& a, V3 v, R k' % T_, '&a', 'a.set(v, k)', inv=False, uninit=('a',), requires=lambda e: nonzero(e.v), ensures=lambda e, ext=ext: both([same(mat(e.post.a), ext(rodrigues(e.v, e.k))), isrot(e.post.a)], e.post.a, optimal), cost=4)
    C(p + 'from_axis', 'V3 v, R k', T_, X + '::from(v, k)', requires=lambda e: nonzero(e.v), ensures=lambda e, ext=ext: both([same(mat(e.out), ext(rodrigues(e.v, e.k))), isrot(e.out)], e.out, optimal), cost=4)
    for c in range(3):
        for d in range(3):
            if c == d: continue
            cases = dict(c=[c], d=[d])
            C(p + 'set_frame_%s%s' % ('xyz'[c], 'xyz'[d]), '%s& a, Coord c, V3 u, Coord d, V3 v' % T_, '&a', 'a.set(c, u, d, v)', inv=False, uninit=('a',), cases=cases, ensures=frame(lambda e: e.post.a, ext, n), cost=5)
    C(p + 'from_frame', 'Coord c, V3 u, Coord d, V3 v', T_, X + '::from(c, u, d, v)', cases=dict(c=[0], d=[1]), ensures=frame(lambda e: e.out, ext, n), cost=5)
    for nm, par, args, rot, req in ROT:
        rq = req
        for which in ('', 'Pre'):
            val = (lambda e, rot=rot, ext=ext: mmul(ext(rot(e)), e.a)) if not which else (lambda e, rot=rot, ext=ext: mmul(e.a, ext(rot(e))))
            C(p + 'rotate%s_%s' % (which, nm), '%s& a, %s' % (T_, par), '&a', 'a.rotate%s(%s)' % (which, args), requires=rq,
              ensures=lambda e, val=val, rot=rot: both(orunchanged(e.post.a, rot(e), val(e), e.a), e.post.a), cost=8)
            C(p + 'rotated%s_%s' % (which, nm), '%s a, %s' % (T_, par), T_, 'a.rotated%s(%s)' % (which, args), requires=rq,
              ensures=lambda e, val=val, rot=rot: both(orunchanged(e.out, rot(e), val(e), e.a), e.out), cost=8)
    C(p + 'orthonormalise', '%s& a' % T_, '&a', 'a.orthonormalise()', inv=False,
      ensures=lambda e, n=n, ext=ext: {'rotation': isrot(M([c[:3] for c in mat(e.post.a).c[:3]])), 'affine': same(mat(e.post.a), ext(M([c[:3] for c in mat(e.post.a).c[:3]]))),
         **sound(e.post.a)}, cost=10)
for nm, expr, val in (('rotate', 'a.rotate(b)', lambda e: mmul(e.b, e.a)), ('rotatePre', 'a.rotatePre(b)', lambda e: mmul(e.a, e.b))):
    C('m3_%s_m' % nm, 'M3& a, M3 b', '&a', expr, alias=[('a', 'b')], ensures=lambda e, val=val: both(same(mat(e.post.a), val(e)), e.post.a), cost=5)
for nm, expr, val in (('rotated', 'a.rotated(b)', lambda e: mmul(e.b, e.a)), ('rotatedPre', 'a.rotatedPre(b)', lambda e: mmul(e.a, e.b))):
    C('m3_%s_m' % nm, 'M3 a, M3 b', 'M3', expr, alias=[('a', 'b')], ensures=lambda e, val=val: both(same(mat(e.out), val(e)), e.out), cost=5)
for nm, ip, expr, val in (('transform', True, 'a.transform(b)', lambda e: mmul(e.b, e.a)), ('transformPre', True, 'a.transformPre(b)', lambda e: mmul(e.a, e.b)),
                          ('transformed', False, 'a.transformed(b)', lambda e: mmul(e.b, e.a)), ('transformedPre', False, 'a.transformedPre(b)', lambda e: mmul(e.a, e.b))):
    if ip: C('m4_%s_m' % nm, 'M4& a, M4 b', '&a', expr, alias=[('a', 'b')], ensures=lambda e, val=val: both(same(mat(e.post.a), val(e)), e.post.a), cost=10)
    else: C('m4_%s_m' % nm, 'M4 a, M4 b', 'M4', expr, alias=[('a', 'b')], ensures=lambda e, val=val: both(same(mat(e.out), val(e)), e.out), cost=10)

# ---------------------------------------------------------------- Mat4 as an affine transform
def trs(e): return fl(e.a, 'Trs')
def tr4(t): return aff3(mid(3), t)
def s4(k): return mdiag(*(flat(k) + [1]))
C('m4_translate', 'M4& a, V3 k', '&a', 'a.translate(k)', requires=trs, ensures=lambda e: both(same(mat(e.post.a), mmul(tr4(e.k), e.a)), e.post.a))
C('m4_translatePre', 'M4& a, V3 k', '&a', 'a.translatePre(k)', requires=trs, ensures=lambda e: both(same(mat(e.post.a), mmul(e.a, tr4(e.k))), e.post.a))
C('m4_translated', 'M4 a, V3 k', 'M4', 'a.translated(k)', requires=trs, ensures=lambda e: both(same(mat(e.out), mmul(tr4(e.k), e.a)), e.out))
C('m4_translatedPre', 'M4 a, V3 k', 'M4', 'a.translatedPre(k)', requires=trs, ensures=lambda e: both(same(mat(e.out), mmul(e.a, tr4(e.k))), e.out))
def scol(e):   # columns scaled one by one, translation scaled component-wise
    m = mat(e.a); k = flat(e.k)
    return M([[x * k[j] for x in m.c[j]] for j in range(3)] + [[x * c for x, c in zip(m.c[3][:3], k)] + [m.c[3][3]]])
C('m4_scale_cols', 'M4& a, V3 k', '&a', 'a.scale(k)', requires=trs, ensures=lambda e: both(same(mat(e.post.a), scol(e)), e.post.a))
C('m4_scaled_cols', 'M4 a, V3 k', 'M4', 'a.scaled(k)', requires=trs, ensures=lambda e: both(same(mat(e.out), scol(e)), e.out))
C('m4_scale_uniform', 'M4& a, R s', '&a', 'a.scale(Vec3<Real>(s, s, s))', requires=trs, ensures=lambda e: both(same(mat(e.post.a), mmul(s4([e.s] * 3), e.a)), e.post.a))
C('m4_scale', 'M4& a, V3 k', '&a', 'a.scale(k)', requires=trs, ensures=lambda e: {'scale-after-transform': same(mat(e.post.a), mmul(s4(e.k), e.a))})
C('m4_scaled', 'M4 a, V3 k', 'M4', 'a.scaled(k)', requires=trs, ensures=lambda e: {'scale-after-transform': same(mat(e.out), mmul(s4(e.k), e.a))})
C('m4_scalePre', 'M4& a, V3 k', '&a', 'a.scalePre(k)', requires=trs, ensures=lambda e: both(same(mat(e.post.a), mmul(e.a, s4(e.k))), e.post.a))
C('m4_scaledPre', 'M4 a, V3 k', 'M4', 'a.scaledPre(k)', requires=trs, ensures=lambda e: both(same(mat(e.out), mmul(e.a, s4(e.k))), e.out))
V3T = 'V3 x, V3 y, V3 z, V3 t'
def affcols(e): return aff3(M([flat(e.x), flat(e.y), flat(e.z)]), e.t)
C('m4_ctor_v3', V3T, 'M4', 'Mat4<Real>(x, y, z, t)', ensures=lambda e: both(same(mat(e.out), affcols(e)), e.out, optimal))
C('m4_set_v3', 'M4& a, ' + V3T, '&a', 'a.set(x, y, z, t)', inv=False, ensures=lambda e: both(same(mat(e.post.a), affcols(e)), e.post.a, optimal))
C('m4_from_v3', V3T, 'M4', 'Mat4<Real>::from(x, y, z, t)', ensures=lambda e: both(same(mat(e.out), affcols(e)), e.out, optimal))
C('m4_ctor_v3_def', 'V3 x, V3 y, V3 z', 'M4', 'Mat4<Real>(x, y, z)', ensures=lambda e: both(same(mat(e.out), aff3(M([flat(e.x), flat(e.y), flat(e.z)]))), e.out, optimal))
def pt(a, v, w=1): r = mvec(a, list(comps(v)) + [w]); return V(*r.c[:3])
C('m4_mulv3', 'M4 a, V3 v', 'V3', 'a * v', inv=False, ensures=lambda e: same(e.out, pt(e.a, e.v)))
C('m4_transform_v3', 'M4 a, V3& d, V3 v', 'void', 'a.transform(d, v)', inv=False, alias=[('d', 'v')], ensures=lambda e: same(e.post.d, pt(e.a, e.v)))
C('m4_transformVector_v3', 'M4 a, V3& d, V3 v', 'void', 'a.transformVector(d, v)', inv=False, alias=[('d', 'v')], ensures=lambda e: same(e.post.d, pt(e.a, e.v, 0)))
C('m4_transformVector_v4', 'M4 a, V4& d, V4 v', 'void', 'a.transformVector(d, v)', inv=False, alias=[('d', 'v')], ensures=lambda e: same(e.post.d, mvec(e.a, [e.v.x, e.v.y, e.v.z, 0])))
C('m4_point_assoc', 'M4 a, M4 b, V3 v', 'V3', '(a * b) * v', requires=lambda e: [fl(e.a, 'Trs'), fl(e.b, 'Trs')], ensures=lambda e: same(e.out, pt(e.a, pt(e.b, e.v))), cost=5)
deftype('RAY3', 'Ray3<Real>', [('start', 'V3'), ('direction', 'V3')])
deftype('PL', 'Plane<Real>', [('normal', 'V3'), ('d', 'R')])
def unitdir(o, v): return And(Implies(nonzero(v), And(eq(norm2(o), 1), *same(vec(o) * norm(v), vec(v)))), Implies(iszero(v), iszero(o)))
AX = [(0, 1), (1, 1), (2, 1), (0, -1), (1, -1), (2, -1)]
for T_, p, col, org in (('M4', 'm4_', lambda a, i: V(*mat(a).c[i][:3]), lambda a: V(*mat(a).c[3][:3])), ('M34', 'm34_', lambda a, i: V(*mat(a.rs).c[i]), lambda a: vec(a.t))):
    C(p + 'localAxis', '%s a, Coord c' % T_, 'RAY3', 'a.localAxis(c)', inv=False, ensures=lambda e, col=col, org=org: [same(e.out.start, org(e.a)), unitdir(e.out.direction, col(e.a, e.c))])
    C(p + 'localPlane', '%s a, Coord c' % T_, 'PL', 'a.localPlane(c)', inv=False, ensures=lambda e, col=col, org=org: [unitdir(e.out.normal, col(e.a, e.c)), eq(e.out.d, dot(e.out.normal, org(e.a)))])
    C(p + 'localPlaneA', '%s a, Axis c' % T_, 'PL', 'a.localPlane(c)', inv=False, ensures=lambda e, col=col, org=org: [unitdir(e.out.normal, col(e.a, AX[e.c][0]) * AX[e.c][1]), eq(e.out.d, dot(e.out.normal, org(e.a)))])
    VT = 'V4' if T_ == 'M4' else 'V3'
    cc = (lambda a, i: mat(a).c[i]) if T_ == 'M4' else (lambda a, i: mat(a.rs).c[i])
    C(p + 'col', '%s a, Coord c' % T_, VT, 'a[c]', inv=False, ensures=lambda e, cc=cc: same(e.out, cc(e.a, e.c)))
    C(p + 'col_w', '%s& a, Coord c, %s v' % (T_, VT), 'void', 'a[c] = v', inv=False, ensures=lambda e, cc=cc, T_=T_: [same(cc(e.post.a, i), e.v if i == e.c else cc(e.a, i)) for i in range(3)] + [same(e.post.a.t, e.a.t)])

# ---------------------------------------------------------------- Mat34
def snd34(value, v): return both(value, v.rs)
def opt34(value, v): return both(value, v.rs, optimal)
def is34(res, val): return And(*same(aff(res), mat(val)))
def rs34(r, t=(0, 0, 0)): return aff3(r, t)
P = 'm34_'
C(P + 'ctor_k', 'R k', 'M34', 'Mat34<Real>(k)', ensures=lambda e: snd34(same(aff(e.out), aff3(mdiag(e.k, e.k, e.k))), e.out))
C(P + 'ctor_m', 'M3 m, V3 t', 'M34', 'Mat34<Real>(m, t)', inv=False, ensures=lambda e: [same(aff(e.out), aff3(e.m, e.t)), sameflags(e.out.rs, e.m)])
C(P + 'ctor_v', V3T, 'M34', 'Mat34<Real>(x, y, z, t)', ensures=lambda e: opt34(same(aff(e.out), affcols(e)), e.out))
C(P + 'set_v', 'M34& a, ' + V3T, '&a', 'a.set(x, y, z, t)', inv=False, ensures=lambda e: opt34(same(aff(e.post.a), affcols(e)), e.post.a))
C(P + 'from_v', V3T, 'M34', 'Mat34<Real>::from(x, y, z, t)', ensures=lambda e: opt34(same(aff(e.out), affcols(e)), e.out))
C(P + 'set_m3', 'M34& a, M3 m, V3 t', '&a', 'a.set(m, t)', inv=False, ensures=lambda e: [same(aff(e.post.a), aff3(e.m, e.t)), sameflags(e.post.a.rs, e.m)])
C(P + 'setIdentity', 'M34& a', '&a', 'a.setIdentity()', inv=False, ensures=lambda e: opt34([same(aff(e.post.a), mid(4))], e.post.a))
C(P + 'setm', 'M34& a, M34 b', '&a', 'a.set(b)', inv=False, alias=[('a', 'b')], ensures=lambda e: [same(aff(e.post.a), aff(e.b)), sameflags(e.post.a.rs, e.b.rs)])
C(P + 'set_q', 'M34& a, Q q, V3 t', '&a', 'a.set(q, t)', inv=False, requires=lambda e: unit(e.q), ensures=lambda e: opt34(same(aff(e.post.a), aff3(qm(e.q), e.t)), e.post.a))
C(P + 'from_q', 'Q q, V3 t', 'M34', 'Mat34<Real>::from(q, t)', requires=lambda e: unit(e.q), ensures=lambda e: opt34(same(aff(e.out), aff3(qm(e.q), e.t)), e.out))
C(P + 'set_axis', 'M34& a, V3 v, R k, V3 t', '&a', 'a.set(v, k, t)', inv=False, requires=lambda e: nonzero(e.v), ensures=lambda e: opt34(same(aff(e.post.a), aff3(rodrigues(e.v, e.k), e.t)), e.post.a))
C(P + 'from_axis', 'V3 v, R k, V3 t', 'M34', 'Mat34<Real>::from(v, k, t)', requires=lambda e: nonzero(e.v), ensures=lambda e: opt34(same(aff(e.out), aff3(rodrigues(e.v, e.k), e.t)), e.out))
C(P + 'set_coord', 'M34& a, Coord c, R k, V3 t', '&a', 'a.set(c, k, t)', inv=False, ensures=lambda e: opt34(same(aff(e.post.a), aff3(rotc3(e.c, e.k), e.t)), e.post.a))
C(P + 'from_coord', 'Coord c, R k, V3 t', 'M34', 'Mat34<Real>::from(c, k, t)', ensures=lambda e: opt34(same(aff(e.out), aff3(rotc3(e.c, e.k), e.t)), e.out))
def frame34(get):
    f = frame(lambda e: get(e).rs, mat, 3)
    def g(e): d = f(e); d['origin'] = iszero(get(e).t); return d
    return g
C(P + 'set_frame', 'M34& a, Coord c, V3 u, Coord d, V3 v', '&a', 'a.set(c, u, d, v)', inv=False, cases=dict(c=[0], d=[1]), ensures=frame34(lambda e: e.post.a), cost=5)
C(P + 'from_frame', 'Coord c, V3 u, Coord d, V3 v', 'M34', 'Mat34<Real>::from(c, u, d, v)', cases=dict(c=[2], d=[0]), ensures=frame34(lambda e: e.out), cost=5)
C(P + 'mul', 'M34 a, M34 b', 'M34', 'a * b', alias=[('a', 'b')], ensures=lambda e: snd34(same(aff(e.out), mmul(aff(e.a), aff(e.b))), e.out), cost=5)
C(P + 'mul_m3', 'M34 a, M3 b', 'M34', 'a * b', ensures=lambda e: snd34(same(aff(e.out), mmul(aff(e.a), aff3(e.b))), e.out), cost=5)
C(P + 'mula', 'M34& a, M34 b', '&a', 'a *= b', alias=[('a', 'b')], ensures=lambda e: snd34(same(aff(e.post.a), mmul(aff(e.a), aff(e.b))), e.post.a), cost=5)
C(P + 'mula_m3', 'M34& a, M3 b', '&a', 'a *= b', ensures=lambda e: snd34(same(aff(e.post.a), mmul(aff(e.a), aff3(e.b))), e.post.a), cost=5)
C(P + 'multiply', 'M34& d, M34 a, M34 b', 'void', 'Mat34<Real>::multiply(d, a, b)', alias=[('a', 'b')], inv=False, requires=lambda e: [exact(e.a.rs), exact(e.b.rs)], ensures=lambda e: snd34(same(aff(e.post.d), mmul(aff(e.a), aff(e.b))), e.post.d), cost=5)
C(P + 'neg', 'M34 a', 'M34', '-a', ensures=lambda e: opt34([same(mat(e.out.rs), mk_(e.a.rs, -1)), same(e.out.t, -vec(e.a.t))], e.out))
def ap(a, v): return pt(aff(a), v)
C(P + 'mulv', 'M34 a, V3 v', 'V3', 'a * v', inv=False, ensures=lambda e: same(e.out, ap(e.a, e.v)))
C(P + 'transformv', 'M34 a, V3& d, V3 v', 'void', 'a.transform(d, v)', inv=False, alias=[('d', 'v')], ensures=lambda e: same(e.post.d, ap(e.a, e.v)))
C(P + 'assoc', 'M34 a, M34 b, V3 v', 'V3', '(a * b) * v', ensures=lambda e: same(e.out, ap(e.a, ap(e.b, e.v))), cost=5)
C(P + 'eq', 'M34 a, M34 b', 'B', 'a == b', inv=False, alias=[('a', 'b')], ensures=lambda e: Iff(e.out, And(*same(aff(e.a), aff(e.b)))))
C(P + 'ne', 'M34 a, M34 b', 'B', 'a != b', inv=False, alias=[('a', 'b')], ensures=lambda e: Iff(e.out, Not(And(*same(aff(e.a), aff(e.b))))))
for nm, par, args, rot, req in ROT:
    for which in ('', 'Pre'):
        C(P + 'rotate%s_%s' % (which, nm), 'M34& a, ' + par, '&a', 'a.rotate%s(%s)' % (which, args), requires=req,
          ensures=lambda e, rot=rot, which=which: snd34(Or(is34(e.post.a, mmul(aff3(rot(e)), aff(e.a)) if not which else mmul(aff(e.a), aff3(rot(e)))),
             And(identm(rot(e)), And(*same(mat(e.post.a.rs), mat(e.a.rs))), And(*same(e.post.a.t, (mvec(rot(e), e.a.t) if not which else e.a.t))))), e.post.a), cost=8)
C(P + 'translate', 'M34& a, V3 k', '&a', 'a.translate(k)', ensures=lambda e: snd34(same(aff(e.post.a), mmul(tr4(e.k), aff(e.a))), e.post.a))
C(P + 'translatePre', 'M34& a, V3 k', '&a', 'a.translatePre(k)', ensures=lambda e: snd34(same(aff(e.post.a), mmul(aff(e.a), tr4(e.k))), e.post.a))
C(P + 'translatePre_self', 'M34& a', '&a', 'a.translatePre(a.t)', ensures=lambda e: snd34(same(aff(e.post.a), mmul(aff(e.a), tr4(e.a.t))), e.post.a))
def scol34(e):
    m = aff(e.a); k = flat(e.k)
    return M([[x * k[j] for x in m.c[j]] for j in range(3)] + [[x * c for x, c in zip(m.c[3][:3], k)] + [lift(1)]])
C(P + 'scale_cols', 'M34& a, V3 k', '&a', 'a.scale(k)', ensures=lambda e: opt34(same(aff(e.post.a), scol34(e)), e.post.a))
C(P + 'scale', 'M34& a, V3 k', '&a', 'a.scale(k)', ensures=lambda e: {'scale-after-transform': same(aff(e.post.a), mmul(s4(e.k), aff(e.a)))})
C(P + 'scale_uniform', 'M34& a, R s', '&a', 'a.scale(Vec3<Real>(s, s, s))', ensures=lambda e: opt34(same(aff(e.post.a), mmul(s4([e.s] * 3), aff(e.a))), e.post.a))
C(P + 'scalePre', 'M34& a, V3 k', '&a', 'a.scalePre(k)', ensures=lambda e: opt34(same(aff(e.post.a), mmul(aff(e.a), s4(e.k))), e.post.a))
C(P + 'transform_m3', 'M34& a, M3 b', '&a', 'a.transform(b)', ensures=lambda e: snd34(same(aff(e.post.a), mmul(aff3(e.b), aff(e.a))), e.post.a), cost=5)
C(P + 'transform', 'M34& a, M34 b', '&a', 'a.transform(b)', alias=[('a', 'b')], ensures=lambda e: snd34(same(aff(e.post.a), mmul(aff(e.b), aff(e.a))), e.post.a), cost=5)
C(P + 'transformPre_m3', 'M34& a, M3 b', '&a', 'a.transformPre(b)', ensures=lambda e: snd34(same(aff(e.post.a), mmul(aff(e.a), aff3(e.b))), e.post.a), cost=5)
C(P + 'transformPre', 'M34& a, M34 b', '&a', 'a.transformPre(b)', alias=[('a', 'b')], ensures=lambda e: snd34(same(aff(e.post.a), mmul(aff(e.a), aff(e.b))), e.post.a), cost=5)
C(P + 'transform_own', 'M34& a', '&a', 'a.transform(a.rs)', ensures=lambda e: snd34(same(aff(e.post.a), mmul(aff3(e.a.rs), aff(e.a))), e.post.a), cost=5)
C(P + 'optimize', 'M34& a', '&a', 'a.optimize()', inv=False, ensures=lambda e: opt34(same(aff(e.post.a), aff(e.a)), e.post.a))
C(P + 'transpose', 'M34& a', '&a', 'a.transpose()', ensures=lambda e: snd34(same(aff(e.post.a), aff3(mt(e.a.rs), e.a.t)), e.post.a))
def inv34(e):
    a = aff(e.a); o = aff(e.post.a); d = mdet(e.a.rs)
    return snd34({'right': Implies(ne(d, 0), And(*same(mmul(a, o), mid(4)))), 'left': Implies(ne(d, 0), And(*same(mmul(o, a), mid(4))))}, e.post.a)
def orth34(e):
    on = And(fl(e.a.rs, 'Normal'), fl(e.a.rs, 'Orthogonal')); a = mat(e.a.rs)
    return {'det': Implies(on, eq(mdet(a) * mdet(a), 1)), 'rows': Implies(on, And(*same(mmul(a, mt(a)), mid(3))))}
C(P + 'invert', 'M34& a', '&a', 'a.invert()', lemmas=orth34, ensures=inv34, cost=20)
for q, g in (('isNormal', lambda a: fl(a.rs, 'Normal')), ('isOrthogonal', lambda a: fl(a.rs, 'Orthogonal')), ('isOrthonormal', lambda a: And(fl(a.rs, 'Normal'), fl(a.rs, 'Orthogonal'))), ('isIdentity', lambda a: And(fl(a.rs, 'Identity'), iszero(a.t))), ('isInitialized', lambda a: Not(fl(a.rs, 'Uninitialized')))):
    C(P + q, 'M34 a', 'B', 'a.%s()' % q, inv=False, ensures=lambda e, g=g: Iff(e.out, g(e.a)))
C(P + 'cast', 'M34 a', 'M34', 'a.template cast<double>().template cast<Real>()', inv=False, ensures=lambda e: opt34(same(aff(e.out), aff(e.a)), e.out))
for nm, val in (('Zero', mdiag(0, 0, 0)), ('One', mid(3))):
    C(P + 'const_' + nm, '', 'M34', 'Mat34<Real>::' + nm, ensures=lambda e, val=val: snd34(same(aff(e.out), aff3(val)), e.out))
for i in range(9):
    C(P + 'data_%d' % i, 'M34 a', 'R', 'a.data()[%d]' % i, inv=False, ensures=lambda e, i=i: eq(e.out, mat(e.a.rs).comps()[i]))
