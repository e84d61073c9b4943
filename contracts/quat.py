"""Quaternions: algebra, conversions to and from matrices, interpolation."""
from base import *
from mat import *
import math

def _qs(vals, prefix, rng):
    k = rng.random()
    if k < .25: q = rng.choice([(0, 0, 0, 1), (1, 0, 0, 0), (0, 1, 0, 0), (0, 0, 1, 0), (.5, .5, .5, .5), (-.5, .5, -.5, .5), (0, .6, 0, .8), (.6, 0, 0, -.8), (0, 0, 0, -1)])
    elif k < .85:
        q = [rng.gauss(0, 1) for _ in range(4)]; l = math.sqrt(sum(x * x for x in q)) or 1; q = [x / l for x in q]
    elif k < .9: q = (0, 0, 0, 0)
    else: q = [rng.uniform(-2, 2) for _ in range(4)]
    for c, x in zip('xyzw', q): vals['%s.%s' % (prefix, c)] = float(x)
deftype('Q', 'Quat<Real>', [('x', 'R'), ('y', 'R'), ('z', 'R'), ('w', 'R')], sampler=_qs)

def unit(q): return eq(norm2(q), 1)
def qmul(a, b):
    a, b = vec(a), vec(b)
    return V(a.w * b.x + a.x * b.w + a.y * b.z - a.z * b.y,
             a.w * b.y - a.x * b.z + a.y * b.w + a.z * b.x,
             a.w * b.z + a.x * b.y - a.y * b.x + a.z * b.w,
             a.w * b.w - a.x * b.x - a.y * b.y - a.z * b.z)
def qconj(q): q = vec(q); return V(-q.x, -q.y, -q.z, q.w)
def qrot(q, v):
    """q v q* as a polynomial in the components"""
    v = comps(v); r = qmul(qmul(q, V(v[0], v[1], v[2], 0)), qconj(q)); return V(r.x, r.y, r.z)
def qm(q): return M([comps(qrot(q, V(*[1 if i == j else 0 for i in range(3)]))) for j in range(3)])
def half(axis, t): 
    """unit-axis half-angle quaternion, the axis need not be normalised"""
    n = norm(axis); return V(*[a * sin(t / 2) / n for a in comps(axis)] + [cos(t / 2)])
QQ = 'Q a, Q b'

C('q_ctor', 'R x, R y, R z, R w', 'Q', 'Quat<Real>(x, y, z, w, false)', ensures=lambda e: same(e.out, V(e.x, e.y, e.z, e.w)))
C('q_ctor_norm', 'R x, R y, R z, R w', 'Q', 'Quat<Real>(x, y, z, w)', ensures=lambda e: [unit(e.out), Implies(nonzero(V(e.x, e.y, e.z, e.w)), And(*same(vec(e.out) * norm(V(e.x, e.y, e.z, e.w)), V(e.x, e.y, e.z, e.w)))), Implies(iszero(V(e.x, e.y, e.z, e.w)), And(*same(e.out, V(0, 0, 0, 1))))])
C('q_setIdentity', 'Q& a', '&a', 'a.setIdentity()', uninit=('a',), ensures=lambda e: same(e.post.a, V(0, 0, 0, 1)))
C('q_setq', 'Q& a, Q b', '&a', 'a.set(b)', alias=[('a', 'b')], ensures=lambda e: same(e.post.a, e.b))
C('q_assign', 'Q& a, Q b', '&a', 'a = b', alias=[('a', 'b')], ensures=lambda e: same(e.post.a, e.b))
C('q_from', 'Q a', 'Q', 'Quat<Real>::from(a)', ensures=lambda e: same(e.out, e.a))
C('q_one', '', 'Q', 'Quat<Real>::One', ensures=lambda e: same(e.out, V(0, 0, 0, 1)))
C('q_eq', QQ, 'B', 'a == b', alias=[('a', 'b')], ensures=lambda e: Iff(e.out, And(*same(e.a, e.b))))
C('q_ne', QQ, 'B', 'a != b', alias=[('a', 'b')], ensures=lambda e: Iff(e.out, Not(And(*same(e.a, e.b)))))
C('q_neg', 'Q a', 'Q', '-a', ensures=lambda e: same(e.out, -vec(e.a)))
C('q_cast', 'Q a', 'Q', 'a.template cast<double>().template cast<Real>()', ensures=lambda e: same(e.out, e.a))
for i in range(4):
    C('q_data_%d' % i, 'Q a', 'R', 'a.data()[%d]' % i, ensures=lambda e, i=i: eq(e.out, vec(e.a)[i]))
    C('q_data_w_%d' % i, 'Q& a, R k', 'void', 'a.data()[%d] = k' % i, ensures=lambda e, i=i: [eq(vec(e.post.a)[j], e.k if j == i else vec(e.a)[j]) for j in range(4)])
C('q_normalize', 'Q& a', '&a', 'a.normalize()', ensures=lambda e: [unit(e.post.a), Implies(nonzero(e.a), And(*same(vec(e.post.a) * norm(e.a), e.a))), Implies(iszero(e.a), And(*same(e.post.a, V(0, 0, 0, 1))))])
C('q_mul', QQ, 'Q', 'a * b', alias=[('a', 'b')], ensures=lambda e: [same(e.out, qmul(e.a, e.b)), eq(norm2(e.out), norm2(e.a) * norm2(e.b))])
C('q_mul_assoc', 'Q a, Q b, Q c', 'Q', '(a * b) * c', ensures=lambda e: same(e.out, qmul(e.a, qmul(e.b, e.c))))
C('q_mulv', 'Q a, V3 v', 'V3', 'a * v', ensures=lambda e: same(e.out, qmul(e.a, V(*comps(e.v) + [0])).c[:3]))
C('q_inverse', 'Q a', 'Q', 'a.inverse()', ensures=lambda e: [same(e.out, qconj(e.a)), Implies(unit(e.a), And(*same(qmul(e.a, e.out), V(0, 0, 0, 1)) + same(qmul(e.out, e.a), V(0, 0, 0, 1))))])
C('q_div', QQ, 'Q', 'a / b', alias=[('a', 'b')], requires=lambda e: nonzero(e.b), ensures=lambda e: same(qmul(e.out, e.b), e.a))
# ---- rotation of vectors, matrices
C('q_rotated_v', 'Q a, V3 v', 'V3', 'a.rotated(v)', requires=lambda e: unit(e.a), ensures=lambda e: {'value': Or(And(*same(e.out, qrot(e.a, e.v))), And(identm(qm(e.a)), And(*same(e.out, e.v))))})
C('q_rotated_c', 'Q a, Coord c', 'V3', 'a.rotated(c)', cases={'c': [0, 1, 2]}, requires=lambda e: unit(e.a), ensures=lambda e: same(e.out, qm(e.a).c[e.c]))
for n, T_, ext in ((3, 'M3', mat), (4, 'M4', ext4)):
    p = 'q_m%d_' % n; X = 'Mat%d<Real>' % n
    C(p + 'set', '%s& m, Q a' % T_, '&m', 'm.set(a)', inv=False, requires=lambda e: unit(e.a), ensures=lambda e, ext=ext: both([same(mat(e.post.m), ext(qm(e.a))), isrot(e.post.m)], e.post.m, optimal))
    C(p + 'from', 'Q a', T_, X + '::from(a%s)' % ('' if n == 3 else ', Vec3<Real>::Zero'), requires=lambda e: unit(e.a), ensures=lambda e, ext=ext: both([same(mat(e.out), ext(qm(e.a))), isrot(e.out)], e.out, optimal))
    def rot3(m): return M([c[:3] for c in mat(m).c[:3]])
    C(p + 'toquat', 'Q& a, %s m' % T_, '&a', 'a.set(m)', inv=False, uninit=('a',), requires=lambda e, ext=ext: isrot(rot3(e.m)), ensures=lambda e: {'unit': unit(e.post.a), 'same-rotation': same(qm(e.post.a), rot3(e.m))}, cost=5)
    C(p + 'quatfrom', '%s m' % T_, 'Q', 'Quat<Real>::from(m)', inv=False, requires=lambda e, ext=ext: isrot(rot3(e.m)), ensures=lambda e: {'unit': unit(e.out), 'same-rotation': same(qm(e.out), rot3(e.m))}, cost=5)
    C(p + 'roundtrip', 'Q a', 'Q', 'Quat<Real>::from(%s::from(a%s))' % (X, '' if n == 3 else ', Vec3<Real>::Zero'), requires=lambda e: unit(e.a), ensures=lambda e: Or(And(*same(e.out, e.a)), And(*same(e.out, -vec(e.a)))), cost=5)
C('q_m4_set_t', 'M4& m, Q a, V3 t', '&m', 'm.set(a, t)', inv=False, requires=lambda e: unit(e.a), ensures=lambda e: both([same(mat(e.post.m), aff3(qm(e.a), e.t))], e.post.m, optimal))
C('q_m4_from_t', 'Q a, V3 t', 'M4', 'Mat4<Real>::from(a, t)', requires=lambda e: unit(e.a), ensures=lambda e: both([same(mat(e.out), aff3(qm(e.a), e.t))], e.out, optimal))
# ---- axis and angle
C('q_set_axis', 'Q& a, V3 v, R t', '&a', 'a.set(v, t)', uninit=('a',), ensures=lambda e: [unit(e.post.a), Implies(nonzero(e.v), And(*same(vec(e.post.a), half(e.v, e.t)))), Implies(iszero(e.v), And(*same(e.post.a, V(0, 0, 0, 1))))])
C('q_from_axis', 'V3 v, R t', 'Q', 'Quat<Real>::from(v, t)', ensures=lambda e: [unit(e.out), Implies(nonzero(e.v), And(*same(vec(e.out), half(e.v, e.t)))), Implies(iszero(e.v), And(*same(e.out, V(0, 0, 0, 1))))])
def vpart(q): q = vec(q); return V(q.x, q.y, q.z)
C('q_toAxisAngle', 'Q a, V3& v, R& t', 'void', 'a.toAxisAngle(v, t)', uninit=('v', 't'), requires=lambda e: unit(e.a),
  ensures=lambda e: {'unit': eq(norm2(e.post.v), 1), 'range': between(0, e.post.t, 2 * PI), 'same-rotation': Or(And(norm2(vpart(e.a)) <= num(Fr(11, 10 ** 7)), eq(e.post.t, 0), *same(e.post.v, V(1, 0, 0))), And(*same(half(e.post.v, e.post.t), e.a)))})
# ---- exponential and logarithm; h: the angle whose cosine is the real part, up to half a turn (ghost)
def HL(e): return [unit(e.a), between(0, e.h, PI), eq(cos(e.h), vec(e.a).w), 0 <= sin(e.h), Implies(eq(e.h, 0), eq(sin(e.h), 0)), Implies(And(0 < e.h, e.h < PI), 0 < sin(e.h))]
def fixlog(vals, rng):
    u = [rng.gauss(0, 1) for _ in range(3)]; l = math.sqrt(sum(x * x for x in u)) or 1; h = rng.choice([0, rng.uniform(.05, 3), rng.uniform(.05, 3)])
    for f, x in zip('xyz', u): vals['a.' + f] = x / l * math.sin(h)
    vals['a.w'] = math.cos(h); vals['h'] = h
def fixvec(vals, rng):
    u = [rng.gauss(0, 1) for _ in range(3)]; l = math.sqrt(sum(x * x for x in u)) or 1; h = rng.choice([0, rng.uniform(.05, 3), rng.uniform(.05, 3)])
    for f, x in zip('xyz', u): vals['a.' + f] = x / l * h
    vals['a.w'] = 0; vals['h'] = h
Q_ = 'Quat<Real>::'
C('q_exp', 'Q a', 'Q', Q_ + 'exp(a)', trig=True, ensures=lambda e: {'unit': unit(e.out), 'w': eq(vec(e.out).w, cos(norm(vpart(e.a)))), 'direction': And(*[eq(x * norm(vpart(e.a)), y * sin(norm(vpart(e.a)))) for x, y in zip(comps(vpart(e.out)), comps(vpart(e.a)))]), 'zero': Implies(iszero(vpart(e.a)), And(*same(e.out, V(0, 0, 0, 1))))})
C('q_log', 'Q a, R h', 'Q', Q_ + 'log(a)', modular=True, fix=fixlog, tolscale=10, trig=True, angles=lambda e: [e.h], requires=lambda e: [HL(e), 0 < sin(e.h)], ensures=lambda e: [eq(vec(e.out).w, 0)] + [eq(x, e.h * y / sin(e.h)) for x, y in zip(comps(vpart(e.out)), comps(vpart(e.a)))])
C('q_log_one', 'Q a', 'Q', Q_ + 'log(a)', modular=True, requires=lambda e: [unit(e.a), iszero(vpart(e.a))], fix=lambda vals, rng: vals.update({'a.x': 0, 'a.y': 0, 'a.z': 0, 'a.w': 1}), ensures=lambda e: Or(iszero(e.out), eq(vec(e.a).w, -1)))
def fixmag(vals, rng): vals['h'] = math.sqrt(sum(vals['a.' + f] ** 2 for f in 'xyz'))
C('q_exp_at', 'Q a, R h', 'Q', Q_ + 'exp(a)', modular=True, fix=fixmag, trig=True, angles=lambda e: [e.h], lemmas=lambda e: {'size': eq(norm(vpart(e.a)), e.h)}, requires=lambda e: [0 < e.h, eq(e.h * e.h, norm2(vpart(e.a)))], ensures=lambda e: [eq(x, y * sin(e.h) / e.h) for x, y in zip(comps(vpart(e.out)), comps(vpart(e.a)))] + [eq(vec(e.out).w, cos(e.h))])
SH = {'q_log': lambda e: {'h': e.h}, 'q_exp_at': lambda e: {'h': e.h}}
C('q_exp_log', 'Q a, R h', 'Q', Q_ + 'exp(%slog(a))' % Q_, supply=SH, outer=True, fix=fixlog, tolscale=10, trig=True, angles=lambda e: [e.h], requires=lambda e: [HL(e), 0 < sin(e.h), 0 < e.h], ensures=lambda e: same(e.out, e.a))
C('q_log_exp', 'Q a, R h', 'Q', Q_ + 'log(%sexp(a))' % Q_, supply=SH, outer=True, fix=fixvec, tolscale=10, trig=True, requires=lambda e: [eq(vec(e.a).w, 0), eq(e.h * e.h, norm2(vpart(e.a))), 0 < e.h, e.h < PI, 0 < sin(e.h)], angles=lambda e: [e.h], ensures=lambda e: same(e.out, e.a))
