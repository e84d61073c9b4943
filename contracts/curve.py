"""Cubic curve segments."""
from base import *
import mat
P4 = [('P1', 'V3'), ('P2', 'V3'), ('P3', 'V3'), ('P4', 'V3')]
deftype('HZ', 'HermiteSplineSegment3<Real>', [('P1', 'V3'), ('P4', 'V3'), ('R1', 'V3'), ('R4', 'V3')])
deftype('BZ', 'BezierSegment3<Real>', P4)
deftype('FD', 'BezierSegment3FwdDiff<Real>', [(f, 'V3') for f in ('P', 'dP', 'd2P', 'd3P', 'T', 'dT', 'd2T')])
H_, B_, F_ = 'HermiteSplineSegment3<Real>', 'BezierSegment3<Real>', 'BezierSegment3FwdDiff<Real>'
IN = lambda e: [0 <= e.t, e.t <= 1]
def pts(b): return [vec(b.P1), vec(b.P2), vec(b.P3), vec(b.P4)]
def bern(t): c = 1 - t; return [c * c * c, 3 * t * c * c, 3 * t * t * c, t * t * t]
def mix(ws, vs):
    r = vs[0] * ws[0]
    for w, v in zip(ws[1:], vs[1:]): r = r + v * w
    return r
def bez(p, t): return mix(bern(t), p)
def bez1(p, t):
    c = 1 - t
    return mix([3 * c * c, 6 * t * c, 3 * t * t], [p[1] - p[0], p[2] - p[1], p[3] - p[2]])
def bez2(p, t): return mix([6 * (1 - t), 6 * t], [p[2] - p[1] * 2 + p[0], p[3] - p[2] * 2 + p[1]])
def her(h): return [vec(h.P1), vec(h.P1) + vec(h.R1) / 3, vec(h.P4) - vec(h.R4) / 3, vec(h.P4)]    # the same curve in Bezier form
def fields(o, names, vals): return [x for f, v in zip(names, vals) for x in same(getattr(o, f), v)]
# ---- Hermite
for nm, ps, ret, ex in (('ctor', '', 'HZ', H_ + '(p, q, r, s)'), ('set', 'HZ& a, ', 'void', 'a.set(p, q, r, s)')):
    C('hz_' + nm, ps + 'V3 p, V3 q, V3 r, V3 s', ret, ex, ensures=lambda e: fields(e.post.a if hasattr(e.post, 'a') else e.out, ('P1', 'P4', 'R1', 'R4'), (e.p, e.q, e.r, e.s)))
for f in ('p1', 'p4', 'r1', 'r4'): C('hz_' + f, 'HZ a', 'V3', 'a.%s()' % f, ensures=lambda e, f=f: same(e.out, getattr(e.a, f.upper())))
C('hz_pointAt', 'HZ a, R t', 'V3', 'a.pointAt(t)', requires=IN, ensures=lambda e: same(e.out, bez(her(e.a), e.t)))
C('hz_tangentAt', 'HZ a, R t', 'V3', 'a.tangentAt(t)', requires=IN, ensures=lambda e: same(e.out, bez1(her(e.a), e.t)))
C('hz_ends', 'HZ a', 'B', 'a.pointAt(Real(0)) == a.p1() && a.pointAt(Real(1)) == a.p4() && a.tangentAt(Real(0)) == a.r1() && a.tangentAt(Real(1)) == a.r4()', ensures=lambda e: Iff(e.out, lift(True)))
for f, d, v in (('hp1', 'dhp1', lambda t: (2 * t * t * t - 3 * t * t + 1, 6 * t * t - 6 * t)), ('hp4', 'dhp4', lambda t: (3 * t * t - 2 * t * t * t, 6 * t - 6 * t * t)),
                ('hr1', 'dhr1', lambda t: (t * t * t - 2 * t * t + t, 3 * t * t - 4 * t + 1)), ('hr4', 'dhr4', lambda t: (t * t * t - t * t, 3 * t * t - 2 * t))):
    C('hz_' + f, 'R t', 'R', H_ + '::' + f + '(t)', ensures=lambda e, v=v: eq(e.out, v(e.t)[0])) if f[1] == 'p' and False else C('hz_b' + f, 'R t', 'R', H_ + '::' + f + '(t)', ensures=lambda e, v=v: eq(e.out, v(e.t)[0]))
    C('hz_b' + d, 'R t', 'R', H_ + '::' + d + '(t)', ensures=lambda e, v=v: eq(e.out, v(e.t)[1]))
C('hz_basis', 'HZ a, R t', 'V3', 'a.p1() * %s::hp1(t) + a.p4() * %s::hp4(t) + a.r1() * %s::hr1(t) + a.r4() * %s::hr4(t)' % (H_, H_, H_, H_), ensures=lambda e: same(e.out, bez(her(e.a), e.t)))
# ---- Bezier
for nm, ps, ret, ex in (('ctor', '', 'BZ', B_ + '(p, q, r, s)'), ('set', 'BZ& a, ', 'void', 'a.set(p, q, r, s)')):
    C('bz_' + nm, ps + 'V3 p, V3 q, V3 r, V3 s', ret, ex, ensures=lambda e: fields(e.post.a if hasattr(e.post, 'a') else e.out, ('P1', 'P2', 'P3', 'P4'), (e.p, e.q, e.r, e.s)))
for f in ('p1', 'p2', 'p3', 'p4'): C('bz_' + f, 'BZ a', 'V3', 'a.%s()' % f, ensures=lambda e, f=f: same(e.out, getattr(e.a, f.upper())))
C('bz_r1', 'BZ a', 'V3', 'a.r1()', ensures=lambda e: same(e.out, bez1(pts(e.a), lift(0))))
C('bz_r4', 'BZ a', 'V3', 'a.r4()', ensures=lambda e: same(e.out, bez1(pts(e.a), lift(1))))
C('bz_pointAt', 'BZ a, R t', 'V3', 'a.pointAt(t)', requires=IN, ensures=lambda e: same(e.out, bez(pts(e.a), e.t)))
C('bz_tangentAt', 'BZ a, R t', 'V3', 'a.tangentAt(t)', requires=IN, ensures=lambda e: same(e.out, bez1(pts(e.a), e.t)))
C('bz_hermite', 'BZ a, R t', 'V3', H_ + '(a.p1(), a.p4(), a.r1(), a.r4()).pointAt(t)', requires=IN, ensures=lambda e: same(e.out, bez(pts(e.a), e.t)))
C('bz_ends', 'BZ a', 'B', 'a.pointAt(Real(0)) == a.p1() && a.pointAt(Real(1)) == a.p4() && a.tangentAt(Real(0)) == a.r1() && a.tangentAt(Real(1)) == a.r4()', ensures=lambda e: Iff(e.out, lift(True)))
for i in range(4):
    C('bz_bhp%d' % (i + 1), 'R t', 'R', B_ + '::hp%d(t)' % (i + 1), ensures=lambda e, i=i: eq(e.out, bern(e.t)[i]))
    C('bz_bdhp%d' % (i + 1), 'R t', 'R', B_ + '::dhp%d(t)' % (i + 1), ensures=lambda e, i=i: eq(e.out, [lambda t: -3 * (1 - t) * (1 - t), lambda t: 3 * (1 - t) * (1 - t) - 6 * t * (1 - t), lambda t: 6 * t * (1 - t) - 3 * t * t, lambda t: 3 * t * t][i](e.t)))
# s: any parameter of a piece
HALVES = lambda e: {'first': same(bez(pts(e.post.b), e.s), bez(pts(e.a0), e.t * e.s)), 'second': same(bez(pts(e.post.c), e.s), bez(pts(e.a0), e.t + (1 - e.t) * e.s)), 'joined': same(e.post.b.P4, e.post.c.P1)}
def halves(e, b='b', c='c'):
    B, K = getattr(e.post, b), getattr(e.post, c)
    return {'first': same(bez(pts(B), e.s), bez(pts(e.a), e.t * e.s)), 'second': same(bez(pts(K), e.s), bez(pts(e.a), e.t + (1 - e.t) * e.s)), 'joined': same(B.P4, K.P1), 'ends': same(B.P1, e.a.P1) + same(K.P4, e.a.P4)}
C('bz_split', 'BZ a, R t, BZ& b, BZ& c, R s', 'void', 'a.split(t, b, c)', requires=IN, ensures=halves)
C('bz_split_first', 'BZ& a, R t, BZ& c, R s', 'void', 'a.split(t, a, c)', requires=IN, ensures=lambda e: halves(e, 'a', 'c'))
C('bz_split_second', 'BZ& a, R t, BZ& b, R s', 'void', 'a.split(t, b, a)', requires=IN, ensures=lambda e: halves(e, 'b', 'a'))
def frenet(e):
    T, S = bez1(pts(e.a), e.t), bez2(pts(e.a), e.t); m = e.post.m
    N = cross(T, S)
    return {'when': Iff(e.out, nonzero(N)), 'tangent': Implies(e.out, And(eq(norm2(m.y), 1), *same(vec(m.y) * norm(T), T))), 'binormal': Implies(e.out, And(eq(norm2(m.x), 1), *same(vec(m.x) * norm(N), N))), 'normal': Implies(e.out, And(*same(m.z, cross(m.x, m.y))))}
C('bz_frenet', 'BZ a, M3& m, R t', 'B', 'a.frenetFrameAt(m, t)', requires=IN, ensures=frenet, abbrev=lambda e: [('T%d' % i, x) for i, x in enumerate(comps(bez1(pts(e.a), e.t)))] + [('S%d' % i, x) for i, x in enumerate(comps(bez2(pts(e.a), e.t)))])
def chord(e):
    p = pts(e.a); n = e.n; r = lift(0)
    for i in range(n): r = r + norm(bez(p, lift(Fr(i + 1, n))) - bez(p, lift(Fr(i, n))))
    return eq(e.out, r)
C('bz_length', 'BZ a, i n', 'R', 'a.length(n)', cases={'n': [1, 2, 3, 4]}, ensures=chord, bounded='steps 1 to 4')
# ---- forward differencing: an invariant of the iteration, established by the constructor and kept by every step
def state(o, p, d, t):
    b = lambda k: bez(p, t + d * k); g = lambda k: bez1(p, t + d * k)
    D1 = lambda f, k: f(k + 1) - f(k); D2 = lambda f, k: D1(f, k + 1) - D1(f, k)
    return fields(o, ('P', 'dP', 'd2P', 'd3P', 'T', 'dT', 'd2T'), (b(0), D1(b, 0), D2(b, 0), D2(b, 1) - D2(b, 0), g(0), D1(g, 0), D2(g, 0)))
C('fd_ctor', 'V3 p, V3 q, V3 r, V3 s, R d', 'FD', F_ + '(p, q, r, s, d)', ensures=lambda e: state(e.out, [vec(e.p), vec(e.q), vec(e.r), vec(e.s)], e.d, lift(0)))
C('fd_step', 'FD& a, BZ b, R d, R t', 'void', 'a.stepForward()', requires=lambda e: state(e.a, pts(e.b), e.d, e.t), ensures=lambda e: state(e.post.a, pts(e.b), e.d, e.t + e.d))
C('fd_point', 'FD a, BZ b, R d, R t', 'V3', 'a.currentPoint()', requires=lambda e: state(e.a, pts(e.b), e.d, e.t), ensures=lambda e: same(e.out, bez(pts(e.b), e.t)))
C('fd_tangent', 'FD a, BZ b, R d, R t', 'V3', 'a.currentTangent()', requires=lambda e: state(e.a, pts(e.b), e.d, e.t), ensures=lambda e: same(e.out, bez1(pts(e.b), e.t)))
