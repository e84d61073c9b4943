"""Interpolation of angles, directions and rotations."""
from base import *
from mat import *
from quat import qmul, qconj, qrot, qm, half, unit, vpart
from rot import *
PI2 = 2 * PI
import math
# ---- native sampling: the ghost arguments are computed from the others
def _v(vals, p, fs='xyz'): return [vals['%s.%s' % (p, f)] for f in fs]
def fixn(p, q):
    def f(vals, rng): vals['n'] = math.floor((q(vals) - p(vals)) / (2 * math.pi) + 0.5)
    return f
def fixq(signed=True):
    def f(vals, rng):
        for x in 'pq':
            l = math.sqrt(sum(c * c for c in _v(vals, x, 'xyzw'))) or 1
            for k in 'xyzw': vals[x + '.' + k] /= l
        if rng.random() < 0.3:      # close together
            for k in 'xyzw': vals['q.' + k] = vals['p.' + k] + rng.uniform(-.3, .3)
            l = math.sqrt(sum(c * c for c in _v(vals, 'q', 'xyzw'))) or 1
            for k in 'xyzw': vals['q.' + k] /= l
        if 'w' in vals: vals['w'] = rng.choice([0, 1, rng.random(), rng.random()])
        if 'm' in vals: vals['m'] = rng.choice([0, rng.uniform(0, 1), rng.uniform(0, 7)])
        d = sum(a * b for a, b in zip(_v(vals, 'p', 'xyzw'), _v(vals, 'q', 'xyzw')))
        if 's' in vals: vals['s'] = (1 if d >= 0 else -1) if signed else 1
        if 't' in vals: vals['t'] = math.acos(max(-1, min(1, d * (1 if not signed or d >= 0 else -1))))
    return f
def fix3(vals, rng, close=False):
    u = _v(vals, 'u')
    if close:
        k = rng.uniform(.3, 3); l = .02 * math.sqrt(sum(x * x for x in u))
        for f, x in zip('xyz', u): vals['v.' + f] = k * (x + rng.uniform(-l, l))
    v = _v(vals, 'v')
    if 'w' in vals: vals['w'] = rng.choice([0, 1, rng.random(), rng.random()])
    if 'm' in vals: vals['m'] = rng.choice([0, rng.uniform(0, 1), rng.uniform(0, 4)])
    c = [u[1] * v[2] - u[2] * v[1], u[2] * v[0] - u[0] * v[2], u[0] * v[1] - u[1] * v[0]]
    if 't' in vals: vals['t'] = math.atan2(math.sqrt(sum(x * x for x in c)), sum(a * b for a, b in zip(u, v)))
def fix2(vals, rng):
    if 'w' in vals: vals['w'] = rng.choice([0, 1, rng.random(), rng.random()])
    if 'm' in vals: vals['m'] = rng.choice([0, rng.uniform(0, 1), rng.uniform(0, 4)])
    d = math.atan2(vals['v.y'], vals['v.x']) - math.atan2(vals['u.y'], vals['u.x'])
    vals['n'] = math.floor(d / (2 * math.pi) + .5); d -= 2 * math.pi * vals['n']
    if 'k' in vals and d: vals['k'] = max(-vals['m'], min(vals['m'], d)) / d
def fixw(vals, rng): vals['w'] = rng.choice([0, 1])
def fixm0(vals, rng): vals['m'] = 0
def fixs(vals, rng):
    if 'w' in vals: vals['w'] = rng.choice([0, 1, rng.random(), rng.random()])
    if 'm' in vals: vals['m'] = rng.choice([0, rng.uniform(0, 1), rng.uniform(0, 4)])
    vals['p'] *= rng.choice([1, 3]); vals['q'] *= rng.choice([1, 3])
    vals['n'] = math.floor((vals['q'] - vals['p']) / (2 * math.pi) + .5)
# ------------------------------------------------------------------ angles
# k: the number of whole turns between the difference and its representative; n is a whole number (ghost)
def turn(e): return Fr(0)
W01 = lambda e: [0 <= e.w, e.w <= 1]
def delta(e):
    """the smaller turn from p to q, in [-pi, pi), where n whole turns are dropped"""
    return e.q - e.p - PI2 * e.n
DR = lambda e: between(-PI, delta(e), PI) if False else [-PI <= delta(e), delta(e) < PI]
C('clerp', 'R p, R q, R w, i n', 'R', 'clerp(p, q, w)', modular=True, fix=fixs, requires=lambda e: [W01(e), DR(e)], turns=('n',), ensures=lambda e: eq(e.out, e.p + delta(e) * e.w))
def lim(e): return Max(-e.m, Min(e.m, delta(e)))
C('clerpMax', 'R p, R q, R m, i n', 'R', 'clerpMaxAngle(p, q, m)', modular=True, fix=fixs, requires=lambda e: [0 <= e.m, DR(e)], turns=('n',), ensures=lambda e: eq(e.out, e.p + lim(e)))
C('clerpMax_ratio', 'R p, R q, R m, R& k, i n', 'R', 'clerpMaxAngle(p, q, m, k)', modular=True, fix=fixs, uninit=('k',), requires=lambda e: [0 <= e.m, DR(e)], turns=('n',), ensures=lambda e: [eq(e.out, e.p + lim(e)), eq(e.post.k * delta(e), lim(e)), 0 <= e.post.k, e.post.k <= 1, Implies(Abs(delta(e)) <= e.m, eq(e.post.k, 1))])
# ------------------------------------------------------------------ quaternions
def mixed(p, q, w): return vec(p) + (vec(q) - vec(p)) * w
def lerped(o, p, q, w): m = mixed(p, q, w); return [unit(o), Implies(nonzero(m), And(*same(vec(o) * norm(m), m)))]
def near(p, q): return same(p, q)
QI = 'Q p, Q q, R w'
for nm, ps, ret, ex in (('lerp', 'Q& a, ', '&a', 'a.lerp(p, q, w)'), ('fromLerp', '', 'Q', 'Quat<Real>::fromLerp(p, q, w)')):
    C('q_' + nm, ps + QI, ret, ex, fix=fixq(), alias=[('a', 'p'), ('a', 'q')] if ps else (), requires=lambda e: [W01(e), unit(e.p), unit(e.q)],
      ensures=lambda e: {'value': lerped(O(e), e.p, e.q, e.w), 'start': Implies(eq(e.w, 0), And(*same(O(e), e.p))), 'end': Implies(eq(e.w, 1), And(*same(O(e), e.q)))})
def O(e): return e.post.a if hasattr(e.post, 'a') else e.out
# t: the angle between p and q on the shorter way (ghost); s: +1 or -1, the sign that makes q the nearer of its two signs
def AN(e): return [between(0, e.t, PI), eq(cos(e.t), e.s * dot(e.p, e.q)), 0 <= sin(e.t)]
def SG(e): return 0 < e.s * dot(e.p, e.q)
def arc(e):
    o = vec(O(e)); q = vec(e.q) * e.s
    far = cos(e.t) < Fr(949, 1000)
    return {'unit': unit(o), 'turned': Implies(far, eq(dot(o, e.p), cos(e.t * e.w))), 'left': Implies(far, eq(dot(o, q), cos(e.t * (1 - e.w)))),
            'between': Implies(far, And(*same(o * sin(e.t), vec(e.p) * sin(e.t * (1 - e.w)) + q * sin(e.t * e.w)))),
            'close': Implies(cos(e.t) > Fr(951, 1000), And(*lerped(o, e.p, q, e.w))),
            'start': Implies(eq(e.w, 0), And(*same(o, e.p))), 'end': Implies(eq(e.w, 1), And(*same(o, q)))}
def NZ(e):
    """weighted means of unit quaternions less than a right angle apart do not vanish"""
    q = vec(e.q) * e.s; d = dot(e.p, q); N = norm2(mixed(e.p, q, e.w)); f = eq(N, 1 - 2 * e.w * (1 - e.w) * (1 - d))
    k = 4 * e.w * (1 - e.w) <= 1
    return {'mean': By(f, [unit(e.p), unit(e.q)]), 'quarter': By(k, []), 'positive': By(0 < N, [f, k, W01(e), 0 < e.s * dot(e.p, e.q), e.s * dot(e.p, e.q) <= 1])}
for nm, ps, ret, ex in (('slerp', 'Q& a, ', '&a', 'a.slerp(p, q, w)'), ('fromSlerp', '', 'Q', 'Quat<Real>::fromSlerp(p, q, w)')):
    C('q_' + nm, ps + QI + ', R t, R s', ret, ex, alias=[('a', 'p'), ('a', 'q')] if ps else (), fix=fixq(), cases={'s': [1, -1]}, trig=True, lemmas=NZ, requires=lambda e: [W01(e), unit(e.p), unit(e.q), SG(e), AN(e), e.s * dot(e.p, e.q) <= 1], angles=lambda e: [e.t], ensures=arc)

# q_slerp when the two are exactly a right angle apart (both ways are equally short)
C('q_slerp_right', 'Q p, Q q, R w, R t', 'Q', 'Quat<Real>::fromSlerp(p, q, w)', trig=True, angles=lambda e: [e.t], requires=lambda e: [W01(e), unit(e.p), unit(e.q), eq(dot(e.p, e.q), 0), eq(e.t, PI / 2), eq(cos(e.t), 0), eq(sin(e.t), 1), 0 <= sin(e.t)],
  ensures=lambda e: {'unit': unit(e.out), 'turned': eq(dot(e.out, e.p), cos(e.t * e.w)), 'left': eq(dot(e.out, e.q) * dot(e.out, e.q), sin(e.t * e.w) * sin(e.t * e.w))})
# ---- the path that keeps the sign of q; opposite quaternions have no path
for nm, ps, ret, ex in (('slerpNoInvert', 'Q& a, ', '&a', 'a.slerpNoInvert(p, q, w)'), ('fromSlerpNoInvert', '', 'Q', 'Quat<Real>::fromSlerpNoInvert(p, q, w)')):
    C('q_' + nm, ps + QI + ', R t, R s', ret, ex, alias=[('a', 'p'), ('a', 'q')] if ps else (), fix=fixq(False), cases={'s': [1]}, trig=True,
      requires=lambda e: [W01(e), unit(e.p), unit(e.q), AN(e), 0 < sin(e.t), dot(e.p, e.q) <= 1], angles=lambda e: [e.t], ensures=arc)
# ---- limited turn: t is half the angle between the rotations
# axis and angle of a quaternion, and back; very small turns (within DELTA) have the angle zero
DELTA = Fr(1, 1000000)
def FAR(x): return lift(DELTA * Fr(11, 10)) <= x
def NEAR(x): return x <= lift(DELTA * Fr(9, 10))
def HA(e): return [unit(e.a), between(0, e.h, PI), eq(cos(e.h), vec(e.a).w), 0 <= sin(e.h)]
def fixh(far):
    def f(vals, rng):
        k = rng.choice([1, -1]); h = rng.choice([rng.uniform(.01, 3.1), rng.uniform(1.2e-3, .01), math.pi - rng.uniform(1.2e-3, .1)]) if far else rng.choice([0, rng.uniform(0, .8e-3), math.pi - rng.uniform(0, .8e-3)])
        u = [rng.gauss(0, 1) for _ in range(3)]; l = math.sqrt(sum(x * x for x in u)) or 1
        for f, x in zip('xyz', u): vals['a.' + f] = x / l * math.sin(h)
        vals['a.w'] = math.cos(h); vals['h'] = h
    return f
# h is half the angle (ghost)
C('q_axang_far', 'Q a, V3& v, R& t, R h', 'void', 'a.toAxisAngle(v, t)', modular=True, uninit=('v', 't'), fix=fixh(True), tolscale=200, trig=True, angles=lambda e: [e.h], requires=lambda e: [HA(e), FAR(sin(e.h) * sin(e.h))],
  ensures=lambda e: [eq(e.post.t, 2 * e.h)] + [eq(x, y / sin(e.h)) for x, y in zip(comps(e.post.v), comps(vpart(e.a)))] + [eq(norm2(e.post.v), 1)])
C('q_axang_near', 'Q a, V3& v, R& t, R h', 'void', 'a.toAxisAngle(v, t)', modular=True, uninit=('v', 't'), fix=fixh(False), trig=True, requires=lambda e: [HA(e), NEAR(sin(e.h) * sin(e.h))], ensures=lambda e: [eq(e.post.t, 0)] + same(e.post.v, V(1, 0, 0)))
C('q_setax', 'Q& a, V3 v, R t, R h', '&a', 'a.set(v, t)', modular=True, uninit=('a',), requires=lambda e: eq(norm2(e.v), 1), ensures=lambda e: same(e.post.a, V(*[x * sin(e.t / 2) for x in comps(e.v)] + [cos(e.t / 2)])))
def SMAX(e):
    o = vec(O(e)); q = vec(e.q) * e.s; within = 2 * e.t < e.m
    return {'unit': unit(o), 'limited': Implies(Not(within), eq(dot(o, e.p), cos(e.m / 2))), 'reached': Implies(within, And(*same(o + Q1, q + Q1))),
            'between': Implies(Not(within), And(*same(o * sin(e.t) + Q1, vec(e.p) * sin(e.t - e.m / 2) + q * sin(e.m / 2) + Q1)))}
Q1 = V(2, 2, 2, 2)   # both sides are shifted, so that rounding is judged against quantities of that size
def SM(e): return [0 <= e.m, unit(e.p), unit(e.q), SG(e), AN(e), e.s * dot(e.p, e.q) <= 1]
def fixsm(far):
    def f(vals, rng):
        fixq()(vals, rng)
        if not far:
            for k in 'xyzw': vals['q.' + k] = vals['s'] * (vals['p.' + k] + rng.choice([0, rng.uniform(-4e-4, 4e-4)]))
            fixq()(vals, rng)
    return f
for nm, ps, ret, ex in (('slerpMaxAngle', 'Q& a, ', '&a', 'a.slerpMaxAngle(p, q, m)'), ('fromSlerpMaxAngle', '', 'Q', 'Quat<Real>::fromSlerpMaxAngle(p, q, m)')):
    C('q_' + nm, ps + 'Q p, Q q, R m, R t, R s', ret, ex, alias=[('a', 'p'), ('a', 'q')] if ps else (), fix=fixq(), tolscale=10, cases={'s': [1, -1]}, trig=True, supply={'q_axang_far': lambda e: {'h': e.t}, 'q_setax': lambda e: {'h': e.t}},
      requires=lambda e: [SM(e), FAR(sin(e.t) * sin(e.t))], angles=lambda e: [e.t], ensures=SMAX)
    C('q_%s_close' % nm, ps + 'Q p, Q q, R m, R t, R s', ret, ex, alias=[('a', 'p'), ('a', 'q')] if ps else (), fix=fixsm(False), cases={'s': [1, -1]}, trig=True, supply={'q_axang_near': lambda e: {'h': e.t}, 'q_setax': lambda e: {'h': e.t}},
      requires=lambda e: [SM(e), NEAR(sin(e.t) * sin(e.t))], ensures=lambda e: [unit(O(e)), same(O(e), e.p)])
# ---- two-dimensional directions: angles are those of atan2
def pol(v): return app('atan2', vec(v).y, vec(v).x)
def pdelta(e): return pol(e.v) - pol(e.u) - PI2 * e.n
def PD(e): return [-PI <= pdelta(e), pdelta(e) < PI, eq(cos(PI2 * e.n), 1), eq(sin(PI2 * e.n), 0), nonzero(e.u), nonzero(e.v)]
def O2(e): return e.post.o if hasattr(e.post, 'o') else e.out
def polar(o, l, t): return {'x': eq(o.x, l * cos(t)), 'y': eq(o.y, l * sin(t))}
for nm, ps, ret, ex in (('clerp', 'V2& o, ', '&o', 'o.clerp(u, v, w)'), ('fromClerp', '', 'V2', 'Vec2<Real>::fromClerp(u, v, w)')):
    C('v2_' + nm, ps + 'V2 u, V2 v, R w, i n', ret, ex, fix=fix2, tolscale=10, alias=[('o', 'u'), ('o', 'v')] if ps else (), supply={'clerp': lambda e: {'n': e.n}}, requires=lambda e: [0 < e.w, e.w < 1, PD(e)],
      ensures=lambda e: polar(O2(e), norm(e.u) + (norm(e.v) - norm(e.u)) * e.w, pol(e.u) + e.w * pdelta(e)))
    C('v2_%s_ends' % nm, ps + 'V2 u, V2 v, R w', ret, ex, fix=fixw, alias=[('o', 'u'), ('o', 'v')] if ps else (), requires=lambda e: Or(eq(e.w, 0), eq(e.w, 1)),
      ensures=lambda e: [Implies(eq(e.w, 0), And(*same(O2(e), e.u))), Implies(eq(e.w, 1), And(*same(O2(e), e.v)))])
def plim(e): return Max(-e.m, Min(e.m, pdelta(e)))
for nm, ps, ret, ex in (('clerpMaxAngle', 'V2& o, ', '&o', 'o.clerpMaxAngle(u, v, m)'), ('fromClerpMaxAngle', '', 'V2', 'Vec2<Real>::fromClerpMaxAngle(u, v, m)')):
    C('v2_' + nm, ps + 'V2 u, V2 v, R m, i n, R k', ret, ex, fix=fix2, tolscale=10, alias=[('o', 'u'), ('o', 'v')] if ps else (), supply={'clerpMax_ratio': lambda e: {'n': e.n}}, requires=lambda e: [0 < e.m, PD(e), ne(pdelta(e), 0), eq(e.k * pdelta(e), plim(e))],
      ensures=lambda e: polar(O2(e), norm(e.u) + (norm(e.v) - norm(e.u)) * e.k, pol(e.u) + plim(e)))
    C('v2_%s_still' % nm, ps + 'V2 u, V2 v, R m', ret, ex, alias=[('o', 'u'), ('o', 'v')] if ps else (), requires=lambda e: eq(e.m, 0), fix=fixm0, ensures=lambda e: same(O2(e), e.u))
# ---- three-dimensional directions: t is the angle between u and v
def A3(e): r = norm(e.u) * norm(e.v); return [between(0, e.t, PI), eq(cos(e.t) * r, dot(e.u, e.v)), eq(sin(e.t) * r, norm(cross(e.u, e.v))), nonzero(e.u), nonzero(e.v), 0 <= sin(e.t)]
def turned3(e, l, a):
    o = O2(e)
    return {'length': eq(norm2(o), l * l), 'from-u': eq(dot(o, e.u), norm(e.u) * l * cos(a)), 'plane': Implies(0 < sin(e.t), And(*same(vec(o) * (sin(e.t) * norm(e.u) * norm(e.v)), vec(e.u) * (norm(e.v) * l * sin(e.t - a)) + vec(e.v) * (norm(e.u) * l * sin(a)))))}
for nm, ps, ret, ex in (('slerp', 'V3& o, ', '&o', 'o.slerp(u, v, w)'), ('fromSlerp', '', 'V3', 'Vec3<Real>::fromSlerp(u, v, w)')):
    C('v3_' + nm, ps + 'V3 u, V3 v, R w, R t', ret, ex, fix=fix3, sampled=1500, tolscale=10, alias=[('o', 'u'), ('o', 'v')] if ps else (), trig=True, angles=lambda e: [e.t], requires=lambda e: [W01(e), A3(e), Or(sin(e.t) > Fr(5, 100), cos(e.t) < 0)],
      ensures=lambda e: turned3(e, norm(e.u) + (norm(e.v) - norm(e.u)) * e.w, e.t * e.w))
    C('v3_%s_close' % nm, ps + 'V3 u, V3 v, R w, R t', ret, ex, fix=lambda vals, rng: fix3(vals, rng, True), sampled=1500, alias=[('o', 'u'), ('o', 'v')] if ps else (), trig=True, angles=lambda e: [e.t], requires=lambda e: [W01(e), A3(e), sin(e.t) < Fr(5, 100), cos(e.t) > 0],
      ensures=lambda e: same(O2(e), vec(e.u) + (vec(e.v) - vec(e.u)) * e.w))
    C('v3_%s_zero' % nm, ps + 'V3 u, V3 v, R w', ret, ex, fix=fix3, alias=[('o', 'u'), ('o', 'v')] if ps else (), requires=lambda e: [W01(e), Or(iszero(e.u), iszero(e.v))],
      ensures=lambda e: same(O2(e), vec(e.u) + (vec(e.v) - vec(e.u)) * e.w))
for nm, ps, ret, ex in (('slerpMaxAngle', 'V3& o, ', '&o', 'o.slerpMaxAngle(u, v, m)'), ('fromSlerpMaxAngle', '', 'V3', 'Vec3<Real>::fromSlerpMaxAngle(u, v, m)')):
    C('v3_' + nm, ps + 'V3 u, V3 v, R m, R t', ret, ex, fix=fix3, sampled=1500, tolscale=10, alias=[('o', 'u'), ('o', 'v')] if ps else (), trig=True, angles=lambda e: [e.t], requires=lambda e: [0 <= e.m, A3(e), 0 < e.t],
      ensures=lambda e: turned3(e, norm(e.u) + (norm(e.v) - norm(e.u)) * (Min(e.t, e.m) / e.t), Min(e.t, e.m)))
# ---- plane rotation matrices
def RA(e): return [isrot(e.a), isrot(e.b), -PI <= mdelta(e), mdelta(e) < PI]
def mang(m): return app('atan2', mat(m).c[0][1], mat(m).c[0][0])
def mdelta(e): return mang(e.b) - mang(e.a) - PI2 * e.n
def OM(e): return e.post.o if hasattr(e.post, 'o') else e.out
for nm, ps, ret, ex in (('slerp', 'M2& o, ', '&o', 'o.slerp(a, b, w)'), ('fromSlerp', '', 'M2', 'Mat2<Real>::fromSlerp(a, b, w)')):
    C('m2_' + nm, ps + 'M2 a, M2 b, R w, i n', ret, ex, inv=False, alias=[('o', 'a'), ('o', 'b')] if ps else (), supply={'clerp': lambda e: {'n': e.n}}, requires=lambda e: [W01(e), RA(e)], ensures=lambda e: same(mat(OM(e)), rot2m(mang(e.a) + mdelta(e) * e.w)))
for nm, ps, ret, ex in (('slerpMaxAngle', 'M2& o, ', '&o', 'o.slerpMaxAngle(a, b, m)'), ('fromSlerpMaxAngle', '', 'M2', 'Mat2<Real>::fromSlerpMaxAngle(a, b, m)')):
    C('m2_' + nm, ps + 'M2 a, M2 b, R m, i n', ret, ex, inv=False, alias=[('o', 'a'), ('o', 'b')] if ps else (), supply={'clerpMax': lambda e: {'n': e.n}}, requires=lambda e: [0 <= e.m, RA(e)], ensures=lambda e: same(mat(OM(e)), rot2m(mang(e.a) + Max(-e.m, Min(e.m, mdelta(e))))))
# ---- rotation matrices: the same as through quaternions; g marks contracts used at call sites only where they are asked for
G0 = lambda e: {'g': num(0)}
def fixrot(vals, rng):
    for n in ('m', 'a', 'b'):
        if n + '.x.x' in vals or n + '.rs.x.x' in vals:
            q = [rng.gauss(0, 1) for _ in range(4)]; l = math.sqrt(sum(x * x for x in q)); x, y, z, w = [c / l for c in q]
            r = [[1 - 2 * (y * y + z * z), 2 * (x * y + z * w), 2 * (x * z - y * w)], [2 * (x * y - z * w), 1 - 2 * (x * x + z * z), 2 * (y * z + x * w)], [2 * (x * z + y * w), 2 * (y * z - x * w), 1 - 2 * (x * x + y * y)]]
            for c, v in zip('xyz', r):
                for f, k in zip('xyz', v): vals['%s.%s%s.%s' % (n, '' if n + '.x.x' in vals else 'rs.', c, f)] = k
    if 'w' in vals: vals['w'] = rng.choice([0, 1, rng.random(), rng.random()])
    if 'm' in vals: vals['m'] = rng.choice([0, rng.uniform(0, 1), rng.uniform(0, 4)])
FUN = dict(modular=True, functional=True, outonly=('a',), uninit=('a',))
def CAU(e):
    p, q = vec(e.p), vec(e.q); d = dot(p, q); a = eq(norm2(p - q), 2 - 2 * d); b = eq(norm2(p + q), 2 + 2 * d)
    return {'minus': By(a, [unit(p), unit(q)]), 'plus': By(b, [unit(p), unit(q)]), 'square': By(0 <= norm2(p - q), []), 'square2': By(0 <= norm2(p + q), []), 'below': By(d <= 1, [a, 0 <= norm2(p - q)]), 'above': By(-1 <= d, [b, 0 <= norm2(p + q)])}
def NZ2(e):
    out = CAU(e); d = dot(e.p, e.q); k = 4 * e.w * (1 - e.w) <= 1; out['quarter'] = By(k, [])
    for s in (1, -1):
        N = norm2(mixed(e.p, vec(e.q) * s, e.w)); f = eq(N, 1 - 2 * e.w * (1 - e.w) * (1 - s * d))
        out['mean%d' % s] = By(f, [unit(e.p), unit(e.q)])
        out['positive%d' % s] = By(Implies(0 < s * d, 0 < N), [f, k, W01(e), d <= 1, -1 <= d])
    return out
C('q_of_m3', 'Q& a, M3 m, R g', '&a', 'a.set(m)', inv=False, fix=fixrot, requires=lambda e: isrot(mat(e.m)), ensures=lambda e: [unit(e.post.a), same(qm(e.post.a), mat(e.m))], **FUN)
C('q_slerp_any', 'Q& a, Q p, Q q, R w, R g', '&a', 'a.slerp(p, q, w)', fix=fixq(), lemmas=NZ2, requires=lambda e: [W01(e), unit(e.p), unit(e.q)], ensures=lambda e: unit(e.post.a), **FUN)
C('q_slerpMax_any', 'Q& a, Q p, Q q, R m, R g', '&a', 'a.slerpMaxAngle(p, q, m)', fix=fixq(), requires=lambda e: [0 <= e.m, unit(e.p), unit(e.q)], ensures=lambda e: unit(e.post.a), **FUN)
SUPQ = {'q_of_m3': G0, 'q_slerp_any': G0, 'q_slerpMax_any': G0}
for MT, X, T_ in (('m3', 'Mat3<Real>', 'M3'), ('m34', 'Mat34<Real>', 'M34')):
    for nm, r, arg in (('slerp', 'R w', 'w'), ('slerpMaxAngle', 'R m', 'm')):
        R_ = (lambda m: mat(m)) if MT == 'm3' else (lambda m: mat(m.rs)); sub_ = '' if MT == 'm3' else '.rs'
        f = 'from' + nm[0].upper() + nm[1:]
        for fm, ex in (('', 'o.%s(a, b, %s)' % (nm, arg)), ('from_', 'o = %s::%s(a, b, %s)' % (X, f, arg))):
            C('%s_%s%s' % (MT, fm, nm), '%s& o, %s a, %s b, %s, Q& p' % (T_, T_, T_, r), 'void', 'p = Quat<Real>::%s(Quat<Real>::from(a%s), Quat<Real>::from(b%s), %s); %s' % (f, sub_, sub_, arg, ex), uninit=('p',), inv=False, fix=fixrot, supply=SUPQ,
              requires=lambda e, R_=R_, arg=arg: [W01(e) if arg == 'w' else 0 <= e.m, isrot(R_(e.a)), isrot(R_(e.b))], ensures=lambda e, R_=R_, MT=MT: {'unit': unit(e.post.p), 'rotation': same(R_(e.post.o), qm(e.post.p)), **({} if MT == 'm3' else {'translation': iszero(e.post.o.t)})})
# ---- control-point interpolation: by its definition through the functions above
def fixqs(vals, rng):
    for n in 'pqabvfg':
        if n + '.x' in vals:
            u = [rng.gauss(0, 1) for _ in range(4)]; l = math.sqrt(sum(x * x for x in u))
            for f, x in zip('xyzw', u): vals[n + '.' + f] = x / l
    if 'w' in vals: vals['w'] = rng.choice([0, 1, rng.random(), rng.random()])
C('q_slerpNI_any', 'Q& a, Q p, Q q, R w, R g', '&a', 'a.slerpNoInvert(p, q, w)', fix=fixq(False), div0='ignore', requires=W01, ensures=lambda e: lift(True), **FUN)
SUPN = {'q_slerpNI_any': G0}
for nm, ret, ex in (('set', 'void', 'o.set(p, q, a, b, w)'), ('from', 'void', 'o = Quat<Real>::from(p, q, a, b, w)')):
    C('q_squad_' + nm, 'Q& o, Q p, Q q, Q a, Q b, R w, Q& r', ret, 'Quat<Real> x = Quat<Real>::fromSlerpNoInvert(p, q, w), y = Quat<Real>::fromSlerpNoInvert(a, b, w); r = Quat<Real>::fromSlerpNoInvert(x, y, w * (Real(1) - w) * Real(2)); ' + ex, uninit=('r',), fix=fixqs, tolscale=100, supply=SUPN,
      alias=[('o', 'p'), ('o', 'q'), ('o', 'a'), ('o', 'b')], requires=W01, ensures=lambda e: same(vec(e.post.o) + Q1, vec(e.post.r) + Q1))
C('q_log_any', 'Q a, R g', 'Q', 'Quat<Real>::log(a)', modular=True, functional=True, requires=lambda e: unit(e.a), fix=lambda vals, rng: fixqs(vals, rng), ensures=lambda e: eq(vec(e.out).w, 0))
def control(e):
    m = (vec(e.post.r) + vec(e.post.s)) * Fr(-1, 4); m = V(m.x, m.y, m.z); l = norm(m)
    return {'turned': Implies(0 < l, And(*same(vec(e.post.o) + Q1, qmul(e.v, V(*[x * sin(l) / l for x in comps(m)] + [cos(l)])) + Q1)))}
for nm, ret, ex in (('set', 'void', 'o.set(p, v, q)'), ('from', 'void', 'o = Quat<Real>::from(p, v, q)')):
    C('q_via_' + nm, 'Q& o, Q p, Q v, Q q, Q& r, Q& s', ret, 'r = Quat<Real>::log(v.inverse() * p); s = Quat<Real>::log(v.inverse() * q); ' + ex, uninit=('r', 's'), fix=fixqs, tolscale=100, outer=True, supply={'q_log_any': G0},
      alias=[('o', 'p'), ('o', 'v'), ('o', 'q')], requires=lambda e: [unit(e.p), unit(e.v), unit(e.q)], ensures=control)
