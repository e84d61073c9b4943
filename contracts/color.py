"""Colours."""
from base import *
from fn import fmodpos
from symex import i2r
deftype('RGB', 'ColorRGB<Real>', [('r', 'R'), ('g', 'R'), ('b', 'R')])
deftype('RGBA', 'ColorRGBA<Real>', [('r', 'R'), ('g', 'R'), ('b', 'R'), ('a', 'R')])
def _hsv(vals, prefix, rng):
    vals[prefix + '.h'] = rng.choice([0., 60., 120., 180., 240., 300., 359., rng.uniform(0, 360)]); vals[prefix + '.s'] = rng.choice([0., 1., rng.random()]); vals[prefix + '.v'] = rng.choice([0., 1., rng.random()])
deftype('HSV', 'ColorHSV<Real>', [('h', 'R'), ('s', 'R'), ('v', 'R')], sampler=_hsv)
for T_, cs in (('RGB', 'rgb'), ('RGBA', 'rgba')):
    p = T_.lower() + '_'; X = 'Color%s<Real>' % T_; AB = '%s a, %s b' % (T_, T_); MAB = '%s& a, %s b' % (T_, T_); al = [('a', 'b')]; n = len(cs)
    args = ', '.join('R x%d' % i for i in range(n)); call = ', '.join('x%d' % i for i in range(n))
    xs = lambda e, n=n: [getattr(e, 'x%d' % i) for i in range(n)]
    C(p + 'ctor', args, T_, '%s(%s)' % (X, call), ensures=lambda e, xs=xs: same(e.out, xs(e)))
    C(p + 'ctor_int', args.replace('R ', 'i '), T_, '%s(%s)' % (X, call), ensures=lambda e, xs=xs: [eq(o * 255, i2r(x)) for o, x in zip(flat(e.out), xs(e))])
    C(p + 'set', '%s& a, ' % T_ + args, '&a', 'a.set(%s)' % call, uninit=('a',), ensures=lambda e, xs=xs: same(e.post.a, xs(e)))
    C(p + 'setc', MAB, '&a', 'a.set(b)', alias=al, ensures=lambda e: same(e.post.a, e.b))
    def K(e, v, n=n): return v.c[:3] + ([e.a.a] if n == 4 else [])   # alpha of the left operand is kept
    C(p + 'add', AB, T_, 'a + b', alias=al, ensures=lambda e, K=K: same(e.out, K(e, vec(e.a) + vec(e.b))))
    C(p + 'sub', AB, T_, 'a - b', alias=al, ensures=lambda e, K=K: same(e.out, K(e, vec(e.a) - vec(e.b))))
    C(p + 'neg', '%s a' % T_, T_, '-a', ensures=lambda e, K=K: same(e.out, K(e, -vec(e.a))))
    C(p + 'scale', '%s a, R k' % T_, T_, 'a * k', ensures=lambda e, K=K: same(e.out, K(e, vec(e.a) * e.k)))
    C(p + 'div', '%s a, R k' % T_, T_, 'a / k', requires=lambda e: ne(e.k, 0), ensures=lambda e: same(vec(e.out).c[:3] + flat(e.out)[3:], [x / e.k for x in flat(e.a)[:3]] + flat(e.a)[3:]))
    C(p + 'adda', MAB, '&a', 'a += b', alias=al, ensures=lambda e, K=K: same(e.post.a, K(e, vec(e.a) + vec(e.b))))
    C(p + 'suba', MAB, '&a', 'a -= b', alias=al, ensures=lambda e, K=K: same(e.post.a, K(e, vec(e.a) - vec(e.b))))
    C(p + 'scalea', '%s& a, R k' % T_, '&a', 'a *= k', ensures=lambda e, K=K: same(e.post.a, K(e, vec(e.a) * e.k)))
    C(p + 'scalea_self', '%s& a' % T_, '&a', 'a *= a.r', ensures=lambda e, K=K: same(e.post.a, K(e, vec(e.a) * e.a.r)))
    C(p + 'diva', '%s& a, R k' % T_, '&a', 'a /= k', requires=lambda e: ne(e.k, 0), ensures=lambda e: same(flat(e.post.a), [x / e.k for x in flat(e.a)[:3]] + flat(e.a)[3:]))
    C(p + 'eq', AB, 'B', 'a == b', alias=al, ensures=lambda e: Iff(e.out, And(*same(e.a, e.b))))
    C(p + 'ne', AB, 'B', 'a != b', alias=al, ensures=lambda e: Iff(e.out, Not(And(*same(e.a, e.b)))))
    mix = lambda e: vec(e.b) * (1 - e.k) + vec(e.c) * e.k
    C(p + 'interp', '%s& a, %s b, %s c, R k' % (T_, T_, T_), '&a', 'a.interp(b, c, k)', alias=[('a', 'b'), ('a', 'c'), ('b', 'c')], ensures=lambda e, mix=mix: same(e.post.a, mix(e)))
    C(p + 'fromInterp', '%s b, %s c, R k' % (T_, T_), T_, X + '::fromInterp(b, c, k)', ensures=lambda e, mix=mix: same(e.out, mix(e)))
    C(p + 'random', '' if T_ == 'RGB' else 'R k', T_, X + '::random(%s)' % ('' if T_ == 'RGB' else 'k'), ensures=lambda e, T_=T_: [between(0, x, 1) for x in flat(e.out)[:3]] + ([eq(e.out.a, e.k)] if T_ == 'RGBA' else []))
    C(p + 'cast', '%s a' % T_, T_, 'a.template cast<double>().template cast<Real>()', ensures=lambda e: same(e.out, e.a))
    for i in range(n):
        C(p + 'data_%d' % i, '%s a' % T_, 'R', 'a.data()[%d]' % i, ensures=lambda e, i=i: eq(e.out, flat(e.a)[i]))
        C(p + 'data_w_%d' % i, '%s& a, R k' % T_, 'void', 'a.data()[%d] = k' % i, ensures=lambda e, i=i: same(e.post.a, [e.k if j == i else x for j, x in enumerate(flat(e.a))]))
    for nm, v in (('Black', (0, 0, 0)), ('White', (1, 1, 1)), ('Red', (1, 0, 0)), ('Green', (0, 1, 0)), ('Blue', (0, 0, 1))):
        C(p + nm, '', T_, X + '::' + nm, ensures=lambda e, v=v, n=n: same(e.out, list(map(lift, v)) + [lift(1)] * (n - 3)))
C('rgb_ctor_k', 'R k', 'RGB', 'ColorRGB<Real>(k)', ensures=lambda e: same(e.out, [e.k] * 3))
C('rgba_ctor_k', 'R k, R a', 'RGBA', 'ColorRGBA<Real>(k, a)', ensures=lambda e: same(e.out, [e.k] * 3 + [e.a]))
C('rgb_toRGBA', 'RGB a, R k', 'RGBA', 'a.toRGBA(k)', ensures=lambda e: same(e.out, flat(e.a) + [e.k]))
C('rgb_toRGBA_def', 'RGB a', 'RGBA', 'a.toRGBA()', ensures=lambda e: same(e.out, flat(e.a) + [lift(1)]))
C('rgba_toRGB', 'RGBA a', 'RGB', 'a.toRGB()', ensures=lambda e: same(e.out, flat(e.a)[:3]))
# ---- hue, saturation, value
def hsv2rgb(h6, s, v):
    """h6 = hue / 60 reduced to [0, 6)"""
    def f(n):
        k = ite(h6 + n >= 6, h6 + n - 6, h6 + n)
        return v - v * s * Max(lift(0), Min(Min(k, 4 - k), lift(1)))
    return V(f(5), f(3), f(1))
def hue6(h): return fmodpos(h / 60, lift(6))
inhue = lambda h: And(0 <= h, h < 360)
C('hsv_ctor', 'R h, R s, R v', 'HSV', 'ColorHSV<Real>(h, s, v)', ensures=lambda e: same(e.out, V(e.h, e.s, e.v)))
C('hsv_set', 'HSV& a, R h, R s, R v', '&a', 'a.set(h, s, v)', uninit=('a',), ensures=lambda e: same(e.post.a, V(e.h, e.s, e.v)))
C('hsv_setc', 'HSV& a, HSV b', '&a', 'a.set(b)', alias=[('a', 'b')], ensures=lambda e: same(e.post.a, e.b))
C('hsv_eq', 'HSV a, HSV b', 'B', 'a == b', alias=[('a', 'b')], ensures=lambda e: Iff(e.out, And(*same(e.a, e.b))))
C('hsv_ne', 'HSV a, HSV b', 'B', 'a != b', alias=[('a', 'b')], ensures=lambda e: Iff(e.out, Not(And(*same(e.a, e.b)))))
C('hsv_cast', 'HSV a', 'HSV', 'a.template cast<double>().template cast<Real>()', ensures=lambda e: same(e.out, e.a))
for i in range(3):
    C('hsv_data_%d' % i, 'HSV a', 'R', 'a.data()[%d]' % i, ensures=lambda e, i=i: eq(e.out, flat(e.a)[i]))
    C('hsv_data_w_%d' % i, 'HSV& a, R k', 'void', 'a.data()[%d] = k' % i, ensures=lambda e, i=i: same(e.post.a, [e.k if j == i else x for j, x in enumerate(flat(e.a))]))
for nm, v in (('Black', (0, 0, 0)), ('White', (0, 0, 1)), ('Red', (0, 1, 1)), ('Green', (120, 1, 1)), ('Blue', (240, 1, 1))):
    C('hsv_' + nm, '', 'HSV', 'ColorHSV<Real>::' + nm, ensures=lambda e, v=v: same(e.out, V(*v)))
C('hsv_random', '', 'HSV', 'ColorHSV<Real>::random()', ensures=lambda e: [between(0, e.out.h, 360), between(0, e.out.s, 1), between(0, e.out.v, 1)])
C('hsv_toRGB', 'HSV a', 'RGB', 'a.toRGB()', ensures=lambda e: {'value': same(e.out, hsv2rgb(hue6(e.a.h), e.a.s, e.a.v)), 'range': Implies(And(between(0, e.a.s, 1), between(0, e.a.v, 1)), And(*[between(0, x, 1) for x in flat(e.out)]))})
C('hsv_toRGBA', 'HSV a, R k', 'RGBA', 'a.toRGBA(k)', ensures=lambda e: [same(flat(e.out)[:3], hsv2rgb(hue6(e.a.h), e.a.s, e.a.v)), eq(e.out.a, e.k)])
RGBOK = lambda e: [between(0, x, 1) for x in flat(e.a)[:3]]
def tohsv(e):
    o = e.out; c = flat(e.a)[:3]; mx = Max(Max(c[0], c[1]), c[2]); mn = Min(Min(c[0], c[1]), c[2])
    return {'range': [inhue(o.h), between(0, o.s, 1), between(0, o.v, 1)], 'v': eq(o.v, mx), 's': eq(o.s * mx, mx - mn), 'inverse': same(hsv2rgb(o.h / 60, o.s, o.v), c), 'grey': Implies(eq(mx, mn), And(eq(o.h, 0), eq(o.s, 0)))}
C('rgb_toHSV', 'RGB a', 'HSV', 'a.toHSV()', requires=RGBOK, ensures=tohsv)
C('rgba_toHSV', 'RGBA a', 'HSV', 'a.toHSV()', requires=RGBOK, ensures=tohsv)
C('rgb_roundtrip', 'RGB a', 'RGB', 'a.toHSV().toRGB()', requires=RGBOK, ensures=lambda e: same(e.out, e.a))
C('hsv_roundtrip', 'HSV a', 'HSV', 'a.toRGB().toHSV()', requires=lambda e: [inhue(e.a.h), 0 < e.a.s, e.a.s <= 1, 0 < e.a.v, e.a.v <= 1], ensures=lambda e: same(e.out, e.a))
def hdelta(a, b):
    """the signed shorter way round"""
    d = b - a
    return ite(d > 180, d - 360, ite(d < -180, d + 360, d))
def hinterp(e, o):
    H = [inhue(e.b.h), inhue(e.c.h), between(0, e.k, 1)]
    x = e.b.h + hdelta(e.b.h, e.c.h) * e.k
    return {'range': inhue(o.h), 'shorter-way': eq(o.h, ite(x < 0, x + 360, ite(x >= 360, x - 360, x))), 'sv': same([o.s, o.v], [e.b.s * (1 - e.k) + e.c.s * e.k, e.b.v * (1 - e.k) + e.c.v * e.k]),
            'ends': [Implies(eq(e.k, 0), And(*same(o, e.b))), Implies(eq(e.k, 1), And(*same(o, e.c)))]}
HREQ = lambda e: [inhue(e.b.h), inhue(e.c.h), between(0, e.k, 1)]
C('hsv_interp', 'HSV& a, HSV b, HSV c, R k', '&a', 'a.interp(b, c, k)', alias=[('a', 'b'), ('a', 'c'), ('b', 'c')], requires=HREQ, ensures=lambda e: hinterp(e, e.post.a))
C('hsv_fromInterp', 'HSV b, HSV c, R k', 'HSV', 'ColorHSV<Real>::fromInterp(b, c, k)', requires=HREQ, ensures=lambda e: hinterp(e, e.out))
