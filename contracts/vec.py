"""Vec2 / Vec3 / Vec4."""
from base import *

def std(e): return vec(e.a)

for n, T_ in ((2, 'V2'), (3, 'V3'), (4, 'V4')):
    p = 'v%d_' % n
    cs = ['x', 'y', 'z', 'w'][:n]
    AB = '%s a, %s b' % (T_, T_); MAB = '%s& a, %s b' % (T_, T_)
    al = [('a', 'b')]
    CC = {'c': list(range(n))}
    C(p + 'ctor_k', 'R k', T_, 'Vec%d<Real>(k)' % n, ensures=lambda e: [eq(x, e.k) for x in flat(e.out)])
    C(p + 'ctor', ', '.join('R ' + c for c in cs), T_, 'Vec%d<Real>(%s)' % (n, ', '.join(cs)),
      ensures=lambda e, cs=cs: [eq(getattr(e.out, c), getattr(e, c)) for c in cs])
    C(p + 'set', '%s& a, ' % T_ + ', '.join('R ' + c for c in cs), '&a', 'a.set(%s)' % ', '.join(cs),
      ensures=lambda e, cs=cs: [eq(getattr(e.post.a, c), getattr(e, c)) for c in cs])
    C(p + 'setv', MAB, '&a', 'a.set(b)', alias=al, ensures=lambda e: same(e.post.a, e.b))
    C(p + 'copy', '%s a' % T_, T_, 'a.copy()', ensures=lambda e: same(e.out, e.a))
    C(p + 'add', AB, T_, 'a + b', alias=al, ensures=lambda e: same(e.out, vec(e.a) + vec(e.b)))
    C(p + 'sub', AB, T_, 'a - b', alias=al, ensures=lambda e: same(e.out, vec(e.a) - vec(e.b)))
    C(p + 'neg', '%s a' % T_, T_, '-a', ensures=lambda e: same(e.out, -vec(e.a)))
    C(p + 'dot', AB, 'R', 'a * b', alias=al, ensures=lambda e: eq(e.out, dot(e.a, e.b)))
    C(p + 'scale', '%s a, R k' % T_, T_, 'a * k', ensures=lambda e: same(e.out, vec(e.a) * e.k))
    C(p + 'div', '%s a, R k' % T_, T_, 'a / k', requires=lambda e: ne(e.k, 0), ensures=lambda e: same(vec(e.out) * e.k, vec(e.a)))
    C(p + 'adda', MAB, '&a', 'a += b', alias=al, ensures=lambda e: same(e.post.a, vec(e.a) + vec(e.b)))
    C(p + 'suba', MAB, '&a', 'a -= b', alias=al, ensures=lambda e: same(e.post.a, vec(e.a) - vec(e.b)))
    C(p + 'scalea', '%s& a, R k' % T_, '&a', 'a *= k', ensures=lambda e: same(e.post.a, vec(e.a) * e.k))
    C(p + 'diva', '%s& a, R k' % T_, '&a', 'a /= k', requires=lambda e: ne(e.k, 0), ensures=lambda e: same(vec(e.post.a) * e.k, vec(e.a)))
    # a scale factor may be a component of the vector itself
    for i, c in enumerate(cs):
        C(p + 'scalea_self_' + c, '%s& a' % T_, '&a', 'a *= a.%s' % c, ensures=lambda e, i=i: same(e.post.a, vec(e.a) * vec(e.a)[i]))
        C(p + 'diva_self_' + c, '%s& a' % T_, '&a', 'a /= a.%s' % c, requires=lambda e, i=i: ne(vec(e.a)[i], 0), ensures=lambda e, i=i: same(vec(e.post.a) * vec(e.a)[i], vec(e.a)))
    C(p + 'eq', AB, 'B', 'a == b', alias=al, ensures=lambda e: Iff(e.out, And(*same(e.a, e.b))))
    C(p + 'ne', AB, 'B', 'a != b', alias=al, ensures=lambda e: Iff(e.out, Not(And(*same(e.a, e.b)))))
    C(p + 'isnull', '%s a' % T_, 'B', 'a.isNull()', ensures=lambda e: Iff(e.out, iszero(e.a)))
    C(p + 'product', AB, T_, 'Vec%d<Real>::product(a, b)' % n, alias=al, ensures=lambda e: same(e.out, [x * y for x, y in zip(flat(e.a), flat(e.b))]))
    C(p + 'min', AB, T_, 'Vec%d<Real>::min(a, b)' % n, alias=al, ensures=lambda e: same(e.out, vmin(e.a, e.b)))
    C(p + 'max', AB, T_, 'Vec%d<Real>::max(a, b)' % n, alias=al, ensures=lambda e: same(e.out, vmax(e.a, e.b)))
    C(p + 'len', '%s a' % T_, 'R', 'a.length()', ensures=lambda e: [0 <= e.out, eq(e.out * e.out, norm2(e.a))])
    C(p + 'len2', '%s a' % T_, 'R', 'a.lengthSqr()', ensures=lambda e: eq(e.out, norm2(e.a)))
    C(p + 'setc', '%s& a, Coord c, R k' % T_, '&a', 'a.set(c, k)', cases=CC,
      ensures=lambda e, n=n: [eq(vec(e.post.a)[i], e.k if i == e.c else vec(e.a)[i]) for i in range(n)])
    C(p + 'setc_self', '%s& a, Coord c, Coord d' % T_, '&a', 'a.set(c, a.data()[(int)d])', cases={'c': list(range(n)), 'd': list(range(n))},
      ensures=lambda e, n=n: [eq(vec(e.post.a)[i], vec(e.a)[e.d] if i == e.c else vec(e.a)[i]) for i in range(n)])
    C(p + 'moved', '%s a, Coord c, R k' % T_, T_, 'a.moved(c, k)', cases=CC,
      ensures=lambda e, n=n: [eq(vec(e.out)[i], vec(e.a)[i] + (e.k if i == e.c else 0)) for i in range(n)])
    C(p + 'data', '%s a, Coord c' % T_, 'R', 'a.data()[(int)c]', cases=CC, ensures=lambda e: eq(e.out, vec(e.a)[e.c]))
    C(p + 'data_w', '%s& a, Coord c, R k' % T_, 'void', 'a.data()[(int)c] = k', cases=CC,
      ensures=lambda e, n=n: [eq(vec(e.post.a)[i], e.k if i == e.c else vec(e.a)[i]) for i in range(n)])
    C(p + 'cast', '%s a' % T_, T_, 'a.template cast<double>().template cast<Real>()', ensures=lambda e: same(e.out, e.a))
    for nm, val in {2: dict(Zero=(0, 0), OneX=(1, 0), OneY=(0, 1)), 3: dict(Zero=(0, 0, 0), OneX=(1, 0, 0), OneY=(0, 1, 0), OneZ=(0, 0, 1)),
                    4: dict(Zero=(0, 0, 0, 0), OneX=(1, 0, 0, 1), OneY=(0, 1, 0, 1), OneZ=(0, 0, 1, 1), OneW=(0, 0, 0, 1), OneXnw=(1, 0, 0, 0), OneYnw=(0, 1, 0, 0), OneZnw=(0, 0, 1, 0))}[n].items():
        C(p + 'const_' + nm, '', T_, 'Vec%d<Real>::%s' % (n, nm), ensures=lambda e, val=val: same(e.out, list(val)))
    if n < 4:
        C(p + 'normalize', '%s& a' % T_, 'R', 'a.normalize()',
          ensures=lambda e: [eq(e.out, norm(e.a)), Implies(iszero(e.a), iszero(e.post.a)), Implies(nonzero(e.a), And(eq(norm2(e.post.a), 1), *same(vec(e.post.a) * norm(e.a), e.a)))])
        C(p + 'normalize_k', '%s& a, R k' % T_, 'R', 'a.normalize(k)',
          ensures=lambda e: [eq(e.out, norm(e.a)), Implies(iszero(e.a), iszero(e.post.a)), Implies(nonzero(e.a), And(eq(norm2(e.post.a), e.k * e.k), *same(vec(e.post.a) * norm(e.a), vec(e.a) * e.k)))])
        C(p + 'normalized', '%s a' % T_, T_, 'a.normalized()',
          ensures=lambda e: [Implies(iszero(e.a), iszero(e.out)), Implies(nonzero(e.a), And(eq(norm2(e.out), 1), *same(vec(e.out) * norm(e.a), e.a)))])
        C(p + 'normalized_k', '%s a, R k' % T_, T_, 'a.normalized(k)',
          ensures=lambda e: [Implies(iszero(e.a), iszero(e.out)), Implies(nonzero(e.a), And(eq(norm2(e.out), e.k * e.k), *same(vec(e.out) * norm(e.a), vec(e.a) * e.k)))])
        C(p + 'at', '%s a, Coord c' % T_, 'R', 'a[c]', cases=CC, ensures=lambda e: eq(e.out, vec(e.a)[e.c]))
        C(p + 'at_w', '%s& a, Coord c, R k' % T_, 'void', 'a[c] = k', cases=CC,
          ensures=lambda e, n=n: [eq(vec(e.post.a)[i], e.k if i == e.c else vec(e.a)[i]) for i in range(n)])
        C(p + 'mirror', '%s& a, Coord c' % T_, '&a', 'a.mirror(c)', cases=CC,
          ensures=lambda e, n=n: [eq(vec(e.post.a)[i], -vec(e.a)[i] if i == e.c else vec(e.a)[i]) for i in range(n)])
        C(p + 'mirrored', '%s a, Coord c' % T_, T_, 'a.mirrored(c)', cases=CC,
          ensures=lambda e, n=n: [eq(vec(e.out)[i], -vec(e.a)[i] if i == e.c else vec(e.a)[i]) for i in range(n)])
        def major(e):
            a = [Abs(x) for x in flat(e.a)]
            return [Or(*[eq(e.out, num(i, 'I')) for i in range(len(a))])] + [Implies(eq(e.out, num(i, 'I')), And(*[a[i] >= x for x in a])) for i in range(len(a))]
        def minor(e):
            a = [Abs(x) for x in flat(e.a)]
            return [Or(*[eq(e.out, num(i, 'I')) for i in range(len(a))])] + [Implies(eq(e.out, num(i, 'I')), And(*[a[i] <= x for x in a])) for i in range(len(a))]
        C(p + 'major', '%s a' % T_, 'Coord', 'a.majorCoord()', ensures=major)
        C(p + 'minor', '%s a' % T_, 'Coord', 'a.minorCoord()', ensures=minor)
        C(p + 'distance', AB, 'R', 'mathlib::distance(a, b)', alias=al, ensures=lambda e: [0 <= e.out, eq(e.out * e.out, norm2(vec(e.a) - vec(e.b)))])
        C(p + 'distance2', AB, 'R', 'mathlib::distanceSqr(a, b)', alias=al, ensures=lambda e: eq(e.out, norm2(vec(e.a) - vec(e.b))))
        C(p + 'random', '', T_, 'Vec%d<Real>::randomUnitVector()' % n, symloops=True, ensures=lambda e: eq(norm2(e.out), 1))

# ---- Vec2
def rot2(a, t): return V(a.x * cos(t) - a.y * sin(t), a.x * sin(t) + a.y * cos(t))
C('v2_cross', 'V2 a, V2 b', 'R', 'a % b', alias=[('a', 'b')], ensures=lambda e: eq(e.out, cross2(e.a, e.b)))
C('v2_crossProduct', 'V2 a, V2 b, V2 c', 'R', 'Vec2<Real>::crossProduct(a, b, c)', ensures=lambda e: eq(e.out, cross2(vec(e.b) - vec(e.a), vec(e.c) - vec(e.a))))
C('v2_fromAngle', 'R t, R l', 'V2', 'Vec2<Real>::fromAngle(t, l)', ensures=lambda e: same(e.out, [e.l * cos(e.t), e.l * sin(e.t)]))
C('v2_fromAngle1', 'R t', 'V2', 'Vec2<Real>::fromAngle(t)', ensures=lambda e: same(e.out, [cos(e.t), sin(e.t)]))
C('v2_setAngle', 'V2& a, R t, R l', '&a', 'a.setAngle(t, l)', ensures=lambda e: same(e.post.a, [e.l * cos(e.t), e.l * sin(e.t)]))
C('v2_setAngle_self', 'V2& a', '&a', 'a.setAngle(a.x, a.y)', ensures=lambda e: same(e.post.a, [e.a.y * cos(e.a.x), e.a.y * sin(e.a.x)]))
C('v2_rotate', 'V2& a, R t', '&a', 'a.rotate(t)', ensures=lambda e: same(e.post.a, rot2(e.a, e.t)))
C('v2_rotate_self', 'V2& a', '&a', 'a.rotate(a.x)', ensures=lambda e: same(e.post.a, rot2(e.a, e.a.x)))
C('v2_rotated', 'V2 a, R t', 'V2', 'a.rotated(t)', ensures=lambda e: [same(e.out, rot2(e.a, e.t)), eq(norm2(e.out), norm2(e.a))])
for d, f in ((90, lambda a: [-a.y, a.x]), (180, lambda a: [-a.x, -a.y]), (270, lambda a: [a.y, -a.x])):
    C('v2_rotate%d' % d, 'V2& a', '&a', 'a.rotate%d()' % d, ensures=lambda e, f=f: same(e.post.a, f(e.a)))
    C('v2_rotated%d' % d, 'V2 a', 'V2', 'a.rotated%d()' % d, ensures=lambda e, f=f: same(e.out, f(e.a)))
C('v2_angle', 'V2 a', 'R', 'a.angle()', ensures=lambda e: Implies(nonzero(e.a), And(eq(norm(e.a) * cos(e.out), e.a.x), eq(norm(e.a) * sin(e.out), e.a.y), -PI <= e.out, e.out <= PI)))
C('v2_from_v3', 'V3 u, Coord c', 'V2', 'Vec2<Real>(u, c)',
  ensures=lambda e: same(e.out, [[e.u.y, e.u.z], [e.u.x, e.u.z], [e.u.x, e.u.y]][e.c]))
C('v3_toVec2', 'V3 u, Coord c', 'V2', 'u.toVec2(c)', ensures=lambda e: same(e.out, [[e.u.y, e.u.z], [e.u.z, e.u.x], [e.u.x, e.u.y]][e.c]))
C('v3_from_v2', 'V2 u, Coord c', 'V3', 'Vec3<Real>(u, c)', ensures=lambda e: same(e.out, [[lift(0), e.u.x, e.u.y], [e.u.y, lift(0), e.u.x], [e.u.x, e.u.y, lift(0)]][e.c]))
C('v3_from_v2_roundtrip', 'V2 u, Coord c', 'V2', 'Vec3<Real>(u, c).toVec2(c)', ensures=lambda e: same(e.out, e.u))
def isect2(e):
    ft = vec(e.to) - vec(e.fr); ab = vec(e.b) - vec(e.a); det = cross2(ft, ab)
    p1 = vec(e.fr) + ft * e.post.s; p2 = vec(e.a) + ab * e.post.t
    return dict(found=Iff(eq(e.out, num(1, 'I')), ne(det, 0)), none=Implies(eq(det, 0), And(eq(e.out, num(0, 'I')), eq(e.post.s, 0), eq(e.post.t, 0))),
                meet=Implies(ne(det, 0), And(*same(p1, p2))))
C('v2_intersection', 'V2 fr, V2 to, V2 a, V2 b, R& s, R& t', 'i', 'mathlib::intersection(fr, to, a, b, s, t)', ensures=isect2, uninit=('s', 't'))

# ---- Vec3
C('v3_cross', 'V3 a, V3 b', 'V3', 'a % b', alias=[('a', 'b')], ensures=lambda e: same(e.out, cross(e.a, e.b)))
C('v3_crossa', 'V3& a, V3 b', '&a', 'a %= b', alias=[('a', 'b')], ensures=lambda e: same(e.post.a, cross(e.a, e.b)))
UNIT3 = [(1, 0, 0), (0, 1, 0), (0, 0, 1), (-1, 0, 0), (0, -1, 0), (0, 0, -1)]
for E in ('Coord', 'Axis'):
    C('v3_cross_' + E, 'V3 a, %s c' % E, 'V3', 'a % c', ensures=lambda e: same(e.out, cross(e.a, list(UNIT3[e.c]))))
    C('v3_crossa_' + E, 'V3& a, %s c' % E, '&a', 'a %= c', ensures=lambda e: same(e.post.a, cross(e.a, list(UNIT3[e.c]))))
def rotc(a, c, t):
    s, k = sin(t), cos(t)
    a = vec(a)
    return [[a.x, a.y * k - a.z * s, a.y * s + a.z * k], [a.x * k + a.z * s, a.y, -a.x * s + a.z * k], [a.x * k - a.y * s, a.x * s + a.y * k, a.z]][c]
C('v3_rotate', 'V3& a, Coord c, R t', '&a', 'a.rotate(c, t)', ensures=lambda e: same(e.post.a, rotc(e.a, e.c, e.t)))
C('v3_rotate_self', 'V3& a, Coord c', '&a', 'a.rotate(c, a.y)', ensures=lambda e: same(e.post.a, rotc(e.a, e.c, e.a.y)))
C('v3_rotated', 'V3 a, Coord c, R t', 'V3', 'a.rotated(c, t)', ensures=lambda e: same(e.out, rotc(e.a, e.c, e.t)))

# ---- Vec4
C('v4_ctor_v3', 'V3 a, R k', 'V4', 'Vec4<Real>(a, k)', ensures=lambda e: same(e.out, flat(e.a) + [e.k]))
C('v4_ctor_v3_def', 'V3 a', 'V4', 'Vec4<Real>(a)', ensures=lambda e: same(e.out, flat(e.a) + [lift(1)]))
C('v4_ctor_def', 'R x, R y, R z', 'V4', 'Vec4<Real>(x, y, z)', ensures=lambda e: same(e.out, [e.x, e.y, e.z, lift(1)]))
C('v4_set_v3', 'V4& a, V3 b, R k', '&a', 'a.set(b, k)', ensures=lambda e: same(e.post.a, flat(e.b) + [e.k]))
C('v4_set_v3_def', 'V4& a, V3 b', '&a', 'a.set(b)', ensures=lambda e: same(e.post.a, flat(e.b) + [lift(0)]))
C('v4_set_def', 'V4& a, R x, R y, R z', '&a', 'a.set(x, y, z)', ensures=lambda e: same(e.post.a, [e.x, e.y, e.z, lift(0)]))
C('v4_adda_v3', 'V4& a, V3 b', '&a', 'a += b', ensures=lambda e: same(e.post.a, [e.a.x + e.b.x, e.a.y + e.b.y, e.a.z + e.b.z, e.a.w]))
C('v4_suba_v3', 'V4& a, V3 b', '&a', 'a -= b', ensures=lambda e: same(e.post.a, [e.a.x - e.b.x, e.a.y - e.b.y, e.a.z - e.b.z, e.a.w]))
C('v4_toVec3', 'V4 a', 'V3', 'a.toVec3()', ensures=lambda e: same(e.out, [e.a.x, e.a.y, e.a.z]))
