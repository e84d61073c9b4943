"""Circles, spheres, planes, lines, rays, triangles and the view frustum."""
from base import *
import box
from box import lo, hi, half
deftype('TR', 'Tri2<Real>', [('a', 'V2'), ('b', 'V2'), ('c', 'V2')])
deftype('PL', 'Plane<Real>', [('normal', 'V3'), ('d', 'R')])
def at(l, t): return vec(l.start) + (vec(l.direction) if hasattr(l, 'direction') else vec(l.end) - vec(l.start)) * t
def unit(v): return eq(norm2(v), 1)
# ------------------------------------------------------------------ circles and spheres
for n, T_, cpp, p in ((2, 'CI', 'Circle<Real>', 'ci_'), (3, 'SP', 'Sphere<Real>', 'sp_')):
    Vn, Ln = 'V%d' % n, 'L%d' % n; MA = T_ + '& a'
    NN = lambda *vs: (lambda e: [getattr(e, v).radius >= 0 for v in vs])
    RK = lambda e: e.r >= 0
    for nm, ps, ret, ex in (('ctor', '', T_, cpp + '(p, r)'), ('from_2', '', T_, cpp + '::from(p, r)'), ('set_2', MA + ', ', '&a', 'a.set(p, r)')):
        def ens(e):
            o = e.post.a if hasattr(e.post, 'a') else e.out
            return same(o.center, e.p) + [eq(o.radius, e.r)]
        C(p + nm, ps + '%s p, R r' % Vn, ret, ex, requires=RK, ensures=ens)
    for op, nm, sg in (('+', 'move', 1), ('-', 'back', -1)):
        C(p + nm, '%s a, %s p' % (T_, Vn), T_, 'a %s p' % op, requires=NN('a'), ensures=lambda e, sg=sg: same(e.out.center, vec(e.a.center) + vec(e.p) * sg) + [eq(e.out.radius, e.a.radius)])
        C(p + nm + 'a', '%s, %s p' % (MA, Vn), '&a', 'a %s= p' % op, requires=NN('a'), ensures=lambda e, sg=sg: same(e.post.a.center, vec(e.a.center) + vec(e.p) * sg) + [eq(e.post.a.radius, e.a.radius)])
        C(p + nm + 'a_own', MA, '&a', 'a %s= a.center' % op, requires=NN('a'), ensures=lambda e, sg=sg: same(e.post.a.center, vec(e.a.center) + vec(e.a.center) * sg) + [eq(e.post.a.radius, e.a.radius)])
    NK = lambda e: [e.a.radius >= 0, e.k > 0]
    C(p + 'scale', '%s a, R k' % T_, T_, 'a * k', requires=NK, ensures=lambda e: same(e.out.center, e.a.center) + [eq(e.out.radius, e.a.radius * e.k)])
    C(p + 'scalea', '%s, R k' % MA, '&a', 'a *= k', requires=NK, ensures=lambda e: same(e.post.a.center, e.a.center) + [eq(e.post.a.radius, e.a.radius * e.k)])
    C(p + 'div', '%s a, R k' % T_, T_, 'a / k', requires=NK, ensures=lambda e: same(e.out.center, e.a.center) + [eq(e.out.radius * e.k, e.a.radius)])
    C(p + 'diva', '%s, R k' % MA, '&a', 'a /= k', requires=NK, ensures=lambda e: same(e.post.a.center, e.a.center) + [eq(e.post.a.radius * e.k, e.a.radius)])
    C(p + 'eq', '%s a, %s b' % (T_, T_), 'B', 'a == b', alias=[('a', 'b')], ensures=lambda e: Iff(e.out, And(*same(e.a, e.b))))
    C(p + 'ne', '%s a, %s b' % (T_, T_), 'B', 'a != b', alias=[('a', 'b')], ensures=lambda e: Iff(e.out, Not(And(*same(e.a, e.b)))))
    C(p + 'cast', T_ + ' a', T_, 'a.template cast<double>().template cast<Real>()', requires=NN('a'), ensures=lambda e: same(e.out, e.a))
    C(p + 'One', '', T_, cpp + '::One', ensures=lambda e: [eq(x, 0) for x in comps(e.out.center)] + [eq(e.out.radius, 1)])
    C(p + 'data', T_ + ' a, u i', 'R', 'a.data()[i]', cases={'i': list(range(n + 1))}, ensures=lambda e: eq(e.out, flat(e.a)[e.i]))
    C(p + 'data_w', MA + ', u i, R k', 'void', 'a.data()[i] = k', cases={'i': list(range(n + 1))}, ensures=lambda e: [eq(x, e.k if j == e.i else y) for j, (x, y) in enumerate(zip(flat(e.post.a), flat(e.a)))])
    # containment and overlap; q: any point
    def within(q, s): return norm2(vec(q) - vec(s.center)) <= s.radius * s.radius
    C(p + 'contains_p', '%s a, %s q' % (T_, Vn), 'B', 'a.contains(q)', requires=NN('a'), ensures=lambda e: Iff(e.out, within(e.q, e.a)))
    C(p + 'contains_s', '%s a, %s b' % (T_, T_), 'B', 'a.contains(b)', alias=[('a', 'b')], requires=NN('a', 'b'), ensures=lambda e: Iff(e.out, And(e.b.radius <= e.a.radius, norm2(vec(e.a.center) - vec(e.b.center)) <= (e.a.radius - e.b.radius) * (e.a.radius - e.b.radius))))
    C(p + 'contains_s_all', '%s a, %s b, %s q' % (T_, T_, Vn), 'B', 'a.contains(b)', requires=lambda e: [e.a.radius >= 0, e.b.radius >= 0, norm(vec(e.q) - vec(e.b.center)) <= e.b.radius, norm(vec(e.q) - vec(e.a.center)) <= norm(vec(e.q) - vec(e.b.center)) + norm(vec(e.b.center) - vec(e.a.center))], ensures=lambda e: Implies(e.out, norm(vec(e.q) - vec(e.a.center)) <= e.a.radius))
    def near(e): return norm2(vec(e.a.center) - vec(e.b.center)) <= (e.a.radius + e.b.radius) * (e.a.radius + e.b.radius)
    C(p + 'intersects_s', '%s a, %s b' % (T_, T_), 'B', 'a.intersects(b)', alias=[('a', 'b')], requires=NN('a', 'b'), ensures=lambda e: Iff(e.out, near(e)))
    def touch(e):
        h, c, o = vec(e.post.hit), vec(e.b.center), vec(e.a.center) - vec(e.b.center)
        return {'when': Iff(e.out, near(e)), 'depth': Implies(e.out, And(e.post.t >= 0, eq((e.a.radius + e.b.radius - e.post.t) * (e.a.radius + e.b.radius - e.post.t), norm2(o)), e.post.t <= e.a.radius + e.b.radius)),
                'hit': Implies(e.out, ite_all(iszero(o), same(h, c), [eq(norm2(h - c), e.b.radius * e.b.radius)] + same((h - c) * norm(o), o * e.b.radius))),
                'frame': Implies(Not(e.out), And(*same(e.post.hit, e.hit) + [eq(e.post.t, e.t)]))}
    def ite_all(c, a, b): return And(Implies(c, And(*a)), Implies(Not(c), And(*b)))
    C(p + 'touch', '%s a, %s& hit, R& t, %s b' % (T_, Vn, T_), 'B', 'a.intersects(hit, t, b)', requires=NN('a', 'b'), ensures=touch)
    # segments: the first boundary crossing, reported when it lies on the segment (s: any parameter)
    # (a circle takes a line of space and looks along z: it works with the line's projection)
    def P_(l, n=n): return l if n == 3 else type('L', (), dict(start=vec([l.start.x, l.start.y]), end=vec([l.end.x, l.end.y])))
    def f(e, t, P_=P_): return norm2(at(P_(e.l), t) - vec(e.a.center)) - e.a.radius * e.a.radius
    def seg(e, pt=True, P_=P_, f=f):
        r = {}
        outside = f(e, lift(0)) > 0
        r['found'] = Implies(And(outside, 0 <= e.s, e.s <= 1, f(e, e.s) <= 0), e.out)
        r['inside-start'] = Implies(f(e, lift(0)) < 0, Not(e.out))
        if pt:
            r['on-boundary'] = Implies(e.out, eq(f(e, e.post.t), 0)); r['range'] = Implies(e.out, And(0 <= e.post.t, e.post.t <= 1))
            r['point'] = Implies(e.out, And(*same(e.post.hit, at(P_(e.l), e.post.t)))); r['first'] = Implies(And(e.out, 0 <= e.s, f(e, e.s) <= 0), e.post.t <= e.s)
            r['frame'] = Implies(Not(e.out), And(*same(e.post.hit, e.hit) + [eq(e.post.t, e.t)]))
        return r
    def AB(e, P_=P_, n=n):
        l = P_(e.l); d, w = vec(l.end) - vec(l.start), vec(l.start) - vec(e.a.center); ax = 'xyz'[:n]
        return [('d' + c, x) for c, x in zip(ax, comps(d))] + [('w' + c, x) for c, x in zip(ax, comps(w))] + [('dd', norm2(d)), ('dw', dot(d, w)), ('ww', norm2(w))]
    for m in ('intersects', 'hits'): C(p + m + '_l', '%s a, %s& hit, R& t, %s l, R s' % (T_, Vn, 'L3'), 'B', 'a.%s(hit, t, l)' % m, requires=NN('a'), abbrev=AB, ensures=seg)
    C(p + 'meets_l', '%s a, %s l, R s' % (T_, 'L3'), 'B', 'a.intersects(l)', requires=NN('a'), abbrev=AB, ensures=lambda e: seg(e, False))
    # the test and the reporting form agree
    C(p + 'meets_agree', '%s a, %s& hit, R& t, %s l' % (T_, Vn, 'L3'), 'B', 'a.intersects(l) == a.intersects(hit, t, l)', requires=NN('a'), abbrev=AB, ensures=lambda e: Iff(e.out, lift(True)))
    # ------------------------------------------------------------------ lines and rays
    p = 'l%d_' % n
    C(p + 'from', '%s b, %s c' % (Vn, Vn), Ln, 'Line%d<Real>::from(b, c)' % n, alias=[('b', 'c')], ensures=lambda e: same(e.out.start, e.b) + same(e.out.end, e.c))
    C(p + 'eq', '%s a, %s b' % (Ln, Ln), 'B', 'a == b', alias=[('a', 'b')], ensures=lambda e: Iff(e.out, And(*same(e.a, e.b))))
    C(p + 'ne', '%s a, %s b' % (Ln, Ln), 'B', 'a != b', alias=[('a', 'b')], ensures=lambda e: Iff(e.out, Not(And(*same(e.a, e.b)))))
    C(p + 'length', Ln + ' a', 'R', 'a.length()', ensures=lambda e: [e.out >= 0, eq(e.out * e.out, norm2(vec(e.a.end) - vec(e.a.start)))])
    C(p + 'lengthSqr', Ln + ' a', 'R', 'a.lengthSqr()', ensures=lambda e: eq(e.out, norm2(vec(e.a.end) - vec(e.a.start))))
    C(p + 'isNull', Ln + ' a', 'B', 'a.isNull()', ensures=lambda e: Iff(e.out, iszero(vec(e.a.end) - vec(e.a.start))))
    C(p + 'pointAt', Ln + ' a, R t', Vn, 'a.pointAt(t)', ensures=lambda e: [same(e.out, at(e.a, e.t)), Implies(eq(e.t, 0), And(*same(e.out, e.a.start))), Implies(eq(e.t, 1), And(*same(e.out, e.a.end)))])
    C(p + 'cast', Ln + ' a', Ln, 'a.template cast<double>().template cast<Real>()', ensures=lambda e: same(e.out, e.a))
    def perp(d, w):
        """squared area spanned by d and w: the squared distance times |d|^2"""
        return norm2(d) * norm2(w) - dot(d, w) * dot(d, w)
    def ldist(e):
        d, w = vec(e.a.end) - vec(e.a.start), vec(e.q) - vec(e.a.start)
        return [e.out >= 0, Implies(nonzero(d), eq(e.out * e.out * norm2(d), perp(d, w))), Implies(iszero(d), eq(e.out * e.out, norm2(w)))]
    C(p + 'distance', '%s a, %s q' % (Ln, Vn), 'R', 'a.distance(q)', ensures=ldist)
    # s: any parameter; no point of the line is nearer than the reported distance
    def AL(e, n=n):
        d, w = vec(e.a.end) - vec(e.a.start), vec(e.q) - vec(e.a.start); ax = 'xyz'[:n]
        return [('d' + c, x) for c, x in zip(ax, comps(d))] + [('w' + c, x) for c, x in zip(ax, comps(w))] + [('dd', norm2(d)), ('dw', dot(d, w)), ('ww', norm2(w))]
    def LL(e):
        d, w = vec(e.a.end) - vec(e.a.start), vec(e.q) - vec(e.a.start)
        return [Implies(iszero(d), eq(dot(d, w), 0)), Iff(iszero(d), eq(norm2(d), 0))]
    C(p + 'distance_nearest', '%s a, %s q, R s' % (Ln, Vn), 'R', 'a.distance(q)', asserts=ldist, opaque=True, abbrev=AL, lemmas=LL, ensures=lambda e: e.out * e.out <= norm2(vec(e.q) - at(e.a, e.s)))
    p = 'ray%d_' % n; Rn = 'RAY%d' % n; UD = lambda e: unit(e.a.direction)
    C(p + 'from', '%s b, %s c' % (Vn, Vn), Rn, 'Ray%d<Real>::from(b, c)' % n, ensures=lambda e: [same(e.out.start, e.b), Implies(iszero(e.c), iszero(e.out.direction)), Implies(nonzero(e.c), And(unit(e.out.direction), *same(vec(e.out.direction) * norm(e.c), e.c)))])
    C(p + 'eq', '%s a, %s b' % (Rn, Rn), 'B', 'a == b', alias=[('a', 'b')], ensures=lambda e: Iff(e.out, And(*same(e.a, e.b))))
    C(p + 'ne', '%s a, %s b' % (Rn, Rn), 'B', 'a != b', alias=[('a', 'b')], ensures=lambda e: Iff(e.out, Not(And(*same(e.a, e.b)))))
    C(p + 'pointAt', Rn + ' a, R t', Vn, 'a.pointAt(t)', ensures=lambda e: same(e.out, at(e.a, e.t)))
    C(p + 'cast', Rn + ' a', Rn, 'a.template cast<double>().template cast<Real>()', requires=UD, ensures=lambda e: same(e.out, e.a))
    # a point of the line behind the start of a 3D ray is left out: there the code gives the distance to the start
    def behind(e, n=n): return And(iszero(cross(e.a.direction, vec(e.q) - vec(e.a.start))), dot(e.a.direction, vec(e.q) - vec(e.a.start)) < 0) if n == 3 else lift(False)
    def rdist(e, behind=behind): return [e.out >= 0, Implies(Not(behind(e)), eq(e.out * e.out, perp(vec(e.a.direction), vec(e.q) - vec(e.a.start))))]
    C(p + 'distance', '%s a, %s q' % (Rn, Vn), 'R', 'a.distance(q)', requires=UD, ensures=rdist)
    def AR(e, n=n):
        w = vec(e.q) - vec(e.a.start)
        return [('w' + c, x) for c, x in zip('xyz', comps(w))] + [('dd', norm2(e.a.direction)), ('dw', dot(e.a.direction, w)), ('ww', norm2(w))]
    C(p + 'distance_nearest', '%s a, %s q, R s' % (Rn, Vn), 'R', 'a.distance(q)', requires=lambda e, behind=behind: [UD(e), Not(behind(e))], asserts=rdist, opaque=True, abbrev=AR, ensures=lambda e: e.out * e.out <= norm2(vec(e.q) - at(e.a, e.s)))
# ------------------------------------------------------------------ triangles
C('tri_from', 'V2 x, V2 y, V2 z', 'TR', 'Tri2<Real>::from(x, y, z)', ensures=lambda e: same(e.out.a, e.x) + same(e.out.b, e.y) + same(e.out.c, e.z))
C('tri_eq', 'TR x, TR y', 'B', 'x == y', alias=[('x', 'y')], ensures=lambda e: Iff(e.out, And(*same(e.x, e.y))))
C('tri_ne', 'TR x, TR y', 'B', 'x != y', alias=[('x', 'y')], ensures=lambda e: Iff(e.out, Not(And(*same(e.x, e.y)))))
C('tri_cast', 'TR x', 'TR', 'x.template cast<double>().template cast<Real>()', ensures=lambda e: same(e.out, e.x))
def area(e): return cross2(vec(e.x.b) - vec(e.x.a), vec(e.x.c) - vec(e.x.a))
def bary(e):
    """the point with weights 1-u-v, u, v"""
    return vec(e.x.a) + (vec(e.x.b) - vec(e.x.a)) * e.u + (vec(e.x.c) - vec(e.x.a)) * e.v
C('tri_contains', 'TR x, V2 q, R u, R v', 'B', 'x.contains(q)', requires=lambda e: [ne(area(e), 0)] + same(e.q, bary(e)), ensures=lambda e: Iff(e.out, And(0 <= e.u, 0 <= e.v, e.u + e.v <= 1)))
C('tri_contains_corner', 'TR x, u i', 'B', 'x.contains(i == 0 ? x.a : i == 1 ? x.b : x.c)', cases={'i': [0, 1, 2]}, ensures=lambda e: Iff(e.out, lift(True)))
# ------------------------------------------------------------------ planes
UP = lambda e: unit(e.a.normal)
def dist(pl, q): return dot(pl.normal, q) - pl.d
def onplane(pl, *qs): return [eq(dist(pl, q), 0) for q in qs]
C('pl_ctor', 'V3 n, R d', 'PL', 'Plane<Real>(n, d)', ensures=lambda e: same(e.out.normal, e.n) + [eq(e.out.d, e.d)])
def dirn(u, v): return And(unit(u), *same(vec(u) * norm(v), v))
def O(e): return e.post.a if hasattr(e.post, 'a') else e.out
for nm, ret, ps, rc in (('set', '&a', 'PL& a, ', 'a.'), ('from', 'PL', '', 'Plane<Real>::')):
    C('pl_%s_nd' % nm, ps + 'V3 n, R d', ret, rc + nm + '(n, d)', requires=lambda e: nonzero(e.n), ensures=lambda e: [dirn(O(e).normal, e.n), eq(O(e).d, e.d)])
    C('pl_%s_pn' % nm, ps + 'V3 q, V3 n', ret, rc + nm + '(q, n)', modular=True, alias=[('q', 'n')], requires=lambda e: nonzero(e.n), ensures=lambda e: [dirn(O(e).normal, e.n), onplane(O(e), e.q)])
    ft = {'set': 'setFromPointAndTangents', 'from': 'fromPointAndTangents'}[nm]
    C('pl_%s_puv' % nm, ps + 'V3 q, V3 u, V3 v', ret, rc + ft + '(q, u, v)', requires=lambda e: nonzero(cross(e.u, e.v)), ensures=lambda e: [dirn(O(e).normal, cross(e.u, e.v)), onplane(O(e), e.q, vec(e.q) + vec(e.u), vec(e.q) + vec(e.v))])
    C('pl_%s_abc' % nm, ps + 'V3 p, V3 q, V3 r', ret, rc + nm + '(p, q, r)', modular=True, requires=lambda e: nonzero(cross(vec(e.q) - vec(e.p), vec(e.r) - vec(e.p))), ensures=lambda e: [dirn(O(e).normal, cross(vec(e.q) - vec(e.p), vec(e.r) - vec(e.p))), onplane(O(e), e.p, e.q, e.r)])
    C('pl_%s_par' % nm, ps + 'PL b, R k', ret, rc + nm + '(b, k)', alias=[('a', 'b')] if nm == 'set' else (), ensures=lambda e: same(O(e).normal, e.b.normal) + [eq(O(e).d, e.b.d + e.k)])
C('pl_set_own_n', 'PL& a, V3 q', '&a', 'a.set(q, a.normal)', requires=lambda e: nonzero(e.a.normal), ensures=lambda e: [dirn(e.post.a.normal, e.a.normal), onplane(e.post.a, e.q)])
C('pl_eq', 'PL a, PL b', 'B', 'a == b', alias=[('a', 'b')], ensures=lambda e: Iff(e.out, And(*same(e.a, e.b))))
C('pl_ne', 'PL a, PL b', 'B', 'a != b', alias=[('a', 'b')], ensures=lambda e: Iff(e.out, Not(And(*same(e.a, e.b)))))
C('pl_move', 'PL& a, R k, V3 q', '&a', 'a.move(k)', requires=UP, ensures=lambda e: [same(e.post.a.normal, e.a.normal), eq(dist(e.post.a, vec(e.q) + vec(e.a.normal) * e.k), dist(e.a, e.q))])
C('pl_moved', 'PL a, R k, V3 q', 'PL', 'a.moved(k)', requires=UP, ensures=lambda e: [same(e.out.normal, e.a.normal), eq(dist(e.out, vec(e.q) + vec(e.a.normal) * e.k), dist(e.a, e.q))])
C('pl_flip', 'PL& a, V3 q', '&a', 'a.flip()', ensures=lambda e: [same(e.post.a.normal, -vec(e.a.normal)), eq(dist(e.post.a, e.q), -dist(e.a, e.q))])
C('pl_flipped', 'PL a, V3 q', 'PL', 'a.flipped()', ensures=lambda e: [same(e.out.normal, -vec(e.a.normal)), eq(dist(e.out, e.q), -dist(e.a, e.q))])
C('pl_distance', 'PL a, V3 q', 'R', 'a.distance(q)', ensures=lambda e: eq(e.out, dist(e.a, e.q)))
C('pl_distance_nearest', 'PL a, V3 q, V3 r', 'R', 'a.distance(q)', requires=lambda e: [unit(e.a.normal)] + onplane(e.a, e.r), ensures=lambda e: e.out * e.out <= norm2(vec(e.q) - vec(e.r)))
C('pl_contains', 'PL a, V3 q, R k', 'B', 'a.contains(q, k)', ensures=lambda e: Iff(e.out, Abs(dist(e.a, e.q)) <= e.k))
C('pl_project', 'PL a, V3& r, V3 q', 'R', 'a.project(r, q)', alias=[('r', 'q')], requires=UP, ensures=lambda e: [eq(e.out, dist(e.a, e.q)), onplane(e.a, e.post.r), same(e.post.r, vec(e.q) - vec(e.a.normal) * e.out)])
C('pl_project_dir', 'PL a, V3& r, V3 q, V3 v', 'B', 'a.project(r, q, v)', alias=[('r', 'q'), ('r', 'v')], requires=UP, ensures=lambda e: {'when': Iff(e.out, ne(dot(e.v, e.a.normal), 0)), 'on-plane': Implies(e.out, And(*onplane(e.a, e.post.r))), 'along': Implies(e.out, iszero(cross(vec(e.post.r) - vec(e.q), e.v))), 'frame': Implies(Not(e.out), And(*same(e.post.r, e.r)))})
def keep(e, *names): return Implies(Not(e.out), And(*[x for nme in names for x in same(getattr(e.post, nme), getattr(e, nme))]))
def planehit(e, one, line, off=0):
    ds = dist(e.a, e.l.start) - off
    dv = dot(e.a.normal, vec(e.l.end) - vec(e.l.start) if line else e.l.direction)
    t, s = e.post.t, e.s; on = [0 <= s] + ([s <= 1] if line else [])
    r = {'on-plane': Implies(e.out, eq(dist(e.a, e.post.hit), off)), 'point': Implies(e.out, And(*same(e.post.hit, at(e.l, t)))), 'range': Implies(e.out, And(0 <= t, t <= 1) if line else 0 <= t)}
    crosses = eq(dist(e.a, at(e.l, s)) - off, 0)
    r['found'] = Implies(And(crosses, (dv < 0 if one else ne(dv, 0)), *on + ([dist(e.a, e.l.end) - off < 0] if one and line else [])), And(e.out, eq(t, s)))
    if one: r['front-only'] = Implies(e.out, dv < 0)
    return r
for T_, nm in (('RAY3', 'ray'), ('L3', 'line')):
    ln = T_ == 'L3'
    C('pl_hits_' + nm, 'PL a, V3& hit, R& t, %s l, R s' % T_, 'B', 'a.hits(hit, t, l)', ensures=lambda e, ln=ln: planehit(e, True, ln))
    C('pl_intersects_' + nm, 'PL a, V3& hit, R& t, %s l, R s' % T_, 'B', 'a.intersects(hit, t, l)', ensures=lambda e, ln=ln: planehit(e, False, ln))
C('pl_hits_line_r', 'PL a, V3& hit, R& t, L3 l, R r, R s', 'B', 'a.hits(hit, t, l, r)', ensures=lambda e: planehit(e, True, True, e.r))
C('pl_hits_s', 'PL a, R& depth, SP s', 'B', 'a.hits(depth, s)', requires=lambda e: [unit(e.a.normal), e.s.radius >= 0], ensures=lambda e: [Iff(e.out, between(0, dist(e.a, e.s.center), e.s.radius)), Implies(e.out, eq(e.post.depth, e.s.radius - dist(e.a, e.s.center))), keep(e, 'depth')])
C('pl_intersects_s', 'PL a, R& depth, SP s', 'B', 'a.intersects(depth, s)', requires=lambda e: [unit(e.a.normal), e.s.radius >= 0], ensures=lambda e: [Iff(e.out, Abs(dist(e.a, e.s.center)) <= e.s.radius), Implies(e.out, eq(e.post.depth, e.s.radius - dist(e.a, e.s.center))), keep(e, 'depth')])
C('pl_intersects_s_all', 'PL a, R& depth, SP s, V3 q', 'B', 'a.intersects(depth, s)', requires=lambda e: [unit(e.a.normal), e.s.radius >= 0, norm2(vec(e.q) - vec(e.s.center)) <= e.s.radius * e.s.radius] + onplane(e.a, e.q), ensures=lambda e: Iff(e.out, lift(True)))
C('pl_data', 'PL a, u i', 'R', 'a.data()[i]', cases={'i': [0, 1, 2, 3]}, ensures=lambda e: eq(e.out, flat(e.a)[e.i]))
C('pl_data_w', 'PL& a, u i, R k', 'void', 'a.data()[i] = k', cases={'i': [0, 1, 2, 3]}, ensures=lambda e: [eq(x, e.k if j == e.i else y) for j, (x, y) in enumerate(zip(flat(e.post.a), flat(e.a)))])
C('pl_cast', 'PL a', 'PL', 'a.template cast<double>().template cast<Real>()', ensures=lambda e: same(e.out, e.a))
for nm, v in (('XY', (0, 0, 1)), ('YZ', (1, 0, 0)), ('ZX', (0, 1, 0))):
    C('pl_' + nm, '', 'PL', 'Plane<Real>::' + nm, ensures=lambda e, v=v: same(e.out.normal, list(v)) + [eq(e.out.d, 0)])
def three(e):
    det = dot(cross(e.a.normal, e.b.normal), e.c.normal)
    return {'on-all': Implies(e.out, And(*(onplane(e.a, e.post.q) + onplane(e.b, e.post.q) + onplane(e.c, e.post.q)))), 'when': [Implies(Abs(det) >= Fr(11, 100000), e.out), Implies(eq(det, 0), Not(e.out))]}
C('pl_three', 'V3& q, PL a, PL b, PL c', 'B', 'Plane<Real>::intersectAtSinglePoint(q, a, b, c)', ensures=three)
