"""Axis-aligned boxes (corner form AABB, centre form CAABB) in two and three dimensions."""
from base import *
deftype('A2', 'AABB2<Real>', [('inf', 'V2'), ('sup', 'V2')])
deftype('A3', 'AABB3<Real>', [('inf', 'V3'), ('sup', 'V3')])
deftype('K2', 'CAABB2<Real>', [('center', 'V2'), ('extents', 'V2')])
deftype('K3', 'CAABB3<Real>', [('center', 'V3'), ('extents', 'V3')])
deftype('CI', 'Circle<Real>', [('center', 'V2'), ('radius', 'R')])
deftype('SP', 'Sphere<Real>', [('center', 'V3'), ('radius', 'R')])
deftype('L2', 'Line2<Real>', [('start', 'V2'), ('end', 'V2')])
deftype('L3', 'Line3<Real>', [('start', 'V3'), ('end', 'V3')])
deftype('RAY2', 'Ray2<Real>', [('start', 'V2'), ('direction', 'V2')])
deftype('RAY3', 'Ray3<Real>', [('start', 'V3'), ('direction', 'V3')])
def lo(b): return vec(b.inf) if hasattr(b, 'inf') else vec(b.center) - vec(b.extents)
def hi(b): return vec(b.sup) if hasattr(b, 'inf') else vec(b.center) + vec(b.extents)
def valid(b): return [x <= y for x, y in zip(comps(lo(b)), comps(hi(b)))]
def inside(p, b): return And(*[between(x, y, z) for x, y, z in zip(comps(lo(b)), comps(p), comps(hi(b)))])
def corners(b, l, h): return same(lo(b), l) + same(hi(b), h)
half = Fr(1, 2)
def mul(a, b): return V(*[x * y for x, y in zip(comps(a), comps(b))])
for n in (2, 3):
    Vn, A, K, S, Ln, Rn = 'V%d' % n, 'A%d' % n, 'K%d' % n, {2: 'CI', 3: 'SP'}[n], 'L%d' % n, 'RAY%d' % n
    Round = {2: 'Circle', 3: 'Sphere'}[n]; Vol = {2: 'area', 3: 'volume'}[n]
    for T_, p, cpp, O in ((A, 'a%d_' % n, 'AABB%d<Real>' % n, K), (K, 'k%d_' % n, 'CAABB%d<Real>' % n, A)):
        cor = T_ == A
        MA = T_ + '& a'
        P1 = '%s, %s p' % (MA, Vn)
        # -- construction
        C(p + 'set_p', P1, '&a', 'a.set(p)', ensures=lambda e: corners(e.post.a, e.p, e.p))
        C(p + 'from_p', Vn + ' p', T_, cpp + '::from(p)', ensures=lambda e: corners(e.out, e.p, e.p))
        if cor:
            for nm, ps, ret, ex in (('ctor', '', T_, cpp + '(b, c)'), ('from_2', '', T_, cpp + '::from(b, c)'), ('set_2', MA + ', ', '&a', 'a.set(b, c)')):
                C(p + nm, ps + '%s b, %s c' % (Vn, Vn), ret, ex, alias=[('b', 'c')], ensures=lambda e: corners(e.post.a if hasattr(e.post, 'a') else e.out, e.b, e.c))
            C(p + 'set_own', MA, '&a', 'a.set(a.sup)', ensures=lambda e: corners(e.post.a, hi(e.a), hi(e.a)))
        else:
            for nm, ps, ret, ex in (('ctor', '', T_, cpp + '(b, c)'), ('from_2', '', T_, cpp + '::from(b, c)'), ('set_2', MA + ', ', '&a', 'a.set(b, c)')):
                C(p + nm, ps + '%s b, %s c' % (Vn, Vn), ret, ex, alias=[('b', 'c')], ensures=lambda e: corners(e.post.a if hasattr(e.post, 'a') else e.out, vec(e.b) - vec(e.c) * half, vec(e.b) + vec(e.c) * half))
            if n == 2: C(p + 'from_is', '%s b, %s c' % (Vn, Vn), T_, cpp + '::fromInfSup(b, c)', alias=[('b', 'c')], ensures=lambda e: corners(e.out, e.b, e.c))
        C(p + 'set_o', '%s, %s o' % (MA, O), '&a', 'a.set(o)', ensures=lambda e: corners(e.post.a, lo(e.o), hi(e.o)))
        if not (not cor and n == 2): C(p + 'from_o', '%s o' % O, T_, cpp + '::from(o)', ensures=lambda e: corners(e.out, lo(e.o), hi(e.o)))
        C(p + 'roundtrip', '%s a' % T_, T_, '%s(%s).set(%s(%s).set(a))' % (cpp, '', {True: 'CAABB%d<Real>' % n, False: 'AABB%d<Real>' % n}[cor], ''), ensures=lambda e: same(e.out, e.a))
        # -- growing
        def grow(e): return corners(e.post.a, vmin(lo(e.a), e.p), vmax(hi(e.a), e.p)) + [inside(e.p, e.post.a)]
        C(p + 'add', P1, '&a', 'a.add(p)', requires=lambda e: valid(e.a), ensures=grow)
        if cor: C(p + 'add_own', MA, '&a', 'a.add(a.inf)', requires=lambda e: valid(e.a), ensures=lambda e: same(e.post.a, e.a))
        def unchanged(e): return Implies(inside(e.p, e.a), And(*same(e.post.a, e.a)))
        C(p + 'add_inside', P1, '&a', 'a.add(p)', requires=lambda e: valid(e.a) + [inside(e.p, e.a)], ensures=lambda e: same(e.post.a, e.a))
        # -- moving and scaling about the centre
        for nm, op in (('move', '+'), ('back', '-')):
            sg = 1 if op == '+' else -1
            C(p + nm, '%s a, %s p' % (T_, Vn), T_, 'a %s p' % op, ensures=lambda e, sg=sg: corners(e.out, lo(e.a) + vec(e.p) * sg, hi(e.a) + vec(e.p) * sg))
            C(p + nm + 'a', P1, '&a', 'a %s= p' % op, ensures=lambda e, sg=sg: corners(e.post.a, lo(e.a) + vec(e.p) * sg, hi(e.a) + vec(e.p) * sg))
            for f in (('inf', 'sup') if cor else ('center', 'extents')):
                C(p + nm + 'a_own_' + f, MA, '&a', 'a %s= a.%s' % (op, f), ensures=lambda e, sg=sg, f=f: corners(e.post.a, lo(e.a) + vec(getattr(e.a, f)) * sg, hi(e.a) + vec(getattr(e.a, f)) * sg))
        def ctr(b): return (lo(b) + hi(b)) * half
        def scaled(r, b, k): return corners(r, ctr(b) + (lo(b) - ctr(b)) * k, ctr(b) + (hi(b) - ctr(b)) * k)
        C(p + 'scale', '%s a, R k' % T_, T_, 'a * k', ensures=lambda e: scaled(e.out, e.a, e.k))
        C(p + 'scalea', '%s, R k' % MA, '&a', 'a *= k', ensures=lambda e: scaled(e.post.a, e.a, e.k))
        C(p + 'div', '%s a, R k' % T_, T_, 'a / k', requires=lambda e: ne(e.k, 0), ensures=lambda e: scaled(e.out, e.a, 1 / e.k))
        C(p + 'diva', '%s, R k' % MA, '&a', 'a /= k', requires=lambda e: ne(e.k, 0), ensures=lambda e: scaled(e.post.a, e.a, 1 / e.k))
        if cor: C(p + 'scaleCentered', '%s, R k' % MA, '&a', 'a.scaleCentered(k)', ensures=lambda e: scaled(e.post.a, e.a, e.k))
        # -- comparison and measures
        C(p + 'eq', '%s a, %s b' % (T_, T_), 'B', 'a == b', alias=[('a', 'b')], ensures=lambda e: Iff(e.out, And(*same(e.a, e.b))))
        C(p + 'ne', '%s a, %s b' % (T_, T_), 'B', 'a != b', alias=[('a', 'b')], ensures=lambda e: Iff(e.out, Not(And(*same(e.a, e.b)))))
        if cor:
            C(p + 'center', T_ + ' a', Vn, 'a.center()', ensures=lambda e: same(vec(e.out) * 2, lo(e.a) + hi(e.a)))
            C(p + 'extents', T_ + ' a', Vn, 'a.extents()', ensures=lambda e: same(vec(e.out) * 2, hi(e.a) - lo(e.a)))
        else:
            C(p + 'inf', T_ + ' a', Vn, 'a.inf()', ensures=lambda e: same(e.out, lo(e.a)))
            C(p + 'sup', T_ + ' a', Vn, 'a.sup()', ensures=lambda e: same(e.out, hi(e.a)))
        C(p + 'size', T_ + ' a', Vn, 'a.size()', ensures=lambda e: same(e.out, hi(e.a) - lo(e.a)))
        def prod(v):
            r = v[0]
            for x in v[1:]: r = r * x
            return r
        C(p + Vol, T_ + ' a', 'R', 'a.%s()' % Vol, ensures=lambda e: eq(e.out, prod(comps(hi(e.a) - lo(e.a)))))
        C(p + 'isNull', T_ + ' a', 'B', 'a.isNull()', ensures=lambda e: Iff(e.out, And(*same(lo(e.a), hi(e.a)))))
        C(p + 'outer', T_ + ' a', S, 'a.outer%s()' % Round, ensures=lambda e: [same(vec(e.out.center) * 2, lo(e.a) + hi(e.a)), e.out.radius >= 0, eq(4 * e.out.radius * e.out.radius, norm2(hi(e.a) - lo(e.a)))])
        C(p + 'inner', T_ + ' a', S, 'a.inner%s()' % Round, requires=lambda e: valid(e.a), ensures=lambda e: [same(vec(e.out.center) * 2, lo(e.a) + hi(e.a))] + [2 * e.out.radius <= x for x in comps(hi(e.a) - lo(e.a))] + [Or(*[eq(2 * e.out.radius, x) for x in comps(hi(e.a) - lo(e.a))])])
        if cor: C(p + 'pointAt', '%s a, %s t' % (T_, Vn), Vn, 'a.pointAt(t)', ensures=lambda e: same(e.out, lo(e.a) + mul(hi(e.a) - lo(e.a), e.t)))
        else: C(p + 'pointAt', '%s a, %s t' % (T_, Vn), Vn, 'a.pointAt(t)', ensures=lambda e: same(e.out, ctr(e.a) + mul(hi(e.a) - lo(e.a), e.t) * half))
        C(p + 'cast', T_ + ' a', T_, 'a.template cast<double>().template cast<Real>()', ensures=lambda e: same(e.out, e.a))
        if cor: C(p + 'Zero', '', T_, cpp + '::Zero', ensures=lambda e: [eq(x, 0) for x in flat(e.out)])
        C(p + 'One', '', T_, cpp + '::One', ensures=lambda e: [eq(x, -half) for x in comps(lo(e.out))] + [eq(x, half) for x in comps(hi(e.out))]) if cor else C(p + 'One', '', T_, cpp + '::One', ensures=lambda e: [eq(x, -half) for x in comps(lo(e.out))] + [eq(x, half) for x in comps(hi(e.out))])
        # -- containment
        C(p + 'contains_p', '%s a, %s p' % (T_, Vn), 'B', 'a.contains(p)', ensures=lambda e: Iff(e.out, inside(e.p, e.a)))
        AB = '%s a, %s b' % (T_, T_); al = [('a', 'b')]
        C(p + 'contains_b', AB, 'B', 'a.contains(b)', alias=al, requires=lambda e: valid(e.b), ensures=lambda e: Iff(e.out, And(inside(lo(e.b), e.a), inside(hi(e.b), e.a))))
        # q: any point
        C(p + 'contains_b_all', AB + ', %s q' % Vn, 'B', 'a.contains(b)', requires=lambda e: [inside(e.q, e.b)], ensures=lambda e: Implies(e.out, inside(e.q, e.a)))
        if n == 3: C(p + 'contains_s', '%s a, SP s' % T_, 'B', 'a.contains(s)', requires=lambda e: e.s.radius >= 0, ensures=lambda e: Iff(e.out, And(*[And(x - e.s.radius >= l, x + e.s.radius <= h) for x, l, h in zip(comps(e.s.center), comps(lo(e.a)), comps(hi(e.a)))])))
        # -- overlap: reported exactly when the boxes share a point (q: any common point; witness: the larger lower corner)
        C(p + 'intersects', AB + ', %s q' % Vn, 'B', 'a.intersects(b)', requires=lambda e: valid(e.a) + valid(e.b), ensures=lambda e: {'found': Implies(And(inside(e.q, e.a), inside(e.q, e.b)), e.out),
            'shared': Implies(e.out, And(inside(vmax(lo(e.a), lo(e.b)), e.a), inside(vmax(lo(e.a), lo(e.b)), e.b)))})
        C(p + 'intersects_self', T_ + ' a', 'B', 'a.intersects(a)', requires=lambda e: valid(e.a), ensures=lambda e: Iff(e.out, lift(True)))
        if cor:
            C(p + 'union', AB, T_, cpp + '::fromUnion(a, b)', alias=al, ensures=lambda e: corners(e.out, vmin(lo(e.a), lo(e.b)), vmax(hi(e.a), hi(e.b))))
            def meet(e):
                share = inside(vmax(lo(e.a), lo(e.b)), e.a) & inside(vmax(lo(e.a), lo(e.b)), e.b) if False else And(inside(vmax(lo(e.a), lo(e.b)), e.a), inside(vmax(lo(e.a), lo(e.b)), e.b))
                return {'common': Implies(share, Iff(inside(e.q, e.out), And(inside(e.q, e.a), inside(e.q, e.b)))), 'corners': Implies(share, And(*corners(e.out, vmax(lo(e.a), lo(e.b)), vmin(hi(e.a), hi(e.b))))),
                        'disjoint': Implies(Not(share), And(*[eq(x, 0) for x in flat(e.out)]))}
            C(p + 'intersection', AB + ', %s q' % Vn, T_, cpp + '::fromIntersection(a, b)', requires=lambda e: valid(e.a) + valid(e.b), ensures=meet)
    # ---- rays and segments (s: any parameter)
    p = 'a%d_' % n
    for T_, nm in ((Rn, 'ray'), (Ln, 'line')):
        def at(l, t): return vec(l.start) + (vec(l.direction) if hasattr(l, 'direction') else vec(l.end) - vec(l.start)) * t
        def dirv(l): return vec(l.direction) if hasattr(l, 'direction') else vec(l.end) - vec(l.start)
        big = Fr(2) ** 90
        def span(e, line=T_ == Ln):
            t1, t2 = e.post.t1, e.post.t2; on = [0 <= e.s, e.s <= (1 if line else big)]
            return {'found': Implies(And(inside(at(e.l, e.s), e.a), *on), And(e.out, t1 <= e.s, e.s <= t2)),
                    'order': Implies(e.out, And(0 <= t1, t1 <= t2)), 'within': Implies(And(e.out, t1 <= 1), t2 <= 1) if line else []}
        def ends(e, line=T_ == Ln):
            t1, t2 = e.post.t1, e.post.t2
            return {'first': Implies(e.out, inside(at(e.l, t1), e.a)), 'last': Implies(e.out, inside(at(e.l, t2), e.a))}
        P_ = 'A%d a, R& t1, R& t2, %s l' % (n, T_)
        C(p + 'intersects_' + nm, P_ + ', R s', 'B', 'a.intersects(t1, t2, l)', requires=lambda e: valid(e.a), ensures=span)
        C(p + 'intersects_' + nm + '_ends', P_, 'B', 'a.intersects(t1, t2, l)', requires=lambda e: valid(e.a), ensures=ends)
        # hits: entry from outside
        def entry(e, line=T_ == Ln):
            t = e.post.t; on = [0 <= e.s, e.s <= (1 if line else big)]
            interior = And(*[And(l < x, x < h) for l, x, h in zip(comps(lo(e.a)), comps(e.l.start), comps(hi(e.a)))])
            return {'enters': Implies(And(inside(at(e.l, e.s), e.a), Not(inside(e.l.start, e.a)), *on), And(e.out, t <= e.s)),
                    'first': Implies(e.out, inside(at(e.l, t), e.a)), 'range': Implies(e.out, And(0 <= t, t <= 1) if line else 0 <= t), 'start-inside': Implies(interior, Not(e.out))}
        C(p + 'hits_' + nm, 'A%d a, R& t, %s l, R s' % (n, T_), 'B', 'a.hits(t, l)', requires=lambda e: valid(e.a), ensures=entry)
