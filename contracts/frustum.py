"""The view frustum: construction from eight corners, containment and overlap."""
from base import *
import geo
from geo import dist, onplane, unit, dirn
from rot import ap, pt
FR_ = 'Frustum<Real>'
CN = ['corners[%d]' % i for i in range(8)]; PN = ['planes[%d]' % i for i in range(6)]
deftype('FR', FR_, [(n, 'V3') for n in CN] + [(n, 'PL') for n in PN])
def cn(f, i): return getattr(f, CN[i])
def pn(f, i): return getattr(f, PN[i])
FAR, NEAR, LEFT, TOP, RIGHT, BOTTOM = range(6)
FACES = {FAR: (4, 5, 6, 7), NEAR: (0, 1, 2, 3), LEFT: (2, 3, 6, 7), TOP: (0, 3, 4, 7), RIGHT: (0, 1, 4, 5), BOTTOM: (1, 2, 5, 6)}
# three corners whose cross product points out of the face
OUT = {FAR: (4, 5, 6), LEFT: (3, 7, 6), TOP: (3, 4, 7), RIGHT: (1, 5, 4), BOTTOM: (1, 6, 5)}
def nrm(c, i):
    a, b, d = [vec(c[k]) for k in OUT[i]]
    return cross(b - a, d - a)
# ---- construction: corners stored as given, every plane a unit normal through its three corners
def solid(c): return [nonzero(nrm(c, i)) for i in OUT]
def planes_of(f, c):
    r = {}
    for i, nme in ((FAR, 'far'), (LEFT, 'left'), (TOP, 'top'), (RIGHT, 'right'), (BOTTOM, 'bottom')):
        pl = pn(f, i)
        r[nme] = [dirn(pl.normal, nrm(c, i))] + onplane(pl, *[c[k] for k in OUT[i]])
    r['near'] = same(pn(f, NEAR).normal, -vec(pn(f, FAR).normal)) + [unit(pn(f, NEAR).normal)] + onplane(pn(f, NEAR), c[0])
    return r
def stored(f, c): return [same(cn(f, i), c[i]) for i in range(8)]
PT = lambda e: [e.c[i] for i in range(8)]
AP = lambda e: [ap(e.m, e.c[i]) for i in range(8)]
A4 = lambda e: [pt(e.m, e.c[i]) for i in range(8)]
for nm, ps, ret, ex, cs in (('ctor', 'V3[8] c', 'FR', FR_ + '(c)', PT), ('set', 'FR& a, V3[8] c', 'void', 'a.set(c)', PT),
                            ('set_m34', 'FR& a, M34 m, V3[8] c', 'void', 'a.set(m, c)', AP), ('set_m4', 'FR& a, M4 m, V3[8] c', 'void', 'a.set(m, c)', A4)):
    def O(e): return e.post.a if hasattr(e.post, 'a') else e.out
    C('fr_' + nm, ps, ret, ex, inv=False, requires=lambda e, cs=cs: solid(cs(e)), ensures=lambda e, cs=cs, O=O: {'corners': stored(O(e), cs(e)), 'planes': planes_of(O(e), [cn(O(e), i) for i in range(8)])})
# ---- containment and overlap, against the six stored planes
def dists(f, q): return [dist(pn(f, i), q) for i in range(6)]
C('fr_contains', 'FR a, V3 q', 'B', 'a.contains(q)', ensures=lambda e: Iff(e.out, And(*[d <= 0 for d in dists(e.a, e.q)])))
C('fr_contains_v4', 'FR a, V4 q', 'B', 'a.contains(q)', ensures=lambda e: Iff(e.out, And(*[d <= 0 for d in dists(e.a, vec(e.q).c[:3])])))
UN = lambda e: [unit(pn(e.a, i).normal) for i in range(6)]
RS = lambda e: e.s.radius >= 0
def inside(q, s): return norm2(vec(q) - vec(s.center)) <= s.radius * s.radius
C('fr_contains_s', 'FR a, SP s', 'B', 'a.contains(s)', requires=RS, ensures=lambda e: Iff(e.out, And(*[d <= -e.s.radius for d in dists(e.a, e.s.center)])))
C('fr_intersects_s', 'FR a, SP s', 'B', 'a.intersects(s)', requires=RS, ensures=lambda e: Iff(e.out, And(*[d <= e.s.radius for d in dists(e.a, e.s.center)])))
# q: any point
def CS(e):
    w, r = vec(e.q) - vec(e.s.center), []
    for i in range(6):
        n = pn(e.a, i).normal
        r.append(('cauchy%d' % i, By(dot(n, w) * dot(n, w) <= e.s.radius * e.s.radius, [unit(n), inside(e.q, e.s)])))
        r.append(('reach%d' % i, By(between(-e.s.radius, dot(n, w), e.s.radius), [RS(e), dot(n, w) * dot(n, w) <= e.s.radius * e.s.radius])))
    return r
C('fr_contains_s_all', 'FR a, SP s, V3 q', 'B', 'a.contains(s)', requires=lambda e: [RS(e), UN(e), inside(e.q, e.s)], lemmas=CS, ensures=lambda e: Implies(e.out, And(*[d <= 0 for d in dists(e.a, e.q)])))
C('fr_intersects_s_all', 'FR a, SP s, V3 q', 'B', 'a.intersects(s)', requires=lambda e: [RS(e), UN(e), inside(e.q, e.s)] + [d <= 0 for d in dists(e.a, e.q)], lemmas=CS, ensures=lambda e: Iff(e.out, lift(True)))
# a sphere whose every point lies inside is reported: the witness is the point furthest out along each normal
C('fr_contains_s_if', 'FR a, SP s', 'B', 'a.contains(s)', requires=lambda e: [RS(e), UN(e)] + [dist(pn(e.a, i), vec(e.s.center) + vec(pn(e.a, i).normal) * e.s.radius) <= 0 for i in range(6)], ensures=lambda e: Iff(e.out, lift(True)))
C('fr_cast', 'FR a', 'FR', 'a.template cast<double>().template cast<Real>()', ensures=lambda e: same(e.out, e.a))
# ---- from corners to answers: near rectangle [l,r]x[b,t] at depth n, far rectangle [L,R]x[B,T] at depth f, looking along -z
# (perspective, off-centre and orthographic alike); a point is inside exactly when it lies between the two rectangles
RECT = 'R x0, R x1, R y0, R y1, R X0, R X1, R Y0, R Y1, R n, R f'
def rect(e):
    o = [(e.x1, e.y1, -e.n), (e.x1, e.y0, -e.n), (e.x0, e.y0, -e.n), (e.x0, e.y1, -e.n), (e.X1, e.Y1, -e.f), (e.X1, e.Y0, -e.f), (e.X0, e.Y0, -e.f), (e.X0, e.Y1, -e.f)]
    return [x for i in range(8) for x in same(e.c[i], o[i])]
def proper(e): return [e.x0 < e.x1, e.y0 < e.y1, e.X0 < e.X1, e.Y0 < e.Y1, e.n < e.f]
def between_rects(e, q):
    w, W = e.f + q.z, -q.z - e.n      # weights of the near and the far rectangle, times f - n
    k = e.f - e.n
    return And(W >= 0, w >= 0, e.x0 * w + e.X0 * W <= q.x * k, q.x * k <= e.x1 * w + e.X1 * W, e.y0 * w + e.Y0 * W <= q.y * k, q.y * k <= e.y1 * w + e.Y1 * W)
C('fr_view', 'V3[8] c, V3 q, ' + RECT, 'B', FR_ + '(c).contains(q)', requires=lambda e: rect(e) + proper(e), ensures=lambda e: Iff(e.out, between_rects(e, e.q)))
