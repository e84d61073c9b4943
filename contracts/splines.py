"""Splines through sequences of points."""
from base import *
PP = 'i n, V3[n] p, V3[n-1]& q, V3[n-1]& r'
PC = 'i n, V3[n] p, V3[n]& q, V3[n]& r'
S_ = 'SplineSolver3<Real>::'
S8 = V(8, 8, 8)   # both sides are shifted, so that rounding is judged against quantities of that size
# segment i runs from p[i] over q[i], r[i] to p[i+1]
def joined(e, last, nxt):
    out = {}
    P, Q, R = (lambda i: vec(e.p[i])), (lambda i: vec(e.post.q[i])), (lambda i: vec(e.post.r[i]))
    for i in range(last):
        j = nxt(i)
        out['tangent at %d' % j] = Implies(e.out, And(*same(P(j) - R(i) + S8, Q(j) - P(j) + S8)))
        out['curvature at %d' % j] = Implies(e.out, And(*same(P(j) - R(i) * 2 + Q(i) + S8, R(j) - Q(j) * 2 + P(j) + S8)))
    return out
def natural(e):
    n = e.case['n']; P, Q, R = (lambda i: vec(e.p[i])), (lambda i: vec(e.post.q[i])), (lambda i: vec(e.post.r[i]))
    return dict(joined(e, n - 2, lambda i: i + 1), solved=e.out, start=And(*same(R(0) - Q(0) * 2 + P(0) + S8, S8)), end=And(*same(P(n - 1) - R(n - 2) * 2 + Q(n - 2) + S8, S8)))
C('sp_natural', PP, 'B', S_ + 'naturalBezierSpline(n, p, q, r)', cases={'n': [2, 3, 4, 5, 6, 7]}, bounded='2 to 7 points', ensures=natural)
C('sp_ends', 'i n, V3[n] p, V3 s, V3 t, V3[n-1]& q, V3[n-1]& r', 'B', S_ + 'bezierSpline(n, p, s, t, q, r)', cases={'n': [2, 3, 4, 5, 6, 7]}, bounded='2 to 7 points',
  ensures=lambda e: dict(joined(e, e.case['n'] - 2, lambda i: i + 1), solved=e.out, start=And(*same(e.post.q[0], e.s)), end=And(*same(e.post.r[e.case['n'] - 2], e.t))))
C('sp_closed', PC, 'B', S_ + 'closedBezierSpline(n, p, q, r)', unroll=1000, cases={'n': [2, 3, 4, 5, 6]}, bounded='2 to 6 points', ensures=lambda e: dict(joined(e, e.case['n'], lambda i: (i + 1) % e.case['n']), solved=e.out))
# ---- every number of points, at an arbitrary inner point p[k+1]; the solutions of the linear system are known through the contracts of
# TriDiagonal::solve (lineq.py)
K1 = lambda: add(var('k', 'I'), num(1, 'I'))
SUP = {'triv_first': lambda e: [{}], 'triv_last': lambda e: [{}], 'triv_row': lambda e: [dict(k=K1())]}
CNT = lambda lo: lambda e: [num(lo, 'I') <= lift(e.n, 'I'), lift(e.n, 'I') <= 2 ** 26]
INN = lambda e: CNT(3)(e) + [num(0, 'I') <= lift(e.k, 'I'), lift(e.k, 'I') <= lift(e.n, 'I') - 3]
snat = [dict(n=n, k=k) for n in (3, 4, 5, 7) for k in range(0, n - 2)]
enat = [dict(n=n) for n in (2, 3, 4, 6)]
def inner(e):
    k = lift(e.k, 'I'); j = k + 1
    P, Q, R = (lambda i: vec(e.p[i])), (lambda i: vec(e.post.q[i])), (lambda i: vec(e.post.r[i]))
    return {'tangent': Implies(e.out, And(*same(P(j) - R(k) + S8, Q(j) - P(j) + S8))), 'curvature': Implies(e.out, And(*same(P(j) - R(k) * 2 + Q(k) + S8, R(j) - Q(j) * 2 + P(j) + S8)))}
def nstart(e): return {'start': Implies(e.out, And(*same(vec(e.post.r[0]) - vec(e.post.q[0]) * 2 + vec(e.p[0]) + S8, S8)))}
def nend(e):
    n = lift(e.n, 'I')
    return {'end': Implies(e.out, And(*same(vec(e.p[n - 1]) - vec(e.post.r[n - 2]) * 2 + vec(e.post.q[n - 2]) + S8, S8)))}
def gends(e):
    n = lift(e.n, 'I')
    return {'start': Implies(e.out, And(*same(e.post.q[0], e.s))), 'end': Implies(e.out, And(*same(e.post.r[n - 2], e.t)))}
NAT = S_ + 'naturalBezierSpline(n, p, q, r)'; GIV = S_ + 'bezierSpline(n, p, s, t, q, r)'; PG = 'i n, V3[n] p, V3 s, V3 t, V3[n-1]& q, V3[n-1]& r'
SO = dict(symloops=True, supply=SUP)
C('sp_natural_inner', PP + ', i k', 'B', NAT, ghosts=('k',), natives=snat, requires=INN, ensures=inner, **SO)
C('sp_natural_start', PP, 'B', NAT, natives=enat, requires=CNT(2), ensures=nstart, **SO)
C('sp_natural_end', PP, 'B', NAT, natives=enat, requires=CNT(2), ensures=nend, **SO)
C('sp_ends_inner', PG + ', i k', 'B', GIV, ghosts=('k',), natives=snat, requires=INN, ensures=inner, **SO)
C('sp_ends_ends', PG, 'B', GIV, natives=enat, requires=CNT(2), ensures=gends, **SO)
