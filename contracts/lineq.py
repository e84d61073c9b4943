"""Linear equations."""
from base import *
def tri(e, n, X):
    """rows of the tridiagonal system, applied to X(i)"""
    rows = []
    for i in range(n):
        r = X(i) * e.b[i]
        if i > 0: r = r + X(i - 1) * e.a[i - 1]
        if i < n - 1: r = r + X(i + 1) * e.c[i]
        rows.append(r)
    return rows
def solved(e):
    n = e.case['n']
    return {'row %d' % i: Implies(e.out, eq(l, e.r[i])) for i, l in enumerate(tri(e, n, lambda i: e.post.u[i]))}
def solvedv(e):
    n = e.case['n']
    return {'row %d' % i: Implies(e.out, And(*same(l, e.r[i]))) for i, l in enumerate(tri(e, n, lambda i: vec(e.post.u[i])))}
def tridet(e, n):
    """leading principal minors of the matrix"""
    d = [lift(1), lift(e.b[0])]
    for i in range(1, n): d.append(e.b[i] * d[-1] - e.a[i - 1] * e.c[i - 1] * d[-2])
    return d
def regular(e): n = e.case['n']; d = tridet(e, n); return Iff(e.out, And(*[ne(x, 0) for x in d[1:]]))
TN = {'n': [1, 2, 3, 4, 5]}
C('tri_solve', 'R[n-1] a, R[n] b, R[n-1] c, R[n] r, R[n]& u, i n', 'B', 'TriDiagonal<Real>::solve(a, b, c, r, u, n)', cases=TN, bounded='orders 1 to 5', nreq=lambda e: clear(e), ensures=lambda e: dict(solved(e), succeeds=regular(e)))
C('tri_solve_v', 'R[n-1] a, R[n] b, R[n-1] c, V3[n] r, V3[n]& u, i n', 'B', 'TriDiagonal<Real>::solve(a, b, c, r, u, n)', cases=TN, bounded='orders 1 to 5', nreq=lambda e: clear(e), ensures=lambda e: dict(solvedv(e), succeeds=regular(e)))
# every order n, at an arbitrary row k; the first and the last row have their own form
BIG = 2 ** 27
def TLIM(m): return lambda e: [num(m, 'I') <= lift(e.n, 'I'), lift(e.n, 'I') <= BIG]
def tnat(lo, hi): return [dict(n=n, k=k) for n in (2, 3, 4, 6) for k in range(lo, n - hi)]
for nm, V_, X in (('tri_', 'R', lambda v: lift(v)), ('triv_', 'V3', vec)):
    def row0(e, X=X): return {'row': Implies(e.out, And(*same(X(e.post.u[0]) * e.b[0] + X(e.post.u[1]) * e.c[0], X(e.r[0]))) if X is vec else eq(X(e.post.u[0]) * e.b[0] + X(e.post.u[1]) * e.c[0], X(e.r[0])))}
    def rowl(e, X=X):
        n = lift(e.n, 'I'); l = X(e.post.u[n - 2]) * e.a[n - 2] + X(e.post.u[n - 1]) * e.b[n - 1]; r = X(e.r[n - 1])
        return {'row': Implies(e.out, And(*same(l, r)) if X is vec else eq(l, r))}
    def rowk(e, X=X):
        k = lift(e.k, 'I'); l = X(e.post.u[k - 1]) * e.a[k - 1] + X(e.post.u[k]) * e.b[k] + X(e.post.u[k + 1]) * e.c[k]; r = X(e.r[k])
        return {'row': Implies(e.out, And(*same(l, r)) if X is vec else eq(l, r))}
    for row, f, rq, nats in (('first', row0, [], tnat(0, 999)), ('last', rowl, [], tnat(0, 999)), ('row', rowk, [1], tnat(1, 1))):
        C(nm + row, 'R[n-1] a, R[n] b, R[n-1] c, %s[n] r, %s[n]& u, i n%s' % (V_, V_, ', i k' if rq else ''), 'B', 'TriDiagonal<Real>::solve(a, b, c, r, u, n)', symloops=True, modular=True, ghosts=('k',) if rq else (),
          natives=nats or [dict(n=n) for n in (2, 3, 5)], nreq=lambda e: clear(e), requires=lambda e, rq=rq: TLIM(2)(e) + ([num(1, 'I') <= lift(e.k, 'I'), lift(e.k, 'I') <= lift(e.n, 'I') - 2] if rq else []), ensures=f)
def cyc(e):
    n = e.case['n']; x = lambda i: e.post.x[i]
    rows = tri(e, n, x)
    rows[0] = rows[0] + e.beta * x(n - 1); rows[n - 1] = rows[n - 1] + e.alpha * x(0)
    return {'row %d' % i: Implies(e.out, eq(l, e.r[i])) for i, l in enumerate(rows)}
def clearc(e):
    n = e.case['n']
    def A(i, j):
        if i == j: return e.b[i]
        if (i, j) == (n - 1, 0): return e.alpha + (e.a[0] if n == 2 else 0)
        if (i, j) == (0, n - 1): return lift(e.beta)
        return e.a[j] if i == j + 1 else e.c[i] if j == i + 1 else lift(0)
    return Abs(ldet(A, list(range(n)), list(range(n)))) > Fr(1, 4)
C('tri_cyclic', 'R[n-1] a, R[n] b, R[n-1] c, R alpha, R beta, R[n] r, R[n]& x, i n', 'B', 'TriDiagonal<Real>::solveCyclic(a, b, c, alpha, beta, r, x, n)', cases={'n': [3, 4, 5]}, bounded='orders 3 to 5', nreq=lambda e: clearc(e), ensures=cyc)
C('tri_cyclic_small', 'R[n-1] a, R[n] b, R[n-1] c, R alpha, R beta, R[n] r, R[n]& x, i n', 'B', 'TriDiagonal<Real>::solveCyclic(a, b, c, alpha, beta, r, x, n)', cases={'n': [1, 2]}, ensures=lambda e: Not(e.out))
# every order: the two inner solutions are known through the contracts above
def clearb(e):
    """the modified tri-diagonal matrix has no small pivots either"""
    n = e.case['n']; g = -lift(e.b[0]); b = [lift(e.b[i]) for i in range(n)]
    b[0] = b[0] - g; b[n - 1] = b[n - 1] - e.alpha * e.beta / g
    d = [lift(1), b[0]]
    for i in range(1, n): d.append(b[i] * d[-1] - e.a[i - 1] * e.c[i - 1] * d[-2])
    return And(clearc(e), Abs(e.b[0]) > Fr(1, 4), *[Abs(x) > Fr(1, 4) for x in d[1:]])
def cynat(lo, hi): return [dict(n=n, k=k) for n in (3, 4, 6) for k in range(lo, n - hi)]
def cyrow(w):
    def f(e):
        n = lift(e.n, 'I'); x = lambda i: e.post.x[i]
        k = {'first': lift(0, 'I'), 'last': n - 1, 'row': lift(getattr(e, 'k', 0), 'I')}[w]
        l = x(k) * e.b[k]
        l = l + (e.beta * x(n - 1) if w == 'first' else x(k - 1) * e.a[k - 1])
        l = l + (e.alpha * x(0) if w == 'last' else x(k + 1) * e.c[k])
        return {'row': Implies(e.out, eq(l, e.r[k]))}
    return f
ROWS = ('tri_first', 'tri_last', 'tri_row')
def CYS(w): return {'tri_' + w: lambda e: [dict(k=var('k', 'I')) if w == 'row' else {}]}
for w in ('first', 'last', 'row'):
    C('tri_cyclic_' + w, 'R[n-1] a, R[n] b, R[n-1] c, R alpha, R beta, R[n] r, R[n]& x, i n' + (', i k' if w == 'row' else ''), 'B', 'TriDiagonal<Real>::solveCyclic(a, b, c, alpha, beta, r, x, n)', symloops=True, ghosts=('k',) if w == 'row' else (),
      supply=CYS(w), natives=cynat(1, 1) if w == 'row' else [dict(n=n) for n in (3, 4, 6)], nreq=clearb, requires=lambda e, w=w: TLIM(3)(e) + ([num(1, 'I') <= lift(e.k, 'I'), lift(e.k, 'I') <= lift(e.n, 'I') - 2] if w == 'row' else []), ensures=cyrow(w))
# ---- Gauss-Jordan: X is the old right-hand side's solution; a becomes the inverse
# z: both sides are shifted by z, so that rounding is judged against quantities of that size
def gj(e, m=None, z=0):
    n = e.case['n']; A = lambda i, j: e.a[i * n + j]; I = lambda i, j: e.post.a[i * n + j]
    out = {}
    for i in range(n):
        for j in range(n):
            s = A(i, 0) * I(0, j)
            for k in range(1, n): s = s + A(i, k) * I(k, j)
            out['inverse %d %d' % (i, j)] = Implies(e.out, eq(s + z, (1 if i == j else 0) + lift(z)))
        if m is None:
            s = vec(e.post.b[0]) * A(i, 0)
            for k in range(1, n): s = s + vec(e.post.b[k]) * A(i, k)
            out['row %d' % i] = Implies(e.out, And(*[eq(x + z, y + z) for x, y in zip(comps(s), comps(e.b[i]))]))
        else:
            for c in range(m):
                s = A(i, 0) * e.post.b[c]
                for k in range(1, n): s = s + A(i, k) * e.post.b[k * m + c]
                out['row %d %d' % (i, c)] = Implies(e.out, eq(s + z, e.b[i * m + c] + z))
    return out
def ldet(A, rows, cols):
    if len(rows) == 1: return A(rows[0], cols[0])
    t = lift(0)
    for k, c in enumerate(cols):
        d = A(rows[0], c) * ldet(A, rows[1:], cols[:k] + cols[k + 1:])
        t = t + d if k % 2 == 0 else t - d
    return t
def gdet(e): n = e.case['n']; return ldet(lambda i, j: e.a[i * n + j], list(range(n)), list(range(n)))
def steady(e):
    """inputs on which machine arithmetic does not blur the difference between regular and singular"""
    n = e.case['n']; A = lambda i, j: e.a[i * n + j]
    return Or(Abs(gdet(e)) > Fr(1, 2), *[And(*[eq(A(i, j), 0) for j in range(n)]) for i in range(n)])
def clear(e): return Or(eq(e.b[0], 0), And(*[Abs(d) > Fr(1, 4) for d in tridet(e, e.case['n'])]))
GN = {'n': [1, 2]}
C('gj_solve', 'R[n*n]& a, R[n*m]& b, i n, i m', 'B', 'GaussJordan<Real>::solve(a, n, b, m)', cases={'n': [1, 2], 'm': [1]}, bounded='orders 1 and 2, one right-hand side', nreq=steady, ensures=lambda e: dict(gj(e, e.case['m'], 1), succeeds=Iff(e.out, ne(gdet(e), 0))), cost=30)
for k in (2, 3):
    C('gj_solve_v%d' % k, 'R[n*n]& a, V%d[n]& b, i n' % k, 'B', 'GaussJordan<Real>::solve(a, n, b)', cases=GN, bounded='orders 1 and 2', nreq=steady, ensures=lambda e: dict(gj(e, None, 1), succeeds=Iff(e.out, ne(gdet(e), 0))), cost=30)
def whole(vals, rng):
    for k in vals: vals[k] = float(rng.choice([0, 0, 1, -1, 2, 3, -2, 5, rng.randint(-6, 6)]))
C('gj_solve_n', 'R[n*n]& a, R[n*m]& b, i n, i m', 'B', 'GaussJordan<Real>::solve(a, n, b, m)', cases={'n': [3, 4, 5], 'm': [1, 2]}, sampled=600, reals=('double',), fix=whole, tolscale=1000, requires=lambda e: Abs(gdet(e)) > Fr(1, 2), ensures=lambda e: dict(gj(e, e.case['m'], 1), succeeds=e.out))
