"""Rational-function normal forms over atoms, with rewriting (sqrt, sin/cos, hypotheses)."""
from fractions import Fraction as Fr
from math import lcm
import time
from heapq import heapify, heappop, heappush
from terms import *
import terms as T_

def cnum(v):
    v = Fr(v)
    return v.numerator if v.denominator == 1 else v

# ---- polynomials: dict {monomial: coeff}, monomial = tuple((atom, exp), ...) sorted by atom
ONE = ()
def padd(a, b, k=1):
    if len(a) < len(b) and k == 1: a, b = b, a
    r = dict(a)
    for m, c in b.items():
        v = r.get(m, 0) + c * k
        if v == 0: r.pop(m, None)
        else: r[m] = v
    return r
def mmul(a, b):
    if not a: return b
    if not b: return a
    r = []; i = j = 0; la = len(a); lb = len(b)
    while i < la and j < lb:
        x = a[i]; y = b[j]
        if x[0] == y[0]: r.append((x[0], x[1] + y[1])); i += 1; j += 1
        elif x[0] < y[0]: r.append(x); i += 1
        else: r.append(y); j += 1
    if i < la: r.extend(a[i:])
    if j < lb: r.extend(b[j:])
    return tuple(r)
def pmul(a, b):
    if len(a) > len(b): a, b = b, a
    if len(a) == 1:
        (m, c), = a.items()
        if not m:
            return b if c == 1 else {x: y * c for x, y in b.items()}
    r = {}
    for m, c in a.items():
        for n, d in b.items():
            k = mmul(m, n); v = r.get(k, 0) + c * d
            if v == 0: r.pop(k, None)
            else: r[k] = v
    return r
def ppow(a, n):
    r = {ONE: 1}
    for _ in range(n): r = pmul(r, a)
    return r
def pconst(c): return {ONE: cnum(c)} if c != 0 else {}
def patom(a): return {((a, 1),): 1}
def isconst(p): return not p or (len(p) == 1 and ONE in p)

class TooBig(Exception): pass
class CantRing(Exception): pass

class Ring:
    LIMIT = 60000
    def __init__(self):
        self.names = []        # atom id -> description/term
        self.kind = []         # atom id -> ('var',T) | ('sqrt',(num,den)) | ('sin',basekey) ...
        self.bykey = {}
        self.apps = {}         # fname -> list of (atom, [args rf])
        self.sq = {}           # atom -> (num poly, den facs) with atom^2 = num/den
        self.pair = {}         # sin atom -> cos atom
        self.cache = {}
        self.facs = {}         # factor key -> poly
        self.rules = []        # hypothesis polynomials (lead monomial, poly)
        self.angden = {}       # monomial -> lcm of denominators for trig args
        self.dens = {}         # factor keys used as denominators
        self.lin = {}          # atom -> RF replacement (from equalities)

    def atom(self, key, kind):
        a = self.bykey.get(key)
        if a is None:
            a = len(self.names); self.names.append(key); self.kind.append(kind); self.bykey[key] = a
        return a

    # rational function: (num, den) ; den: tuple of sorted (fackey, exp)
    def fkey(self, p):
        """Return (const, {key:exp}) factoring out content, and atom factors."""
        items = list(p.items())
        # common monomial
        mins = None
        for m, _ in items:
            d = dict(m)
            if mins is None: mins = d
            else: mins = {a: min(e, d[a]) for a, e in mins.items() if a in d}
            if not mins: break
        out = {}
        if mins:
            inv = mins
            q = {}
            for m, c in items:
                mm = tuple((a, e - inv.get(a, 0)) for a, e in m if e - inv.get(a, 0))
                q[mm] = c
            p = q
            for a, e in mins.items():
                k = ('a', a); self.facs[k] = patom(a); out[k] = e
        if isconst(p):
            return (p.get(ONE, 0), out)
        lead = max(p)
        c = p[lead]
        mp = {m: cnum(Fr(v) / Fr(c)) for m, v in p.items()}
        k = ('p', tuple(sorted(mp.items())))
        self.facs[k] = mp
        out[k] = out.get(k, 0) + 1
        return (c, out)

    def rf_const(self, c): return (pconst(c), ())
    def rf_atom(self, a): return (patom(a), ())

    deadline = None; PRODS = 10 ** 9
    def rmul(self, x, y):
        if len(x[0]) * len(y[0]) > self.PRODS or (self.deadline and time.time() > self.deadline): raise TooBig()
        n = pmul(x[0], y[0])
        if len(n) > self.LIMIT: raise TooBig()
        if not x[1] and not y[1]: return self.red((n, ()))
        d = dict(x[1])
        for k, e in y[1]: d[k] = d.get(k, 0) + e
        return self.red((n, tuple(sorted(d.items(), key=lambda z: repr(z[0])))))
    def radd(self, x, y, k=1):
        if x[1] == y[1]: return (padd(x[0], y[0], k), x[1]) if True else None
        dx = dict(x[1]); dy = dict(y[1]); d = dict(dx)
        for f, e in dy.items(): d[f] = max(d.get(f, 0), e)
        nx, ny = x[0], y[0]
        for f, e in d.items():
            if e > dx.get(f, 0): nx = pmul(nx, ppow(self.facs[f], e - dx.get(f, 0)))
            if e > dy.get(f, 0): ny = pmul(ny, ppow(self.facs[f], e - dy.get(f, 0)))
            if len(nx) > self.LIMIT or len(ny) > self.LIMIT: raise TooBig()
        return self.red((padd(nx, ny, k), tuple(sorted(d.items(), key=lambda z: repr(z[0])))))
    def rinv(self, x):
        n, d = x
        if not n: raise CantRing('division by a term that normalises to 0')
        c, fs = self.fkey(n)
        for f in fs: self.dens[f] = True
        num_ = pconst(1 / Fr(c))
        for f, e in d: num_ = pmul(num_, ppow(self.facs[f], e))
        r = (num_, tuple(sorted(fs.items(), key=lambda z: repr(z[0]))))
        return self.red(r)

    def red(self, x):
        """Rewrite squares of sqrt atoms and sines; cancel atom factors."""
        n, d = x
        if not n: return ({}, ())
        # cancellation of single-atom denominators and of identical polynomial factors
        if d:
            dd = dict(d); ch = False
            for k, e in list(dd.items()):
                if k[0] == 'a':
                    a = k[1]
                    mn = min((dict(m).get(a, 0) for m in n), default=0)
                    t = min(mn, e)
                    if t:
                        n = {tuple((b, f - (t if b == a else 0)) for b, f in m if not (b == a and f == t)): c for m, c in n.items()}
                        dd[k] = e - t; ch = True
                        if dd[k] == 0: del dd[k]
                else:
                    while k in dd:
                        q = self.exactdiv(n, self.facs[k]) if len(n) <= 4000 else None
                        if q is None: break
                        n = q; ch = True
                        dd[k] -= 1
                        if dd[k] == 0: del dd[k]
            # sqrt atoms in the denominator with exponent >= 2
            for k, e in list(dd.items()):
                if k[0] == 'a' and k[1] in self.sq and e >= 2:
                    a = k[1]; sn, sd = self.sq[a]
                    h = e // 2
                    # 1/s^2 = sd/sn
                    c, fs = self.fkey(sn)
                    for f in fs: self.dens[f] = True
                    dd[k] = e - 2 * h
                    if dd[k] == 0: del dd[k]
                    for _ in range(h):
                        n = {m: cnum(Fr(v) / Fr(c)) for m, v in n.items()}
                        for f, ee in fs.items(): dd[f] = dd.get(f, 0) + ee
                        for f, ee in sd: n = pmul(n, ppow(self.facs[f], ee))
                    return self.red((n, tuple(sorted(dd.items(), key=lambda z: repr(z[0])))))
            if ch: d = tuple(sorted(dd.items(), key=lambda z: repr(z[0])))
        for a, (sn, sd) in self.sq.items():
            mx = 0
            for m in n:
                for b, e in m:
                    if b == a and e > mx: mx = e
            if mx >= 2:
                h = mx // 2
                sdp = {ONE: 1}
                for f, ee in sd: sdp = pmul(sdp, ppow(self.facs[f], ee))
                pn = [{ONE: 1}]; pd = [{ONE: 1}]
                for _ in range(h):
                    pn.append(pmul(pn[-1], sn)); pd.append(pmul(pd[-1], sdp))
                r = {}
                groups = {}
                for m, c in n.items():
                    e = dict(m).get(a, 0); k = e // 2
                    mm = tuple((b, (f if b != a else e - 2 * k)) for b, f in m if not (b == a and e == 2 * k))
                    groups.setdefault(k, {}); g = groups[k]
                    v = g.get(mm, 0) + c
                    if v == 0: g.pop(mm, None)
                    else: g[mm] = v
                for k, g in groups.items():
                    r = padd(r, pmul(pmul(g, pn[k]), pd[h - k]))
                if len(r) > self.LIMIT: raise TooBig()
                if sd:
                    dd = dict(d)
                    for f, ee in sd: dd[f] = dd.get(f, 0) + ee * h
                    d = tuple(sorted(dd.items(), key=lambda z: repr(z[0])))
                return self.red((r, d))
        return (n, d)

    def exactdiv(self, n, f):
        """n / f if exact else None (multivariate division, lex order)."""
        if len(f) == 1: return None
        lead = max(f, key=self.mkey); lc = f[lead]
        rest = [(m, c) for m, c in f.items() if m != lead]
        n = dict(n); q = {}
        steps = 0
        while n:
            m = max(n, key=self.mkey)
            t = mdiv(m, lead)
            if t is None: return None
            c = cnum(Fr(n[m]) / Fr(lc)) if lc != 1 else n[m]
            q[t] = c
            del n[m]
            for fm, fc in rest:
                k = mmul(t, fm); v = n.get(k, 0) - c * fc
                if v == 0: n.pop(k, None)
                else: n[k] = v
            steps += 1
            if steps > 5000: return None
        return q

    @staticmethod
    def mkey(m):
        # graded order (a genuine monomial order: graded, then lex with low atom ids most significant)
        return (sum(e for _, e in m), tuple((-a, e) for a, e in m))

    # ---- conversion
    def rf(self, t):
        r = self.cache.get(t.id)
        if r is not None: return r
        r = self._rf(t)
        self.cache[t.id] = r
        return r

    eager = False
    def erf(self, t):
        """normal form with the numerator reduced modulo the rules before it is multiplied further"""
        x = self.rf(t)
        if len(x[0]) < 2: return x
        r = self.ecache.get(t.id)
        if r is None:
            n = self.reduce_rules(x[0])
            if x[1] or n is not x[0]: r = self.red((n, x[1]))
            else: r = x
            self.ecache[t.id] = r
        return r
    def seteager(self):
        self.eager = True; self.cache = {}; self.ecache = {}

    def _rf(self, t):
        o = t.op
        if o == 'num': return self.rf_const(t.val)
        if o == 'var':
            l = self.lin.get(t.id)
            if l is not None: return l
            return self.rf_atom(self.atom(('var', t.id), ('var', t)))
        if o == 'add': return self.radd(self.rf(t.args[0]), self.rf(t.args[1]))
        if o == 'sub': return self.radd(self.rf(t.args[0]), self.rf(t.args[1]), -1)
        if o == 'neg':
            x = self.rf(t.args[0]); return ({m: -c for m, c in x[0].items()}, x[1])
        if o == 'mul':
            if self.eager: return self.rmul(self.erf(t.args[0]), self.erf(t.args[1]))
            return self.rmul(self.rf(t.args[0]), self.rf(t.args[1]))
        if o == 'div': return self.rmul(self.rf(t.args[0]), self.rinv(self.rf(t.args[1])))
        if o == 'app':
            if t.val in ('sin', 'cos'): return self.trig(t.val, self.rf(t.args[0]), t)
            args = [self.rf(a) for a in t.args]
            a = self.findapp(t.val, args, t)
            return self.rf_atom(a)
        if o == 'ite':
            return self.rf_atom(self.atom(('t', t.id), ('ite', t)))
        if o in ('i2r',):
            x = self.rf(t.args[0]); return x
        return self.rf_atom(self.atom(('t', t.id), ('t', t)))

    def findapp(self, f, args, t):
        lst = self.apps.setdefault(f, [])
        for a, b in lst:
            if len(b) == len(args) and all(self.iszero(self.radd(x, y, -1)) for x, y in zip(b, args)): return a
        a = self.atom(('app', t.id), ('app', t))
        lst.append((a, args))
        if f == 'sqrt':
            self.sq[a] = args[0]
        return a

    def iszero(self, x): return not x[0]

    def scan_trig(self, ts):
        """Record the denominators of trigonometric arguments so that multiple angles share a base."""
        for t in subterms(ts):
            if t.op == 'app' and t.val in ('sin', 'cos'):
                try: x = self.rf(t.args[0])
                except CantRing: continue
                if x[1]: continue
                for m, c in x[0].items():
                    self.angden[m] = lcm(self.angden.get(m, 1), Fr(c).denominator)
                self.cache.pop(t.id, None)

    def trig(self, f, x, t):
        n, d = x
        if d:
            s, c = self.sc_atoms(('rf', repr(sorted(n.items())), repr(d)), t.args[0])
            return self.rf_atom(s if f == 'sin' else c)
        pia = self.bykey.get(('var', PI.id))
        S, C = self.rf_const(0), self.rf_const(1)
        for m, c in sorted(n.items()):
            c = Fr(c)
            if pia is not None and m == ((pia, 1),) and (c * 2).denominator == 1:
                k = int(c * 2) % 4
                s1, c1 = [(0, 1), (1, 0), (0, -1), (-1, 0)][k]
                s1 = self.rf_const(s1); c1 = self.rf_const(c1)
            else:
                D = self.angden.get(m, c.denominator)
                k = c * D
                if k.denominator != 1:
                    D = lcm(D, c.denominator); self.angden[m] = D; k = c * D
                inv = self.invtrig(m)
                if abs(k) > 64 or D > 64:      # too many multiples to expand: an angle of its own
                    sa, ca = self.sc_atoms(('mc', m, c), (m, c)); s1 = self.rf_atom(sa); c1 = self.rf_atom(ca)
                elif inv is not None and D == 1:
                    s1, c1 = self.multirf(int(k), *inv)
                else:
                    new = ('sin', ('m', m, D)) not in self.bykey
                    sa, ca = self.sc_atoms(('m', m, D), (m, D))
                    if inv is not None and new:
                        # tie the fractional angle to the value of the inverse function
                        fs, fc = self.multi(D, sa, ca)
                        for u, v in ((fc, inv[1]), (fs, inv[0])):
                            q = self.radd(u, v, -1)[0]
                            if q: self.add_rule(q)
                    s1, c1 = self.multi(int(k), sa, ca)
            S, C = (self.radd(self.rmul(S, c1), self.rmul(C, s1)), self.radd(self.rmul(C, c1), self.rmul(S, s1), -1))
        return S if f == 'sin' else C

    def invtrig(self, m):
        if len(m) != 1 or m[0][1] != 1: return None
        k = self.kind[m[0][0]]
        if k[0] != 'app' or k[1].val not in T_.INVTRIG: return None
        s, c = T_.INVTRIG[k[1].val](k[1])
        try: return self.rf(s), self.rf(c)
        except CantRing: return None

    def multirf(self, k, s, c):
        sg = 1
        if k < 0: k = -k; sg = -1
        S, C = self.rf_const(0), self.rf_const(1)
        for _ in range(k):
            S, C = (self.radd(self.rmul(S, c), self.rmul(C, s)), self.radd(self.rmul(C, c), self.rmul(S, s), -1))
        if sg < 0: S = ({m: -v for m, v in S[0].items()}, S[1])
        return S, C

    def sc_atoms(self, key, info):
        sa = self.atom(('sin', key), ('sin', info)); ca = self.atom(('cos', key), ('cos', info))
        if sa not in self.sq:
            self.sq[sa] = (padd(pconst(1), {((ca, 2),): 1}, -1), ())
            self.pair[sa] = ca
        return sa, ca

    def multi(self, k, sa, ca):
        s = self.rf_atom(sa); c = self.rf_atom(ca)
        sg = 1
        if k < 0: k = -k; sg = -1
        S, C = self.rf_const(0), self.rf_const(1)
        for _ in range(k):
            S, C = (self.radd(self.rmul(S, c), self.rmul(C, s)), self.radd(self.rmul(C, c), self.rmul(S, s), -1))
        if sg < 0: S = ({m: -v for m, v in S[0].items()}, S[1])
        return S, C

    # ---- hypotheses
    def add_rule(self, p):
        p = self.reduce_rules(p)
        if not p: return
        if isconst(p): return
        lead = max(p, key=self.mkey)
        lc = p[lead]
        p = {m: cnum(Fr(c) / Fr(lc)) for m, c in p.items()}
        self.rules.append((lead, p))

    def groebner(self, target, seconds=2.0, maxdeg=8):
        """Complete the rules by S-polynomials (bounded in time) until the target reduces to a constant; returns the reduced target."""
        import heapq, time as _t
        end = _t.time() + seconds
        for a, (sn, sd) in list(self.sq.items()):
            if not sd:
                self.add_rule(padd({((a, 2),): 1}, sn, -1))
        t = self.reduce_rules(target)
        if isconst(t): return t
        pairs = []; cnt = 0
        def push(i, j):
            nonlocal cnt
            li, lj = self.rules[i][0], self.rules[j][0]
            L = mlcm(li, lj)
            d = sum(e for _, e in L)
            if d == sum(e for _, e in li) + sum(e for _, e in lj) or d > maxdeg: return
            cnt += 1; heapq.heappush(pairs, (d, cnt, i, j, L))
        n = len(self.rules)
        for i in range(n):
            for j in range(i): push(j, i)
        while pairs and _t.time() < end:
            d, _, i, j, L = heapq.heappop(pairs)
            li, pi = self.rules[i]; lj, pj = self.rules[j]
            a = mdiv(L, li); b = mdiv(L, lj)
            s = padd({mmul(a, m): c for m, c in pi.items()}, {mmul(b, m): c for m, c in pj.items()}, -1)
            k = len(self.rules)
            s = self.reduce_rules(s)
            if not s: continue
            if isconst(s): return {}      # the hypotheses are contradictory
            if len(s) > 600: continue
            self.add_rule(s)
            if len(self.rules) > 150: break
            t = self.reduce_rules(t)
            if isconst(t): return t
            for i in range(k): push(i, k)
        return t

    def reduce_rules(self, p):
        if not self.rules: return p
        p = dict(p); out = {}
        steps = 0
        heap = [hkey(m) + (m,) for m in p]; heapify(heap)
        rules = self.rules
        while heap:
            m = heappop(heap)[2]
            c = p.get(m)
            if c is None: continue
            md = dict(m); get = md.get
            for lead, q in rules:
                for a, e in lead:
                    if get(a, 0) < e: break
                else:
                    t = mdiv(m, lead)
                    for fm, fc in q.items():
                        k = mmul(t, fm); w = p.get(k)
                        if w is None:
                            p[k] = -c * fc; heappush(heap, hkey(k) + (k,))
                        else:
                            v = w - c * fc
                            if v == 0: del p[k]
                            else: p[k] = v
                    break
            else:
                out[m] = c; del p[m]
            steps += 1
            if steps > 200000 or (steps & 255 == 0 and self.deadline and time.time() > self.deadline): raise TooBig()
        return out

def hkey(m): return (-sum([e for _, e in m]), tuple([(a, -e) for a, e in m]))

def mlcm(a, b):
    d = dict(a)
    for x, e in b: d[x] = max(d.get(x, 0), e)
    return tuple(sorted(d.items()))

def mdiv(m, l):
    if not l: return m
    d = dict(m)
    for a, e in l:
        x = d.get(a, 0) - e
        if x < 0: return None
        if x: d[a] = x
        else: d.pop(a, None)
    return tuple(sorted(d.items()))

def sos_nonneg(p):
    """Syntactic: every monomial even with nonnegative coefficient."""
    return all(c > 0 and all(e % 2 == 0 for _, e in m) for m, c in p.items())
