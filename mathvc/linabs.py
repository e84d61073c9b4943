"""Linear abstraction: every comparison is normalised to a linear combination of monomials (over monomial denominators), each a fresh
variable; the sign rules of multiplying or dividing a comparison by a denominator are added as axioms.  Only 'unsat' is meaningful."""
import time
from fractions import Fraction as Fr
import z3
from terms import *
from ring import Ring, CantRing, TooBig, padd, pmul, ppow, isconst, cnum

def linear_dens(ts):
    """{var id: replacement} turning each linear denominator with several terms into a variable of its own"""
    m = {}
    used = set()
    dens = []
    for t in sorted(subterms(ts), key=lambda t: t.id):
        if t.op == 'div' and t.args[1].op not in ('var', 'num') and t.args[1] not in dens: dens.append(t.args[1])
    for d in dens:
        d = subst(d, m) if m else d
        if d.op in ('var', 'num'): continue
        R = Ring()
        try: n, dd = R.rf(d)
        except (CantRing, TooBig): continue
        if dd or len(n) < 2 or len(n) > 6 or any(sum(e for _, e in mo) > 1 for mo in n): continue
        for mo, c in sorted(n.items()):
            if not mo: continue
            k = R.kind[mo[0][0]]
            if k[0] != 'var' or k[1].id in used or k[1].id in m: continue
            v = k[1]
            D = var('lin!%d' % d.id, 'R')
            rest = num(0)
            ok = True
            for mo2, c2 in sorted(n.items()):
                if mo2 == mo: continue
                if not mo2: rest = rest + num(Fr(c2)); continue
                k2 = R.kind[mo2[0][0]]
                if k2[0] not in ('var', 'app', 'ite', 't'): ok = False; break
                rest = rest + num(Fr(c2)) * k2[1]
            if not ok: break
            m = {i: subst(t, {v.id: (D - rest) / num(Fr(c))}) for i, t in m.items()}
            m[v.id] = (D - rest) / num(Fr(c))
            used |= {x.id for x in subterms([rest]) if x.op == 'var'} | {D.id}
            break
    return m

class LinAbs:
    def __init__(self): self.R = Ring(); self.R.LIMIT = 3000; self.R.PRODS = 40000; self.v = {}; self.c = {}; self.ax = []; self.atoms = []
    def key(self, m, d):
        """monomial over denominator, with atom factors cancelled"""
        md = dict(m); out = []
        for k, e in d:
            if k[0] == 'a' and k[1] in md:
                t = min(md[k[1]], e); e -= t; md[k[1]] -= t
                if not md[k[1]]: del md[k[1]]
            if e: out.append((k, e))
        return (tuple(sorted(md.items())), tuple(out))
    def lin(self, x):
        """{key: coefficient}"""
        r = {}
        for m, c in x[0].items():
            k = self.key(m, x[1]); v = r.get(k, 0) + Fr(c)
            if v: r[k] = v
            else: r.pop(k, None)
        return r
    def zlin(self, l):
        t = z3.RealVal(0)
        for k, c in sorted(l.items(), key=repr):
            if k == ((), ()): t = t + z3.RealVal(str(c)); continue
            v = self.v.get(k)
            if v is None:
                v = z3.Real('k%d' % len(self.v)); self.v[k] = v
                m, d = k
                if not d and all(e % 2 == 0 for _, e in m): self.ax.append(v >= 0)
                for a, e in m:
                    kd = self.R.kind[a]
                    if kd[0] == 'var' and len(m) == 1 and e == 1 and not d:
                        if kd[1] is MAXV: self.ax.append(v > z3.RealVal(10) ** 30)
                        if kd[1] is PI: self.ax += [v > z3.RealVal('3.141592653589793'), v < z3.RealVal('3.141592653589794')]
                    if kd[0] == 'app' and kd[1].val == 'sqrt' and len(m) == 1 and e == 1 and not d: self.ax.append(v >= 0)
            t = t + z3.RealVal(str(c)) * v
        return t
    def atom(self, a, b):
        x = self.R.radd(self.R.rf(a), self.R.rf(b), -1)
        l = self.lin(x); self.atoms.append(l)
        return self.zlin(l)
    def z(self, t):
        r = self.c.get(t.id)
        if r is None: r = self._z(t); self.c[t.id] = r
        return r
    def _z(self, t):
        o = t.op
        if o == 'true': return z3.BoolVal(True)
        if o == 'false': return z3.BoolVal(False)
        if o == 'not': return z3.Not(self.z(t.args[0]))
        if o == 'and': return z3.And(*[self.z(x) for x in t.args])
        if o == 'iff': return self.z(t.args[0]) == self.z(t.args[1])
        if o == 'ite' and t.sort == 'B': return z3.If(*[self.z(x) for x in t.args])
        if o in ('lt', 'eq') and t.args[0].sort == 'R':
            e = self.atom(*t.args)
            return e < 0 if o == 'lt' else e == 0
        return z3.Bool('b%d' % t.id)

def drop_ites(ts):
    """conditionals become variables constrained by two implications"""
    m = {}; extra = []
    for t in sorted(subterms(ts), key=lambda t: t.id):
        if t.op == 'ite' and t.sort == 'R':
            c, a, b = [subst(x, m) for x in t.args]
            v = var('ite!%d' % t.id, 'R'); m[t.id] = v
            extra += [Implies(c, eq(v, a)), Implies(Not(c), eq(v, b))]
    return extra + [subst(t, m) for t in ts] if m else ts

def lincheck(prover, hyps, goal, rlimit=3000000, timeout=3000):
    """'unsat' when the goal follows by linear reasoning over monomials"""
    ts = list(hyps) + [goal]
    ts = drop_ites(ts)
    if len(ts) > 200: return None
    m = linear_dens(ts)
    if m: ts = [subst(t, m) for t in ts]
    hyps, goal = ts[:-1], ts[-1]
    L = LinAbs()
    try:
        L.R.deadline = time.time() + 2
        fs = [L.z(h) for h in hyps] + [z3.Not(L.z(goal))]
        dens = {}
        for l in L.atoms:
            for (mo, d) in l:
                for k, e in d:
                    if k[0] == 'a': dens[k[1]] = True
        work = list({repr(sorted(l.items(), key=repr)): l for l in L.atoms}.values())
        if len(work) > 400 or len(dens) > 12: return None
        def mulk(l, a, up):
            r = {}
            for (mo, d), c in l.items():
                md = dict(mo); dd = dict(d)
                if up: md[a] = md.get(a, 0) + 1
                else: dd[('a', a)] = dd.get(('a', a), 0) + 1
                k = L.key(tuple(sorted(md.items())), tuple(sorted(dd.items(), key=repr)))
                v = r.get(k, 0) + c
                if v: r[k] = v
                else: r.pop(k, None)
            return r
        ax = []
        for a in dens:
            A = L.zlin({(((a, 1),), ()): Fr(1)})
            one = L.zlin({((), ((('a', a), 1),)): Fr(1)})
            ax += [(A > 0) == (one > 0), (A < 0) == (one < 0)]
            for l in work:
                inden = any(k == ('a', a) for (mo, d) in l for k, e in d)
                innum = any(b == a for (mo, d) in l for b, e in mo)
                for up, on in ((True, inden), (False, innum)):
                    if not on: continue
                    P, Q = L.zlin(l), L.zlin(mulk(l, a, up))
                    ax += [z3.Implies(A > 0, z3.And((P < 0) == (Q < 0), (P == 0) == (Q == 0))), z3.Implies(A < 0, z3.And((P < 0) == (Q > 0), (P == 0) == (Q == 0)))]
        if prover.side(L.R, hyps) is not None: return None
    except (CantRing, TooBig, RecursionError) as ex:
        return None
    s = z3.Solver(); s.set('timeout', timeout)
    try: s.set('rlimit', rlimit)
    except z3.Z3Exception: pass
    for f in fs + ax + L.ax: s.add(f)
    try: return str(s.check())
    except z3.Z3Exception: return None
