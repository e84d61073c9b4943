"""Generalisation: rewrites an obligation in terms of named abbreviations (contract option `abbrev`), e.g. dot products, by polynomial
reduction modulo their definitions; hypotheses that still mention the original variables are dropped.  Sound because the abbreviations are
definitions and dropping hypotheses only weakens; only 'proved' answers are used."""
import time
from fractions import Fraction as Fr
from terms import *
from ring import Ring, CantRing, TooBig, padd, isconst, sos_nonneg

class Gen:
    def __init__(self, prover, defs):
        self.p = prover; self.R = Ring(); self.R.LIMIT = 4000; self.R.PRODS = 100000
        self.c = {}; self.extra = []; self.names = {}
        rf = [self.R.rf(t) for _, t in defs]
        rules = []
        for (v, t), x in zip(defs, rf):
            if x[1]: raise CantRing('denominator in an abbreviation')
            self.R.rf(v)
        self.vars = []
        for (v, t), x in zip(defs, rf):
            p = padd(self.R.rf(v)[0], x[0], -1)
            self.R.add_rule(p); self.vars.append(v)
            if sos_term(t): self.extra.append(le(num(0), v))
        self.R.seteager()
    def poly(self, t):
        """t is arithmetic whose conditionals, divisions and applications were already replaced"""
        x = self.R.rf(t)
        if x[1]: return t
        n = self.R.reduce_rules(x[0]); n = self.R.red((n, ()))[0]; n = self.R.reduce_rules(n)
        r = self.p.poly_term(self.R, n)
        return t if r is None else r
    def arith(self, t):
        return self.poly(self.inner(t))
    def inner(self, t):
        r = self.c.get(t.id)
        if r is not None: return r
        o = t.op
        if o in ('add', 'sub', 'mul', 'neg'):
            a = [self.inner(x) for x in t.args]
            r = a[0] + a[1] if o == 'add' else a[0] - a[1] if o == 'sub' else a[0] * a[1] if o == 'mul' else -a[0]
        elif o == 'div':
            a, b = self.arith(t.args[0]), self.arith(t.args[1])
            if b.op == 'num' and b.val != 0: r = a * num(1 / Fr(b.val))
            else:
                q = var('quo!%d' % t.id, 'R'); r = q
                self.extra.append(Implies(ne(b, num(0)), eq(q * b, a)))
        elif o == 'ite' and t.sort == 'R':
            c = self.form(t.args[0]); v = var('gite!%d' % t.id, 'R'); r = v
            self.extra += [Implies(c, eq(v, self.arith(t.args[1]))), Implies(Not(c), eq(v, self.arith(t.args[2])))]
        elif o == 'app' and t.sort == 'R' and t.args and all(x.sort == 'R' for x in t.args):
            r = rebuild(t, [self.arith(x) for x in t.args])
        else: r = t
        self.c[t.id] = r
        return r
    def form(self, t):
        o = t.op
        if o in ('lt', 'eq') and t.args[0].sort == 'R':
            d = self.arith(t.args[0] - t.args[1])
            return lt(d, num(0)) if o == 'lt' else eq(d, num(0))
        if o in ('not', 'and', 'iff') or o == 'ite' and t.sort == 'B':
            return rebuild(t, [self.form(x) for x in t.args])
        return t

def sos_term(t):
    if t.op == 'add': return all(sos_term(x) for x in t.args)
    return t.op == 'mul' and t.args[0] is t.args[1]

def generalise(prover, hyps, goal, defs):
    """-> (hyps, goal) or None"""
    try:
        G = Gen(prover, defs); G.R.deadline = time.time() + 6
        g = G.form(goal); hs = [G.form(h) for h in hyps]
    except (CantRing, TooBig, RecursionError): return None
    hs += G.extra
    old = {x.id for _, t in defs for x in subterms([t]) if x.op == 'var'} - {v.id for v, _ in defs}
    left = {x.id for x in subterms([g]) if x.op == 'var'} & old
    out = [h for h in hs if h is not TRUE and not ({x.id for x in subterms([h]) if x.op == 'var'} & old) - left]
    return out, g

def coarse(hyps, goal):
    """Each distinct non-linear polynomial (up to a constant factor) becomes a variable; linear parts, conditionals, comparisons and
    integer terms stay.  -> (hyps, goal) or None"""
    R = Ring(); R.LIMIT = 3000; R.PRODS = 50000
    facts = {h.id for h in hyps}
    c = {}; extra = []; names = {}
    def roots(t):
        """sqrt(x)*sqrt(x) is x where x is known not to be negative"""
        m = {}
        for x in subterms([t]):
            if x.op == 'mul' and len(x.args) == 2 and x.args[0] is x.args[1] and x.args[0].op == 'app' and x.args[0].val == 'sqrt':
                y = x.args[0].args[0]
                if le(num(0), y).id in facts or sos_term(y): m[x.id] = y
        return subst(t, m) if m else t
    def arith(t):
        r = c.get(t.id)
        if r is not None: return r
        o = t.op
        if o == 'ite': r = ite(form(t.args[0]), arith(t.args[1]), arith(t.args[2]))
        elif o in ('add', 'sub', 'mul', 'neg', 'div'):
            m = {}
            for x in subterms([t]):
                if x.op == 'ite' and x.sort == 'R': m[x.id] = var('cite!%d' % x.id, 'R')
            s = subst(t, m) if m else t
            if m: back = {v.id: arith(x) for x in subterms([t]) if x.id in m for v in (m[x.id],)}
            n, d = R.rf(s)
            if d: raise CantRing('denominator')
            lin = {k: v for k, v in n.items() if sum(e for _, e in k) <= 1}
            non = {k: v for k, v in n.items() if k not in lin}
            if non:
                lead = max(non); f = Fr(non[lead]); key = tuple(sorted((k, Fr(v) / f) for k, v in non.items()))
                if key not in names:
                    names[key] = var('poly!%d' % len(names), 'R')
                v = names[key]
                if sos_term(t) and not lin: extra.append(le(num(0), v * num(f)))
                r = v * num(f)
                if lin:
                    l = PT(R, lin)
                    if l is None: raise CantRing('linear part')
                    r = r + l
            else:
                r = PT(R, lin) if lin else num(0)
                if r is None: raise CantRing('linear part')
            if m: r = subst(r, back)
        else: r = t
        c[t.id] = r
        return r
    def form(t):
        o = t.op
        if o in ('lt', 'eq') and t.args[0].sort == 'R':
            a, b = arith(t.args[0]), arith(t.args[1])
            return lt(a, b) if o == 'lt' else eq(a, b)
        if o in ('not', 'and', 'iff') or o == 'ite' and t.sort == 'B': return rebuild(t, [form(x) for x in t.args])
        return t
    from prove import Prover
    PT = lambda R, p: Prover.poly_term(None, R, p)
    try: g = form(roots(goal)); hs = [form(roots(h)) for h in hyps]
    except (CantRing, TooBig, RecursionError): return None
    for a in R.sq:
        k = R.kind[a]
        if k[0] == 'app' and k[1].val == 'sqrt' and not (le(num(0), k[1].args[0]).id in facts or sos_term(k[1].args[0])): return None
    return (hs + extra, g) if names else None
