"""Discharging obligations: ring normalisation, case splitting on conditionals, z3, cvc5."""
import time, os, subprocess, tempfile
from fractions import Fraction as Fr
import z3
from terms import *
from linabs import lincheck
from genabs import generalise, coarse
from ring import pconst, patom, padd, pmul, ppow, Ring, TooBig, CantRing, isconst, sos_nonneg, cnum

STATS = {}
def stat(k, dt=0.0, n=1):
    s = STATS.setdefault(k, [0, 0.0]); s[0] += n; s[1] += dt

# ---------------------------------------------------------------- z3 translation
_zc = {}
def zvar(t):
    n = 'v_%s' % t.val
    return z3.Real(n) if t.sort == 'R' else z3.Int(n) if t.sort == 'I' else z3.Bool(n)

class Enc:
    """Translates a set of terms to z3, collecting axioms for the applied functions."""
    def __init__(self):
        self.c = {}; self.ax = []; self.apps = []
    def num(self, v): return z3.RealVal('%d/%d' % (v.numerator, v.denominator)) if v.denominator != 1 else z3.RealVal(str(v.numerator))
    def z(self, t):
        r = self.c.get(t.id)
        if r is None:
            r = self._z(t); self.c[t.id] = r
        return r
    def _z(self, t):
        o = t.op
        if o == 'num':
            return self.num(t.val) if t.sort == 'R' else z3.IntVal(t.val.numerator)
        if o == 'var':
            v = zvar(t)
            if t is PI: self.ax += [v > z3.RealVal('3.141592653589793'), v < z3.RealVal('3.141592653589794')]
            if t is MAXV: self.ax += [v > z3.RealVal(10) ** 30]
            return v
        if o == 'true': return z3.BoolVal(True)
        if o == 'false': return z3.BoolVal(False)
        a = [self.z(x) for x in t.args]
        if o == 'add': return a[0] + a[1]
        if o == 'sub': return a[0] - a[1]
        if o == 'mul': return a[0] * a[1]
        if o == 'neg': return -a[0]
        if o == 'div':
            # q with q*d = n when d != 0
            q = z3.Real('q_%d' % t.id)
            self.ax.append(z3.Implies(a[1] != 0, q * a[1] == a[0]))
            return q
        if o == 'lt': return a[0] < a[1]
        if o in ('eq', 'iff'): return a[0] == a[1]
        if o == 'not': return z3.Not(a[0])
        if o == 'and': return z3.And(*a)
        if o == 'ite': return z3.If(a[0], a[1], a[2])
        if o == 'i2r': return z3.ToReal(a[0])
        if o == 'r2i': return self.r2i(t, a)
        if o == 'idiv': return a[0] / a[1]
        if o == 'imod':
            if z3.is_int_value(a[1]): return a[0] % a[1]
            v = z3.Int('imod_%d' % t.id); k = z3.Int('imodk_%d' % t.id)
            self.ax += [z3.Implies(a[1] != 0, z3.And(a[0] == a[1] * k + v, v >= 0, v < z3.If(a[1] >= 0, a[1], -a[1])))]
            return v
        if o == 'app': return self.app(t, a)
        v = (z3.Int if t.sort == 'I' else z3.Real if t.sort == 'R' else z3.Bool)('u_%s_%d' % (o, t.id))
        return v
    def r2i(self, t, a):
        k = z3.Int('r2i_%d' % t.id)
        x = a[0]
        self.ax.append(z3.If(x >= 0, z3.And(z3.ToReal(k) <= x, x < z3.ToReal(k) + 1), z3.And(z3.ToReal(k) >= x, x > z3.ToReal(k) - 1)))
        return k
    def app(self, t, a):
        f = t.val
        if f.startswith('arr:') or f.startswith('fn:'):
            sorts = [x.sort() for x in a]
            return z3.Function(f, *sorts, z3.RealSort() if t.sort == 'R' else z3.IntSort() if t.sort == 'I' else z3.BoolSort())(*a)
        if f in ('sin', 'cos'):
            s = z3.Real('sin_%d' % t.args[0].id); c = z3.Real('cos_%d' % t.args[0].id)
            key = ('sc', t.args[0].id)
            if key not in self.c:
                self.c[key] = 1
                self.ax += [s * s + c * c == 1, s >= -1, s <= 1, c >= -1, c <= 1]
                if TRIGSIGN[0]:
                    pi = self.z(PI); x = a[0]
                    self.ax += [z3.Implies(z3.And(-pi <= 2 * x, 2 * x <= pi), c >= 0), z3.Implies(z3.And(0 <= x, x <= pi), s >= 0), z3.Implies(z3.And(-pi <= x, x <= 0), s <= 0), z3.Implies(z3.And(0 < x, x < pi), s > 0), z3.Implies(x == 0, c == 1)]
            return s if f == 'sin' else c
        v = z3.Real('%s_%d' % (f, t.id))
        x = a[0]
        if f == 'sqrt':
            self.ax.append(z3.Implies(x >= 0, z3.And(v >= 0, v * v == x)))
        elif f == 'acos':
            pi = self.z(PI)
            self.ax += [v >= 0, v <= pi, z3.Implies(x == 1, v == 0), z3.Implies(x == -1, v == pi), z3.Implies(x == 0, v * 2 == pi), z3.Implies(x < 1, v > 0), z3.Implies(x > -1, v < pi), z3.Implies(x > 0, v * 2 < pi), z3.Implies(x < 0, v * 2 > pi)]
        elif f == 'asin':
            pi = self.z(PI)
            self.ax += [v * 2 >= -pi, v * 2 <= pi, z3.Implies(x == 0, v == 0), z3.Implies(x == 1, v * 2 == pi), z3.Implies(x == -1, v * 2 == -pi), z3.Implies(x > 0, v > 0), z3.Implies(x < 0, v < 0)]
        elif f == 'atan2':
            pi = self.z(PI); y, xx = a
            self.ax += [v >= -pi, v <= pi, z3.Implies(z3.And(y == 0, xx > 0), v == 0), z3.Implies(y > 0, z3.And(v > 0, v < pi)), z3.Implies(y < 0, z3.And(v < 0, v > -pi))]
        elif f == 'fmod':
            y = a[1]; k = z3.Int('fmodk_%d' % t.id)
            ab = z3.If(y >= 0, y, -y)
            # the representative is unique: instantiated at the whole numbers the contract names, and the next
            for n in FMODN:
                for j in (0, 1, -1):
                    w = x - y * z3.ToReal(self.z(n) + j)
                    self.ax += [z3.Implies(z3.And(y > 0, z3.Or(z3.And(x >= 0, 0 <= w, w < y), z3.And(x < 0, w <= 0, -y < w))), v == w)]
            self.ax += [z3.Implies(y != 0, z3.And(x == y * z3.ToReal(k) + v, z3.If(x >= 0, v >= 0, v <= 0), v < ab, v > -ab))]
        elif f == 'floor':
            k = z3.Int('floork_%d' % t.id); self.ax += [v == z3.ToReal(k), v <= x, x < v + 1]
        elif f == 'ceil':
            k = z3.Int('ceilk_%d' % t.id); self.ax += [v == z3.ToReal(k), v >= x, x > v - 1]
        elif f == 'exp': self.ax += [v > 0]
        elif f == 'pow':
            b, e = a
            if t.args[0].op == 'num' and t.args[0].val > 1:
                for n in (-20, -10, -1, 0, 1, 10):
                    k = z3.RealVal(str(Fr(t.args[0].val) ** n))
                    self.ax += [z3.Implies(e >= n, v >= k), z3.Implies(e <= n, v <= k)]
            self.ax += [z3.Implies(b > 0, v > 0), z3.Implies(z3.And(b > 1, e >= 0), v >= 1), z3.Implies(e == 0, v == 1), z3.Implies(e == 1, v == b), z3.Implies(z3.And(b > 1, e <= 1), v <= b), z3.Implies(z3.And(b > 1, e >= 1), v >= b),
                        z3.Implies(z3.And(b >= 0, b <= 1, e > 0), z3.And(v >= 0, v <= 1)), z3.Implies(z3.And(b == 0, e > 0), v == 0), z3.Implies(z3.And(b == 1), v == 1)]
        elif f == 'trunc32': pass
        # functional consistency
        for (g, b, w) in self.apps:
            if g == f and f not in ('sqrt', 'floor', 'ceil') and len(b) == len(a):
                self.ax.append(z3.Implies(z3.And(*[p == q for p, q in zip(a, b)]), v == w))
        self.apps.append((f, a, v))
        return v

def nonneg(t):
    """sums of squares, by their shape"""
    if t.op == 'num': return t.val >= 0
    if t.op == 'add': return all(nonneg(x) for x in t.args)
    if t.op == 'mul':
        a = sorted(x.id for x in t.args)
        return all(nonneg(x) for x in t.args) or (len(a) % 2 == 0 and a[::2] == a[1::2])
    return t.op == 'app' and t.val in ('sqrt', 'exp', 'acos')

FMODN = []            # whole numbers at which the uniqueness of remainders is instantiated (contract option turns=)
TRIGSIGN = [False]    # sign axioms for sin and cos on their half-turns (contract option trig=True)
def zcheck(hyps, goal, rlimit=3000000, timeout=4000, model=False, tactic=None):
    """'unsat' = goal follows. """
    t0 = time.time()
    e = Enc()
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', timeout)
    try: s.set('rlimit', rlimit)
    except z3.Z3Exception: pass
    hs = [e.z(h) for h in hyps]
    g = z3.Not(e.z(goal))
    for h in hs: s.add(h)
    s.add(g)
    for a in e.ax: s.add(a)
    try: r = str(s.check())
    except z3.Z3Exception: r = 'unknown'
    stat('z3', time.time() - t0)
    if r == 'sat' and model:
        return r, (s.model(), e)
    return r, s

def relevant(hyps, goal, depth=3):
    """hypotheses sharing free symbols (transitively up to depth) with the goal"""
    def syms(t): return {x.id for x in subterms([t]) if (x.op == 'var' and x is not PI and x is not MAXV) or x.op == 'app'}
    hs = [(h, syms(h)) for h in hyps]
    cur = syms(goal); out = []
    rest = hs
    for _ in range(depth):
        new = []
        nr = []
        for h, s in rest:
            if s & cur or not s: new.append((h, s))
            else: nr.append((h, s))
        if not new: break
        for h, s in new: out.append(h); cur |= s
        rest = nr
    return out

def has(t, ops):
    return any(x.op in ops or (x.op == 'app' and x.val in ops) for x in subterms([t]))

def zerosquares(h):
    """the square root of a sum of squares, or the sum, is 0: so is every term"""
    if h.op != 'eq' or h.args[0].sort != 'R': return []
    a, b = h.args
    if a.op == 'num' and a.val == 0: a, b = b, a
    if not (b.op == 'num' and b.val == 0): return []
    if a.op == 'app' and a.val == 'sqrt': a = a.args[0]
    out = []; work = [a]
    while work:
        t = work.pop()
        if t.op == 'add': work += list(t.args)
        elif t.op == 'mul' and t.args[0] is t.args[1]: out.append(eq(t.args[0], num(0)))
        elif t.op == 'mul' and t.args[0].op == 'num' and t.args[0].val > 0 and t.args[1].op == 'mul' and t.args[1].args[0] is t.args[1].args[1]: out.append(eq(t.args[1].args[0], num(0)))
        else: return []
    return out

def hasapp(ts, names):
    return any(x.op == 'app' and x.val in names for x in subterms(ts))

class Prover:
    angles = ()
    def __init__(self, rlimit=4000000, timeout=6000, thorough=False):
        self.rlimit = rlimit; self.timeout = timeout
        self.cache = {}; self.fcache = {}
        self.thorough = thorough
        self.deadline = None; self.effort = 2
        self.abbrev = []       # definitions (variable, term) of the contract under proof
    ingen = False
    cheap = False
    def late(self): return self.deadline is not None and time.time() > self.deadline

    # quick infeasibility test used during symbolic execution
    # resource limits decide, not the clock: under load the same questions must get the same answers
    def feasible(self, pc, cond, hard=False):
        key = (tuple(x.id for x in pc), cond.id if isinstance(cond, T) else cond, hard)
        r = self.fcache.get(key)
        if r is None:
            nc = Not(cond)
            if nc is TRUE or any(x is nc for x in pc): r = False
            elif self.ringdecide(pc, cond) is False: r = False
            else:
                hy = [h for h in pc if not hasapp([h], ('fmod', 'trunc32', 'pow'))]
                x = coarse(self.flatten(hy), nc) if hard else None
                if x and zcheck(x[0], x[1], 2000000, 10000)[0] == 'unsat': r = False
                else:
                    q, _ = zcheck(hy, nc, rlimit=1000000 if hard else 150000, timeout=5000 if hard else 500)
                    r = q != 'unsat'
            self.fcache[key] = r
        return r

    def ringdecide(self, pc, cond):
        """truth value of a comparison whose difference is constant modulo the equations on the path, else None"""
        pos = True; g = cond
        if g.op == 'not': pos = False; g = g.args[0]
        if g.op == 'and':
            rs = [self.ringdecide(pc, x) for x in g.args]
            r = False if any(x is False for x in rs) else True if all(x is True for x in rs) else None
            return r if r is None or pos else not r
        if g.op not in ('lt', 'eq') or g.args[0].sort != 'R' or has(g, ('ite', 'fmod', 'trunc32', 'pow')): return None
        if len(subterms([g])) < 12: return None
        eqs = [h for h in pc if h.op == 'eq' and h.args[0].sort == 'R']
        t0 = time.time()
        try:
            R = Ring(); R.LIMIT = 1500; R.PRODS = 20000; R.deadline = t0 + 1.5
            self.setlin(R, eqs); R.scan_trig([g] + eqs)
            x = R.rf(g.args[0] - g.args[1]); n = x[0]
            self.addrules(R, eqs)
            n = R.reduce_rules(n); n = R.red((n, ()))[0]; n = R.reduce_rules(n)
            if not isconst(n) or (n and x[1]): return None
            v = n.get((), 0)
            r = (v == 0) if g.op == 'eq' else v < 0
            if self.side(R, list(pc)) is not None: return None
            return r if pos else not r
        except (TooBig, CantRing, RecursionError): return None
        finally: stat('ring', time.time() - t0)

    def prove(self, hyps, goal, label='', effort=2):
        """-> (status, backend, detail). status in proved/refuted/unknown"""
        if goal is TRUE: return ('proved', 'simplify', None)
        self.effort = effort
        key = (tuple(sorted(set(h.id for h in hyps))), goal.id, effort)
        if key in self.cache: return self.cache[key]
        if self.angles: hyps, goal = self.identify(list(hyps), goal)
        r = None
        if goal.op != 'app' and any(t.op == 'app' and t.sort == 'R' and t.val.startswith('fn:') for t in subterms([goal])): r = self.indexed(list(hyps), goal)
        if r is None: self.cheap = False; r = self._prove(list(hyps), goal, 0)
        if r[0] != 'proved':
            # a variable that equals a square root, or a square root that equals a number: write one in place of the other (also under other functions)
            m = {}
            for h in hyps + ([x.args[0] for x in goal.args if x.op == 'not'] if goal.op == 'or' else []):
                if h.op != 'eq': continue
                for a, b in (h.args, h.args[::-1]):
                    if b.op == 'app' and b.val == 'sqrt' and a.op in ('var', 'num'):
                        if a.op == 'num': a, b = b, a
                        if a.id not in m and not any(x.id == a.id or x.id in m for x in subterms([b])): m[a.id] = b; break
            if m and any(x.id in m for x in subterms([goal])):
                hyps2, goal2 = [subst(h, m) for h in hyps], subst(goal, m)
                r2 = ('proved', 'simplify', None) if goal2 is TRUE else self._prove(hyps2, goal2, 0)
                if r2[0] == 'proved': r = r2
        if r[0] == 'proved' or not self.late(): self.cache[key] = r
        return r

    def indexed(self, hyps, goal, depth=0):
        """Obligations about array elements and loop values at several indices: the order of the indices is settled first
        (by the integer facts, else by cases), which leaves equations between elements.  None if that does not prove it."""
        from loops import canon, linear
        def pure(t): return all(x.sort != 'R' for x in subterms([t]))
        def isatom(t): return t.op in ('lt', 'eq') and t.args[0].sort == 'I'
        def tidy(t):
            m = {}
            for x in subterms([t]):
                if x.op in ('lt', 'eq') and x.args[0].sort == 'I':
                    d = canon(self, sub(x.args[1], x.args[0]))
                    m[x.id] = lift((d.val > 0) if x.op == 'lt' else (d.val == 0)) if d.op == 'num' else (lt if x.op == 'lt' else eq)(num(0, 'I'), d)
                elif x.sort == 'I' and x.op in ('add', 'sub', 'mul', 'neg'): m[x.id] = canon(self, x)
            return subst(t, m) if m else t
        if depth == 0: hyps = [tidy(h) for h in hyps]; goal = tidy(goal)
        while goal.op == 'not' and goal.args[0].op == 'and':
            # all but one of the alternatives fail
            ds = sorted(goal.args[0].args, key=lambda d: d.op == 'not' and d.args[0].op in ('eq', 'and'))
            hyps = hyps + ds[:-1]; goal = Not(ds[-1])
        t0 = time.time()
        facts = [h for h in self.flatten(hyps) if pure(h)]
        enc = Enc(); sol = z3.Solver(); sol.set('timeout', 3000); sol.set('rlimit', 500000)
        for h in facts: sol.add(enc.z(h))
        for a in enc.ax: sol.add(a)
        if str(sol.check()) == 'unsat': stat('z3', time.time() - t0); return ('proved', 'z3', None)
        x = coarse(self.flatten(hyps), goal)
        if x and zcheck(x[0], x[1], 1000000, 10000)[0] == 'unsat': return ('proved', 'z3', None)
        def decide(c):
            z = enc.z(c); r = None
            for v, f in ((True, z3.Not(z)), (False, z)):
                sol.push(); sol.add(f)
                if str(sol.check()) == 'unsat': r = v
                sol.pop()
                if r is not None: break
            return r
        def solve(f, hs, g):
            """an equation between indices removes one of its variables"""
            for v in sorted((x for x in subterms([f]) if x.op == 'var' and x.sort == 'I'), key=lambda x: (x.val == 'n', x.id)):
                l = linear(self, sub(f.args[0], f.args[1]), v)
                if l and abs(l[0]) == 1:
                    w = canon(self, neg(l[1]) if l[0] == 1 else l[1])
                    return [tidy(subst(h, {v.id: w})) for h in hs], tidy(subst(g, {v.id: w}))
            return hs, g
        H = [h for h in self.flatten(hyps) if not pure(h)]
        open_ = []
        for _ in range(8):
            m = {}; open_ = []
            for t in subterms(H + [goal]):
                if isatom(t):
                    d = decide(t)
                    if d and t.op == 'eq' and depth < 8: return self.indexed(*solve(t, facts + H, goal), depth + 1)
                    if d is None: open_.append(t)
                    else: m[t.id] = lift(d)
            if not m: break
            H = [h for h in self.flatten([subst(h, m) for h in H]) if not pure(h)]; goal = subst(goal, m)
        stat('z3', time.time() - t0)
        if goal is TRUE or any(h is FALSE for h in H): return ('proved', 'z3', None)
        if goal.op == 'and':
            be = set()
            for g in goal.args:
                r = self.indexed(facts + H, g, max(depth, 1))
                if r is None: return None
                be.update(r[1].split('+'))
            return ('proved', '+'.join(sorted(be)), None)
        # definitions of the elements and values the goal speaks of, nearest first
        def isfn(t): return t.op == 'app' and t.val.startswith('fn:')
        eqs = [h for h in H if h.op == 'eq' and h.args[0].sort == 'R']; others = [h for h in H if h not in eqs]
        def fns(t): return {x.id for x in subterms([t]) if isfn(x)}
        heads = {h.id: [x.id for x in h.args if isfn(x)] for h in eqs}
        def marks(t): return {x.id for x in subterms([t]) if x.op == 'app' and x.val.startswith('arr:') and '@0' not in x.val}
        small = [h for h in eqs if not heads[h.id] and len(subterms([h])) <= 4]; marked = [h for h in eqs if h not in small and marks(h)]
        seen = fns(goal); sel = []; want = []
        if goal.op == 'eq' and goal.args[0].sort == 'R' and not has(goal, ('ite',)):
            ms = marks(goal); r = self.ring([h for h in marked if marks(h) & ms] + small + others, goal)
            if r and r[0] == 'proved': return r
        def conds(t):
            for x in subterms([t]):
                if x.op == 'ite':
                    for c in subterms([x.args[0]]):
                        if isatom(c) and c not in want: want.append(c)
        conds(goal)
        for _ in range(5):
            new = [h for h in eqs if h not in sel and any(x in seen for x in heads[h.id])]
            ms = marks(goal)
            for h in sel + new: ms |= marks(h)
            rel = [h for h in marked if h not in sel and h not in new and marks(h) & ms]
            if not new and all(fns(h) <= seen for h in rel): break
            for h in new: sel.append(h); conds(h)
            for h in rel: conds(h)
            if want: break
            for h in new + rel: seen |= fns(h)
            if goal.op == 'eq' and goal.args[0].sort == 'R':
                d = {}; more = list(rel)
                for h in sorted(sel, key=lambda h: (len(marks(h)) > 1, sel.index(h))):
                    for x, y in (h.args, h.args[::-1]):
                        if isfn(x) and x.id not in d and x.id not in fns(y): d[x.id] = y; break
                    else: more.append(h)
                def expand(t):
                    for _ in range(12):
                        u = subst(t, d)
                        if u is t: break
                        t = u
                    return t
                ex = expand(goal); ms = marks(ex); more = [y for y in (expand(h) for h in more) if marks(y) & ms]
                for g, hs in ((ex, more + small + [expand(h) for h in others]), (goal, sel + others)):
                    r = ('proved', 'simplify', None) if g is TRUE else self.ring(hs, g) if g.op == 'eq' else None
                    if r and r[0] == 'proved': return r
                if len(rel) > 1:
                    r = self.ringcmp(more + small + [expand(h) for h in others], ex, 1.5)
                    if r: return r
        open_ = sorted((c for c in want if c in open_), key=lambda c: c.op != 'eq')
        if not open_ and depth < 6 and goal.op == 'eq':
            # a choice between values
            c = next((x.args[0] for x in subterms([goal] + sel) if x.op == 'ite' and x.args[0].op in ('lt', 'eq') and not has(x.args[0], ('ite',))), None)
            if c is not None:
                be = set()
                for f, v in ((c, TRUE), (Not(c), FALSE)):
                    if self.late(): return None
                    r = self.indexed(facts + [subst(h, {c.id: v}) for h in H] + [f], subst(goal, {c.id: v}), depth + 1)
                    if r is None: return None
                    be.update(r[1].split('+'))
                return ('proved', '+'.join(sorted(be)), None)
        if not open_ or depth >= 6:
            r = self._prove(facts + H, goal, 0)
            return r if r[0] == 'proved' else None
        if not open_: return None
        c = open_[0]
        for f in (c, Not(c)):
            h2, g2 = facts + H + [f], goal
            if f.op == 'eq': h2, g2 = solve(f, h2, g2)
            if self.late(): return None
            r = self.indexed(h2, g2, depth + 1)
            if r is None or r[0] != 'proved': return None
        return ('proved', 'z3+' + r[1] if 'z3' not in r[1] else r[1], None)

    def settle(self, hyps, goal):
        """conditionals whose condition is settled by the facts are replaced by the branch taken"""
        H = self.flatten(list(hyps))
        for _ in range(6):
            known = {}; lo = {}; hi = {}
            def rel(a, b):
                """a < b as (term, bound, term is below the bound)"""
                if a.op == 'num' and b.op == 'neg': return b.args[0], -a.val, True
                if b.op == 'num' and a.op == 'neg': return a.args[0], -b.val, False
                if b.op == 'num' and a.op != 'num': return a, b.val, True
                if a.op == 'num' and b.op != 'num': return b, a.val, False
            for h in H:
                known[h.id] = True; known[Not(h).id] = False
                g, neg_ = (h.args[0], True) if h.op == 'not' else (h, False)
                r = rel(*(g.args if not neg_ else g.args[::-1])) if g.op == 'lt' else None      # a < b, or a <= b when negated
                if r is None: continue
                x, v, below = r
                if below: hi[x.id] = min(hi.get(x.id, (v, True)), (v, neg_))
                else: lo[x.id] = max(lo.get(x.id, (v, False)), (v, not neg_))
            def decide(c):
                if c.id in known: return known[c.id]
                if c.op == 'not':
                    d = decide(c.args[0]); return None if d is None else not d
                r = rel(*c.args) if c.op == 'lt' else None
                if r is None: return None
                x, v, below = r
                l, h = lo.get(x.id), hi.get(x.id)
                if below:
                    if h and (h[0] < v or h == (v, False)): return True
                    if l and l[0] >= v: return False
                else:
                    if l and (l[0] > v or l == (v, True)): return True
                    if h and h[0] <= v: return False
                return None
            m = {}
            for t in subterms(H + [goal]):
                if t.op == 'ite':
                    d = decide(t.args[0])
                    if d is not None: m[t.id] = t.args[1] if d else t.args[2]
            z = {}
            for h in H:
                if h.op == 'eq':
                    a, b = h.args
                    if a.op == 'num' and a.val == 0: a, b = b, a
                    if b.op == 'num' and b.val == 0 and a.op in ('add', 'sub'): z[a.id] = (b, h)
            if z:
                zm = {k: v[0] for k, v in z.items()}; own = {v[1].id for v in z.values()}
                H2 = [h if h.id in own else subst(h, zm) for h in H]
                if any(x is not y for x, y in zip(H, H2)): H = H2; m = m or {-1: None}
            if not m: break
            H = self.flatten([subst(h, m) for h in H]); goal = subst(goal, m)
            if any(h is FALSE for h in H): break
        return H, goal

    def identify(self, hyps, goal):
        """Replace an inverse trigonometric term by a ghost angle with the same sine and cosine.
        Both lie within one turn (the term by its range, the ghost by the facts), so they are equal."""
        H, goal = self.settle(hyps, goal)
        if goal is TRUE or any(h is FALSE for h in H): return H, goal
        hid = tuple(sorted(h.id for h in H)); ids = {h.id for h in H}
        def once(key, f):
            if key not in self.cache: self.cache[key] = f()
            return self.cache[key]
        def ok(g): return g is TRUE or g.id in ids or self._prove(H, g, 0)[0] == 'proved'
        def issin(x, a):
            """x equals sin(a)"""
            if x.op == 'app' and x.val == 'sqrt':
                return once(('issin', x.id, a.id, hid), lambda: ok(le(num(0), sin(a))) and ok(eq(x.args[0], sin(a) * sin(a))))
            return ok(eq(x, sin(a)))
        m = {}
        for t in subterms(H + [goal]):
            if t.op != 'app' or t.val not in INVTRIG: continue
            s, c = INVTRIG[t.val](t)
            for a in self.angles:
                if once(('angle', t.id, a.id, hid), lambda: ok(eq(c, cos(a))) and issin(s, a) and ok(lt(neg(PI), a)) and ok(le(a, PI)) and (t.val != 'asin' or ok(le(num(0), cos(a))))): m[t.id] = a; break
        for t in subterms(H + [goal]):
            if t.op != 'app' or t.val != 'sqrt': continue
            for a in self.angles:
                if le(num(0), sin(a)).id in ids and issin(t, a): m[t.id] = sin(a); break
        if not m: return H, goal
        return [subst(h, m) for h in H], subst(goal, m)

    def _prove(self, hyps, goal, depth):
        if goal is TRUE: return ('proved', 'simplify', None)
        if any(h is FALSE for h in hyps): return ('proved', 'simplify', None)
        ids = {h.id for h in hyps}
        if goal.id in ids: return ('proved', 'simplify', None)
        if goal.op == 'not' and goal.args[0].op == 'lt' and goal.args[0].args[1].op == 'num' and goal.args[0].args[1].val <= 0 and nonneg(goal.args[0].args[0]):
            return ('proved', 'simplify', None)
        if goal.op == 'and':
            be = set()
            for g in goal.args:
                r = self._prove(hyps, g, depth)
                if r[0] != 'proved': return r
                be.update(r[1].split('+'))
            return ('proved', '+'.join(sorted(be)), None)
        # implication / disjunction: assume the negation of all but the last
        if goal.op == 'not' and goal.args[0].op == 'and':
            ds = [Not(x) for x in goal.args[0].args]
            # keep an equality as the goal if there is one
            ds.sort(key=lambda d: (2 if d.op == 'and' else 1 if d.op == 'eq' else 0, len(subterms([d])) if d.op == 'eq' else 0))
            alts = [d for d in ds if d.op == 'eq' or (d.op == 'and' and all(x.op == 'eq' for x in d.args))]
            if depth < 24 and alts and alts[0] is not ds[-1]:
                c = next((x for x in map(self.pickite, alts) if x is not None), None)
                if c is not None: return self.split(self.flatten(hyps), goal, c, depth)
            if len(alts) > 1 or alts and alts[0] is not ds[-1]:
                h2 = self.flatten(hyps + [Not(d) for d in ds if d not in alts])
                if any(h is FALSE for h in h2): return ('proved', 'simplify', None)
                for d in alts:
                    if self.ringall(h2, d): return ('proved', 'ring', None)
            for d in ds[:-1]:
                if (d.op == 'lt' or d.op == 'not' and d.args[0].op == 'lt') and (ds[-1].op == 'and'):
                    h2 = self.flatten(hyps + [Not(x) for x in ds if x is not d])
                    r = self.sosine(h2, d)
                    if r: return r
            if depth == 0 and len(ds) > 1:
                # is the case already excluded by the small facts?
                sm = [d for d in ds[:-1] if len(subterms([d])) <= 40 and d.op in ('lt', 'not')]
                if sm:
                    H = [h for h in self.flatten(hyps) if len(subterms([h])) <= 60]
                    for d in sm:
                        t0 = time.time(); q = lincheck(self, H, d); stat('linear', time.time() - t0)
                        if q == 'unsat': return ('proved', 'linear', None)
            return self._prove(hyps + [Not(d) for d in ds[:-1]], ds[-1], depth)
        r = None
        # equalities and facts pushed through
        if goal.op == 'iff' and depth < 40:
            a, b = goal.args
            r1 = self._prove(hyps + [a], b, depth + 1)
            if r1[0] != 'proved': return r1
            r2 = self._prove(hyps + [b], a, depth + 1)
            if r2[0] != 'proved': return r2
            return ('proved', '+'.join(sorted(set(r1[1].split('+')) | set(r2[1].split('+')))), None)
        hyps = self.flatten(hyps)
        ids = {h.id for h in hyps}
        if any(h is FALSE for h in hyps) or goal.id in ids or Not(goal).id in ids and False: return ('proved', 'simplify', None)
        if any(Not(h).id in ids for h in hyps): return ('proved', 'simplify', None)
        if self.contra(hyps): return ('proved', 'ring+hyp', None)
        if goal.op == 'eq' and goal.args[0].sort == 'R':
            r = self.ring(hyps, goal)
            if r and r[0] == 'proved': return r
        elif goal.op in ('lt', 'not') :
            r = self.sosine(hyps, goal)
            if r: return r
            r = self.ringcmp(hyps, goal)
            if r: return r
        nonlin = self.is_hard(hyps, goal)
        if depth < 40 and nonlin:
            m = self.canon(hyps, goal)
            if m:
                if depth >= 24 or self.pickite(goal) is None: return self._prove([subst(h, m) for h in hyps], subst(goal, m), max(depth, 30) + 1)
                old = self.cheap; self.cheap = True
                try: r = self._prove([subst(h, m) for h in hyps], subst(goal, m), max(depth, 30) + 1)
                finally: self.cheap = old
                if r[0] == 'proved': return r
        # conditionals
        c = self.pickite(goal)
        if c is not None and (nonlin or goal.op == 'eq') and depth < 24:
            return self.split(hyps, goal, c, depth)
        return self.smt(hyps, goal)

    def split(self, hyps, goal, c, depth):
        be = set()
        for sgn in (True, False):
            cc = c if sgn else Not(c)
            m = {c.id: TRUE if sgn else FALSE}
            h2 = [subst(h, m) for h in hyps]
            if any(h is FALSE for h in h2): continue
            g2 = subst(goal, m)
            if not self.feasible(tuple(self.light(h2)), cc): continue
            r = self._prove(h2 + [cc], g2, depth + 1)
            if r[0] != 'proved': return r
            be.update(r[1].split('+'))
        return ('proved', '+'.join(sorted(be)) or 'z3', None)

    def canon(self, hyps, goal):
        """{atom id: representative} for comparison atoms with the same normal form modulo the equations among the hypotheses"""
        known = {h.id for h in hyps}
        if goal.op == 'not': known.add(goal.args[0].id)
        known.add(goal.id)
        atoms = []
        for t in subterms(hyps + [goal]):
            if t.op in ('lt', 'eq') and t.args[0].sort == 'R' and not has(t, ('ite',)): atoms.append(t)
        if len(atoms) < 2 or len(atoms) > 80: return None
        atoms.sort(key=lambda t: len(subterms([t])))
        eqs = [h for h in hyps if h.op == 'eq' and h.args[0].sort == 'R']
        t0 = time.time()
        key = ('canon', tuple(sorted(h.id for h in hyps)), tuple(sorted(a.id for a in atoms)))
        if key in self.cache: return self.cache[key]
        out = {}
        try:
            hid = {h.id for h in eqs}
            R = Ring(); R.LIMIT = 1500; R.PRODS = 20000; R.deadline = t0 + 3; self.setlin(R, eqs); R.scan_trig(atoms + eqs)
            self.addrules(R, eqs)
            rep = {}
            for a in atoms:
                if a.id in hid: continue
                if time.time() - t0 > 3: break
                try:
                    x = R.rf(a.args[0] - a.args[1])
                    n = R.reduce_rules(x[0]); n = R.red((n, ()))[0]; n = R.reduce_rules(n)
                except (CantRing, TooBig): continue
                if a.op == 'eq':
                    if isconst(n): out[a.id] = lift(not n); continue
                    c = n[max(n)]; k = ('eq', frozenset((m, cnum(Fr(v) / Fr(c))) for m, v in n.items()))
                else:
                    if isconst(n):
                        if not x[1]: out[a.id] = lift(n.get((), 0) < 0)
                        continue
                    c = abs(n[max(n)]); k = ('lt', frozenset((m, cnum(Fr(v) / Fr(c))) for m, v in n.items()), x[1])
                rep.setdefault(k, []).append(a)
            for k, l in rep.items():
                if len(l) > 1:
                    for a in l[1:]: out[a.id] = l[0]
            if out and self.side(R, hyps) is not None: out = {}
        except (TooBig, CantRing, RecursionError): out = {}
        stat('ring', time.time() - t0)
        self.cache[key] = out or None
        return out or None

    def light(self, hyps):
        return [h for h in hyps if not hasapp([h], ('sin', 'cos', 'fmod', 'trunc32', 'pow'))][:40]

    def flatten(self, hyps):
        """split conjunctions and propagate units through the boolean structure"""
        out = []; seen = set()
        work = list(hyps)
        def add(x):
            if x.op == 'and':
                for y in x.args: add(y)
            elif x is not TRUE and x.id not in seen:
                seen.add(x.id); out.append(x)
                for y in zerosquares(x): add(y)
        for h in work: add(h)
        for _ in range(6):
            known = {}
            for h in out:
                known[h.id] = TRUE; known[Not(h).id] = FALSE
            ch = False; cur = out; out = []; seen = set()
            for h in cur:
                if h.op == 'not' and h.args[0].op == 'and':
                    rest = [x for x in h.args[0].args if known.get(x.id) is not TRUE]
                    if any(known.get(x.id) is FALSE for x in rest): ch = True; continue
                    if len(rest) < len(h.args[0].args):
                        ch = True
                        if not rest: return [FALSE]
                        h = Not(And(*rest))
                elif h.op == 'iff':
                    a, b = h.args
                    for u, w in ((a, b), (b, a)):
                        k = known.get(u.id)
                        if k is not None:
                            ch = True; h = w if k is TRUE else Not(w); break
                if h is FALSE: return [FALSE]
                add(h)
            if not ch: break
        # neither is less than the other: equal
        les = {(h.args[0].args[0].id, h.args[0].args[1].id): h for h in out if h.op == 'not' and h.args[0].op == 'lt'}
        for (a, b), h in les.items():
            if a < b and (b, a) in les: add(eq(*h.args[0].args))
        return out

    def is_hard(self, hyps, goal):
        for x in subterms([goal]):
            if x.op in ('mul', 'div', 'app') and not (x.op == 'mul' and (x.args[0].op == 'num' or x.args[1].op == 'num')): return True
        return False

    def pickite(self, goal):
        best = None
        for t in subterms([goal]):
            if t.op == 'ite' and t.sort in ('R', 'I'):
                c = t.args[0]
                while True:
                    inner = next((x for x in subterms([c]) if x.op == 'ite' and x.sort != 'B'), None)
                    if inner is None: break
                    c = inner.args[0]
                if c.op == 'not': c = c.args[0]
                if c.op == 'and': c = c.args[0] if c.args[0].op != 'not' else c.args[0].args[0]
                if best is None or c.id < best.id: best = c
        return best

    # ---- ring
    def ring(self, hyps, goal):
        t0 = time.time()
        try:
            eqs = [h for h in hyps if h.op == 'eq' and h.args[0].sort == 'R']
            R = Ring()
            terms = [goal] + eqs
            self.setlin(R, eqs)
            R.scan_trig(terms)
            x = R.rf(goal.args[0] - goal.args[1])
            ok = not x[0]
            be = 'ring'
            if not ok and eqs:
                self.addrules(R, eqs)
                if len(x[0]) > 3000:
                    R.seteager(); x = R.rf(goal.args[0] - goal.args[1])
                n = R.reduce_rules(x[0]); ok = not n
                if not ok:
                    # a denominators-cleared second pass: sqrt atoms may be created by rules
                    n = R.red((n, ()))[0]; n = R.reduce_rules(n); ok = not n
                be = 'ring+hyp'
            if ok:
                # denominators must be non-zero, square roots defined
                side = self.side(R, hyps)
                if side is None:
                    stat('ring', time.time() - t0)
                    return ('proved', be, None)
            stat('ring', time.time() - t0)
            return None
        except (TooBig, CantRing, RecursionError):
            stat('ring', time.time() - t0)
            return None

    def ringall(self, hyps, goal):
        """a conjunction of equations, each by normalisation alone"""
        for g in (goal.args if goal.op == 'and' else (goal,)):
            if g is TRUE or any(h is g for h in hyps): continue
            if g.args[0].sort != 'R': return False
            if has(g, ('ite',)): return False
            r = self.ring(hyps, g)
            if not r: return False
        return True

    def contra(self, hyps):
        """a disequality among the hypotheses that reduces to 0 modulo the equations among them"""
        eqs = [h for h in hyps if h.op == 'eq' and h.args[0].sort == 'R']
        nes = [h for h in hyps if h.op == 'not' and h.args[0].op == 'eq' and h.args[0].args[0].sort == 'R' and not has(h, ('ite',))]
        if not eqs or not nes: return False
        key = ('contra', tuple(sorted(h.id for h in eqs)), tuple(sorted(h.id for h in nes)))
        r = self.cache.get(key)
        if r is None:
            t0 = time.time(); r = False
            try:
                R = Ring(); self.setlin(R, eqs); R.scan_trig(eqs + nes)
                ps = [R.rf(h.args[0].args[0] - h.args[0].args[1]) for h in nes]
                self.addrules(R, eqs)
                for x in ps:
                    n = R.reduce_rules(x[0])
                    if n: n = R.reduce_rules(R.red((n, ()))[0])
                    if not n and not self.side(R, [h for h in hyps]): r = True; break
            except (TooBig, CantRing, RecursionError): pass
            self.cache[key] = r
            stat('ring', time.time() - t0)
        return r

    def ringcmp(self, hyps, goal, hard=False):
        """p = 0, p < 0, p <= 0 (and negations) where p reduces to a constant modulo the hypotheses"""
        t0 = time.time()
        try:
            pos = True; g = goal
            if g.op == 'not': pos = False; g = g.args[0]
            if g.op not in ('lt', 'eq') or g.args[0].sort != 'R' or (g.op == 'eq' and not pos): return None
            eqs = [h for h in hyps if h.op == 'eq' and h.args[0].sort == 'R']
            R = Ring(); self.setlin(R, eqs); R.scan_trig([goal] + eqs)
            x = R.rf(g.args[0] - g.args[1])
            n = x[0]
            self.addrules(R, eqs); n = R.reduce_rules(n)
            n = R.red((n, ()))[0]; n = R.reduce_rules(n)
            if not isconst(n) and R.rules and not hard:
                R.seteager(); x = R.rf(g.args[0] - g.args[1])
                n = R.reduce_rules(x[0])
            if n and x[1] and g.op == 'lt': return None
            if not isconst(n) and hard:
                if len(R.rules) > 60: return None
                n0 = n; n = R.groebner(n, hard)
                if not isconst(n) and g.op == 'eq':
                    # a multiple by the (non-zero) denominators may lie in the ideal where the difference itself does not
                    for f in list(R.dens)[:3]: n0 = pmul(n0, R.facs[f])
                    if len(n0) < 200: n = R.groebner(n0, hard)
            if not isconst(n): return None
            v = n.get((), 0)
            ok = v == 0 if g.op == 'eq' else (v < 0) if pos else (v >= 0)
            if not ok or self.side(R, hyps) is not None: return None
            return ('proved', 'groebner' if hard else 'ring+hyp', None)
        except (TooBig, CantRing, RecursionError): return None
        finally: stat('groebner' if hard else 'ring', time.time() - t0)

    def setlin(self, R, eqs):
        """var == const equalities become substitutions"""
        for h in eqs:
            a, b = h.args
            if a.op != 'var': a, b = b, a
            if a.op == 'var' and b.op == 'num' and a.id not in R.lin:
                R.lin[a.id] = R.rf_const(b.val)

    def addrules(self, R, eqs):
        ps = []
        for h in eqs:
            try: n = R.rf(h.args[0] - h.args[1])[0]
            except CantRing: continue
            if n and len(n) < 400: ps.append(n)
        ps.sort(key=len)
        for p in ps: R.add_rule(p)
        # square roots whose argument is 1 modulo the rules
        for a, (n, d) in list(R.sq.items()):
            if R.kind[a][0] != 'app' or R.kind[a][1].val != 'sqrt': continue
            dp = pconst(1)
            for f, e in d: dp = pmul(dp, ppow(R.facs[f], e))
            if len(n) > 500 or len(dp) > 500: continue
            x = R.reduce_rules(padd(n, dp, -1))
            if x:
                x = R.reduce_rules(R.red((x, ()))[0])
            if not x: R.add_rule(padd(patom(a), pconst(1), -1))
        # one interreduction round, cheap
        return

    def side(self, R, hyps):
        bad = None
        for f in list(R.dens):
            p = R.facs[f]
            t = self.poly_term(R, p)
            if t is None: return 'den'
            if not self.nonzero(hyps, t, p, R): return show(t)
        for a, (n, d) in list(R.sq.items()):
            k = R.kind[a]
            if k[0] == 'app' and k[1].val == 'sqrt':
                if not sos_nonneg(n) or d:
                    arg = k[1].args[0]
                    g = le(num(0), arg)
                    if any(h is g for h in hyps): continue
                    r = self.smt(hyps, g, quick=True)
                    if r[0] != 'proved': return 'sqrt'
        return bad

    def nonzero(self, hyps, t, p, R):
        g = ne(t, num(0))
        if g is TRUE: return True
        if any(h is g for h in hyps): return True
        for h in hyps:
            # syntactically different but equal up to a constant
            if h.op == 'not' and h.args[0].op == 'eq' and h.args[0].args[0].sort == 'R':
                a, b = h.args[0].args
                for d in [a - b] + [y.args[0] for x, y in ((a, b), (b, a)) if x.op == 'num' and x.val == 0 and y.op == 'app' and y.val == 'sqrt']:
                    try:
                        q = R.rf(d)[0]
                        if q:
                            c, fs = R.fkey(q)
                            c2, fs2 = R.fkey(p)
                            if set(fs2) <= set(fs): return True
                    except CantRing: pass
            if h.op == 'lt':
                try:
                    q = R.rf(h.args[0] - h.args[1])[0]
                    if q:
                        c, fs = R.fkey(q); c2, fs2 = R.fkey(p)
                        if set(fs2) <= set(fs): return True
                except CantRing: pass
        vs = {x.id for x in subterms([t]) if x.op in ('var', 'app')}
        small = []
        for h in hyps:
            st = subterms([h])
            if len(st) <= 60 and all(x.id in vs for x in st if x.op in ('var', 'app')): small.append(h)
        if small and len(small) < len(hyps):
            key = ('nz', tuple(sorted(h.id for h in small)), g.id)
            if key not in self.cache: self.cache[key] = zcheck(small, g, 300000, 600)[0]
            if self.cache[key] == 'unsat': return True
        r = self.smt(hyps, g, quick=True)
        return r[0] == 'proved'

    def poly_term(self, R, p):
        t = num(0)
        for m, c in sorted(p.items()):
            x = num(Fr(c))
            for a, e in m:
                k = R.kind[a]
                if k[0] in ('var', 'app', 'ite', 't'): b = k[1]
                elif k[0] in ('sin', 'cos'):
                    if isinstance(k[1], tuple):
                        mm, D = k[1]
                        ang = num(Fr(1, D))
                        for aa, ee in mm:
                            kk = R.kind[aa]
                            if kk[0] not in ('var', 'app', 'ite', 't'): return None
                            for _ in range(ee): ang = ang * kk[1]
                        b = sin(ang) if k[0] == 'sin' else cos(ang)
                    else: b = sin(k[1]) if k[0] == 'sin' else cos(k[1])
                else: return None
                for _ in range(e): x = x * b
            t = t + x
        return t

    def sosine(self, hyps, goal):
        """0 <= p or 0 < p when p normalises to a product of squares, sums of squares and square roots"""
        t0 = time.time()
        try:
            g = goal; strict = True
            if g.op == 'not': g = g.args[0]; strict = False
            if g.op != 'lt' or g.args[0].sort != 'R' or has(g, ('ite',)): return None
            a, b = g.args
            if not strict: a, b = b, a        # not (x < y)  =>  0 <= x - y
            R = Ring(); R.LIMIT = 4000; R.PRODS = 60000; R.deadline = t0 + 2
            x = R.rf(b - a)
            if not strict and not x[1] and sos_nonneg(x[0]): return ('proved', 'sos', None)
            if strict and not x[1] and sos_nonneg(x[0]) and x[0].get((), 0) > 0: return ('proved', 'sos', None)
            nz = self.possign(R, x)
            if nz is None: return None
            if strict:
                for p in nz:
                    t = self.poly_term(R, p)
                    if t is None or not self.nonzero(hyps, t, p, R): return None
            if self.side(R, hyps) is not None: return None
            return ('proved', 'sos', None)
        except (TooBig, CantRing, RecursionError): return None
        finally: stat('sos', time.time() - t0)

    def possign(self, R, x):
        """x >= 0 syntactically; returns the polynomials that must be non-zero for x > 0, or None"""
        n, d = x
        if not n: return [{}]
        roots = [(a, sq) for a, sq in R.sq.items() if R.kind[a][0] == 'app' and R.kind[a][1].val == 'sqrt']
        nz = []
        for f, e in d:
            p = R.facs[f]
            if e % 2 == 0: continue
            if f[0] == 'a' and any(a == f[1] for a, _ in roots): continue
            if sos_nonneg(p): continue
            return None
        for a, (sn, sd) in roots:
            while len(sn) > 1 and len(n) >= len(sn):
                q = R.exactdiv(n, sn)
                if q is None: break
                n = q; nz.append(patom(a))        # n = q * a^2 * sd, sd a product of factors of known sign
                for f, e in sd:
                    if e % 2 and not sos_nonneg(R.facs[f]): return None
        if sos_nonneg(n):
            if len(n) == 1:
                (m, c), = n.items()
                return nz + [patom(b) for b, e in m]
            return nz + [n]
        if len(n) == 1:
            (m, c), = n.items()
            if c < 0: return None
            for b, e in m:
                if e % 2 and not any(b == a for a, _ in roots): return None
                nz.append(patom(b))
            return nz
        return None

    # ---- SMT
    def smt(self, hyps, goal, quick=False):
        quick = quick or self.cheap
        key = ('smt', tuple(sorted(h.id for h in hyps)), goal.id, quick, self.effort)
        if self.late(): return ('unknown', 'budget', None)
        if key in self.cache: return self.cache[key]
        r = self._smt(hyps, goal, quick)
        self.cache[key] = r
        return r

    def trigify(self, hyps, goal):
        """rewrite arithmetic under trigonometric multiple angles through the ring normal form"""
        ts = hyps + [goal]
        args = {t.args[0].id for t in subterms(ts) if t.op == 'app' and t.val in ('sin', 'cos')}
        if not args: return hyps, goal
        R = Ring(); R.scan_trig(ts)
        m = {}
        for t in subterms(ts):
            if t.op == 'app' and t.val in ('sin', 'cos'):
                try:
                    x = R.rf(t)
                    if not x[1]:
                        p = self.poly_term(R, x[0])
                        if p is not None and p is not t: m[t.id] = p
                except (CantRing, TooBig): pass
        if not m: return hyps, goal
        return [subst(h, m) for h in hyps], subst(goal, m)

    def _smt(self, hyps, goal, quick):
        hyps, goal = self.trigify(hyps, goal)
        if goal is TRUE: return ('proved', 'ring', None)
        hs = relevant(hyps, goal, 1 if quick else 2)
        last = None
        tries = [(hs, 300000, 500), (relevant(hyps, goal, 4), self.rlimit // 4, self.timeout // 3)]
        if quick: tries = [(hs, 300000, 500), (relevant(hyps, goal, 3), 1500000, 2000)]
        else: tries.append((hyps, self.rlimit, self.timeout))
        if self.abbrev and not quick and not self.ingen:
            t0 = time.time(); x = generalise(self, hyps, goal, self.abbrev); stat('ring', time.time() - t0)
            if x:
                self.ingen = True
                try: r = self._prove(x[0], x[1], 0)
                finally: self.ingen = False
                if r[0] == 'proved': return ('proved', '+'.join(sorted(set(r[1].split('+')) | {'ring'})), None)
        sm = [h for h in hs if len(subterms([h])) <= 80]
        if len(sm) < len(hs):
            r, s = zcheck(sm, goal, 300000, 500)
            if r == 'unsat': return ('proved', 'z3', None)
        for k, (h, rl, to) in enumerate(tries):
            if k == 1 and not quick:
                t0 = time.time(); q = lincheck(self, hyps, goal); stat('linear', time.time() - t0)
                if q == 'unsat': return ('proved', 'linear', None)
                g = self.ringcmp(hyps, goal, 2.5)
                if g: return g
            r, s = zcheck(h, goal, rl, to, model=True)
            if r == 'unsat': return ('proved', 'z3', None)
            if r == 'sat' and h is hyps: return ('refuted', 'z3', s)
            if r == 'sat' and len(h) == len(hyps): return ('refuted', 'z3', s)
            last = (r, s)
        if quick: return ('unknown', 'z3', None)
        if last[0] == 'sat': return ('refuted', 'z3', last[1])
        if self.effort < 2: return ('unknown', 'z3', None)
        # nlsat on the whole problem
        try:
            r, s = zcheck(hyps, goal, self.rlimit, self.timeout, model=True, tactic='qfnra-nlsat')
            if r == 'unsat': return ('proved', 'z3-nlsat', None)
            if r == 'sat': return ('refuted', 'z3-nlsat', s)
        except z3.Z3Exception: pass
        r = self.cvc5(hyps, goal)
        if r == 'unsat': return ('proved', 'cvc5', None)
        if r == 'sat': return ('refuted', 'cvc5', None)
        return ('unknown', 'z3/cvc5', None)

    def cvc5(self, hyps, goal, tl=8000):
        t0 = time.time()
        e = Enc(); s = z3.Solver()
        for h in hyps: s.add(e.z(h))
        s.add(z3.Not(e.z(goal)))
        for a in e.ax: s.add(a)
        txt = '(set-logic ALL)\n' + s.to_smt2()
        with tempfile.NamedTemporaryFile('w', suffix='.smt2', delete=False) as f: f.write(txt)
        try:
            p = subprocess.run(['cvc5', '--tlimit=%d' % tl, f.name], capture_output=True, text=True, timeout=tl / 1000 + 5)
            out = p.stdout.strip().split('\n')[0]
        except Exception: out = 'unknown'
        finally: os.unlink(f.name)
        stat('cvc5', time.time() - t0)
        return out
