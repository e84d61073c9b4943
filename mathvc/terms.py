"""Hash-consed term language. Sorts: R (mathematical real), I (mathematical integer), B (bool)."""
from fractions import Fraction as Fr
import sys
sys.setrecursionlimit(100000)

_tab = {}
_cnt = [0]

class T:
    __slots__ = ('op', 'args', 'sort', 'id', 'val', '_z')
    def __repr__(self): return show(self)
    def __hash__(self): return self.id
    def __eq__(self, o): return self is o
    def __ne__(self, o): return self is not o
    def __bool__(self): raise TypeError('symbolic term used as a Python bool: %s' % show(self))
    def __add__(self, o): return add(self, lift(o, self.sort))
    def __radd__(self, o): return add(lift(o, self.sort), self)
    def __sub__(self, o): return sub(self, lift(o, self.sort))
    def __rsub__(self, o): return sub(lift(o, self.sort), self)
    def __mul__(self, o): return mul(self, lift(o, self.sort))
    def __rmul__(self, o): return mul(lift(o, self.sort), self)
    def __truediv__(self, o): return div(self, lift(o, 'R'))
    def __rtruediv__(self, o): return div(lift(o, 'R'), self)
    def __neg__(self): return neg(self)
    def __pow__(self, n):
        r = self
        for _ in range(n - 1): r = r * self
        return r
    def __lt__(self, o): return lt(self, lift(o, self.sort))
    def __le__(self, o): return le(self, lift(o, self.sort))
    def __gt__(self, o): return lt(lift(o, self.sort), self)
    def __ge__(self, o): return le(lift(o, self.sort), self)
    def __and__(self, o): return And(self, o)
    def __rand__(self, o): return And(o, self)
    def __or__(self, o): return Or(self, o)
    def __ror__(self, o): return Or(o, self)
    def __invert__(self): return Not(self)

def mk(op, args, sort, val=None):
    key = (op, tuple(a.id if isinstance(a, T) else a for a in args), sort, val)
    t = _tab.get(key)
    if t is None:
        t = T(); t.op = op; t.args = tuple(args); t.sort = sort; t.val = val
        _cnt[0] += 1; t.id = _cnt[0]; t._z = None
        _tab[key] = t
    return t

def num(v, sort='R'): return mk('num', (), sort, Fr(v))
def var(name, sort='R'): return mk('var', (), sort, name)
_fresh = [0]
def fresh(name, sort='R'):
    _fresh[0] += 1
    return var('%s!%d' % (name, _fresh[0]), sort)
def reset_fresh(): _fresh[0] = 0
PI = var('pi'); MAXV = var('MAX_REAL')
TRUE = mk('true', (), 'B'); FALSE = mk('false', (), 'B')

def lift(o, sort='R'):
    if isinstance(o, T):
        return o
    if isinstance(o, bool): return TRUE if o else FALSE
    if isinstance(o, (int, Fr)): return num(o, sort)
    if isinstance(o, float): return num(Fr(str(o)) if 'e' not in str(o) else Fr(o), sort)
    raise TypeError(repr(o))

def isnum(t): return t.op == 'num'

def add(a, b):
    if a.op == 'num' and b.op == 'num': return num(a.val + b.val, a.sort)
    if a.op == 'num' and a.val == 0: return b
    if b.op == 'num' and b.val == 0: return a
    return mk('add', (a, b), a.sort)
def sub(a, b):
    if a.op == 'num' and b.op == 'num': return num(a.val - b.val, a.sort)
    if b.op == 'num' and b.val == 0: return a
    if a is b: return num(0, a.sort)
    if a.op == 'num' and a.val == 0: return neg(b)
    return mk('sub', (a, b), a.sort)
def mul(a, b):
    if a.op == 'num' and b.op == 'num': return num(a.val * b.val, a.sort)
    for x, y in ((a, b), (b, a)):
        if x.op == 'num':
            if x.val == 0: return x
            if x.val == 1: return y
            if x.val == -1: return neg(y)
    return mk('mul', (a, b), a.sort)
def neg(a):
    if a.op == 'num': return num(-a.val, a.sort)
    if a.op == 'neg': return a.args[0]
    return mk('neg', (a,), a.sort)
def div(a, b):
    if b.op == 'num' and b.val != 0:
        if a.op == 'num': return num(a.val / b.val)
        if b.val == 1: return a
        return mul(num(1 / b.val), a)
    return mk('div', (a, b), 'R')
def app(f, *args):
    """Uninterpreted / axiomatised function application."""
    return mk('app', tuple(lift(a) for a in args), 'R', f)
def sqrt(a):
    a = lift(a)
    if a.op == 'num':
        import math
        n, d = a.val.numerator, a.val.denominator
        if n >= 0:
            rn, rd = math.isqrt(n), math.isqrt(d)
            if rn * rn == n and rd * rd == d: return num(Fr(rn, rd))
    return app('sqrt', a)
def sin(a): 
    a = lift(a)
    if a.op == 'num' and a.val == 0: return num(0)
    if a.op == 'app' and a.val in INVTRIG: return INVTRIG[a.val](a)[0]
    return app('sin', a)
def cos(a):
    a = lift(a)
    if a.op == 'num' and a.val == 0: return num(1)
    if a.op == 'app' and a.val in INVTRIG: return INVTRIG[a.val](a)[1]
    return app('cos', a)

def _at2(a):
    y, x = a.args
    z = And(eq(x, num(0)), eq(y, num(0))); r = sqrt(add(mul(x, x), mul(y, y)))
    return ite(z, num(0), div(y, r)), ite(z, num(1), div(x, r))
def _cofun(x): return sqrt(sub(num(1), mul(x, x)))
# (sin, cos) of the inverse trigonometric functions, on their domain
INVTRIG = {'acos': lambda a: (_cofun(a.args[0]), a.args[0]), 'asin': lambda a: (a.args[0], _cofun(a.args[0])), 'atan2': _at2}

def ite(c, a, b):
    if c is True or c is TRUE: return a
    if c is False or c is FALSE: return b
    if isinstance(a, T) and isinstance(b, T): pass
    else:
        s = a.sort if isinstance(a, T) else (b.sort if isinstance(b, T) else ('B' if isinstance(a, bool) else 'R'))
        a = lift(a, s); b = lift(b, s)
    if a is b: return a
    if a.sort == 'B':
        if a is TRUE and b is FALSE: return c
        if a is FALSE and b is TRUE: return Not(c)
        if a is TRUE: return Or(c, b)
        if a is FALSE: return And(Not(c), b)
        if b is FALSE: return And(c, a)
        if b is TRUE: return Or(Not(c), a)
    if c.op == 'not': return ite(c.args[0], b, a)
    return mk('ite', (c, a, b), a.sort)

def lt(a, b):
    if a.op == 'num' and b.op == 'num': return TRUE if a.val < b.val else FALSE
    if a is b: return FALSE
    return mk('lt', (a, b), 'B')
def le(a, b):
    if a.op == 'num' and b.op == 'num': return TRUE if a.val <= b.val else FALSE
    if a is b: return TRUE
    return Not(mk('lt', (b, a), 'B'))
def eq(a, b):
    s = a.sort if isinstance(a, T) else (b.sort if isinstance(b, T) else ('B' if isinstance(a, bool) else 'R'))
    a = lift(a, s); b = lift(b, s)
    if s == 'B':
        if a is b: return TRUE
        if a is TRUE: return b
        if b is TRUE: return a
        if a is FALSE: return Not(b)
        if b is FALSE: return Not(a)
        if a.id > b.id: a, b = b, a
        return mk('iff', (a, b), 'B')
    if a is b: return TRUE
    if a.op == 'num' and b.op == 'num': return TRUE if a.val == b.val else FALSE
    # ite with numeric leaves against a number
    for x, y in ((a, b), (b, a)):
        if x.op == 'ite' and y.op == 'num' and (x.args[1].op in ('num', 'ite')) and (x.args[2].op in ('num', 'ite')):
            return ite(x.args[0], eq(x.args[1], y), eq(x.args[2], y))
    if a.id > b.id: a, b = b, a
    return mk('eq', (a, b), 'B')
def ne(a, b): return Not(eq(a, b))
def Not(a):
    if a is True or a is False: return TRUE if not a else FALSE
    if a is TRUE: return FALSE
    if a is FALSE: return TRUE
    if a.op == 'not': return a.args[0]
    return mk('not', (a,), 'B')
def And(*xs):
    out = []; seen = set()
    def go(x):
        if x is True or x is TRUE: return True
        if x is False or x is FALSE: return False
        if x.op == 'and':
            return all(go(y) for y in x.args)
        if x.id not in seen: seen.add(x.id); out.append(x)
        return True
    for x in xs:
        if isinstance(x, (list, tuple)):
            for y in x:
                if not go(y): return FALSE
        elif not go(x): return FALSE
    if not out: return TRUE
    if len(out) == 1: return out[0]
    return mk('and', out, 'B')
def Or(*xs):
    ys = []
    for x in xs:
        if isinstance(x, (list, tuple)): ys += [Not(lift(y)) for y in x]
        else: ys.append(Not(lift(x)))
    return Not(And(*ys))
def Implies(a, b): return Or(Not(lift(a)), b)
def Iff(a, b): return eq(lift(a), lift(b))
def Min(*xs):
    r = lift(xs[0])
    for x in xs[1:]:
        x = lift(x); r = ite(lt(x, r), x, r)
    return r
def Max(*xs):
    r = lift(xs[0])
    for x in xs[1:]:
        x = lift(x); r = ite(lt(r, x), x, r)
    return r
def Abs(x): x = lift(x); return ite(lt(x, num(0)), neg(x), x)

def show(t, depth=12):
    if depth == 0: return '...'
    d = depth - 1
    o = t.op
    if o == 'num': return str(t.val)
    if o == 'var': return t.val
    if o in ('true', 'false'): return o
    a = [show(x, d) for x in t.args]
    if o == 'add': return '(%s + %s)' % tuple(a)
    if o == 'sub': return '(%s - %s)' % tuple(a)
    if o == 'mul': return '%s*%s' % tuple(a)
    if o == 'div': return '(%s)/(%s)' % tuple(a)
    if o == 'neg': return '-%s' % a[0]
    if o == 'app': return '%s(%s)' % (t.val, ', '.join(a))
    if o == 'ite': return 'if(%s, %s, %s)' % tuple(a)
    if o == 'lt': return '%s < %s' % tuple(a)
    if o == 'eq': return '%s == %s' % tuple(a)
    if o == 'iff': return '(%s) <=> (%s)' % tuple(a)
    if o == 'not':
        x = t.args[0]
        if x.op == 'lt': return '%s >= %s' % (show(x.args[0], d), show(x.args[1], d))
        if x.op == 'eq': return '%s != %s' % (show(x.args[0], d), show(x.args[1], d))
        if x.op == 'and': return '(' + ' or '.join(show(Not(y), d) for y in x.args) + ')'
        return 'not(%s)' % a[0]
    if o == 'and': return '(' + ' and '.join(a) + ')'
    return '%s(%s)' % (o, ', '.join(a))

def subst(t, m, cache=None):
    """Replace terms (dict id -> T), rebuilding through the smart constructors."""
    if cache is None: cache = {}
    def go(t):
        r = m.get(t.id)
        if r is not None: return r
        r = cache.get(t.id)
        if r is not None: return r
        if not t.args: r = t
        else:
            a = [go(x) for x in t.args]
            if all(x is y for x, y in zip(a, t.args)): r = t
            else: r = rebuild(t, a)
        cache[t.id] = r
        return r
    return go(t)

def rebuild(t, a):
    o = t.op
    if o == 'add': return add(*a)
    if o == 'sub': return sub(*a)
    if o == 'mul': return mul(*a)
    if o == 'div': return div(*a)
    if o == 'neg': return neg(*a)
    if o == 'app':
        if t.val == 'sqrt': return sqrt(a[0])
        if t.val == 'sin': return sin(a[0])
        if t.val == 'cos': return cos(a[0])
        return mk('app', a, t.sort, t.val)
    if o == 'ite': return ite(*a)
    if o == 'lt': return lt(*a)
    if o in ('eq', 'iff'): return eq(*a)
    if o == 'not': return Not(*a)
    if o == 'and': return And(*a)
    return mk(o, a, t.sort, t.val)

def subterms(ts):
    seen = set(); out = []
    stack = list(ts)
    while stack:
        t = stack.pop()
        if t.id in seen: continue
        seen.add(t.id); out.append(t)
        stack.extend(t.args)
    return out

def freevars(ts):
    return [t for t in subterms(ts) if t.op == 'var']
