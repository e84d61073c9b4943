"""Numeric evaluation of specification terms (mpmath, with magnitude tracking and three-valued logic)."""
import mpmath
from fractions import Fraction as Fr
from terms import *
mpmath.mp.prec = 160
mpf = mpmath.mpf

class Bad(Exception): pass

def val(x):
    if isinstance(x, Fr): return mpf(x.numerator) / mpf(x.denominator)
    return mpf(x)

class Ev:
    def __init__(self, env, tol, exact=False, judge=False, nice=False):
        self.env = env; self.tol = mpf(tol); self.c = {}; self.exact = exact; self.judge = judge; self.nice = nice
    def plain(self, t):
        """an input or a constant: known exactly, no rounding involved"""
        return t.op == 'num' or (t.op == 'var' and not t.val.startswith(('post:', 'out'))) or (t.op == 'neg' and self.plain(t.args[0]))
    def r(self, t):
        """-> (value, magnitude)"""
        k = self.c.get(t.id)
        if k is None:
            k = self._r(t); self.c[t.id] = k
        return k
    def _r(self, t):
        o = t.op
        if o == 'num': v = val(t.val); return v, abs(v)
        if o == 'var':
            if t is PI: return mpmath.pi + 0, mpf(4)
            if t is MAXV: v = self.env.get('MAX_REAL'); return v, abs(v)
            if t.val not in self.env: raise Bad('unbound ' + t.val)
            v = val(self.env[t.val])
            if mpmath.isnan(v) or mpmath.isinf(v): raise Bad('non-finite ' + t.val)
            return v, abs(v)
        if o == 'ite':
            c = self.b(t.args[0])
            if c is None:
                a = self.r(t.args[1]); b = self.r(t.args[2])
                # undecided condition: usable only when both agree
                if abs(a[0] - b[0]) <= self.tol * (a[1] + b[1]): return a
                raise Bad('undecided condition')
            return self.r(t.args[1] if c else t.args[2])
        if o in ('add', 'sub'):
            a, b = self.r(t.args[0]), self.r(t.args[1])
            return (a[0] + b[0] if o == 'add' else a[0] - b[0]), a[1] + b[1]
        if o == 'neg': a = self.r(t.args[0]); return -a[0], a[1]
        if o == 'mul':
            a, b = self.r(t.args[0]), self.r(t.args[1]); return a[0] * b[0], a[1] * b[1]
        if o == 'div':
            a, b = self.r(t.args[0]), self.r(t.args[1])
            if b[0] == 0: raise Bad('division by zero in specification')
            return a[0] / b[0], a[1] / abs(b[0]) + abs(a[0]) * b[1] / (b[0] * b[0])
        if o == 'i2r': return self.r(t.args[0])
        if o == 'r2i':
            a = self.r(t.args[0]); return mpf(int(a[0])), a[1]
        if o == 'idiv': a, b = self.r(t.args[0]), self.r(t.args[1]); return mpmath.floor(a[0] / b[0]), a[1]
        if o == 'imod': a, b = self.r(t.args[0]), self.r(t.args[1]); return a[0] - b[0] * mpmath.floor(a[0] / b[0]), a[1]
        if o == 'app':
            f = t.val; A = [self.r(a) for a in t.args]; x, m = A[0]
            if f == 'sqrt':
                if x < 0:
                    if x > -self.tol * m: return mpf(0), mpmath.sqrt(m)
                    raise Bad('sqrt of negative')
                v = mpmath.sqrt(x); return v, (v + m / v) if v != 0 else mpmath.sqrt(m) * 1000
            if f == 'sin': return mpmath.sin(x), 1 + m
            if f == 'cos': return mpmath.cos(x), 1 + m
            if f in ('acos', 'asin'):
                if abs(x) > 1: raise Bad('domain')
                return getattr(mpmath, f)(x), 4 + m / mpmath.sqrt(1 - x * x + self.tol)
            if f == 'atan2':
                y, xx = A[0][0], A[1][0]
                return mpmath.atan2(y, xx), 4 + (A[0][1] + A[1][1]) / (abs(y) + abs(xx) + self.tol)
            if f == 'fmod':
                y = A[1][0]
                if y == 0: raise Bad('fmod')
                q = x / y; k = mpmath.floor(q) if q >= 0 else mpmath.ceil(q)
                r = x - k * y
                if not self.exact and (abs(r) <= self.tol * (m + A[1][1]) or abs(abs(r) - abs(y)) <= self.tol * (m + A[1][1])): raise Bad('fmod near multiple')
                return r, m + A[1][1]
            if f == 'pow': v = mpmath.power(x, A[1][0]); return v, abs(v) * (1 + m + A[1][1])
            if f == 'exp': v = mpmath.exp(x); return v, abs(v) * (1 + m)
            if f in ('floor', 'ceil'): return getattr(mpmath, f)(x), m
            if f == 'log': return mpmath.log(x), abs(mpmath.log(x)) + 1
            if f == 'trunc32': raise Bad('trunc32')
            if f.startswith('arr:'):
                i = int(x); nm = f[4:]
                base, fld = nm.split('@'); ver, fld = fld.split('.', 1)
                key = '%s[%d]%s' % (base, i, '' if fld == 'v' else '.' + fld)
                if key not in self.env: raise Bad('unbound ' + key)
                v = val(self.env[key]); return v, abs(v)
            raise Bad('app ' + f)
        raise Bad('term ' + o)
    def b(self, t):
        """True / False / None (cannot tell within tolerance)"""
        o = t.op
        if o == 'true': return True
        if o == 'false': return False
        if o == 'var':
            if t.val not in self.env: raise Bad('unbound ' + t.val)
            return bool(self.env[t.val])
        if o == 'not':
            x = self.b(t.args[0]); return None if x is None else not x
        if o == 'and':
            un = False
            for a in t.args:
                try: x = self.b(a)
                except Bad: x = None
                if x is False: return False
                if x is None: un = True
            return None if un else True
        if o == 'iff':
            x, y = self.b(t.args[0]), self.b(t.args[1])
            return None if x is None or y is None else x == y
        if o == 'ite':
            c = self.b(t.args[0])
            if c is None: return None
            return self.b(t.args[1] if c else t.args[2])
        if o == 'lt':
            a, b = self.r(t.args[0]), self.r(t.args[1])
            if self.exact: return a[0] < b[0]
            if t.args[0].sort == 'I': return a[0] < b[0]
            if self.judge and self.plain(t.args[0]) and self.plain(t.args[1]): return a[0] < b[0]
            if abs(a[0] - b[0]) <= self.tol * (a[1] + b[1]): return None
            return a[0] < b[0]
        if o == 'eq':
            a, b = self.r(t.args[0]), self.r(t.args[1])
            if t.args[0].sort == 'I' or self.exact: return a[0] == b[0]
            if self.judge:
                # a value computed from rounded quantities that is within tolerance of another may or may not equal it: no verdict
                if self.plain(t.args[0]) and self.plain(t.args[1]): return a[0] == b[0]
                if abs(a[0] - b[0]) > self.tol * (a[1] + b[1]): return False
                return True if a[0] == b[0] and self.nice else None
            return True if abs(a[0] - b[0]) <= self.tol * (a[1] + b[1]) else False
        raise Bad('bool ' + o)
