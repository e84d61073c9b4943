"""Types and mathematical helpers shared by the contracts."""
from terms import *
from contract import *
from verify import bit

enum('Coord', 'Coord', X=0, Y=1, Z=2)
enum('Axis', 'Axis', X=0, Y=1, Z=2, NX=3, NY=4, NZ=5)

class V:
    """A specification vector."""
    def __init__(s, *c): s.c = [lift(x) for x in c]
    def comps(s): return s.c
    def __add__(s, o): return V(*[a + b for a, b in zip(s.c, comps(o))])
    def __sub__(s, o): return V(*[a - b for a, b in zip(s.c, comps(o))])
    def __neg__(s): return V(*[-a for a in s.c])
    def __mul__(s, k): return V(*[a * k for a in s.c])
    def __rmul__(s, k): return V(*[a * k for a in s.c])
    def __truediv__(s, k): return V(*[a / k for a in s.c])
    def __getitem__(s, i): return s.c[i]
    def __len__(s): return len(s.c)
    x = property(lambda s: s.c[0]); y = property(lambda s: s.c[1]); z = property(lambda s: s.c[2]); w = property(lambda s: s.c[3])
def comps(v):
    if isinstance(v, V): return v.c
    if isinstance(v, (list, tuple)): return [lift(x) for x in v]
    return flat(v)
def vec(v): return V(*comps(v))
def dot(a, b):
    a, b = comps(a), comps(b)
    r = a[0] * b[0]
    for x, y in zip(a[1:], b[1:]): r = r + x * y
    return r
def norm2(a): return dot(a, a)
def norm(a): return sqrt(norm2(a))
def cross(a, b):
    a, b = comps(a), comps(b)
    return V(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0])
def cross2(a, b):
    a, b = comps(a), comps(b)
    return a[0] * b[1] - a[1] * b[0]
def vmin(a, b): return V(*[Min(x, y) for x, y in zip(comps(a), comps(b))])
def vmax(a, b): return V(*[Max(x, y) for x, y in zip(comps(a), comps(b))])
def iszero(v): return And(*[eq(x, 0) for x in comps(v)])
def nonzero(v): return Not(iszero(v))
def between(lo, x, hi): return And(lo <= x, x <= hi)
