"""Scalar helpers, response curves and easing functions (functions.h, interpolation.h)."""
from base import *
from symex import i2r
R_ = 'mathlib::'
C('f_abs', 'R x', 'R', R_ + 'abs(x)', ensures=lambda e: eq(e.out, Abs(e.x)))
C('f_deg2rad', 'R x', 'R', R_ + 'degreeToRadian(x)', ensures=lambda e: eq(e.out * 180, e.x * PI))
C('f_rad2deg', 'R x', 'R', R_ + 'radianToDegree(x)', ensures=lambda e: eq(e.out * PI, e.x * 180))
C('f_deg_roundtrip', 'R x', 'R', R_ + 'radianToDegree(mathlib::degreeToRadian(x))', ensures=lambda e: eq(e.out, e.x))
def clampT(x, a, b): return Min(Max(x, a), b)
C('f_asin', 'R x', 'R', R_ + 'asin(x)', ensures=lambda e: {'range': between(-PI / 2, e.out, PI / 2), 'value': eq(e.out, app('asin', clampT(e.x, lift(-1), lift(1)))), 'high': Implies(e.x >= 1, eq(e.out, PI / 2)), 'low': Implies(e.x <= -1, eq(e.out, -PI / 2))})
C('f_acos', 'R x', 'R', R_ + 'acos(x)', ensures=lambda e: {'range': between(0, e.out, PI), 'value': eq(e.out, app('acos', clampT(e.x, lift(-1), lift(1)))), 'high': Implies(e.x >= 1, eq(e.out, 0)), 'low': Implies(e.x <= -1, eq(e.out, PI))})
C('f_fmod', 'R x, R y', 'R', R_ + 'fmod(x, y)', requires=lambda e: ne(e.y, 0), ensures=lambda e: [eq(e.out, app('fmod', e.x, e.y)), Abs(e.out) < Abs(e.y), Implies(e.x >= 0, e.out >= 0), Implies(e.x <= 0, e.out <= 0)])
def fmodpos(x, y): return ite(app('fmod', x, y) >= 0, app('fmod', x, y), app('fmod', x, y) + y)
C('f_fmodPositive', 'R x, R y', 'R', R_ + 'fmodPositive(x, y)', requires=lambda e: e.y > 0, ensures=lambda e: {'range': [0 <= e.out, e.out < e.y], 'congruent': eq(e.out, fmodpos(e.x, e.y)), 'identity': Implies(And(0 <= e.x, e.x < e.y), eq(e.out, e.x)), 'wrap': Implies(And(-e.y <= e.x, e.x < 0), eq(e.out, e.x + e.y))})
C('f_fmodCentered', 'R x, R y', 'R', R_ + 'fmodCentered(x, y)', requires=lambda e: e.y > 0, ensures=lambda e: {'range': [-e.y / 2 <= e.out, e.out < e.y / 2], 'congruent': eq(e.out, fmodpos(e.x + e.y / 2, e.y) - e.y / 2), 'identity': Implies(And(-e.y / 2 <= e.x, e.x < e.y / 2), eq(e.out, e.x))})
for t in ('R', 'i'):
    s = {'R': '', 'i': '_int'}[t]
    C('f_min' + s, '%s a, %s b' % (t, t), t, R_ + 'min(a, b)', ensures=lambda e: [e.out <= e.a, e.out <= e.b, Or(eq(e.out, e.a), eq(e.out, e.b))])
    C('f_max' + s, '%s a, %s b' % (t, t), t, R_ + 'max(a, b)', ensures=lambda e: [e.out >= e.a, e.out >= e.b, Or(eq(e.out, e.a), eq(e.out, e.b))])
    C('f_clippedBetween' + s, '%s x, %s a, %s b' % (t, t, t), t, R_ + 'clippedBetween(x, a, b)', requires=lambda e: e.a <= e.b, ensures=lambda e: [between(e.a, e.out, e.b), Implies(between(e.a, e.x, e.b), eq(e.out, e.x)), Implies(e.x < e.a, eq(e.out, e.a)), Implies(e.x > e.b, eq(e.out, e.b))])
for k in (2, 3):
    C('f_distance%d' % k, 'V%d a, V%d b' % (k, k), 'R', R_ + 'distance(a, b)', alias=[('a', 'b')], ensures=lambda e: [e.out >= 0, eq(e.out * e.out, norm2(vec(e.b) - vec(e.a)))])
    C('f_distanceSqr%d' % k, 'V%d a, V%d b' % (k, k), 'R', R_ + 'distanceSqr(a, b)', alias=[('a', 'b')], ensures=lambda e: eq(e.out, norm2(vec(e.b) - vec(e.a))))
C('f_next2D', 'Coord c', 'Coord', R_ + 'next2D(c)', cases={'c': [0, 1]}, ensures=lambda e: eq(e.out, [1, 0][e.c]))
C('f_next3D', 'Coord c', 'Coord', R_ + 'next3D(c)', cases={'c': [0, 1, 2]}, ensures=lambda e: eq(e.out, [1, 2, 0][e.c]))
C('f_rand_int', 'i n', 'i', R_ + 'rand(n)', requires=lambda e: e.n > 0, ensures=lambda e: [0 <= e.out, e.out < e.n])
C('f_randBetween_int', 'i a, i b', 'i', R_ + 'randBetween(a, b)', requires=lambda e: e.a < e.b, ensures=lambda e: [e.a <= e.out, e.out < e.b])
C('f_randAmplitude_int', 'i n', 'i', R_ + 'randAmplitude(n)', requires=lambda e: e.n > 0, ensures=lambda e: [-e.n <= e.out, e.out < e.n])
C('f_randAmplitude2_int', 'i a, i b', 'i', R_ + 'randAmplitude(a, b)', requires=lambda e: [0 <= e.a, e.a < e.b], ensures=lambda e: Or(And(e.a <= e.out, e.out <= e.b), And(-e.b <= e.out, e.out <= -e.a)))
C('f_rand', 'R x', 'R', R_ + 'rand(x)', requires=lambda e: e.x >= 0, ensures=lambda e: between(0, e.out, e.x))
C('f_randBetween', 'R a, R b', 'R', R_ + 'randBetween(a, b)', requires=lambda e: e.a <= e.b, ensures=lambda e: between(e.a, e.out, e.b))
C('f_randAmplitude', 'R x', 'R', R_ + 'randAmplitude(x)', requires=lambda e: e.x >= 0, ensures=lambda e: Abs(e.out) <= e.x * Fr(1000001, 1000000))
C('f_randAmplitude2', 'R a, R b', 'R', R_ + 'randAmplitude(a, b)', requires=lambda e: [0 <= e.a, e.a <= e.b], ensures=lambda e: Or(between(e.a, e.out, e.b), between(-e.b, e.out, -e.a)))
# ---- response curves
enum('Curve', 'ResponseCurveType', Zero=0, Linear=1, Parabolic=2, Cubic=3, Exponential=4, Cosine=5)
def dead(x, th): return ite(Abs(x) <= th, lift(0), (Abs(x) - th) / (1 - th))
def curve(c, u):
    """the response to a deflection u >= 0 beyond the dead zone"""
    return [lambda: lift(0), lambda: u, lambda: u * u, lambda: u * u * u, lambda: app('pow', lift(2), u) - 1][c]()
TH = lambda e: [0 <= e.th, e.th < 1]
def resp(e):
    x, th, o = e.x, e.th, e.out
    r = {'dead': Implies(Abs(x) <= th, eq(o, 0))}
    if e.c == 0: r['zero'] = eq(o, 0); return r
    r['full'] = [Implies(eq(x, 1), eq(o, 1)), Implies(eq(x, -1), eq(o, -1))]
    r['sign'] = [Implies(x > th, o >= 0), Implies(x < -th, o <= 0)]
    r['range'] = Implies(between(-1, x, 1), between(-1, o, 1))
    if e.c < 5:
        u = dead(x, th); r['value'] = [Implies(x > th, eq(o, curve(e.c, (x - th) / (1 - th)))), Implies(x < -th, eq(o, -curve(e.c, (-x - th) / (1 - th))))]
    return r
C('f_evaluate', 'R x, R th, Curve c', 'R', R_ + 'evaluate(x, th, c)', requires=TH, cases={'c': list(range(6))}, ensures=resp, tolscale=50, trig=True)
C('f_evaluate_odd', 'R x, R th, Curve c', 'R', R_ + 'evaluate(x, th, c) + mathlib::evaluate(-x, th, c)', requires=TH, cases={'c': list(range(6))}, ensures=lambda e: eq(e.out, 0), tolscale=50)
# ---- easing
MODES = 'Linear Parabolic Cubic Exponential Cosine QuadraticIn QuadraticOut QuadraticInOut CubicIn CubicOut CubicInOut QuarticIn QuarticOut QuarticInOut QuinticIn QuinticOut QuinticInOut SinusoidalIn SinusoidalOut SinusoidalInOut ExponentialIn ExponentialOut ExponentialInOut Exponential2In Exponential2Out Exponential2InOut CircularIn CircularOut CircularInOut'.split()
enum('Mode', 'InterpolationMode', **{m: i for i, m in enumerate(MODES)})
def pw(x, n): return x if n == 1 else x * pw(x, n - 1)
POWER = dict(Linear=1, Parabolic=2, Cubic=3, Quadratic=2, Quartic=4, Quintic=5)
def easein(kind, t):
    """the accelerating form on [0,1]"""
    if kind in POWER: return pw(t, POWER[kind])
    if kind == 'Sinusoidal': return 1 - cos(t * (PI / 2))
    if kind == 'Circular': return 1 - sqrt(1 - t * t)
    return None
def easing(e):
    m = MODES[e.mode]; t, o = e.t, e.out; mid = And(0 < t, t < 1)
    d = lift(Fr(1, 10 ** 5)) if m.startswith('Exponential') and m != 'Exponential' else lift(0)
    r = {'start': Implies(t <= 0, eq(o, 0)), 'end': Implies(t >= 1, eq(o, 1)), 'range': between(-d, o, 1 + d)}
    kind, form = m, 'In'
    for f in ('InOut', 'Out', 'In'):
        if m.endswith(f): kind, form = m[:-len(f)], f; break
    if kind == 'Exponential' and m == 'Exponential': r['value'] = Implies(mid, eq(o, app('pow', lift(2), t) - 1))
    elif kind == 'Cosine': r['value'] = Implies(mid, eq(o, 1 - cos(t * (PI / 2))))
    elif kind == 'Sinusoidal' and form == 'Out': r['value'] = Implies(mid, eq(o, sin(t * (PI / 2))))
    elif kind == 'Sinusoidal' and form == 'InOut': r['value'] = Implies(mid, eq(o, (1 - cos(t * PI)) / 2))
    elif easein(kind, t) is not None:
        if form == 'In': v = easein(kind, t)
        elif form == 'Out': v = 1 - easein(kind, 1 - t)
        else: v = ite(t < lift(Fr(1, 2)), easein(kind, 2 * t) / 2, 1 - easein(kind, 2 - 2 * t) / 2)
        r['value'] = Implies(mid, eq(o, v))
    return r
C('f_interpolationRatio', 'R t, Mode mode', 'R', R_ + 'interpolationRatio(t, mode)', cases={'mode': list(range(len(MODES)))}, ensures=easing, trig=True)
C('f_easing_symmetric', 'R t, Mode mode', 'R', R_ + 'interpolationRatio(t, mode) + mathlib::interpolationRatio(Real(1) - t, mode)', cases={'mode': [i for i, m in enumerate(MODES) if m.endswith('InOut')]}, requires=lambda e: ne(e.t, Fr(1, 2)), ensures=lambda e: eq(e.out, 1))
# ---- linear interpolation
C('f_lerp', 'R a, R b, R r', 'R', R_ + 'lerp(a, b, r)', ensures=lambda e: [eq(e.out, e.a * (1 - e.r) + e.b * e.r), Implies(eq(e.r, 0), eq(e.out, e.a)), Implies(eq(e.r, 1), eq(e.out, e.b))])
for k in (2, 3):
    def L(e): return same(e.out, vec(e.a) * (1 - e.r) + vec(e.b) * e.r)
    C('f_lerp_v%d' % k, 'V%d a, V%d b, R r' % (k, k), 'V%d' % k, R_ + 'lerp(a, b, r)', alias=[('a', 'b')], ensures=L)
    def LM(e): return [Implies(e.r <= 0, And(*same(e.out, e.a))), Implies(e.r >= 1, And(*same(e.out, e.b)))] + ([same(e.out, vec(e.a) + (vec(e.b) - vec(e.a)) * clampT(e.r, lift(0), lift(1)))] if e.mode == 0 else [])
    C('f_lerp_mode_v%d' % k, 'V%d a, V%d b, R r, Mode mode' % (k, k), 'V%d' % k, R_ + 'lerp(a, b, r, mode)', cases={'mode': [0, 2, 5, 16]}, ensures=LM)
C('f_lerp_mode', 'R a, R b, R r, Mode mode', 'R', R_ + 'lerp(a, b, r, mode)', cases={'mode': list(range(len(MODES)))}, ensures=lambda e: [Implies(e.r <= 0, eq(e.out, e.a)), Implies(e.r >= 1, eq(e.out, e.b))] + ([eq(e.out, e.a + (e.b - e.a) * pw(clampT(e.r, lift(0), lift(1)), 5))] if MODES[e.mode] == 'QuinticIn' else []))
C('f_lerp_int', 'i a, i b, R r', 'i', R_ + 'lerp(a, b, r)', requires=lambda e: between(0, e.r, 1), ensures=lambda e: [Implies(eq(e.r, 0), eq(e.out, e.a)), Implies(eq(e.r, 1), eq(e.out, e.b)), Implies(e.a <= e.b, between(e.a, e.out, e.b)), Implies(e.b <= e.a, between(e.b, e.out, e.a)), Abs(i2r(e.out) - (i2r(e.a) * (1 - e.r) + i2r(e.b) * e.r)) < 1])
