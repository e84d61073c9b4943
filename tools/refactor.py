#!/usr/bin/env python3-vt
"""Behaviour-preserving rewrites (development aid, not a check): each is made in a scratch copy of the library and the checks named beside it
have to stay quiet.   refactor.py [-j N] [names]"""
import sys, os, re, subprocess, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
INC = '/libs/mathlib/include/'
R = []
def r(name, pids, *edits): R.append((name, pids.split(), edits))
def e(f, old, new, n=1): return (f, old, new, n)

r('aabb2-for', 'P13', e('impl/aabb2.h', '''	p++;
	count--;

	while (count-- > 0)
	{
		if (p->x < inf.x) inf.x = p->x;
		if (p->y < inf.y) inf.y = p->y;

		if (p->x > sup.x) sup.x = p->x;
		if (p->y > sup.y) sup.y = p->y;

		p++;
	}
''', '''	for (int i = 1; i < count; ++i)
	{
		const Vec2<Real>& q = p[i];
		inf.x = q.x < inf.x ? q.x : inf.x;
		inf.y = q.y < inf.y ? q.y : inf.y;
		sup.x = q.x > sup.x ? q.x : sup.x;
		sup.y = q.y > sup.y ? q.y : sup.y;
	}
'''))
r('aabb3-add', 'P13', e('impl/aabb3.h', '''	while (count-- > 0)
	{
		if (p->x < inf.x) inf.x = p->x;
		if (p->y < inf.y) inf.y = p->y;
		if (p->z < inf.z) inf.z = p->z;

		if (p->x > sup.x) sup.x = p->x;
		if (p->y > sup.y) sup.y = p->y;
		if (p->z > sup.z) sup.z = p->z;

		p++;
	}
''', '''	for (const Vec3<Real>* end = p + count; p != end; ++p)
	{
		inf.x = MATHLIB_NS::min(inf.x, p->x);
		inf.y = MATHLIB_NS::min(inf.y, p->y);
		inf.z = MATHLIB_NS::min(inf.z, p->z);
		sup.x = MATHLIB_NS::max(sup.x, p->x);
		sup.y = MATHLIB_NS::max(sup.y, p->y);
		sup.z = MATHLIB_NS::max(sup.z, p->z);
	}
'''))
r('circle-while', 'P16', e('impl/circle.h', '''	for (int i = 0; i < count; i++, p++)
	{
		Real r2 = (*p - c).lengthSqr();
		if (r2 > radius2)
		{
			radius2 = r2;
		}
	}
''', '''	int left = count;
	while (left > 0)
	{
		const Vec2<Real> d = *p++ - c;
		radius2 = MATHLIB_NS::max(d.lengthSqr(), radius2);
		--left;
	}
'''))
r('frustum-helper', 'P20', e('impl/frustum.h', '''	for (int i = 0; i < 6; i++)
    {
		Real distance = planes[i].distance(point);

        if (distance > 0.0f)
        {
			return false;
        }
    }

	return true;
''', '''	bool inside = true;
	for (int i = 5; i >= 0 && inside; --i)
		inside = !(planes[i].distance(point) > Real(0));
	return inside;
'''), e('impl/frustum.h', '''        Real distance = planes[i].distance(sphere.center);

        if (distance > sphere.radius)
        {
            return false;
        }
''', '''        if (planes[i].distance(sphere.center) - sphere.radius > Real(0))
            return false;
'''))
r('tri-solve', 'P23 P22', e('impl/linearequations.h', '''	for (j = 1; j < n; j++)
	{
		gam[j] = c[j-1] / bet;
		bet = b[j] - a[j-1] * gam[j];
		if (bet == Real(0))
		{
			delete [] gam;
			return false;
		}
		u[j] = (r[j] - u[j-1] * a[j-1]) / bet;
	}

	for (j = n-2; j >= 0; j--)
		u[j] -= u[j+1] * gam[j+1];
''', '''	j = 1;
	while (j < n)
	{
		const Real lower = a[j-1];
		const Real g = c[j-1] / bet;
		gam[j] = g;
		bet = b[j] - lower * g;
		if (bet == Real(0))
		{
			delete [] gam;
			return false;
		}
		u[j] = (r[j] - u[j-1] * lower) / bet;
		++j;
	}

	for (j = n-1; j > 0; --j)
		u[j-1] -= u[j] * gam[j];
'''))
r('tri-scalar', 'P23', e('impl/linearequations.h', '''	for (int j = n-2; j >= 0; j--)
		u[j] -= gam[j+1] * u[j+1];
''', '''	for (int k = 0; k < n - 1; k++)
	{
		int j = n - 2 - k;
		u[j] = u[j] - gam[j+1] * u[j+1];
	}
'''))
r('gauss', 'P23', e('impl/linearequations.h', '''		for (l = 0; l < n; l++)
			a[icol*n+l] *= pivinv;
		for (l = 0; l < m; l++)
			b[icol*m+l] *= pivinv;
''', '''		Real* row = a + icol * n;
		for (l = 0; l < n; l++)
			row[l] *= pivinv;
		Real* rhs = b + icol * m;
		for (l = m; l-- > 0; )
			rhs[l] *= pivinv;
'''))
r('mat2-batch', 'P26', e('impl/mat2.h', '''	for (size_t i = 0; i < count; i++)
	{
		transform(*dest++, *src++);
	}
''', '''	while (count > 0)
	{
		transform(*dest, *src);
		++dest;
		++src;
		--count;
	}
'''))
r('mat3-batch', 'P26', e('impl/mat3.h', '''	for (size_t i = 0; i < count; i++)
	{
		transform(*dest++, *src++);
	}
''', '''	for (size_t i = 0; i != count; ++i)
		transform(dest[i], src[i]);
'''))
r('spline-natural', 'P22', e('impl/spline3.h', '''	for (i = 0; i < n-1; i++)
	{
		a[i] = Real(1);
		b[i] = Real(4);
		c[i] = Real(1);
	}

	b[0] = Real(2);
''', '''	for (i = 0; i < n-1; i++)
		a[i] = c[i] = Real(1);
	for (i = 0; i < n-1; i++)
		b[i] = Real(4);

	b[0] = Real(2);
'''))
r('bezier-length', 'P21', e('impl/spline3.h', '''	Real result = Real(0);
	for (int i = 0; i < steps - 1; i++)
	{
		result += dP.length();
''', '''	Real result = Real(0);
	for (int i = steps; i > 1; --i)
	{
		result = result + dP.length();
'''))
r('vec3-normalize', 'P02 P18', e('impl/vec3.h', '''		Real coeff = k / l;
		x *= coeff;
		y *= coeff;
		z *= coeff;
''', '''		x = x * k / l;
		y = y * k / l;
		z = z * k / l;
'''))
r('eval-helper', 'P25', e('functions.h', '''	if (value >= -threshold && value <= threshold)
	{
		value = Real(0);
	}
	else
	{
		value = (value >= Real(0))
			? (value - threshold) / (Real(1) - threshold)
			: (value + threshold) / (Real(1) - threshold);
	}
''', '''	const Real range = Real(1) - threshold;
	if (value > threshold)
		value = (value - threshold) / range;
	else if (value < -threshold)
		value = (value + threshold) / range;
	else
		value = Real(0);
'''))
r('fmodpos', 'P25 P12 P24', e('functions.h', '''	if (r < Real(0))
	{
		r += y;
		if (r >= y) // a tiny negative remainder is lost in the addition
			r = Real(0);
	}
	return r;
''', '''	if (!(r < Real(0)))
		return r;
	Real shifted = r + y;
	return (shifted < y) ? shifted : Real(0);
'''))
r('interp', 'P25', e('interpolation.h', '''		: (-Real(2) * t + Real(4)) * t - Real(1);
''', '''		: Real(1) - Real(2) * (Real(1) - t) * (Real(1) - t);
'''), e('interpolation.h', 'case InterpolationMode::CubicOut:	return t * (t * (t - Real(3)) + Real(3));', 'case InterpolationMode::CubicOut: { const Real u = Real(1) - t; return Real(1) - u * u * u; }'))
r('quat-slerp', 'P12', e('impl/quat.h', '''		Real recipsina = Real(1) / sina;
		x = (from.x * sinaomt + q3.x * sinat) * recipsina;
		y = (from.y * sinaomt + q3.y * sinat) * recipsina;
		z = (from.z * sinaomt + q3.z * sinat) * recipsina;
		w = (from.w * sinaomt + q3.w * sinat) * recipsina;
		return *this;
''', '''		const Real wf = sinaomt / sina;
		const Real wt = sinat / sina;
		const Quat p = from;
		x = wf * p.x + wt * q3.x;
		y = wf * p.y + wt * q3.y;
		z = wf * p.z + wt * q3.z;
		w = wf * p.w + wt * q3.w;
		return *this;
'''), e('impl/quat.h', '''		dot = -dot;
		q3.x = -to.x;
		q3.y = -to.y;
		q3.z = -to.z;
		q3.w = -to.w;
''', '''		q3 = -to;
		dot = -dot;
'''))
r('quat-axis', 'P11 P12', e('impl/quat.h', '''    if (len > Real(DELTA) && s2 > Real(0))
	{
	    angle = (Real)(Real(2) * acos(w));
		Real recip = Real(1) / sqrt(s2);
		axis.x = x * recip;
		axis.y = y * recip;
		axis.z = z * recip;
		axis.normalize();
    }
    else
	{
		axis = Vec3<Real>::OneX;
	    angle = Real(0);
    }
''', '''	if (!(len > Real(DELTA)) || !(s2 > Real(0)))
	{
		angle = Real(0);
		axis = Vec3<Real>::OneX;
		return;
	}
	const Real s = sqrt(s2);
	axis = Vec3<Real>(x / s, y / s, z / s);
	axis.normalize();
	angle = acos(w) * Real(2);
'''))
r('mat3-inverse', 'P05 P06', e('impl/mat3.h', '''	Real det = determinant();
	return (det == Real(0)) ? Zero : adjoint() / det;
''', '''	const Real det = determinant();
	if (det == Real(0))
		return Zero;
	Mat3 r = adjoint();
	r /= det;
	return r;
'''), e('impl/mat3.h', '''	if (isOrthonormal())
		return transpose();

	Real det = determinant();
	return (det == Real(0)) ? set(Zero) : set(adjoint() / det);
''', '''	if (isOrthonormal())
		return transpose();
	return set(inversed());
'''))
r('mat3-det', 'P05', e('impl/mat3.h', '''	return	x.x * (y.y * z.z - z.y * y.z) -
			y.x * (x.y * z.z - z.y * x.z) +
			z.x * (x.y * y.z - y.y * x.z);
''', '''	return x * (y % z);
'''))
r('mat4-inverse', 'P05 P06', e('impl/mat4.h', '''	Real det = x.x * inv.x.x + x.y * inv.y.x + x.z * inv.z.x + x.w * inv.t.x;

	if (det == Real(0))
		return Zero;

	inv /= det;

	inv.optimize();
''', '''	const Real det = determinant();

	if (det == Real(0))
		return Zero;

	inv *= Real(1) / det;
	inv.optimize();
'''))
r('mat3-rotpre', 'P08 P06', e('impl/mat3.h', '''	case Coord::X:
		t = y.x;
		y.x = t * c + z.x * s;
		z.x = -t * s + z.x * c;

		t = y.y;
		y.y = t * c + z.y * s;
		z.y = -t * s + z.y * c;

		t = y.z;
		y.z = t * c + z.z * s;
		z.z = -t * s + z.z * c;
		break;
''', '''	case Coord::X:
	{
		const Vec3<Real> oy = y, oz = z;
		y = oy * c + oz * s;
		z = oz * c - oy * s;
		break;
	}
'''))
r('mat3-opt', 'P06 P08', e('impl/mat3.h', '''	if (isnormal)
		flags |= Flags::Normal;
	else
		flags &= ~Flags::Normal;

	if (isorthogonal)
		flags |= Flags::Orthogonal;
	else
		flags &= ~Flags::Orthogonal;

	if (isidentity)
		flags |= Flags::Identity;
	else
		flags &= ~Flags::Identity;

	flags &= ~Flags::Uninitialized;
''', '''	flags &= ~(Flags::Normal | Flags::Orthogonal | Flags::Identity | Flags::Uninitialized);
	flags |= isnormal ? Flags::Normal : 0;
	flags |= isorthogonal ? Flags::Orthogonal : 0;
	flags |= isidentity ? Flags::Identity : 0;
'''))
r('plane-hits', 'P18', e('impl/plane.h', '''	Real startDist = line.start * normal - d;
	Real endDist = line.end * normal - d;

	if (startDist < Real(0))
		return false;

	if (endDist >= Real(0))
		return false;

	t = startDist / (startDist - endDist);
''', '''	const Real startDist = distance(line.start);
	const Real endDist = distance(line.end);

	if (!(startDist >= Real(0) && endDist < Real(0)))
		return false;

	t = startDist / (startDist - endDist);
'''), e('impl/plane.h', '''	if (dist > sphere.radius)
		return false;

	if (dist < Real(0))
		return false;

	depth = sphere.radius - dist;
''', '''	if (dist < Real(0) || sphere.radius - dist < Real(0))
		return false;

	depth = sphere.radius - dist;
'''))
r('caabb2', 'P14', e('impl/caabb2.h', '''	return (c.x - e.x >= center.x - extents.x && c.x + e.x <= center.x + extents.x)
		&& (c.y - e.y >= center.y - extents.y && c.y + e.y <= center.y + extents.y);
''', '''	const Vec2<Real> lo = inf(), hi = sup();
	if (c.y - e.y < lo.y || c.y + e.y > hi.y)
		return false;
	return c.x - e.x >= lo.x && c.x + e.x <= hi.x;
'''))
r('hsv-rgb', 'P24', e('impl/colorhsv.h', '''    case 4:
        rgb.r = p3;
        rgb.g = p1;
        rgb.b = v;
        break;

    case 5:
        rgb.r = v;
        rgb.g = p1;
        rgb.b = p2;
        break;
    }
''', '''    default:
        rgb.g = p1;
        rgb.r = i == 4 ? p3 : v;
        rgb.b = i == 4 ? v : p2;
        break;
    }
'''), e('impl/colorhsv.h', '''    Real delta = d + ((MATHLIB_NS::abs(d) > Real(180)) ? ((d < Real(0)) ? Real(360) : -Real(360)) : Real(0));
''', '''    Real delta = d;
    if (d > Real(180))
        delta -= Real(360);
    else if (d < Real(-180))
        delta += Real(360);
'''))
r('line-dist', 'P19', e('impl/line3.h', '''	Vec3<Real> northo = (point - start) % d;
	Vec3<Real> n = d % northo;
	Real l = n.normalize();
	return (l == Real(0))
		? (d.lengthSqr() == Real(0) ? MATHLIB_NS::distance(start, point) : Real(0))
		: MATHLIB_NS::abs(n * (point - start));
''', '''	const Vec3<Real> sp = point - start;
	Vec3<Real> n = d % (sp % d);
	if (n.normalize() == Real(0))
		return d.isNull() ? sp.length() : Real(0);
	const Real r = n * sp;
	return r < Real(0) ? -r : r;
'''))
r('sphere-line', 'P17', e('impl/sphere.h', '''	Real x = (-ftcf - sqrt(delta)) / ft2;

	if (x < Real(0) || x > Real(1))
		return false;

	return true;
''', '''	const Real x = -(ftcf + sqrt(delta)) / ft2;
	return x >= Real(0) && x <= Real(1);
'''), e('impl/sphere.h', '''bool Sphere<Real>::intersects(Vec3<Real>& hit, Real& t, const Line3<Real>& line) const
{
	Vec3<Real> ft = line.end - line.start;
	Real ft2 = ft.lengthSqr();
	if (ft2 == Real(0))
		return false;

	Vec3<Real> cf = line.start - center;
''', '''bool Sphere<Real>::intersects(Vec3<Real>& hit, Real& t, const Line3<Real>& line) const
{
	if (line.isNull())
		return false;
	Vec3<Real> ft = line.end - line.start;
	Real ft2 = ft.lengthSqr();

	Vec3<Real> cf = line.start - center;
'''))
r('mat34-invert', 'P09 P06', e('impl/mat34.h', '''		//t = -t * rs;
		rs.invert();
		t = -(rs * t);
''', '''		const Vec3<Real> old = t;
		rs.invert();
		t = rs * -old;
'''))
r('gauss-pivot', 'P23', e('impl/linearequations.h', '''			if (ipiv[j] != 0)
			{
				for (k = 0; k < n; k++)
				{
					if (ipiv[k] == -1)
					{
						if (MATHLIB_NS::abs(a[j*n+k]) >= big)
						{
							big = MATHLIB_NS::abs(a[j*n+k]);
							irow = j;
							icol = k;
						}
					}
				}
			}
''', '''			if (ipiv[j] == 0)
				continue;
			const Real* row = &a[j*n];
			for (k = 0; k < n; k++)
			{
				if (ipiv[k] != -1)
					continue;
				const Real size = MATHLIB_NS::abs(row[k]);
				if (size >= big)
				{
					big = size;
					irow = j;
					icol = k;
				}
			}
'''))
def edit(root, edits):
    for f, old, new, n in edits:
        p = root + INC + f; raw = open(p, newline='', encoding='latin-1').read(); crlf = '\r\n' in raw
        s = raw.replace('\r\n', '\n')
        if old not in s: return 'text not found in ' + f + ': ' + old[:60]
        s = s.replace(old, new) if n == 0 else s.replace(old, new, n)
        open(p, 'w', newline='', encoding='latin-1').write(s.replace('\n', '\r\n') if crlf else s)
def one(args):
    name, pids, edits = args; w = '/tmp/refactor.%d.%s' % (os.getpid(), name)
    shutil.copytree('/repo', w + '/repo', ignore=shutil.ignore_patterns('.git', 'build*', '.vp*')); os.makedirs(w + '/ev')
    err = edit(w + '/repo', edits); out = []
    if err: out.append(err)
    else:
        for p in pids:
            q = subprocess.run(['python3-vt', ROOT + '/mathvc/run.py', p, '--tier', 'quick', '-j', '4'], capture_output=True, text=True, env=dict(os.environ, MATHVC_REPO=w + '/repo', MATHVC_EVID=w + '/ev', VERIF_SEED='1'))
            lines = [l for l in q.stdout.split('\n') if l.startswith(('VIOLATION', 'UNDECIDED')) or 'error' in l.lower()]
            out.append('%s rc=%d %s' % (p, q.returncode, ' | '.join(l[:200] for l in lines[:6])))
            if q.returncode == 2: out.append((q.stdout + q.stderr)[-600:])
    shutil.rmtree(w); return name, out
if __name__ == '__main__':
    a = sys.argv[1:]; J = 2
    if '-j' in a: i = a.index('-j'); J = int(a[i + 1]); del a[i:i + 2]
    todo = [x for x in R if not a or x[0] in a]
    with ThreadPoolExecutor(J) as ex:
        for name, out in ex.map(one, todo): print(name, '; '.join(out), flush=True)
