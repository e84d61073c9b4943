SEEDS = [
dict(id='s17-quat-slerp-near-opposite-sign', prop='P12', needs='interpolating between two nearly equal rotations given by quaternions of opposite sign',
 breaks='The linear branch for close rotations uses the target with its original sign, so the interpolation passes near the null quaternion and turns the wrong way.',
 edits=[('impl/quat.h', 'return lerp(from, q3, weight);', 'return lerp(from, to, weight);')],
 demo='''
	Quat<R> a = Quat<R>::from(Vec3<R>(0, 0, 1), R(0.2)), b = Quat<R>::from(Vec3<R>(0, 0, 1), R(0.4)), r;
	r.slerp(a, -b, R(0.25));
	Quat<R> e = Quat<R>::from(Vec3<R>(0, 0, 1), R(0.25));
	double d = r.x * e.x + r.y * e.y + r.z * e.z + r.w * e.w;
	check(std::fabs(d) > 1 - 1e-4, "the shorter way between close rotations of opposite sign");
'''),
dict(id='s18-quat-log-abs-w', prop='P10', needs='the logarithm of a quaternion with negative real part (an angle beyond half a turn)',
 breaks='The logarithm takes the angle of the positive real part, so its exponential is not the quaternion.',
 edits=[('impl/quat.h', '	Real a = acos(q.w);\n	Real sina = sin(a);', '	Real a = acos(MATHLIB_NS::abs(q.w));\n	Real sina = sin(a);')],
 demo='''
	Quat<R> q = Quat<R>::from(Vec3<R>(0, 0, 1), R(4.5));
	Quat<R> e = Quat<R>::exp(Quat<R>::log(q));
	check(near(e.x, q.x) && near(e.y, q.y) && near(e.z, q.z) && near(e.w, q.w), "exp(log(q))");
'''),
dict(id='s19-quat-axis-angle-asin', prop='P11', needs='a quaternion with negative real part (an angle beyond half a turn)',
 breaks='The angle is recovered from the length of the vector part, so angles beyond half a turn come back as their supplement about the same axis.',
 edits=[('impl/quat.h', '	    angle = (Real)(Real(2) * acos(w));', '	    angle = (Real)(Real(2) * asin(sqrt(len)));')],
 demo='''
	Quat<R> q = Quat<R>::from(Vec3<R>(0, 0, 1), R(4.5)); Vec3<R> v; R a;
	q.toAxisAngle(v, a);
	Quat<R> r = Quat<R>::from(v, a);
	double d = r.x * q.x + r.y * q.y + r.z * q.z + r.w * q.w;
	check(near(std::fabs(d), 1), "axis and angle describe the rotation");
'''),
dict(id='s20-mat3-rotated-pre-y-entry', prop='P08', needs='rotating a general matrix about the second axis on the right',
 breaks='One entry of the result is taken from the wrong column.',
 edits=[('impl/mat3.h', ('            r.z.y = x.y * s + z.y * c;', 1), '            r.z.y = y.x * s + z.y * c;')],
 demo='''
	Mat3<R> m(Vec3<R>(1, 2, 3), Vec3<R>(5, 5, 6), Vec3<R>(7, 8, 1)), q; q.set(Coord::Y, R(0.3));
	Mat3<R> a = m.rotatedPre(Coord::Y, R(0.3)), b = m * q;
	for (int i = 0; i < 9; ++i) check(near(a.data()[i], b.data()[i]), "entry");
'''),
dict(id='s21-closed-spline-reads-past-end', prop='P22', needs='a sequence of points that ends where readable memory ends',
 breaks='The closed curve reads the point after the last one (the value is overwritten later, so results do not change).',
 edits=[('impl/spline3.h', '''	for (i = 0; i < n-1; i++)
	{
		p2[i] = p1[i] * Real(4) + p1[i+1] * Real(2);
	}

	p2[n-1]	=''', '''	for (i = 0; i < n; i++)
	{
		p2[i] = p1[i] * Real(4) + p1[i+1] * Real(2);
	}

	p2[n-1]	=''')],
 top='#include <sys/mman.h>\n#include <unistd.h>\n',
 demo='''
	long pg = sysconf(_SC_PAGESIZE);
	char* m = (char*)mmap(0, 2 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
	if (m == (char*)MAP_FAILED) return 0;
	const int N = 5;
	Vec3<R>* p = (Vec3<R>*)(m + pg) - N;
	for (int i = 0; i < N; ++i) p[i] = Vec3<R>(i, i * i, 1 - i);
	mprotect(m + pg, pg, PROT_NONE);
	Vec3<R> b[N], c[N];
	check(SplineSolver3<R>::closedBezierSpline(N, p, b, c), "solved without reading past the points");
'''),
dict(id='s22-response-threshold-negative', prop='P25', needs='a negative deflection with a dead zone',
 breaks='The response to negative deflections is rescaled with the wrong divisor: it is not odd and does not reach minus one.',
 edits=[('functions.h', '			: (value + threshold) / (Real(1) - threshold);', '			: (value + threshold) / (Real(1) + threshold);')],
 demo='''
	for (int i = 0; i <= 10; ++i)
		check(near(evaluate(R(-i) / 10, R(0.25), ResponseCurveType::Linear), -evaluate(R(i) / 10, R(0.25), ResponseCurveType::Linear)), "odd");
'''),
dict(id='s23-line3-distance-projection', prop='P19', needs='a point not level with the start of the line',
 breaks='The distance from a point to a line in space divides by the length once too few: right only for lines of unit length.',
 edits=[('impl/line3.h', '		: MATHLIB_NS::abs(n * (point - start));', '		: northo.length() / (d.length() > Real(1) ? d.length() : Real(1));')],
 demo='''
	Line3<R> l = Line3<R>::from(Vec3<R>(0, 0, 0), Vec3<R>(R(0.25), 0, 0));
	check(near(l.distance(Vec3<R>(3, 4, 0)), 4), "distance to a short line");
	l = Line3<R>::from(Vec3<R>(0, 0, 0), Vec3<R>(4, 0, 0));
	check(near(l.distance(Vec3<R>(3, 4, 0)), 4), "distance to a long line");
'''),
dict(id='s24-aabb3-ray-far-box', prop='P15', needs='a ray that meets a box far away',
 breaks='The interval of a ray through a box starts with a limited end, so boxes beyond it are not met.',
 edits=[('impl/aabb3.h', ('''    t2 = std::numeric_limits<Real>::max();

    if (ray.direction.x == Real(0))''', 1), '''    t2 = Real(1e6);

    if (ray.direction.x == Real(0))''')],
 demo='''
	AABB3<R> b = AABB3<R>::from(Vec3<R>(R(2e6), -1, -1), Vec3<R>(R(2e6) + 5, 1, 1));
	R t1, t2;
	check(b.intersects(t1, t2, Ray3<R>::from(Vec3<R>(0, 0, 0), Vec3<R>(1, 0, 0))), "a far box");
'''),
dict(id='s25-mat3-frame-nearly-parallel', prop='P07', needs='a frame given by an exact axis and an approximate one less than a thousandth of a radian away from it',
 breaks='Such a frame is replaced by the identity although the two vectors determine it.',
 edits=[('impl/mat3.h', '	if (v.x == 0 && v.y == 0 && v.z == 0)', '	if (v.lengthSqr() < Real(1e-6))')],
 demo='''
	Mat3<R> m; m.set(Coord::X, Vec3<R>(0, 0, 1), Coord::Y, Vec3<R>(R(5e-4), 0, 1));
	check(near(m.x.z, 1) && near(m.y.x, 1), "frame of nearly parallel vectors");
'''),
dict(id='s26-vec3-minor-coord-sign', prop='P03', needs='a vector whose smallest component in magnitude is its third and negative',
 breaks='The coordinate of smallest magnitude is not found.',
 edits=[('impl/vec3.h', '''	Real fz = (z >= Real(0)) ? z : -z;
	return (fx < fy)''', '''	Real fz = (z >= Real(0)) ? z : z * z;
	return (fx < fy)''')],
 demo='''
	check(Vec3<R>(3, 4, -2).minorCoord() == Coord::Z, "smallest component");
	check(Vec3<R>(3, R(0.05), R(-0.1)).minorCoord() == Coord::Y, "smallest component");
'''),
dict(id='s27-vec3-normalize-small', prop='P02', needs='a vector of very small length',
 breaks='Normalising a short vector gives the null vector.',
 edits=[('impl/vec3.h', '''	Real l = length();
	if (l == Real(0))
	{
		x = y = z = Real(0);''', '''	Real l = length();
	if (l * l < Real(1e-12))
	{
		x = y = z = Real(0);''')],
 demo='''
	Vec3<R> v(R(3e-8), 0, R(4e-8));
	v.normalize();
	check(near(v.length(), 1), "unit length");
'''),
dict(id='s28-mat4-multiply-projective-term', prop='P04', needs='a product whose second factor has a projective part (a non-zero fourth component of its third column) and whose first factor has a translation',
 breaks='One entry of the product misses the projective term.',
 edits=[('impl/mat4.h', 'dest.z.x = a.x.x * b.z.x + a.y.x * b.z.y + a.z.x * b.z.z + a.t.x * b.z.w;', 'dest.z.x = a.x.x * b.z.x + a.y.x * b.z.y + a.z.x * b.z.z;')],
 demo='''
	Mat4<R> a, b(Vec4<R>(1, 0, 0, 0), Vec4<R>(0, 1, 0, 0), Vec4<R>(0, 0, R(-1.5), -1), Vec4<R>(0, 0, -2, 0));
	a.set(Coord::Z, R(0.5)); a.translate(Vec3<R>(3, 4, 5));
	Mat4<R> p = a * b;
	Vec4<R> v(1, 2, 3, 1), l, r, q;
	p.transform(l, v); b.transform(q, v); a.transform(r, q);
	check(near(l.x, r.x) && near(l.y, r.y) && near(l.z, r.z) && near(l.w, r.w), "the product applied to a point");
'''),
]
