SEEDS = [
dict(id='s05-plane-triple-negative-det', prop='P18', needs='three planes meeting at one point whose normals form a left-handed triple',
 breaks='Three planes that meet at a single point are reported not to when the determinant of their normals is negative.',
 edits=[('impl/plane.h', 'if (MATHLIB_NS::abs(det) < EPSILON)', 'if (det < EPSILON)')],
 demo='''
	Plane<R> a(Vec3<R>(0, 1, 0), 2), b(Vec3<R>(1, 0, 0), 1), c(Vec3<R>(0, 0, 1), 3);
	Vec3<R> p(9, 9, 9);
	check(Plane<R>::intersectAtSinglePoint(p, a, b, c), "found");
	check(near(p.x, 1) && near(p.y, 2) && near(p.z, 3), "the point");
'''),
dict(id='s06-sphere-strided-last-point', prop='P16', needs='a strided set of points whose last one is the farthest from the centre of the bounding box',
 breaks='The sphere of a strided set of points ignores the last point when the radius is measured, so it need not contain it.',
 edits=[('impl/sphere.h', ('	for (int i = 0; i < count; i++, p += stride)', 1), '	for (int i = 1; i < count; i++, p += stride)')],
 demo='''
	Vec3<R> v[4] = { Vec3<R>(-4, 0, 0), Vec3<R>(1, -4, 0), Vec3<R>(0, 1, -4), Vec3<R>(4, 4, 4) };
	Sphere<R> s; s.set(4, v, (int)sizeof(v[0]));
	for (int i = 0; i < 4; ++i)
		check((v[i] - s.center).length() <= s.radius * (1 + 1e-12), "contains every point");
'''),
dict(id='s07-bezier-fwd-second-tangent', prop='P21', needs='reading the tangent after two or more forward steps along a segment',
 breaks='The second difference of the tangent has a wrong coefficient: the tangent drifts from the third point on.',
 edits=[('impl/spline3.h', '	d2T	= P4_P1 * (d2*Real(6))	+ P3_P2 * (-d2*Real(18));', '	d2T	= P4_P1 * (d2*Real(6))	+ P3_P2 * (-d2*Real(16));')],
 demo='''
	Vec3<R> a(0, 0, 0), b(1, 3, 0), c(2, -3, 1), d(5, 0, 2);
	BezierSegment3<R> s(a, b, c, d);
	BezierSegment3FwdDiff<R> f(a, b, c, d, R(0.25));
	f.stepForward(); f.stepForward();
	Vec3<R> t = f.currentTangent(), e = s.tangentAt(R(0.5));
	check(near(t.x, e.x) && near(t.y, e.y) && near(t.z, e.z), "tangent after two steps");
'''),
dict(id='s08-hsv-negative-hue', prop='P24', needs='converting a negative hue, which is equivalent to one between 0 and 360',
 breaks='A negative hue falls outside the six sectors and the colour is not the one of the equivalent hue.',
 edits=[('impl/colorhsv.h', 'Real p0 = fmodPositive(h / Real(60), Real(6));', 'Real p0 = fmod(h / Real(60), Real(6));')],
 demo='''
	ColorRGB<R> a = ColorHSV<R>(-100, R(0.5), R(0.8)).toRGB(), b = ColorHSV<R>(260, R(0.5), R(0.8)).toRGB();
	check(near(a.r, b.r) && near(a.g, b.g) && near(a.b, b.b), "equivalent hues");
'''),
dict(id='s09-mat34-self-transform', prop='P09', needs='transforming an affine transform by itself',
 breaks='m.transform(m) applies the already changed linear part to the translation, so the square of a transform is wrong.',
 edits=[('impl/mat34.h', '	t = m * t;\n	rs.rotate(m.rs);', '	rs.rotate(m.rs);\n	t = m.t + m.rs * t;')],
 demo='''
	Mat34<R> m; m.rs.set(Coord::Z, R(0.5)); m.t = Vec3<R>(1, 2, 3);
	Mat34<R> r = m * m;
	m.transform(m);
	check(near(m.t.x, r.t.x) && near(m.t.y, r.t.y) && near(m.t.z, r.t.z), "square of an affine transform");
'''),
dict(id='s10-cyclic-one-corner-null', prop='P23', needs='a cyclic system of which exactly one corner coefficient is zero',
 breaks='The solver drops the other corner and reports success with a vector that does not satisfy the system.',
 edits=[('impl/linearequations.h', 'if (alpha == Real(0) && beta == Real(0))', 'if (alpha * beta == Real(0))')],
 demo='''
	R a[3] = { 1, 1, 1 }, b[4] = { 5, 6, 7, 8 }, c[3] = { 1, 2, 1 }, r[4] = { 1, 2, 3, 4 }, x[4];
	R alpha = 2, beta = 0;
	check(TriDiagonal<R>::solveCyclic(a, b, c, alpha, beta, r, x, 4), "solved");
	check(near(b[3] * x[3] + a[2] * x[2] + alpha * x[0], r[3]), "last row");
	check(near(b[0] * x[0] + c[0] * x[1] + beta * x[3], r[0]), "first row");
'''),
dict(id='s11-gauss-unscramble-order', prop='P23', needs='a system whose pivots permute three columns cyclically, so that two interchanges do not commute',
 breaks='The column interchanges of the inverse are undone in the order they were made instead of the reverse.',
 edits=[('impl/linearequations.h', '	for (l = n-1; l >= 0; l--)', '	for (l = 0; l < n; l++)')],
 demo='''
	R a[9] = { 1, 5, 2, 1, 2, 7, 9, 1, 3 }, o[9], b[3] = { 1, 2, 3 };
	for (int i = 0; i < 9; ++i) o[i] = a[i];
	check(GaussJordan<R>::solve(a, 3, b, 1), "solved");
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
	{
		R s = 0;
		for (int k = 0; k < 3; ++k) s += o[i * 3 + k] * a[k * 3 + j];
		check(near(s, i == j), "the matrix is replaced by its inverse");
	}
'''),
dict(id='s12-frustum-touching-sphere', prop='P20', needs='a sphere outside the frustum whose distance to the bottom plane alone excludes it',
 breaks='Spheres below the frustum are reported to intersect it.',
 edits=[('impl/frustum.h', '''        if (distance > sphere.radius)
        {
            return false;''', '''        if (distance > sphere.radius && i < 5)
        {
            return false;''')],
 demo='''
	Vec3<R> c[8] = { Vec3<R>(1, 1, -1), Vec3<R>(1, -1, -1), Vec3<R>(-1, -1, -1), Vec3<R>(-1, 1, -1), Vec3<R>(3, 3, -5), Vec3<R>(3, -3, -5), Vec3<R>(-3, -3, -5), Vec3<R>(-3, 3, -5) };
	Frustum<R> g(c);
	for (int k = 0; k < 6; ++k)
	{
		Vec3<R> n(k == 0 ? 1 : k == 1 ? -1 : 0, k == 2 ? 1 : k == 3 ? -1 : 0, k == 4 ? 1 : k == 5 ? -1 : 0);
		check(!g.intersects(Sphere<R>(Vec3<R>(0, 0, -3) + n * R(20), 1)), "a far sphere");
	}
'''),
dict(id='s13-mat34-stride-swap', prop='P26', needs='a strided batch transform whose source and destination strides differ',
 breaks='The source is walked with the stride of the destination and the other way round.',
 edits=[('impl/mat34.h', '		d += destStride;\n		s += srcStride;', '		d += srcStride;\n		s += destStride;')],
 demo='''
	Mat34<R> m; m.rs.set(Coord::Z, R(0.5)); m.t = Vec3<R>(1, 2, 3);
	struct P { Vec3<R> v; R pad; } s[8];
	Vec3<R> d[8];
	for (int i = 0; i < 8; ++i) { s[i].v = Vec3<R>(i, 2 * i, 1); s[i].pad = 77; d[i] = Vec3<R>(9, 9, 9); }
	m.transform(d, &s[0].v, 4, sizeof(d[0]), sizeof(s[0]));
	for (int i = 0; i < 4; ++i) { Vec3<R> e = m * s[i].v; check(near(d[i].x, e.x) && near(d[i].y, e.y) && near(d[i].z, e.z), "element"); }
	for (int i = 4; i < 8; ++i) check(d[i].x == 9, "element beyond the count");
'''),
dict(id='s14-caabb3-contains-box-size', prop='P14', needs='a box that sticks out through the upper z face of another of which it is inside in every other direction',
 breaks='Such a box is reported to be contained.',
 edits=[('impl/caabb3.h', '		&& (c.z - e.z >= center.z - extents.z && c.z + e.z <= center.z + extents.z);', '		&& (c.z - e.z >= center.z - extents.z && c.z - e.z <= center.z + extents.z);')],
 demo='''
	CAABB3<R> a(Vec3<R>(0, 0, 0), Vec3<R>(4, 4, 4)), b(Vec3<R>(0, 0, R(1.5)), Vec3<R>(2, 2, 2)), c(Vec3<R>(0, 0, 0), Vec3<R>(2, 2, 2));
	check(!a.contains(b), "a box sticking out");
	check(a.contains(c), "a box inside");
'''),
dict(id='s15-caabb3-add-flag', prop='P13', needs='growing a centred box by a point outside it in y only, below',
 breaks='The box does not grow for such a point.',
 edits=[('impl/caabb3.h', '		inf.y = point.y;\n		outside = true;', '		inf.y = point.y;\n		outside = outside || point.y > sup.y;')],
 demo='''
	CAABB3<R> a(Vec3<R>(0, 0, 0), Vec3<R>(4, 4, 4));
	a.add(Vec3<R>(1, -5, 1));
	check(near(a.inf().y, -5) && near(a.sup().y, 2) && near(a.inf().x, -2), "grown");
'''),
dict(id='s16-sphere-line-early-out', prop='P17', needs='a segment that ends inside a sphere before its point nearest to the centre',
 breaks='An early rejection compares squared distances as if they could be added, and a segment that clearly enters the sphere is reported to miss it.',
 edits=[('impl/sphere.h', ('	Real r2	= radius * radius;\n', 1), '	Real r2	= radius * radius;\n\n	// too far to be reached\n	if (cf2 > ft2 + r2)\n		return false;\n')],
 demo='''
	Sphere<R> s(Vec3<R>(10, 0, 0), 1);
	Vec3<R> h; R t;
	check(s.intersects(h, t, Line3<R>::from(Vec3<R>(0, 0, 0), Vec3<R>(R(9.5), 0, 0))), "a segment that ends inside");
'''),
]
