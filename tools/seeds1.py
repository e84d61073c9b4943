SEEDS = [
dict(id='s01-quat-from-matrix-z-branch', prop='P11', needs='a rotation whose matrix has non-positive trace and whose z diagonal entry is the largest, about an axis that is not z itself (so that the cross terms matter)',
 breaks='Converting such a rotation matrix to a quaternion gives a different rotation: one cross term has the wrong sign.',
 edits=[('impl/quat.h', ('		x = (m.z.x + m.x.z) / s;\n		y = (m.z.y + m.y.z) / s;\n		z = s / Real(4);', 2), '		x = (m.z.x + m.x.z) / s;\n		y = (m.z.y - m.y.z) / s;\n		z = s / Real(4);')],
 demo='''
	Quat<R> q(0.1, 0.5, 0.8, 0.1); q.normalize();
	Mat4<R> m; m.set(q);
	Quat<R> r; r.set(m);
	double d = q.x * r.x + q.y * r.y + q.z * r.z + q.w * r.w;
	check(near(std::fabs(d), 1), "matrix to quaternion round trip");
'''),
dict(id='s02-mat4-scale-keeps-normal', prop='P06', needs='scaling by factors of which only the third differs from one, on a matrix known to be normal, then any operation trusting the flag (inverse)',
 breaks='The matrix keeps the hint that its columns are unit vectors although the third was scaled, so a later inverse takes the orthonormal shortcut and is wrong.',
 edits=[('impl/mat4.h', ('	z *= coefficients.z;\n	if (coefficients.x != Real(1) || coefficients.y != Real(1) || coefficients.z != Real(1))', 1), '	z *= coefficients.z;\n	if (coefficients.x != Real(1) || coefficients.y != Real(1))')],
 demo='''
	Mat4<R> m; m.set(Coord::Y, R(0.4));
	m.scalePre(Vec3<R>(1, 1, 3));
	Mat4<R> i = m.inversed();
	Mat4<R> p = m * i;
	check(near(p.x.x, 1) && near(p.z.z, 1) && near(p.x.z, 0), "inverse of a scaled matrix");
'''),
dict(id='s03-mat4-inverse-small-det', prop='P05', needs='a non-singular matrix with a small determinant, such as a uniform scale by 0.01',
 breaks='The value-returning inverse of such a matrix is the null matrix, as if it were singular.',
 edits=[('impl/mat4.h', '''	Real det = x.x * inv.x.x + x.y * inv.y.x + x.z * inv.z.x + x.w * inv.t.x;

	if (det == Real(0))
		return Zero;''', '''	Real det = x.x * inv.x.x + x.y * inv.y.x + x.z * inv.z.x + x.w * inv.t.x;

	if (det < Real(1e-6) && det > -Real(1e-6))
		return Zero;''')],
 demo='''
	Mat4<R> m(Vec4<R>(0.005, 0, 0.001, 0), Vec4<R>(0, 0.01, 0, 0), Vec4<R>(0.002, 0, 0.01, 0), Vec4<R>(1, 2, 3, 1));
	Mat4<R> p = m * m.inversed();
	for (int i = 0; i < 16; ++i)
		check(near(p.data()[i], i % 5 == 0), "inverse of a matrix with a small determinant");
'''),
dict(id='s04-vec3-cross-assign-alias', prop='P01', needs='in-place cross product of a vector with itself',
 breaks='v %= v no longer gives the null vector: components already overwritten are read again.',
 edits=[('impl/vec3.h', '''	Real _x, _y, _z;
	_x = y * u.z - z * u.y;
	_y = z * u.x - x * u.z;
	_z = x * u.y - y * u.x;
	x = _x;
	y = _y;
	z = _z;
	return *this;
}

template <class Real>
Vec3<Real> & Vec3<Real>::operator%= (Coord v)''', '''	const Real _x = x, _y = y;
	x = _y * u.z - z * u.y;
	y = z * u.x - _x * u.z;
	z = _x * u.y - _y * u.x;
	return *this;
}

template <class Real>
Vec3<Real> & Vec3<Real>::operator%= (Coord v)''')],
 demo='''
	Vec3<R> v(1, 2, 4);
	v %= v;
	check(near(v.x, 0) && near(v.y, 0) && near(v.z, 0), "v % v is null");
	Vec3<R> a(1, 2, 4), b(3, -1, 2);
	a %= b;
	check(near(a.x, 8) && near(a.y, 10) && near(a.z, -7), "a % b");
'''),
]
