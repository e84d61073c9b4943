From 90087f454e77da1147ae0e6bcecd8a25ce881e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 01/24] fix: matrix products kept the operands'
 normal/orthogonal flags when the product no longer has the property

---
 libs/mathlib/include/impl/mat2.h |  4 ++++
 libs/mathlib/include/impl/mat3.h | 12 ++++++++++++
 libs/mathlib/include/impl/mat4.h |  2 ++
 3 files changed, 18 insertions(+)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 2f23f9b..4d36a5f 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -104,6 +104,8 @@ Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 	x.y = td * m.x.x + te * m.x.y;
 	y.y = td * m.y.x + te * m.y.y;
 	flags &= m.flags;
+	if (!isOrthonormal())
+		optimize();
 	return *this;
 }
 
@@ -537,6 +539,8 @@ void Mat2<Real>::multiply(Mat2& dest, const Mat2& a, const Mat2& b)
 		dest.x.y = a.x.y * b.x.x + a.y.y * b.x.y;
 		dest.y.y = a.x.y * b.y.x + a.y.y * b.y.y;
 		dest.flags = a.flags & b.flags;
+		if (!dest.isOrthonormal())
+			dest.optimize();
 	}
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 81736e5..4e18a0c 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -337,6 +337,8 @@ Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 	y.z = tg * m.y.x + th * m.y.y + z.z * m.y.z;
 	z.z = tg * m.z.x + th * m.z.y + z.z * m.z.z;
 	flags &= m.flags;
+	if (!isOrthonormal())
+		optimize();
 	return *this;
 }
 
@@ -449,6 +451,8 @@ Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 	z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
 	flags &= m.flags;
+	if (!isOrthonormal())
+		optimize();
 
 	return *this;
 }
@@ -544,6 +548,8 @@ Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 	z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
 	flags &= m.flags;
+	if (!isOrthonormal())
+		optimize();
 
 	return *this;
 }
@@ -717,6 +723,8 @@ Mat3<Real> Mat3<Real>::rotated(const Mat3& m) const
     r.z.z = m.x.z * z_x + m.y.z * z_y + m.z.z * z.z;
 
     r.flags = flags & m.flags;
+    if (!r.isOrthonormal())
+        r.optimize();
 
     return r;
 }
@@ -809,6 +817,8 @@ Mat3<Real> Mat3<Real>::rotatedPre(const Mat3& m) const
     r.z.z = x_z * m.z.x + y_z * m.z.y + z.z * m.z.z;
 
     r.flags = flags & m.flags;
+    if (!r.isOrthonormal())
+        r.optimize();
 
     return r;
 }
@@ -1085,6 +1095,8 @@ void Mat3<Real>::multiply(Mat3& dest, const Mat3& a, const Mat3& b)
 		dest.y.z = a.x.z * b.y.x + a.y.z * b.y.y + a.z.z * b.y.z;
 		dest.z.z = a.x.z * b.z.x + a.y.z * b.z.y + a.z.z * b.z.z;
 		dest.flags = a.flags & b.flags;
+		if (!dest.isOrthonormal())
+			dest.optimize();
 	}
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index b10e63c..e746c4b 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -1305,6 +1305,8 @@ void Mat4<Real>::multiply(Mat4& dest, const Mat4& a, const Mat4& b)
 		dest.t.w = a.x.w * b.t.x + a.y.w * b.t.y + a.z.w * b.t.z + a.t.w * b.t.w;
 
 		dest.flags = a.flags & b.flags;
+		if (!dest.isTrs() || !dest.isOrthonormal())
+			dest.optimize();
 	}
 }
 
-- 
2.43.0


From 059d7117fa63c540997962ca667b25146155545c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 02/24] fix: transposition kept flags that only hold for the
 columns of the original matrix

---
 libs/mathlib/include/impl/mat2.h | 6 ++++--
 libs/mathlib/include/impl/mat3.h | 6 ++++--
 libs/mathlib/include/impl/mat4.h | 5 ++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 4d36a5f..7e00e19 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -251,8 +251,8 @@ template <class Real>
 Mat2<Real>& Mat2<Real>::transpose()
 {
 	Real t = x.y; x.y = y.x; y.x = t;
-	// flags unchanged by transposition
-	return *this;
+	// only orthonormal matrices keep their flags
+	return isOrthonormal() ? *this : optimize();
 }
 
 template <class Real>
@@ -362,6 +362,8 @@ Mat2<Real> Mat2<Real>::transposed() const
 	r.y.x = x.y;
 	r.y.y = y.y;
 	r.flags = flags;
+	if (!r.isOrthonormal())
+		r.optimize();
 	return r;
 }
 
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 4e18a0c..4cc70c4 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -669,8 +669,8 @@ Mat3<Real>& Mat3<Real>::transpose()
 	t = x.y; x.y = y.x; y.x = t;
 	t = x.z; x.z = z.x; z.x = t;
 	t = y.z; y.z = z.y; z.y = t;
-	// flags unchanged by transposition
-	return *this;
+	// only orthonormal matrices keep their flags
+	return isOrthonormal() ? *this : optimize();
 }
 
 template <class Real>
@@ -901,6 +901,8 @@ Mat3<Real> Mat3<Real>::transposed() const
 	r.z.y = y.z;
 	r.z.z = z.z;
 	r.flags = flags;
+	if (!r.isOrthonormal())
+		r.optimize();
 	return r;
 }
 
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index e746c4b..353b3e3 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -645,8 +645,7 @@ Mat4<Real>& Mat4<Real>::transpose()
 	r = y.z; y.z = z.y; z.y = r;
 	r = y.w; y.w = t.y; t.y = r;
 	r = z.w; z.w = t.z; t.z = r;
-	// flags unchanged by transposition
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -914,7 +913,7 @@ Mat4<Real> Mat4<Real>::transposed() const
 	r.t.z = z.w;
 	r.t.w = t.w;
 
-	r.flags = flags;
+	r.optimize();
 
 	return r;
 }
-- 
2.43.0


From 38cb6fc86954c529834340a3e84795cc921a4275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:00 +0000
Subject: [PATCH 03/24] fix: multiplying or rotating a matrix by itself in
 place read columns already overwritten

---
 libs/mathlib/include/impl/mat2.h | 2 ++
 libs/mathlib/include/impl/mat3.h | 8 ++++++++
 2 files changed, 10 insertions(+)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 7e00e19..704549d 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -98,6 +98,8 @@ Mat2<Real>& Mat2<Real>::operator*=(const Mat2 &m)
 		return *this;
 	if (isIdentity())
 		return set(m);
+	if (this == &m)
+		return *this *= Mat2(m);
 	Real ta = x.x, tb = y.x, td = x.y, te = y.y;
 	x.x = ta * m.x.x + tb * m.x.y;
 	y.x = ta * m.y.x + tb * m.y.y;
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 4cc70c4..48e6381 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -326,6 +326,8 @@ Mat3<Real>& Mat3<Real>::operator*=(const Mat3 &m)
 		return *this;
 	if (isIdentity())
 		return set(m);
+	if (this == &m)
+		return *this *= Mat3(m);
 	Real ta = x.x, tb = y.x, td = x.y, te = y.y, tg = x.z, th = y.z;
 	x.x = ta * m.x.x + tb * m.x.y + z.x * m.x.z;
 	y.x = ta * m.y.x + tb * m.y.y + z.x * m.y.z;
@@ -438,6 +440,9 @@ Mat3<Real>& Mat3<Real>::rotate(const Mat3& m)
 	if (isIdentity())
 		return set(m);
 
+	if (this == &m)
+		return rotate(Mat3(m));
+
 	Real x_x = x.x, y_x = y.x, z_x = z.x, x_y = x.y, y_y = y.y, z_y = z.y;
 
 	x.x = m.x.x * x_x + m.y.x * x_y + m.z.x * x.z;
@@ -535,6 +540,9 @@ Mat3<Real>& Mat3<Real>::rotatePre(const Mat3& m)
 	if (isIdentity())
 		return set(m);
 
+	if (this == &m)
+		return rotatePre(Mat3(m));
+
 	Real x_x = x.x, x_y = x.y, x_z = x.z, y_x = y.x, y_y = y.y, y_z = y.z;
 
 	x.x = x_x * m.x.x + y_x * m.x.y + z.x * m.x.z;
-- 
2.43.0


From e772f50058be106d3bf45c90479e809991e217a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 04/24] fix: transforming a vector in place used components
 already overwritten

---
 libs/mathlib/include/impl/mat2.h  |  4 +++-
 libs/mathlib/include/impl/mat3.h  |  7 +++++--
 libs/mathlib/include/impl/mat34.h |  9 +++++---
 libs/mathlib/include/impl/mat4.h  | 34 ++++++++++++++++++++++---------
 4 files changed, 38 insertions(+), 16 deletions(-)

diff --git a/libs/mathlib/include/impl/mat2.h b/libs/mathlib/include/impl/mat2.h
index 704549d..56eb5b9 100644
--- a/libs/mathlib/include/impl/mat2.h
+++ b/libs/mathlib/include/impl/mat2.h
@@ -496,8 +496,10 @@ Mat2<CastReturnType> Mat2<Real>::cast() const
 template <class Real>
 void Mat2<Real>::transform(Vec2<Real>& dest, const Vec2<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x;
+	// dest may be src
+	Real dx = src.x * x.x + src.y * y.x;
 	dest.y = src.x * x.y + src.y * y.y;
+	dest.x = dx;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 48e6381..2d80c4a 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -1052,9 +1052,12 @@ Mat3<CastReturnType> Mat3<Real>::cast() const
 template <class Real>
 void Mat3<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
+	// dest may be src
+	Real dx = src.x * x.x + src.y * y.x + src.z * z.x;
+	Real dy = src.x * x.y + src.y * y.y + src.z * z.y;
 	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	dest.x = dx;
+	dest.y = dy;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat34.h b/libs/mathlib/include/impl/mat34.h
index b7f1428..6cdd841 100644
--- a/libs/mathlib/include/impl/mat34.h
+++ b/libs/mathlib/include/impl/mat34.h
@@ -342,8 +342,8 @@ Mat34<Real>& Mat34<Real>::transform(const Mat3<Real>& m)
 {
 	// r * v = m * (rs * v + t)
 	//       = (m * rs) * v + (m * t)
-	rs.rotate(m);
 	t = m * t;
+	rs.rotate(m);
 	return *this;
 }
 
@@ -556,9 +556,12 @@ Mat34<CastReturnType> Mat34<Real>::cast() const
 template <class Real>
 void Mat34<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * rs.x.x + src.y * rs.y.x + src.z * rs.z.x + t.x;
-	dest.y = src.x * rs.x.y + src.y * rs.y.y + src.z * rs.z.y + t.y;
+	// dest may be src
+	Real dx = src.x * rs.x.x + src.y * rs.y.x + src.z * rs.z.x + t.x;
+	Real dy = src.x * rs.x.y + src.y * rs.y.y + src.z * rs.z.y + t.y;
 	dest.z = src.x * rs.x.z + src.y * rs.y.z + src.z * rs.z.z + t.z;
+	dest.x = dx;
+	dest.y = dy;
 }
 
 template <class Real>
diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 353b3e3..2b6531f 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -1145,9 +1145,12 @@ Mat4<CastReturnType> Mat4<Real>::cast() const
 template <class Real>
 void Mat4<Real>::transform(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + t.y;
+	// dest may be src
+	Real dx = src.x * x.x + src.y * y.x + src.z * z.x + t.x;
+	Real dy = src.x * x.y + src.y * y.y + src.z * z.y + t.y;
 	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + t.z;
+	dest.x = dx;
+	dest.y = dy;
 }
 
 template <class Real>
@@ -1176,10 +1179,14 @@ void Mat4<Real>::transform(Vec3<Real>* dest, const Vec3<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transform(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x + src.w * t.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y + src.w * t.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z + src.w * t.z;
+	// dest may be src
+	Real dx = src.x * x.x + src.y * y.x + src.z * z.x + src.w * t.x;
+	Real dy = src.x * x.y + src.y * y.y + src.z * z.y + src.w * t.y;
+	Real dz = src.x * x.z + src.y * y.z + src.z * z.z + src.w * t.z;
 	dest.w = src.x * x.w + src.y * y.w + src.z * z.w + src.w * t.w;
+	dest.x = dx;
+	dest.y = dy;
+	dest.z = dz;
 }
 
 template <class Real>
@@ -1208,9 +1215,12 @@ void Mat4<Real>::transform(Vec4<Real>* dest, const Vec4<Real>* src, size_t count
 template <class Real>
 void Mat4<Real>::transformVector(Vec3<Real>& dest, const Vec3<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
+	// dest may be src
+	Real dx = src.x * x.x + src.y * y.x + src.z * z.x;
+	Real dy = src.x * x.y + src.y * y.y + src.z * z.y;
 	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	dest.x = dx;
+	dest.y = dy;
 }
 
 template <class Real>
@@ -1239,10 +1249,14 @@ void Mat4<Real>::transformVector(Vec3<Real>* dest, const Vec3<Real>* src, size_t
 template <class Real>
 void Mat4<Real>::transformVector(Vec4<Real>& dest, const Vec4<Real>& src) const
 {
-	dest.x = src.x * x.x + src.y * y.x + src.z * z.x;
-	dest.y = src.x * x.y + src.y * y.y + src.z * z.y;
-	dest.z = src.x * x.z + src.y * y.z + src.z * z.z;
+	// dest may be src
+	Real dx = src.x * x.x + src.y * y.x + src.z * z.x;
+	Real dy = src.x * x.y + src.y * y.y + src.z * z.y;
+	Real dz = src.x * x.z + src.y * y.z + src.z * z.z;
 	dest.w = src.x * x.w + src.y * y.w + src.z * z.w;
+	dest.x = dx;
+	dest.y = dy;
+	dest.z = dz;
 }
 
 template <class Real>
-- 
2.43.0


From d94c8d2c044e6982671449254ce1222f5105db63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 05/24] fix: rotating a 3x3 matrix about a coordinate axis left
 the cached flags of the old matrix

---
 libs/mathlib/include/impl/mat3.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/mat3.h b/libs/mathlib/include/impl/mat3.h
index 2d80c4a..09c5373 100644
--- a/libs/mathlib/include/impl/mat3.h
+++ b/libs/mathlib/include/impl/mat3.h
@@ -528,7 +528,7 @@ Mat3<Real>& Mat3<Real>::rotate(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -628,7 +628,7 @@ Mat3<Real>& Mat3<Real>::rotatePre(Coord axis, Real angle)
 	default:
 		assert(0);
 	}
-	return *this;
+	return optimize();
 }
 
 template <class Real>
@@ -797,7 +797,7 @@ Mat3<Real> Mat3<Real>::rotated(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
@@ -891,7 +891,7 @@ Mat3<Real> Mat3<Real>::rotatedPre(Coord axis, Real angle) const
         default:
             assert(0);
     }
-    r.flags = flags;
+    r.optimize();
     return r;
 }
 
-- 
2.43.0


From d75de9d2843b315bed7518d33b4daccba5794477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:43 +0000
Subject: [PATCH 06/24] fix: 4x4 inverse used the rigid-transform shortcut for
 non-affine matrices and could return unset flags

---
 libs/mathlib/include/impl/mat4.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/impl/mat4.h b/libs/mathlib/include/impl/mat4.h
index 2b6531f..f7f3307 100644
--- a/libs/mathlib/include/impl/mat4.h
+++ b/libs/mathlib/include/impl/mat4.h
@@ -651,7 +651,7 @@ Mat4<Real>& Mat4<Real>::transpose()
 template <class Real>
 Mat4<Real>& Mat4<Real>::invert()
 {
-	if (isOrthonormal())
+	if (isTrs() && isOrthonormal())
 	{
 		Real r;
 		r = x.y; x.y = y.x; y.x = r;
@@ -713,7 +713,12 @@ Mat4<Real>& Mat4<Real>::invert()
 
 	Real det = x.x * inv.x.x + x.y * inv.y.x + x.z * inv.z.x + x.w * inv.t.x;
 
-	return (det == Real(0)) ? set(Zero) : set(inv / det);
+	if (det == Real(0))
+		return set(Zero);
+
+	set(inv);
+	*this /= det;
+	return optimize();
 }
 
 
@@ -950,7 +955,7 @@ Real Mat4<Real>::determinant() const
 template <class Real>
 Mat4<Real> Mat4<Real>::inversed() const
 {
-	if (isOrthonormal())
+	if (isTrs() && isOrthonormal())
 	{
 		Mat4<Real> result;
 
-- 
2.43.0


From 351a8ffde2046ca80215ddf66ae60ed30334a797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 07/24] fix: quaternion division multiplied by the divisor
 instead of its inverse

---
 libs/mathlib/include/impl/quat.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 62e67a9..4e1a1ea 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -461,10 +461,9 @@ Quat<Real> Quat<Real>::operator - () const
 template <class Real>
 Quat<Real> Quat<Real>::operator / (const Quat &q) const
 {
-	//invert q; r = q^(-1), assumes q is normalized
-	Quat r = Quat(-q.x, -q.y, -q.z, q.w);
-	Real s = Real(1) / (r.w * r.w - r.x * r.x - r.y * r.y - r.z * r.z);
-	Quat p = *this * q;
+	// this * q^(-1)
+	Real s = Real(1) / (q.w * q.w + q.x * q.x + q.y * q.y + q.z * q.z);
+	Quat p = *this * q.inverse();
 	p.x *= s;
 	p.y *= s;
 	p.z *= s;
-- 
2.43.0


From 4791dc2773e4d09d9ab52483a6d2e5263c148fbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 08/24] fix: Quat::slerpMaxAngle returned the limited rotation
 without the start orientation

---
 libs/mathlib/include/impl/quat.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 4e1a1ea..eb8724a 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -228,12 +228,15 @@ Quat<Real>& Quat<Real>::slerpMaxAngle(const Quat& from, const Quat& to, Real max
 	assert(maxAngle >= Real(0));
 
 	Quat fromto = from.inverse() * to;
+	if (fromto.w < Real(0))
+		fromto = -fromto;
 
 	Vec3<Real> axis;
 	Real angle;
 	fromto.toAxisAngle(axis, angle);
 
-	return set(axis, min(angle, maxAngle));
+	fromto.set(axis, min(angle, maxAngle));
+	return set(from * fromto);
 }
 
 template <class Real>
-- 
2.43.0


From a3768e82c8faa851781b61bb26c7a2e12574d9e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 09/24] fix: the rotation between opposite vectors was the
 identity

---
 libs/mathlib/include/impl/quat.h | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index eb8724a..7c91d99 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -154,10 +154,13 @@ Quat<Real>& Quat<Real>::set(const Vec3<Real>& from2, const Vec3<Real>& to2)
 	}
 	if (cost < Real(-0.99999))
 	{
-		x = Real(0);
-		y = Real(0);
-		z = Real(0);
-		w = Real(-1);
+		// half a turn about any axis perpendicular to the vectors
+		Vec3<Real> axis = from % (from.x * from.x < Real(0.5) ? Vec3<Real>::OneX : Vec3<Real>::OneY);
+		axis.normalize();
+		x = axis.x;
+		y = axis.y;
+		z = axis.z;
+		w = Real(0);
 		return *this;
 	}
 
-- 
2.43.0


From 382894f4915f1b6d70b86d0b5c6f5b7924dbe191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 10/24] fix: Quat::set(from, via, to) did not compile when used

---
 libs/mathlib/include/impl/quat.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/quat.h b/libs/mathlib/include/impl/quat.h
index 7c91d99..6689bd2 100644
--- a/libs/mathlib/include/impl/quat.h
+++ b/libs/mathlib/include/impl/quat.h
@@ -289,11 +289,13 @@ Quat<Real>& Quat<Real>::set(const Quat& from, const Quat& via, const Quat& to)
 	qni.z = -via.z;
 	qni.w = via.w;
 
-	Quat tmp = log(qni * from) + log(qni * to);
-	tmp.x *= -0.25f;
-	tmp.y *= -0.25f;
-	tmp.z *= -0.25f;
-	tmp.w *= -0.25f;
+	Quat a = log(qni * from);
+	Quat b = log(qni * to);
+	Quat tmp;
+	tmp.x = (a.x + b.x) * Real(-0.25);
+	tmp.y = (a.y + b.y) * Real(-0.25);
+	tmp.z = (a.z + b.z) * Real(-0.25);
+	tmp.w = Real(0);
 
 	return set(via * exp(tmp));
 }
-- 
2.43.0


From e38317d0f0888488c1825880a184d73f7d84509d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 11/24] fix: quartic and quintic easing of double parameters
 was computed in float

---
 libs/mathlib/include/interpolation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index ef3ae0c..e19bd62 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -72,11 +72,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuarticIn:	return t * t * t * t;
 	case InterpolationMode::QuarticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return -t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuarticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? Real(8) * t * t * t * t
 			: -Real(0.5) * (t0 * t0 * t0 * t0 - Real(2));
@@ -84,11 +84,11 @@ inline Real interpolationRatio(Real t, InterpolationMode mode)
 
 	case InterpolationMode::QuinticIn:	return t * t * t * t * t;
 	case InterpolationMode::QuinticOut: {
-		float t0 = t - Real(1);
+		Real t0 = t - Real(1);
 		return t0 * t0 * t0 * t0 * t0 + Real(1);
 	}
 	case InterpolationMode::QuinticInOut: {
-		float t0 = Real(2) * t - Real(2);
+		Real t0 = Real(2) * t - Real(2);
 		return (t < Real(0.5))
 			? 16.0f * t * t * t * t * t
 			: Real(0.5) * (t0 * t0 * t0 * t0 * t0 + Real(2));
-- 
2.43.0


From 84ec50309a2098aaf4a7d21ef4426f65c5924a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:42 +0000
Subject: [PATCH 12/24] fix: fmodPositive returned the divisor itself for tiny
 negative arguments

---
 libs/mathlib/include/functions.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libs/mathlib/include/functions.h b/libs/mathlib/include/functions.h
index 91baa75..a315891 100644
--- a/libs/mathlib/include/functions.h
+++ b/libs/mathlib/include/functions.h
@@ -124,7 +124,13 @@ Real fmodPositive(Real x, Real y)
 {
 	assert(y > Real(0));
 	Real r = ::fmod(x, y);
-	return (r >= Real(0)) ? r : y + r;
+	if (r < Real(0))
+	{
+		r += y;
+		if (r >= y) // a tiny negative remainder is lost in the addition
+			r = Real(0);
+	}
+	return r;
 }
 
 template <class Real>
-- 
2.43.0


From 41cccb236800ff0a0bb28250388bb5f4d43a4916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:49 +0000
Subject: [PATCH 13/24] fix: box hits tests missed entries and reported rays
 passing beside the box

---
 libs/mathlib/include/impl/aabb2.h | 47 +++++++++++++++++-------
 libs/mathlib/include/impl/aabb3.h | 61 +++++++++++++++++++++----------
 2 files changed, 74 insertions(+), 34 deletions(-)

diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index d6f290d..ac0be0e 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -386,6 +386,9 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
 {
     t = Real(0);
 
+    Real tmin = -std::numeric_limits<Real>::max();
+    Real tmax = std::numeric_limits<Real>::max();
+
     if (ray.direction.x == Real(0))
     {
         // Ray is parallel to the slab. Check if the start point is outside the slab.
@@ -401,10 +404,11 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        tmin = std::max(tmin, tinf);
+        tmax = std::min(tmax, tsup);
 
-        t = std::max(t, tinf);
+        if (tmax < tmin)
+            return false;
     }
 
     if (ray.direction.y == Real(0))
@@ -422,12 +426,19 @@ bool AABB2<Real>::hits(Real& t, const Ray2<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        tmin = std::max(tmin, tinf);
+        tmax = std::min(tmax, tsup);
 
-        t = std::max(t, tinf);
+        if (tmax < tmin)
+            return false;
     }
 
+    // Starting inside or past the box is not a hit
+    if (tmin < Real(0))
+        return false;
+
+    t = tmin;
+
     return true;
 }
 
@@ -436,6 +447,9 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
 {
     t = Real(0);
 
+    Real tmin = -std::numeric_limits<Real>::max();
+    Real tmax = std::numeric_limits<Real>::max();
+
     Vec2<Real> delta = line.end - line.start;
 
     if (delta.x == Real(0))
@@ -453,10 +467,11 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        tmin = std::max(tmin, tinf);
+        tmax = std::min(tmax, tsup);
 
-        t = std::max(t, tinf);
+        if (tmax < tmin)
+            return false;
     }
 
     if (delta.y == Real(0))
@@ -474,15 +489,19 @@ bool AABB2<Real>::hits(Real& t, const Line2<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        tmin = std::max(tmin, tinf);
+        tmax = std::min(tmax, tsup);
 
-        t = std::max(t, tinf);
+        if (tmax < tmin)
+            return false;
     }
 
-    if (t > Real(1))
+    // Starting inside or beyond the box, or ending before it, is not a hit
+    if (tmin < Real(0) || tmin > Real(1))
         return false;
-    
+
+    t = tmin;
+
     return true;
 }
 
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index 8670fb4..fbf9545 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -407,6 +407,9 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
 {
     t = Real(0);
 
+    Real tmin = -std::numeric_limits<Real>::max();
+    Real tmax = std::numeric_limits<Real>::max();
+
     if (ray.direction.x == Real(0))
     {
         // Ray is parallel to the slab. Check if the start point is outside the slab.
@@ -422,10 +425,11 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        tmin = std::max(tmin, tinf);
+        tmax = std::min(tmax, tsup);
 
-        t = std::max(t, tinf);
+        if (tmax < tmin)
+            return false;
     }
 
     if (ray.direction.y == Real(0))
@@ -443,10 +447,11 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        tmin = std::max(tmin, tinf);
+        tmax = std::min(tmax, tsup);
 
-        t = std::max(t, tinf);
+        if (tmax < tmin)
+            return false;
     }
 
     if (ray.direction.z == Real(0))
@@ -464,12 +469,19 @@ bool AABB3<Real>::hits(Real& t, const Ray3<Real>& ray) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        tmin = std::max(tmin, tinf);
+        tmax = std::min(tmax, tsup);
 
-        t = std::max(t, tinf);
+        if (tmax < tmin)
+            return false;
     }
 
+    // Starting inside or past the box is not a hit
+    if (tmin < Real(0))
+        return false;
+
+    t = tmin;
+
     return true;
 }
 
@@ -478,6 +490,9 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
 {
     t = Real(0);
 
+    Real tmin = -std::numeric_limits<Real>::max();
+    Real tmax = std::numeric_limits<Real>::max();
+
     Vec3<Real> delta = line.end - line.start;
 
     if (delta.x == Real(0))
@@ -495,10 +510,11 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        tmin = std::max(tmin, tinf);
+        tmax = std::min(tmax, tsup);
 
-        t = std::max(t, tinf);
+        if (tmax < tmin)
+            return false;
     }
 
     if (delta.y == Real(0))
@@ -516,10 +532,11 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        tmin = std::max(tmin, tinf);
+        tmax = std::min(tmax, tsup);
 
-        t = std::max(t, tinf);
+        if (tmax < tmin)
+            return false;
     }
 
     if (delta.z == Real(0))
@@ -537,15 +554,19 @@ bool AABB3<Real>::hits(Real& t, const Line3<Real>& line) const
         
         if (tinf > tsup) std::swap(tinf, tsup);
 
-        if (tinf < Real(0))
-            return false;
+        tmin = std::max(tmin, tinf);
+        tmax = std::min(tmax, tsup);
 
-        t = std::max(t, tinf);
+        if (tmax < tmin)
+            return false;
     }
 
-    if (t > Real(1))
+    // Starting inside or beyond the box, or ending before it, is not a hit
+    if (tmin < Real(0) || tmin > Real(1))
         return false;
-    
+
+    t = tmin;
+
     return true;
 }
 
-- 
2.43.0


From f1251628d91ecc69afed6f8d9bcfc31e28949ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 14/24] fix: moving a box by one of its own corners moved its
 corners differently

---
 libs/mathlib/include/impl/aabb2.h | 10 ++++++----
 libs/mathlib/include/impl/aabb3.h | 10 ++++++----
 2 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/libs/mathlib/include/impl/aabb2.h b/libs/mathlib/include/impl/aabb2.h
index ac0be0e..6011268 100644
--- a/libs/mathlib/include/impl/aabb2.h
+++ b/libs/mathlib/include/impl/aabb2.h
@@ -204,16 +204,18 @@ AABB2<Real> AABB2<Real>::fromUnion(const AABB2<Real>& a, const AABB2<Real>& b)
 template <class Real>
 AABB2<Real>& AABB2<Real>::operator+= (const Vec2<Real>& t)
 {
-	inf += t;
-    sup += t;
+	const Vec2<Real> d = t; // t may be a corner of this box
+	inf += d;
+    sup += d;
 	return *this;
 }
 
 template <class Real>
 AABB2<Real>& AABB2<Real>::operator-= (const Vec2<Real>& t)
 {
-	inf -= t;
-    sup -= t;
+	const Vec2<Real> d = t; // t may be a corner of this box
+	inf -= d;
+    sup -= d;
 	return *this;
 }
 
diff --git a/libs/mathlib/include/impl/aabb3.h b/libs/mathlib/include/impl/aabb3.h
index fbf9545..3f4335c 100644
--- a/libs/mathlib/include/impl/aabb3.h
+++ b/libs/mathlib/include/impl/aabb3.h
@@ -216,16 +216,18 @@ AABB3<Real> AABB3<Real>::fromUnion(const AABB3<Real>& a, const AABB3<Real>& b)
 template <class Real>
 AABB3<Real>& AABB3<Real>::operator+= (const Vec3<Real>& t)
 {
-	inf += t;
-    sup += t;
+	const Vec3<Real> d = t; // t may be a corner of this box
+	inf += d;
+    sup += d;
 	return *this;
 }
 
 template <class Real>
 AABB3<Real>& AABB3<Real>::operator-= (const Vec3<Real>& t)
 {
-    inf -= t;
-    sup -= t;
+    const Vec3<Real> d = t; // t may be a corner of this box
+    inf -= d;
+    sup -= d;
 	return *this;
 }
 
-- 
2.43.0


From ffa4b07d8d90a89876d9dc8c0da5dba544f68496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:12 +0000
Subject: [PATCH 15/24] fix: projecting onto a plane along a direction ignored
 the plane offset

---
 libs/mathlib/include/impl/plane.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libs/mathlib/include/impl/plane.h b/libs/mathlib/include/impl/plane.h
index 753c692..0ea12d5 100644
--- a/libs/mathlib/include/impl/plane.h
+++ b/libs/mathlib/include/impl/plane.h
@@ -214,7 +214,7 @@ bool Plane<Real>::project(Vec3<Real>& projection, const Vec3<Real>& point, const
 	if (f == Real(0))
 		return false;
 
-	projection = point - direction * ((point * normal) / f);
+	projection = point - direction * ((point * normal - d) / f);
 
 	return true;
 }
-- 
2.43.0


From 3122d615614656dc09f4c143a07585a0ceecbe83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 16/24] fix: distance of a point on the line or ray was the
 distance to its start

---
 libs/mathlib/include/impl/line3.h | 2 +-
 libs/mathlib/include/impl/ray3.h  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/line3.h b/libs/mathlib/include/impl/line3.h
index 4c5f560..e399cca 100644
--- a/libs/mathlib/include/impl/line3.h
+++ b/libs/mathlib/include/impl/line3.h
@@ -68,7 +68,7 @@ Real Line3<Real>::distance(const Vec3<Real>& point) const
 	Vec3<Real> n = d % northo;
 	Real l = n.normalize();
 	return (l == Real(0))
-		? MATHLIB_NS::distance(start, point)
+		? (d.lengthSqr() == Real(0) ? MATHLIB_NS::distance(start, point) : Real(0))
 		: MATHLIB_NS::abs(n * (point - start));
 }
 
diff --git a/libs/mathlib/include/impl/ray3.h b/libs/mathlib/include/impl/ray3.h
index 6361383..6377763 100644
--- a/libs/mathlib/include/impl/ray3.h
+++ b/libs/mathlib/include/impl/ray3.h
@@ -49,7 +49,7 @@ Real Ray3<Real>::distance(const Vec3<Real>& point) const
 	Vec3<Real> n = direction % northo;
 	Real l = n.normalize();
 	return (l == Real(0))
-		? MATHLIB_NS::distance(start, point)
+		? (direction * (point - start) > Real(0) ? Real(0) : MATHLIB_NS::distance(start, point))
 		: MATHLIB_NS::abs(n * (point - start));
 }
 
-- 
2.43.0


From f02e5132dd2ed76832f3912e03edea7521cd1d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 17/24] fix: splitting a segment into itself used already
 overwritten control points

---
 libs/mathlib/include/impl/spline3.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 77f11ed..990c8fe 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -290,6 +290,9 @@ void BezierSegment3<Real>::split(Real a, BezierSegment3 &start, BezierSegment3 &
 	Real ca2 = ca * ca;
 	Real ca3 = ca * ca2;
 
+	// start or end may be this segment
+	const Vec3<Real> P1 = this->P1, P2 = this->P2, P3 = this->P3, P4 = this->P4;
+
 	start.P1	= P1;
 	start.P2	= P1 * ca	+ P2 * a;
 	start.P3	= P1 * ca2	+ P2 * (Real(2)*a*ca)	+ P3 * a2;
-- 
2.43.0


From b50887ecfc31d8f66d4cbbdb8e89f7110a02d4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:28 +0000
Subject: [PATCH 18/24] fix: frustum tests of double values rounded distances
 to float

---
 libs/mathlib/include/impl/frustum.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/impl/frustum.h b/libs/mathlib/include/impl/frustum.h
index 4504c6a..0b11338 100644
--- a/libs/mathlib/include/impl/frustum.h
+++ b/libs/mathlib/include/impl/frustum.h
@@ -85,7 +85,7 @@ bool Frustum<Real>::contains(const Vec3<Real>& point) const
 {
 	for (int i = 0; i < 6; i++)
     {
-		float distance = planes[i].distance(point);
+		Real distance = planes[i].distance(point);
 
         if (distance > 0.0f)
         {
@@ -107,7 +107,7 @@ bool Frustum<Real>::contains(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > -sphere.radius)
         {
@@ -123,7 +123,7 @@ bool Frustum<Real>::intersects(const Sphere<Real>& sphere) const
 {
     for (int i = 0; i < 6; i++)
     {
-        float distance = planes[i].distance(sphere.center);
+        Real distance = planes[i].distance(sphere.center);
 
         if (distance > sphere.radius)
         {
-- 
2.43.0


From 8a0b0e03b005293abaa7246260193e0eca25974f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:06 +0000
Subject: [PATCH 19/24] fix: circular interpolation of angles turned the long
 way for negative differences

---
 libs/mathlib/include/interpolation.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/libs/mathlib/include/interpolation.h b/libs/mathlib/include/interpolation.h
index e19bd62..d10ceba 100644
--- a/libs/mathlib/include/interpolation.h
+++ b/libs/mathlib/include/interpolation.h
@@ -178,14 +178,14 @@ Vec3<Real> lerp(const Vec3<Real>& from, const Vec3<Real>& to, Real ratio, Interp
 template <class Real>
 Real clerp(Real from, Real to, Real ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	return from + delta * ratio;
 }
 
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	Real angle = (delta >= 0)
 		? (from + ((delta > maxAngle) ? maxAngle : delta))
 		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
@@ -195,11 +195,11 @@ Real clerpMaxAngle(Real from, Real to, Real maxAngle)
 template <class Real>
 Real clerpMaxAngle(Real from, Real to, Real maxAngle, Real& ratio)
 {
-	Real delta = fmod(to - from + Constants<Real>::PI, Constants<Real>::PI_TIMES_2) - Constants<Real>::PI;
+	Real delta = fmodCentered(to - from, Constants<Real>::PI_TIMES_2);
 	Real angle = (delta >= 0)
 		? (from + ((delta > maxAngle) ? maxAngle : delta))
 		: (from + ((delta < -maxAngle) ? -maxAngle : delta));
-	ratio = angle / delta;
+	ratio = (delta > maxAngle || delta < -maxAngle) ? maxAngle / MATHLIB_NS::abs(delta) : Real(1);
 	return angle;
 }
 
-- 
2.43.0


From 9796229b6de4c7055a7f52ec56594e4715ec53cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:56 +0000
Subject: [PATCH 20/24] fix: spherical interpolation of vectors more than a
 right angle apart

---
 libs/mathlib/include/impl/vec3.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/libs/mathlib/include/impl/vec3.h b/libs/mathlib/include/impl/vec3.h
index d29fc18..2f8844c 100644
--- a/libs/mathlib/include/impl/vec3.h
+++ b/libs/mathlib/include/impl/vec3.h
@@ -125,8 +125,11 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 	{
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
 		Real sinAngle = n * n.normalized();
+		Real cosAngle = (u * v) / (lengthU * lengthV);
+		if (sinAngle == Real(0) && cosAngle < Real(0)) // opposite vectors: turn about any perpendicular axis
+			n = u % (u.x * u.x < Real(0.5) * lengthU * lengthU ? Vec3<Real>::OneX : Vec3<Real>::OneY);
 
-		if (MATHLIB_NS::abs(sinAngle) < 0.05f)
+		if (MATHLIB_NS::abs(sinAngle) < 0.05f && cosAngle > Real(0))
 		{
 			x = u.x + (v.x - u.x) * ratio;
 			y = u.y + (v.y - u.y) * ratio;
@@ -135,7 +138,7 @@ Vec3<Real>& Vec3<Real>::slerp(const Vec3<Real>& u, const Vec3<Real>& v, Real rat
 		}
 		else
 		{
-			Real angle = asin(sinAngle);
+			Real angle = atan2(sinAngle, cosAngle);
 
 			Quat<Real> q;
 			q.set(n, angle * ratio);
@@ -171,8 +174,11 @@ Vec3<Real>& Vec3<Real>::slerpMaxAngle(const Vec3<Real>& u, const Vec3<Real>& v,
 	{
 		Vec3<Real> n = (u % v) / (lengthU * lengthV);
 		Real sinAngle = n * n.normalized();
+		Real cosAngle = (u * v) / (lengthU * lengthV);
+		if (sinAngle == Real(0) && cosAngle < Real(0)) // opposite vectors: turn about any perpendicular axis
+			n = u % (u.x * u.x < Real(0.5) * lengthU * lengthU ? Vec3<Real>::OneX : Vec3<Real>::OneY);
 
-		Real angle = asin(sinAngle);
+		Real angle = atan2(sinAngle, cosAngle);
 
 		if (angle == Real(0))
 			return set(v);
-- 
2.43.0


From efc6c7dd25d71f43a19c1f8d5caed5970126ab06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 21/24] fix: closed spline through two points

---
 libs/mathlib/include/impl/spline3.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/spline3.h b/libs/mathlib/include/impl/spline3.h
index 990c8fe..7501d2a 100644
--- a/libs/mathlib/include/impl/spline3.h
+++ b/libs/mathlib/include/impl/spline3.h
@@ -623,8 +623,9 @@ bool SplineSolver3<Real>::closedBezierSpline(int n, const Vec3<Real>* p1, Vec3<R
 		a[i*n+i+1]	= Real(1);
 	}
 
-	a[0]       = Real(4);	a[1]           = Real(1);	a[n-1]         = Real(1);
-	a[(n-1)*n] = Real(1);	a[(n-1)*n+n-2] = Real(1);	a[(n-1)*n+n-1] = Real(4);
+	// with two points both neighbours of a point are the same point
+	a[0]       = Real(4);	a[1]           += Real(1);	a[n-1]         += Real(1);
+	a[(n-1)*n] += Real(1);	a[(n-1)*n+n-2] += Real(1);	a[(n-1)*n+n-1] = Real(4);
 
 	for (i = 0; i < n-1; i++)
 	{
-- 
2.43.0


From 74192b487675a234153e08893aa98d50354530ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 22/24] fix: cyclic solver on singular systems and a zero first
 diagonal entry

---
 libs/mathlib/include/impl/linearequations.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index f532b34..918aaef 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -84,7 +84,8 @@ bool TriDiagonal<Real>::solveCyclic(const Real* a, const Real* b, const Real* c,
 	Real* u = new Real[n];
 	Real* z = new Real[n];
 
-	Real gamma = -b[0]; // Avoid subtraction error in forming bb[1].
+	// Avoid subtraction error in forming bb[0]; any non-zero value does when b[0] is zero.
+	Real gamma = b[0] != Real(0) ? -b[0] : Real(-1);
 	bb[0] = b[0] - gamma; // Set up the diagonal of the modified tridiagonal system.
 	bb[n-1] = b[n-1] - alpha * beta / gamma;
 	for (int i = 1; i < n-1; i++)
@@ -103,11 +104,20 @@ bool TriDiagonal<Real>::solveCyclic(const Real* a, const Real* b, const Real* c,
 		if (result)
 		{
 			// Form v · x / (1 + v · z).
-			Real fact = (x[0] + beta * x[n-1] / gamma) / (Real(1) + z[0] + beta * z[n-1] / gamma);
+			Real denom = Real(1) + z[0] + beta * z[n-1] / gamma;
+			if (denom == Real(0))
+			{
+				// Singular Matrix
+				result = false;
+			}
+			else
+			{
+				Real fact = (x[0] + beta * x[n-1] / gamma) / denom;
 
-			// Now get the solution vector x
-			for (int i = 0; i < n; i++)
-				x[i] -= fact * z[i];
+				// Now get the solution vector x
+				for (int i = 0; i < n; i++)
+					x[i] -= fact * z[i];
+			}
 		}
 	}
 	
-- 
2.43.0


From c1431f1080bd058bd0a2216a20b570de56dd0a3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:07 +0000
Subject: [PATCH 23/24] fix: Gauss-Jordan pivot search in the precision of the
 matrix

---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index 918aaef..9af6b83 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -165,9 +165,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 				{
 					if (ipiv[k] == -1)
 					{
-						if (fabsf(a[j*n+k]) >= big)
+						if (MATHLIB_NS::abs(a[j*n+k]) >= big)
 						{
-							big = fabsf(a[j*n+k]);
+							big = MATHLIB_NS::abs(a[j*n+k]);
 							irow = j;
 							icol = k;
 						}
-- 
2.43.0


From f94cb071a39e88d5a072b394f9afd9d38385dcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:43 +0000
Subject: [PATCH 24/24] fix: Gauss-Jordan elimination leaves the inverse in the
 matrix, as documented

---
 libs/mathlib/include/impl/linearequations.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libs/mathlib/include/impl/linearequations.h b/libs/mathlib/include/impl/linearequations.h
index 9af6b83..b406c40 100644
--- a/libs/mathlib/include/impl/linearequations.h
+++ b/libs/mathlib/include/impl/linearequations.h
@@ -212,9 +212,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 
 		// Normalize row
 		pivinv = Real(1) / a[icol*n+icol];
+		a[icol*n+icol] = Real(1);
 		for (l = 0; l < n; l++)
 			a[icol*n+l] *= pivinv;
-		a[icol*n+icol] = Real(1);
 		for (l = 0; l < m; l++)
 			b[icol*m+l] *= pivinv;
 
@@ -225,9 +225,9 @@ bool GaussJordan<Real>::solve(Real* a, int n, Real* b, int m)
 			{
 				// ...except for the pivot one, of course.
 				dum = a[ll*n+icol];
+				a[ll*n+icol] = Real(0);
 				for (l = 0; l < n; l++)
 					a[ll*n+l] -= a[icol*n+l]*dum;
-				a[ll*n+icol] = Real(0);
 				for (l = 0; l < m; l++)
 					b[ll*m+l] -= b[icol*m+l]*dum;
 			}
-- 
2.43.0

