// C20: matrix, quaternion and vector algebra against a double-precision reference.
#include "mon.h"
#include "FCollada.h"
#include "FMath/FMath.h"
#include "FMath/FMMatrix33.h"
#include "FMath/FMMatrix44.h"
#include "FMath/FMQuaternion.h"
#include "FMath/FMColor.h"
#include "FMath/FMAngleAxis.h"
#include "FMath/FMLookAt.h"
#include "FMath/FMSkew.h"
#include "FMath/FMVolume.h"
#include "FMath/FMSort.h"

static float comp(const FMVector4& v, int i) { return i == 0 ? v.x : i == 1 ? v.y : i == 2 ? v.z : v.w; }


namespace
{
	struct D4 { double a[4][4]; };   // a[row][col]
	D4 ident() { D4 r = {}; for (int i = 0; i < 4; ++i) r.a[i][i] = 1; return r; }
	D4 of(const FMMatrix44& m) { D4 r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.a[j][i] = m[i][j]; return r; }
	FMMatrix44 to(const D4& d) { float f[16]; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) f[i * 4 + j] = (float) d.a[i][j]; return FMMatrix44(f); }
	D4 mul(const D4& x, const D4& y) { D4 r = {}; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) for (int k = 0; k < 4; ++k) r.a[i][j] += x.a[i][k] * y.a[k][j]; return r; }
	D4 transpose(const D4& x) { D4 r; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) r.a[i][j] = x.a[j][i]; return r; }
	D4 translation(double x, double y, double z) { D4 r = ident(); r.a[0][3] = x; r.a[1][3] = y; r.a[2][3] = z; return r; }
	D4 scaling(double x, double y, double z) { D4 r = ident(); r.a[0][0] = x; r.a[1][1] = y; r.a[2][2] = z; return r; }
	D4 rotation(double x, double y, double z, double t)
	{
		double l = sqrt(x * x + y * y + z * z); x /= l; y /= l; z /= l; double c = cos(t), s = sin(t), k = 1 - c; D4 r = ident();
		r.a[0][0] = c + x * x * k; r.a[0][1] = x * y * k - z * s; r.a[0][2] = x * z * k + y * s;
		r.a[1][0] = y * x * k + z * s; r.a[1][1] = c + y * y * k; r.a[1][2] = y * z * k - x * s;
		r.a[2][0] = z * x * k - y * s; r.a[2][1] = z * y * k + x * s; r.a[2][2] = c + z * z * k;
		return r;
	}
	double det(D4 x)
	{
		double d = 1;
		for (int i = 0; i < 4; ++i)
		{
			int p = i; for (int k = i; k < 4; ++k) if (fabs(x.a[k][i]) > fabs(x.a[p][i])) p = k;
			if (x.a[p][i] == 0) return 0;
			if (p != i) { std::swap(x.a[p], x.a[i]); d = -d; }
			d *= x.a[i][i];
			for (int k = i + 1; k < 4; ++k) { double f = x.a[k][i] / x.a[i][i]; for (int j = i; j < 4; ++j) x.a[k][j] -= f * x.a[i][j]; }
		}
		return d;
	}
	double maxAbs(const D4& x) { double m = 0; for (auto& r : x.a) for (double v : r) m = std::max(m, fabs(v)); return m; }
	double diff(const D4& x, const D4& y) { double m = 0; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { double d = fabs(x.a[i][j] - y.a[i][j]); if (!(d <= 1e300)) return 1e300; m = std::max(m, d); } return m; }
	double diff3(const FMVector3& v, double x, double y, double z) { double m = std::max(fabs(v.x - x), std::max(fabs(v.y - y), fabs(v.z - z))); return m == m && fabs(v.x) < 1e300 && v.y == v.y && v.z == v.z ? m : 1e300; }
	double angleOf(Rng& r)
	{
		const double pi = 3.14159265358979323846;
		switch (r.below(5)) { case 0: return pi / 2 * r.range(-4, 4); case 1: return pi / 2 * r.range(-4, 4) + (r.unit() - 0.5) * 1e-3; case 2: return (r.unit() - 0.5) * 1e-3; default: return (r.unit() - 0.5) * 4 * pi; }
	}
	void axisOf(Rng& r, double* a)
	{
		do { for (int i = 0; i < 3; ++i) a[i] = r.chance(25) ? (double) r.range(-1, 1) : r.unit() * 2 - 1; } while (a[0] * a[0] + a[1] * a[1] + a[2] * a[2] < 0.05);
	}
	FMVector3 unitAxis(const double* a) { double l = sqrt(a[0] * a[0] + a[1] * a[1] + a[2] * a[2]); return FMVector3((float) (a[0] / l), (float) (a[1] / l), (float) (a[2] / l)); }
	double sc(Rng& r) { double s = pow(10.0, r.unit() * 4 - 2); return r.chance(25) ? 1.0 : s; }
	D4 fromQuat(const FMQuaternion& q)
	{
		double n = (double) q.x * q.x + (double) q.y * q.y + (double) q.z * q.z + (double) q.w * q.w, s = 2 / n, x = q.x, y = q.y, z = q.z, w = q.w; D4 r = ident();
		r.a[0][0] = 1 - s * (y * y + z * z); r.a[0][1] = s * (x * y - z * w); r.a[0][2] = s * (x * z + y * w);
		r.a[1][0] = s * (x * y + z * w); r.a[1][1] = 1 - s * (x * x + z * z); r.a[1][2] = s * (y * z - x * w);
		r.a[2][0] = s * (x * z - y * w); r.a[2][1] = s * (y * z + x * w); r.a[2][2] = 1 - s * (x * x + y * y);
		return r;
	}
}

static void matrices(Rng& r)
{
	double ax[3]; axisOf(r, ax); double t = angleOf(r);
	D4 R = rotation(ax[0], ax[1], ax[2], t);
	CHECK(diff(of(FMMatrix44::AxisRotationMatrix(FMVector3((float) ax[0], (float) ax[1], (float) ax[2]), (float) t)), R) < 1e-4, "matrix:axis-rotation", "rotation about (%g,%g,%g) by %g is off", ax[0], ax[1], ax[2], t);
	CHECK(diff(of(FMMatrix44::XAxisRotationMatrix((float) t)), rotation(1, 0, 0, t)) < 1e-5, "matrix:x-rotation", "angle %g", t);
	CHECK(diff(of(FMMatrix44::YAxisRotationMatrix((float) t)), rotation(0, 1, 0, t)) < 1e-5, "matrix:y-rotation", "angle %g", t);
	CHECK(diff(of(FMMatrix44::ZAxisRotationMatrix((float) t)), rotation(0, 0, 1, t)) < 1e-5, "matrix:z-rotation", "angle %g", t);
	double tx = r.flt(-50, 50), ty = r.flt(-50, 50), tz = r.flt(-50, 50), s0 = sc(r);
	double sx = s0 * (0.5 + r.unit()), sy = s0 * (0.5 + r.unit()), sz = s0 * (0.5 + r.unit()); if (r.chance(30)) sx = -sx; if (r.chance(20)) sy = -sy;
	FMVector3 T((float) tx, (float) ty, (float) tz), SV((float) sx, (float) sy, (float) sz);
	CHECK(diff(of(FMMatrix44::TranslationMatrix(T)), translation(T.x, T.y, T.z)) == 0, "matrix:translation", "(%g,%g,%g)", tx, ty, tz);
	CHECK(diff(of(FMMatrix44::ScaleMatrix(SV)), scaling(SV.x, SV.y, SV.z)) == 0, "matrix:scale", "(%g,%g,%g)", sx, sy, sz);
	D4 A = mul(translation(tx, ty, tz), mul(R, scaling(sx, sy, sz)));
	if (r.chance(30)) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) A.a[i][j] += s0 * 0.1 * (r.unit() - 0.5);   // shear
	if (r.chance(10)) for (int j = 0; j < 4; ++j) A.a[3][j] = j == 3 ? 1.0 : 0.01 * (r.unit() - 0.5);                      // projective
	FMMatrix44 m = to(A); D4 M = of(m);
	mon::sig(mon::hash(&M, sizeof(M)));
	CHECK(diff(M, A) <= maxAbs(A) * 1e-6, "matrix:set", "the matrix built from an array differs from it");
	{ double d[16]; for (int i = 0; i < 16; ++i) d[i] = A.a[i / 4][i % 4]; FMMatrix44 md(d); CHECK(diff(of(md), A) <= maxAbs(A) * 1e-6, "matrix:set", "the matrix built from doubles differs from them"); md.Set(d); CHECK(diff(of(md), A) <= maxAbs(A) * 1e-6, "matrix:set", "Set(double*) differs"); }
	CHECK(diff(of(m.Transposed()), transpose(M)) == 0, "matrix:transpose", "transpose is wrong");
	double ax2[3]; axisOf(r, ax2);
	D4 B = mul(translation(r.flt(-5, 5), r.flt(-5, 5), r.flt(-5, 5)), mul(rotation(ax2[0], ax2[1], ax2[2], angleOf(r)), scaling(sc(r), sc(r), sc(r))));
	FMMatrix44 n = to(B); D4 N = of(n);
	D4 P = mul(M, N); double big = 4 * maxAbs(M) * maxAbs(N);
	CHECK(diff(of(m * n), P) <= big * 1e-6, "matrix:product", "the product is off by %g", diff(of(m * n), P));
	{ FMMatrix44 c = m; c *= n; CHECK(diff(of(c), P) <= big * 1e-6, "matrix:product", "*= is off"); c = m; c *= c; CHECK(diff(of(c), mul(M, M)) <= 4 * maxAbs(M) * maxAbs(M) * 1e-6, "matrix:product", "m *= m is off"); }
	{ float f = r.flt(-3, 3); D4 F = M; for (auto& row : F.a) for (double& v : row) v *= f; CHECK(diff(of(f * m), F) <= maxAbs(F) * 1e-6, "matrix:scalar", "scalar product"); }
	double D = det(M), scale3 = fabs(sx * sy * sz);
	CHECK(fabs(m.Determinant() - D) <= 1e-4 * std::max(scale3, fabs(D)), "matrix:determinant", "determinant %g, expected %g", m.Determinant(), D);
	if (scale3 > 1e-5 && fabs(D) > 0.1 * scale3)
	{
		FMMatrix44 inv = m.Inverted(); D4 I = of(inv);
		double cond = maxAbs(M) * maxAbs(I);
		CHECK(diff(mul(M, I), ident()) <= 1e-5 * (1 + cond), "matrix:inverse", "M * M^-1 is off by %g (condition %g, determinant %g)", diff(mul(M, I), ident()), cond, D);
		if (cond < 1e3) CHECK(diff(of(inv.Inverted()), M) <= 1e-4 * (1 + cond) * maxAbs(M), "matrix:inverse-twice", "inverting twice is off");
		mon::hit("inverses");
	}
	// Points and vectors.
	double v[4]; for (double& x : v) x = (float) r.flt(-20, 20);
	FMVector3 p3((float) v[0], (float) v[1], (float) v[2]); FMVector4 p4((float) v[0], (float) v[1], (float) v[2], (float) v[3]);
	double row[4], rowv[3], row4[4]; for (int i = 0; i < 4; ++i) { row[i] = M.a[i][3]; row4[i] = M.a[i][3] * v[3]; for (int k = 0; k < 3; ++k) { row[i] += M.a[i][k] * v[k]; row4[i] += M.a[i][k] * v[k]; } if (i < 3) rowv[i] = row[i] - M.a[i][3]; }
	double tol = 100 * maxAbs(M) * 1e-6;
	CHECK(diff3(m.TransformCoordinate(p3), row[0], row[1], row[2]) <= tol, "matrix:transform-point", "a transformed point is off");
	CHECK(diff3(m.TransformVector(p3), rowv[0], rowv[1], rowv[2]) <= tol, "matrix:transform-vector", "a transformed vector is off");
	FMVector4 o1 = m.TransformCoordinate(p4), o2 = m * p4;
	for (int i = 0; i < 4; ++i) { CHECK(fabs(comp(o1, i) - row4[i]) <= tol, "matrix:transform4", "component %d", i); CHECK(fabs(comp(o2, i) - row4[i]) <= tol, "matrix:transform4", "operator* component %d", i); }
	CHECK(diff3(m.GetTranslation(), M.a[0][3], M.a[1][3], M.a[2][3]) == 0, "matrix:translation-part", "GetTranslation");
	for (int a = 0; a < 3; ++a) CHECK(diff3(m.GetAxis((FMath::AXIS) a), M.a[0][a], M.a[1][a], M.a[2][a]) == 0, "matrix:axis-part", "GetAxis(%d)", a);
	{ FMMatrix44 c = m; c.SetTranslation(T); D4 E = M; E.a[0][3] = T.x; E.a[1][3] = T.y; E.a[2][3] = T.z; CHECK(diff(of(c), E) == 0, "matrix:set-translation", "SetTranslation disturbs the rest"); }
	CHECK(IsEquivalent(m, m) && m == m, "matrix:equal", "a matrix differs from itself");
	{ FMMatrix44 c = m; int i = (int) r.below(4), j = (int) r.below(4); c[i][j] += (float) (0.01 + fabs(c[i][j]) * 0.01); CHECK(!IsEquivalent(c, m), "matrix:equal", "a changed matrix counts as equal (entry %d,%d)", i, j); }
	// Decomposition.
	D4 Rr = mul(rotation(0, 0, 1, angleOf(r)), mul(rotation(0, 1, 0, angleOf(r)), rotation(1, 0, 0, angleOf(r))));
	double sg = r.chance(30) ? -1 : 1; double d1 = sc(r), d2 = sc(r), d3 = sc(r);
	D4 C = mul(translation(tx, ty, tz), mul(Rr, scaling(sg * d1, sg * d2, sg * d3)));
	FMMatrix44 c = to(C); FMVector3 os, orot, ot; float inv; c.Decompose(os, orot, ot, inv);
	CHECK(fabs(os.x - d1) <= 1e-4 * d1 && fabs(os.y - d2) <= 1e-4 * d2 && fabs(os.z - d3) <= 1e-4 * d3, "decompose:scale", "scale (%g,%g,%g), expected (%g,%g,%g)", os.x, os.y, os.z, d1, d2, d3);
	CHECK(inv == (float) sg, "decompose:inverted", "inverted is %g, expected %g", inv, sg);
	CHECK(diff3(ot, C.a[0][3], C.a[1][3], C.a[2][3]) < 1e-4, "decompose:translation", "translation");
	FMMatrix44 back; back.Recompose(os, orot, ot, inv);
	// the decomposition may snap to the pole within about 0.015 rad
	CHECK(diff(of(back), C) <= 0.03 * std::max(d1, std::max(d2, d3)) + 1e-3, "decompose:recompose", "decomposing and recomposing is off by %g (scale %g %g %g)", diff(of(back), C), d1, d2, d3);
	FMMatrix44 again; again.Recompose(FMVector3((float) d1, (float) d2, (float) d3), FMVector3((float) 0.3, (float) 0.4, (float) 0.5), T, (float) sg);
	CHECK(diff(of(again), mul(translation(T.x, T.y, T.z), mul(mul(rotation(0, 0, 1, 0.3f * 0 + 0.5), mul(rotation(0, 1, 0, 0.4), rotation(1, 0, 0, 0.3))), scaling(sg * d1, sg * d2, sg * d3)))) <= 1e-4 * (1 + std::max(d1, std::max(d2, d3))), "recompose", "recomposing differs from translation * Rz * Ry * Rx * scale");
	// Euler
	double e[3] = { angleOf(r), angleOf(r), angleOf(r) };
	CHECK(diff(of(FMMatrix44::EulerRotationMatrix(FMVector3((float) e[0], (float) e[1], (float) e[2]))), mul(rotation(1, 0, 0, e[0]), mul(rotation(0, 1, 0, e[1]), rotation(0, 0, 1, e[2])))) < 4e-4, "matrix:euler", "Euler rotation (%g,%g,%g)", e[0], e[1], e[2]);
	// Look-at
	double f[3], u[3]; axisOf(r, f); axisOf(r, u);
	if (r.chance(25)) for (int i = 0; i < 3; ++i) u[i] = f[i] * (r.chance(50) ? 1 : -1) * (r.chance(50) ? 1 : 2);   // parallel
	FMVector3 eye = T, target((float) (tx + f[0] * 3), (float) (ty + f[1] * 3), (float) (tz + f[2] * 3)), up((float) u[0], (float) u[1], (float) u[2]);
	FMMatrix44 la = FMMatrix44::LookAtMatrix(eye, target, r.chance(50) ? up.Normalize() : up); D4 L = of(la);
	double fl = sqrt(f[0] * f[0] + f[1] * f[1] + f[2] * f[2]);
	for (int i = 0; i < 3; ++i) CHECK(fabs(-L.a[i][2] - f[i] / fl) < 1e-3, "look-at:forward", "the view axis is off");
	CHECK(diff3(eye, L.a[0][3], L.a[1][3], L.a[2][3]) < 1e-5, "look-at:eye", "the position is off");
	D4 L3 = L; for (int i = 0; i < 3; ++i) L3.a[i][3] = 0;
	CHECK(diff(mul(L3, transpose(L3)), ident()) < 2e-3, "look-at:orthonormal", "eye-target (%g,%g,%g), up (%g,%g,%g): the axes are not orthonormal", f[0], f[1], f[2], u[0], u[1], u[2]);
	CHECK(fabs(det(L3) - 1) < 3e-3, "look-at:handedness", "determinant %g", det(L3));
	double dotuf = (u[0] * f[0] + u[1] * f[1] + u[2] * f[2]) / fl / sqrt(u[0] * u[0] + u[1] * u[1] + u[2] * u[2]);
	if (fabs(dotuf) < 0.99) CHECK(L.a[0][1] * u[0] + L.a[1][1] * u[1] + L.a[2][1] * u[2] > 0, "look-at:up", "the up axis points down");
	// 3x3
	float q9[9]; FMMatrix33 w3((float*) (memset(q9, 0, sizeof(q9)), q9)); double W[3][3]; double ws = r.chance(40) ? 0.01 : 1;
	do { for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { W[i][j] = (float) (ws * (r.unit() * 2 - 1)); w3[i][j] = (float) W[i][j]; } D = W[0][0] * (W[1][1] * W[2][2] - W[1][2] * W[2][1]) - W[0][1] * (W[1][0] * W[2][2] - W[1][2] * W[2][0]) + W[0][2] * (W[1][0] * W[2][1] - W[1][1] * W[2][0]); } while (fabs(D) < 0.1 * ws * ws * ws);
	FMMatrix33 wi = w3.Inverted(), wt = w3.Transposed(), wp = w3 * wi;
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { CHECK(wt[i][j] == w3[j][i], "matrix33:transpose", "entry %d,%d", i, j); CHECK(fabs(wp[i][j] - (i == j)) < 1e-3, "matrix33:inverse", "M * M^-1 has %g at %d,%d (determinant %g)", wp[i][j], i, j, D); }
	float ang = (float) angleOf(r), ux = r.flt(-3, 3), uy = r.flt(-3, 3);
	FMMatrix33 c3 = FMMatrix33::TranslationMatrix(ux, uy) * FMMatrix33::RotationMatrix(ang) * FMMatrix33::ScaleMatrix(FMVector2(2.0f, 3.0f));
	double ca = cos(ang), sa = sin(ang), want3[3][3] = { { 2 * ca, -2 * sa, 0 }, { 3 * sa, 3 * ca, 0 }, { ux, uy, 1 } };
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) CHECK(fabs(c3[i][j] - want3[i][j]) < 1e-4, "matrix33:compose", "translation * rotation * scale has %g at %d,%d, expected %g", c3[i][j], i, j, want3[i][j]);
	mon::nontrivial(); mon::hit("matrix_cases");
}

static void quaternions(Rng& r)
{
	double ax[3], bx[3]; axisOf(r, ax); axisOf(r, bx); double t = angleOf(r), t2 = angleOf(r);
	FMVector3 A = unitAxis(ax), B = unitAxis(bx);
	FMQuaternion q(A, (float) t), p(B, (float) t2);
	mon::sig(mon::hash(&q, 16)); mon::sig(mon::hash(&p, 16));
	D4 Q = rotation(ax[0], ax[1], ax[2], t), P = rotation(bx[0], bx[1], bx[2], t2);
	CHECK(fabs(q.Length() - 1) < 1e-5, "quaternion:unit", "length %g", q.Length());
	CHECK(diff(of(q.ToMatrix()), Q) < 3e-4, "quaternion:matrix", "axis (%g,%g,%g) angle %g is off by %g", ax[0], ax[1], ax[2], t, diff(of(q.ToMatrix()), Q));
	{ FMMatrix44 m = FMMatrix44::TranslationMatrix(FMVector3(1, 2, 3)); q.SetToMatrix(m); D4 want = Q; CHECK(diff3(m.GetTranslation(), 1, 2, 3) == 0 || q == FMQuaternion::Identity, "quaternion:set-matrix", "SetToMatrix changes the position"); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) CHECK(fabs(m[j][i] - want.a[i][j]) < 3e-4, "quaternion:set-matrix", "SetToMatrix differs"); }
	// the library's product applies its left operand last on the inverse side: matrix(p*q) = matrix(q) * matrix(p)
	CHECK(diff(fromQuat(q * p), mul(P, Q)) < 1e-4, "quaternion:product", "the product is off by %g", diff(fromQuat(q * p), mul(P, Q)));
	{ FMQuaternion c = q; c *= p; CHECK(diff(fromQuat(c), mul(P, Q)) < 1e-4, "quaternion:product", "*= is off"); }
	CHECK(diff(fromQuat(~q), transpose(Q)) < 1e-4, "quaternion:conjugate", "the conjugate is not the inverse");
	FMVector3 v(r.flt(-5, 5), r.flt(-5, 5), r.flt(-5, 5)), qv = q * v; D4 QT = transpose(Q);
	CHECK(diff3(qv, QT.a[0][0] * v.x + QT.a[0][1] * v.y + QT.a[0][2] * v.z, QT.a[1][0] * v.x + QT.a[1][1] * v.y + QT.a[1][2] * v.z, QT.a[2][0] * v.x + QT.a[2][1] * v.y + QT.a[2][2] * v.z) < 1e-3, "quaternion:vector", "a rotated vector is off");
	FMVector3 axis; float angle; q.ToAngleAxis(axis, angle);
	CHECK(diff(rotation(axis.x, axis.y, axis.z, angle), Q) < 3e-3, "quaternion:angle-axis", "axis-angle (%g,%g,%g | %g) gives back (%g,%g,%g | %g)", A.x, A.y, A.z, t, axis.x, axis.y, axis.z, angle);
	{ FMQuaternion pq = q * (~q); FMVector3 a; float g; pq.ToAngleAxis(a, g); CHECK(g == g && fabs(remainder(g, 2 * 3.14159265358979)) < 3e-3, "quaternion:angle-axis", "q * ~q has the angle %g", g); }
	// matrices back to quaternions, including rounded ones
	D4 Qn = Q; if (r.chance(50)) for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) Qn.a[i][j] += (r.unit() - 0.5) * 4e-7;
	FMQuaternion mq = FMQuaternion::MatrixRotationQuaternion(to(Qn));
	CHECK(fabs(mq.Length() - 1) < (fabs(mq.w) < 0.02 ? 3e-2 : 2e-3) && diff(fromQuat(mq), Q) < 5e-3, "quaternion:from-matrix", "rotation about (%g,%g,%g) by %g becomes (%g,%g,%g,%g), off by %g", ax[0], ax[1], ax[2], t, mq.x, mq.y, mq.z, mq.w, diff(fromQuat(mq), Q));
	// Euler
	double e[3] = { angleOf(r), angleOf(r), angleOf(r) };
	D4 E = mul(rotation(1, 0, 0, e[0]), mul(rotation(0, 1, 0, e[1]), rotation(0, 0, 1, e[2])));
	FMQuaternion eq = FMQuaternion::EulerRotationQuaternion((float) e[0], (float) e[1], (float) e[2]);
	CHECK(diff(fromQuat(eq), E) < 3e-4, "quaternion:from-euler", "(%g,%g,%g)", e[0], e[1], e[2]);
	FMVector3 back = eq.ToEuler();
	D4 E2 = mul(rotation(1, 0, 0, back.x), mul(rotation(0, 1, 0, back.y), rotation(0, 0, 1, back.z)));
	CHECK(diff(E2, E) < 0.03, "quaternion:to-euler", "(%g,%g,%g) becomes (%g,%g,%g), off by %g", e[0], e[1], e[2], back.x, back.y, back.z, diff(E2, E));
	FMVector3 prev((float) e[0] + r.flt(-0.2f, 0.2f), (float) e[1] + r.flt(-0.2f, 0.2f), (float) e[2] + r.flt(-0.2f, 0.2f)), near = eq.ToEuler(&prev);
	D4 E3 = mul(rotation(1, 0, 0, near.x), mul(rotation(0, 1, 0, near.y), rotation(0, 0, 1, near.z)));
	CHECK(diff(E3, E) < 0.03, "quaternion:to-euler-near", "the angles near the previous ones are another rotation, off by %g", diff(E3, E));
	if (fabs(sin(e[1])) < 0.9) { double d = fabs(near.x - e[0]) + fabs(near.y - e[1]) + fabs(near.z - e[2]); CHECK(d < 0.05, "quaternion:to-euler-near", "(%g,%g,%g) near (%g,%g,%g) becomes (%g,%g,%g)", e[0], e[1], e[2], prev.x, prev.y, prev.z, near.x, near.y, near.z); }
	// interpolation
	double dot = (double) q.x * p.x + (double) q.y * p.y + (double) q.z * p.z + (double) q.w * p.w;
	if (dot > -0.999)
	{
		float u = r.chance(20) ? (float) r.below(2) : r.flt(0, 1);
		FMQuaternion s = q.slerp(p, u);
		CHECK(fabs(s.Length() - 1) < 1e-3, "slerp:unit", "length %g", s.Length());
		double th = acos(std::min(1.0, std::max(-1.0, dot))), a = th < 1e-6 ? 1 - u : sin((1 - u) * th) / sin(th), b = th < 1e-6 ? u : sin(u * th) / sin(th);
		double err = 0; const float* qs = &q.x; const float* ps = &p.x; const float* ss = &s.x; for (int i = 0; i < 4; ++i) err = std::max(err, fabs(a * qs[i] + b * ps[i] - ss[i]));
		CHECK(err < 0.02, "slerp:value", "slerp at %g between quaternions with dot %g is off by %g", u, dot, err);
		mon::hit("slerps");
	}
	{ FMQuaternion s = q.slerp(q, r.flt(0, 1)); CHECK(s.x == s.x && diff(fromQuat(s), Q) < 3e-2, "slerp:self", "slerp to itself is off"); }
	FMQuaternion n = q; n.x *= 3; n.y *= 3; n.z *= 3; n.w *= 3; CHECK(fabs(n.Normalize().Length() - 1) < 1e-5, "quaternion:normalize", "Normalize"); n.NormalizeIt(); CHECK(diff(fromQuat(n), Q) < 1e-4 && fabs(n.LengthSquared() - 1) < 1e-5, "quaternion:normalize", "NormalizeIt");
	mon::nontrivial(); mon::hit("quaternion_cases");
}

static void vectors(Rng& r)
{
	float c[12]; for (float& x : c) x = r.chance(10) ? 0.0f : r.flt(-100, 100);
	mon::sig(mon::hash(c, sizeof(c)));
	FMVector3 a(c), b(c, 3); FMVector4 f(c, 4), g(c, 8); FMVector2 h(c[0], c[1]), k(c[2], c[3]); float s = c[11];
	CHECK(diff3(a ^ b, (double) c[1] * c[5] - (double) c[2] * c[4], (double) c[2] * c[3] - (double) c[0] * c[5], (double) c[0] * c[4] - (double) c[1] * c[3]) < 0.02, "vector:cross", "cross product");
	CHECK(fabs(a * b - ((double) c[0] * c[3] + (double) c[1] * c[4] + (double) c[2] * c[5])) < 0.02, "vector:dot", "dot product");
	CHECK(diff3(a + b, c[0] + c[3], c[1] + c[4], c[2] + c[5]) < 1e-4 && diff3(a - b, c[0] - c[3], c[1] - c[4], c[2] - c[5]) < 1e-4 && diff3(-a, -c[0], -c[1], -c[2]) == 0, "vector:sum", "sum, difference or negation");
	CHECK(diff3(a * s, c[0] * s, c[1] * s, c[2] * s) == 0 && diff3(s * a, c[0] * s, c[1] * s, c[2] * s) == 0, "vector:scale", "scalar product");
	if (s != 0) { CHECK(diff3(a / s, c[0] / s, c[1] / s, c[2] / s) == 0, "vector:scale", "scalar quotient"); FMVector3 z = a; z /= s; CHECK(diff3(z, c[0] / s, c[1] / s, c[2] / s) == 0, "vector:scale", "/="); }
	{ FMVector3 z = a; z += b; CHECK(diff3(z, a.x + b.x, a.y + b.y, a.z + b.z) == 0, "vector:sum", "+="); z -= b; z = a; z -= b; CHECK(diff3(z, a.x - b.x, a.y - b.y, a.z - b.z) == 0, "vector:sum", "-="); z = a; z *= s; CHECK(diff3(z, a.x * s, a.y * s, a.z * s) == 0, "vector:scale", "*="); }
	double L2 = (double) a.x * a.x + (double) a.y * a.y + (double) a.z * a.z;
	CHECK(fabs(a.LengthSquared() - L2) <= 1e-5 * (1 + L2) && fabs(a.Length() - sqrt(L2)) <= 1e-4 * (1 + sqrt(L2)), "vector:length", "length %g, expected %g", a.Length(), sqrt(L2));
	if (L2 > 1e-6) { double l = sqrt(L2); CHECK(diff3(a.Normalize(), a.x / l, a.y / l, a.z / l) < 1e-5, "vector:normalize", "Normalize"); FMVector3 z = a; z.NormalizeIt(); CHECK(diff3(z, a.x / l, a.y / l, a.z / l) < 1e-5, "vector:normalize", "NormalizeIt"); }
	if (b.LengthSquared() > 1) { double w = ((double) a.x * b.x + (double) a.y * b.y + (double) a.z * b.z) / ((double) b.x * b.x + (double) b.y * b.y + (double) b.z * b.z); FMVector3 z = a; z.Project(b); CHECK(diff3(a.Projected(b), w * b.x, w * b.y, w * b.z) < 0.01 && diff3(z, w * b.x, w * b.y, w * b.z) < 0.01, "vector:project", "projection"); }
	{ FMVector3 z = a; z.ComponentMinimum(b); CHECK(diff3(z, std::max(a.x, b.x), std::max(a.y, b.y), std::max(a.z, b.z)) == 0, "vector:clamp", "raising to a minimum"); z = a; z.ComponentMaximum(b); CHECK(diff3(z, std::min(a.x, b.x), std::min(a.y, b.y), std::min(a.z, b.z)) == 0, "vector:clamp", "lowering to a maximum");
	  CHECK(a.ComponentMinimum() == std::min(fabsf(a.x), std::min(fabsf(a.y), fabsf(a.z))) && a.ComponentMaximum() == std::max(fabsf(a.x), std::max(fabsf(a.y), fabsf(a.z))), "vector:component", "smallest or largest component"); }
	CHECK(IsEquivalent(a, a), "vector:equal", "a vector differs from itself"); { FMVector3 z = a; switch (r.below(3)) { case 0: z.x += 0.01f; break; case 1: z.y += 0.01f; break; default: z.z += 0.01f; } CHECK(!IsEquivalent(a, z) && !(a == z), "vector:equal", "a changed vector counts as equal"); }
	{ FMVector4 sm = f + g, df = f - g, m1 = f * s, m2 = s * f; for (int i = 0; i < 4; ++i) CHECK(comp(sm, i) == c[4 + i] + c[8 + i] && comp(df, i) == c[4 + i] - c[8 + i] && comp(m1, i) == c[4 + i] * s && comp(m2, i) == c[4 + i] * s, "vector4", "component %d", i);
	  CHECK(fabs(f * g - ((double) c[4] * c[8] + (double) c[5] * c[9] + (double) c[6] * c[10] + (double) c[7] * c[11])) < 0.05, "vector4:dot", "dot product"); FMVector4 z = f; switch (r.below(4)) { case 0: z.x += 0.01f; break; case 1: z.y += 0.01f; break; case 2: z.z += 0.01f; break; default: z.w += 0.01f; } CHECK(IsEquivalent(f, f) && !IsEquivalent(f, z), "vector4:equal", "equality"); }
	{ FMVector2 sm = h + k, df = h - k; CHECK(sm.u == c[0] + c[2] && sm.v == c[1] + c[3] && df.u == c[0] - c[2] && df.v == c[1] - c[3] && fabs(h * k - ((double) c[0] * c[2] + (double) c[1] * c[3])) < 0.02, "vector2", "arithmetic"); FMVector2 z = h; if (r.chance(50)) z.u += 0.01f; else z.v += 0.01f; CHECK(IsEquivalent(h, h) && !IsEquivalent(h, z), "vector2:equal", "equality"); if (h.LengthSquared() > 1e-6) CHECK(fabs(h.Normalize().Length() - 1) < 1e-4, "vector2:normalize", "Normalize"); }
	// Colours
	{
		FMColor col((uint8) r.below(256), (uint8) r.below(256), (uint8) r.below(256), (uint8) r.below(256)); float o[4]; col.ToFloats(o, 4);
		for (int i = 0; i < 4; ++i) CHECK(fabs(o[i] - (i == 0 ? col.r : i == 1 ? col.g : i == 2 ? col.b : col.a) / 255.0) < 1e-5, "color:floats", "component %d", i);
		FMColor b4(o, 4), b3(o, 3), v4(FMVector4(o[0], o[1], o[2], o[3]));
		CHECK(abs(b4.r - col.r) <= 1 && abs(b4.g - col.g) <= 1 && abs(b4.b - col.b) <= 1 && abs(b4.a - col.a) <= 1, "color:round-trip", "(%d,%d,%d,%d) becomes (%d,%d,%d,%d)", col.r, col.g, col.b, col.a, b4.r, b4.g, b4.b, b4.a);
		CHECK(b3.r == b4.r && b3.g == b4.g && b3.b == b4.b && b3.a == 255 && v4.r == b4.r && v4.a == b4.a && v4.g == b4.g && v4.b == b4.b, "color:constructors", "the constructors differ");
		FMVector4 cv(col); CHECK(fabs(cv.x - o[0]) < 1e-6 && fabs(cv.y - o[1]) < 1e-6 && fabs(cv.z - o[2]) < 1e-6 && fabs(cv.w - o[3]) < 1e-6, "color:vector", "FMVector4(FMColor)");
		uint32 hex = (uint32) r.next(); FMColor hx(hex); CHECK((((uint32) hx.r << 24) | ((uint32) hx.g << 16) | ((uint32) hx.b << 8) | hx.a) == hex, "color:hex", "hex"); CHECK(hx[0] == hx.r && hx[1] == hx.g && hx[2] == hx.b && hx[3] == hx.a, "color:index", "operator[]");
		// HSV
		FMVector4 rgb(r.flt(0, 1), r.flt(0, 1), r.flt(0, 1), 1.0f); if (r.chance(20)) rgb.y = rgb.z = rgb.x; if (r.chance(20)) rgb.y = rgb.x; if (r.chance(5)) rgb = FMVector4(0, 0, 0, 1);
		FMVector3 hsv = rgb.ToHSVColor(); FMVector4 back = FMVector4::FromHSVColor(hsv.x, hsv.y, hsv.z);
		CHECK(hsv.x >= 0 && hsv.x <= 1 && hsv.y >= 0 && hsv.y <= 1, "color:hsv-range", "(%g,%g,%g) has the HSV (%g,%g,%g)", rgb.x, rgb.y, rgb.z, hsv.x, hsv.y, hsv.z);
		CHECK(fabs(back.x - rgb.x) < 2e-3 && fabs(back.y - rgb.y) < 2e-3 && fabs(back.z - rgb.z) < 2e-3, "color:hsv", "(%g,%g,%g) -> HSV (%g,%g,%g) -> (%g,%g,%g)", rgb.x, rgb.y, rgb.z, hsv.x, hsv.y, hsv.z, back.x, back.y, back.z);
	}
	// Volumes
	{
		double R1 = r.flt(0.1f, 10), R2 = r.flt(0.1f, 10), R3 = r.flt(0.1f, 10), H = r.flt(0.1f, 10), pi = 3.14159265358979; FMVector2 r1((float) R1, (float) R2), r2((float) R3, (float) H);
		double ht = r.flt(0.1f, 10);
		#define VOL(e, w, k) { double want = w, got = e; CHECK(fabs(got - want) <= 1e-4 * want, "volume:" k, "%g, expected %g", got, want); }
		VOL(FMVolume::CalculateBoxVolume(FMVector3((float) R1, (float) R2, (float) R3)), 8 * R1 * R2 * R3, "box");
		VOL(FMVolume::CalculateSphereVolume((float) R1), 4.0 / 3 * pi * R1 * R1 * R1, "sphere");
		VOL(FMVolume::CalculateEllipsoidVolume((float) R1, (float) R2, (float) R3), 4.0 / 3 * pi * R1 * R2 * R3, "ellipsoid");
		VOL(FMVolume::CalculateCylinderVolume(r1, (float) ht), pi * R1 * R2 * ht, "cylinder");
		VOL(FMVolume::CalculateCapsuleVolume(r1, (float) ht), pi * R1 * R2 * ht + 4.0 / 3 * pi * R1 * R2 * std::max(R1, R2), "capsule");
		VOL(FMVolume::CalculateConeVolume(r1, (float) ht), pi * R1 * R2 * ht / 3, "cone");
		double sum = 0; int N = 400; for (int i = 0; i < N; ++i) { double u = (i + 0.5) / N; sum += pi * (R1 + (R3 - R1) * u) * (R2 + (H - R2) * u) * ht / N; }
		double got = FMVolume::CalculateTaperedCylinderVolume(r1, r2, (float) ht); CHECK(fabs(got - sum) <= 2e-3 * sum, "volume:tapered-cylinder", "%g, integral %g", got, sum);
	}
	// Angles and scalars
	{ double d = r.flt(-1000, 1000); CHECK(fabs(FMath::RadToDeg(FMath::DegToRad(d)) - d) < 1e-9 && fabs(FMath::DegToRad(d) - d * 3.14159265358979 / 180) < 1e-9, "angle", "degrees"); float lo = r.flt(-5, 0), hi = r.flt(0.5f, 5), x = r.flt(-20, 20); float cl = FMath::Clamp(x, lo, hi); CHECK(cl == (x < lo ? lo : x > hi ? hi : x), "clamp", "clamp(%g,%g,%g) = %g", x, lo, hi, cl);
	  float w = FMath::Wrap(x, lo, hi); CHECK(w >= lo - 1e-4 && w <= hi + 1e-4 && fabs(remainder(w - x, (double) hi - lo)) < 1e-3, "wrap", "wrap(%g,%g,%g) = %g", x, lo, hi, w); CHECK(FMath::Sign(x) == (x >= 0 ? 1.0f : -1.0f), "sign", "Sign(%g)", x);
	  int ilo = r.range(-10, 0), ihi = ilo + r.range(1, 10), iv = r.range(-60, 60), iw = FMath::Wrap(iv, ilo, ihi); CHECK(iw >= ilo && iw <= ihi && (iw - iv) % (ihi - ilo) == 0, "wrap", "wrap(%d,%d,%d) = %d", iv, ilo, ihi, iw); }
	{ FMAngleAxis x(a, s), y(-a, -s), z(a, s + 1); CHECK(x == x && x == y && !(x == z), "angle-axis:equal", "equality"); FMSkew sk(a, b, s), sk2(a, b, s + 1), sk3(b, a, s); CHECK(sk == sk && !(sk == sk2) && (IsEquivalent(a, b) || !(sk == sk3)), "skew:equal", "equality"); FMLookAt l(a, b, FMVector3(f.x, f.y, f.z)), l2(a + FMVector3::One, b, FMVector3(f.x, f.y, f.z)), l3(a, b + FMVector3::One, l.up), l4(a, b, l.up + FMVector3::One); CHECK(l == l && !(l == l2) && !(l == l3) && !(l == l4), "look-at:equal", "equality"); }
	// Sorting
	{
		std::vector<int> d; int n = r.range(0, 60); for (int i = 0; i < n; ++i) d.push_back(r.range(-8, 8)); std::vector<int> w = d; std::sort(w.begin(), w.end());
		std::vector<int> x = d; fm::comparator<int> cmp; cmp.sort(x.data(), x.size()); CHECK(x == w, "sort", "%d integers are not sorted", n);
		std::reverse(w.begin(), w.end()); fm::icomparator<int> icmp; icmp.sort(d.data(), d.size()); CHECK(d == w, "sort:descending", "%d integers are not sorted", n); mon::hit("sorts");
	}
	mon::nontrivial(); mon::hit("vector_cases");
}

PROP(C20, "the case compared matrices, quaternions or vectors with distinct random contents against the reference")
{
	switch (r.below(3)) { case 0: matrices(r); break; case 1: quaternions(r); break; default: vectors(r); }
}
