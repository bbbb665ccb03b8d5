// C21: bounding boxes and spheres. Oracle: exact (double) geometry over the recorded set of everything included.
#include "mon.h"
#include "FCollada.h"
#include "FUtils/FUBoundingBox.h"
#include "FUtils/FUBoundingSphere.h"
#include <vector>
#include <cmath>
#include <cfloat>
using std::vector;

namespace {
struct P3 { double v[3]; };
P3 of(const FMVector3& a) { P3 p = {{a.x, a.y, a.z}}; return p; }
double dist(const P3& a, const P3& b) { double s = 0; for (int i = 0; i < 3; ++i) s += (a.v[i] - b.v[i]) * (a.v[i] - b.v[i]); return sqrt(s); }
FMVector3 pt(Rng& r) {
	static float lim = 0; (void) lim;
	switch (r.below(6)) {
	case 0: return FMVector3((float) r.range(-3, 3), (float) r.range(-3, 3), (float) r.range(-3, 3));
	case 1: return FMVector3(r.flt(-1000, -900), r.flt(900, 1000), r.flt(-0.01f, 0.01f));
	case 2: return FMVector3(r.flt(5, 9), r.flt(5, 9), r.flt(5, 9));
	case 3: return FMVector3(-r.flt(5, 9), -r.flt(5, 9), -r.flt(5, 9));
	default: return FMVector3(r.flt(-20, 20), r.flt(-20, 20), r.flt(-20, 20));
	}
}
struct RefBox { bool any; double lo[3], hi[3]; RefBox() : any(false) { for (int i = 0; i < 3; ++i) { lo[i] = FLT_MAX; hi[i] = -FLT_MAX; } }
	void add(const FMVector3& p) { P3 q = of(p); for (int i = 0; i < 3; ++i) { lo[i] = min(lo[i], q.v[i]); hi[i] = max(hi[i], q.v[i]); } any = true; }
	void add(const RefBox& b) { if (!b.any) return; for (int i = 0; i < 3; ++i) { lo[i] = min(lo[i], b.lo[i]); hi[i] = max(hi[i], b.hi[i]); } any = true; }
};
void same(const FUBoundingBox& b, const RefBox& m, const char* what) {
	CHECK(b.IsValid() == m.any, "box:valid", "%s: IsValid is %d", what, b.IsValid()); if (!m.any) return;
	P3 lo = of(b.GetMin()), hi = of(b.GetMax());
	for (int i = 0; i < 3; ++i) CHECK(lo.v[i] == m.lo[i] && hi.v[i] == m.hi[i], "box:bounds", "%s: axis %d is [%g,%g], the included points span [%g,%g]", what, i, lo.v[i], hi.v[i], m.lo[i], m.hi[i]);
}
FMMatrix44 affine(Rng& r, double& scale) {
	FMMatrix44 m = FMMatrix44::Identity;
	switch (r.below(4)) {
	case 0: m = FMMatrix44::TranslationMatrix(pt(r)); scale = 1; return m;
	case 1: { FMVector3 s(r.flt(-3, 3), r.flt(0.1f, 3), r.flt(-3, 3)); m = FMMatrix44::TranslationMatrix(pt(r)) * FMMatrix44::AxisRotationMatrix(FMVector3(0.6f, 0, 0.8f), r.flt(-7, 7)) * FMMatrix44::ScaleMatrix(s); scale = 3; return m; }
	case 2: { FMVector3 s(r.flt(-3, 3), r.flt(0.1f, 3), r.flt(-3, 3)); m = FMMatrix44::ScaleMatrix(s) * FMMatrix44::AxisRotationMatrix(FMVector3(0.6f, 0, 0.8f), r.flt(-7, 7)) * FMMatrix44::AxisRotationMatrix(FMVector3(0, 1, 0), r.flt(-7, 7)); scale = 3; return m; }
	default: for (int c = 0; c < 4; ++c) for (int k = 0; k < 3; ++k) m.m[c][k] = r.flt(-2, 2); scale = 4; return m;
	}
}
P3 apply(const FMMatrix44& M, const P3& p) { P3 o; for (int k = 0; k < 3; ++k) o.v[k] = M.m[0][k] * p.v[0] + M.m[1][k] * p.v[1] + M.m[2][k] * p.v[2] + M.m[3][k]; return o; }

void boxes(Rng& r) {
	FUBoundingBox b; RefBox m; vector<FMVector3> in; int n = r.range(0, 12);
	same(b, m, "a fresh box");
	for (int i = 0; i < n; ++i) {
		int op = r.below(10);
		if (op < 6) { FMVector3 p = pt(r); b.Include(p); m.add(p); in.push_back(p); mon::hit("box include point"); same(b, m, "after a point"); }
		else if (op < 8) {
			FUBoundingBox o; RefBox om; int k = r.range(0, 4); for (int j = 0; j < k; ++j) { FMVector3 p = pt(r); o.Include(p); om.add(p); in.push_back(p); }
			b.Include(o); m.add(om); same(o, om, "the included box"); same(b, m, "after a box"); mon::hit(k ? "box include box" : "box include invalid box");
		}
		else if (op == 8 && r.chance(30)) { b.Reset(); m = RefBox(); in.clear(); same(b, m, "after a reset"); mon::hit("box reset"); }
		else { FMVector3 a = pt(r), c = pt(r); FUBoundingBox o(FMVector3(min(a.x, c.x), min(a.y, c.y), min(a.z, c.z)), FMVector3(max(a.x, c.x), max(a.y, c.y), max(a.z, c.z))); FUBoundingBox cp(o); CHECK(cp.Equals(o), "box:copy", "a copy differs"); RefBox om; om.add(a); om.add(c); same(cp, om, "a constructed box"); b.Include(cp); m.add(om); in.push_back(a); in.push_back(c); same(b, m, "after a constructed box"); }
	}
	mon::sig(mon::hash(&m.lo, sizeof m.lo) * 31 + mon::hash(&m.hi, sizeof m.hi)); if (n) mon::nontrivial();
	for (size_t i = 0; i < in.size(); ++i) CHECK(b.Contains(in[i]), "box:contains", "the box lost the point (%g,%g,%g)", in[i].x, in[i].y, in[i].z);
	for (int i = 0; i < 4; ++i) { FMVector3 q = (i && !in.empty()) ? in[r.below((uint32_t) in.size())] : pt(r); if (i > 1) switch (r.below(3)) { case 0: q.x += r.flt(-30, 30); break; case 1: q.y += r.flt(-30, 30); break; default: q.z += r.flt(-30, 30); }
		P3 p = of(q); bool exp = m.any; for (int k = 0; k < 3 && exp; ++k) exp = p.v[k] >= m.lo[k] && p.v[k] <= m.hi[k];
		CHECK(b.Contains(q) == exp, "box:contains", "Contains says %d for a point that is %s", !exp, exp ? "inside" : "outside"); mon::hit(exp ? "inside" : "outside"); }
	if (m.any) { P3 c = of(b.GetCenter()); for (int k = 0; k < 3; ++k) CHECK(fabs(c.v[k] - (m.lo[k] + m.hi[k]) / 2) < 1e-3, "box:center", "axis %d", k); }
	// Overlap
	FUBoundingBox o; RefBox om; int k = r.range(0, 3); for (int j = 0; j < k; ++j) { FMVector3 p = pt(r); o.Include(p); om.add(p); }
	if (k == 1 && r.chance(50)) { FMVector3 h(r.flt(0, 5), r.flt(0, 5), r.flt(0, 5)); FMVector3 p = o.GetMax() + h; o.Include(p); om.add(p); }
	bool ov = m.any && om.any; for (int i = 0; i < 3 && ov; ++i) ov = m.lo[i] <= om.hi[i] && om.lo[i] <= m.hi[i];
	FMVector3 oc(-12345, 0, 0), oc2;
	CHECK(b.Overlaps(o, &oc) == ov && o.Overlaps(b, &oc2) == ov && b.Overlaps(o) == ov, "box:overlap", "Overlaps is wrong, it should be %d", ov); mon::hit(ov ? "boxes overlap" : "boxes apart");
	if (ov) { P3 c = of(oc), c2 = of(oc2); for (int i = 0; i < 3; ++i) { double e = (max(m.lo[i], om.lo[i]) + min(m.hi[i], om.hi[i])) / 2; CHECK(fabs(c.v[i] - e) < 1e-3 && fabs(c2.v[i] - e) < 1e-3, "box:overlap-center", "axis %d: %g, expected %g", i, c.v[i], e); } }
	// Transform
	double sc; FMMatrix44 M = affine(r, sc); FUBoundingBox t = b.Transform(M);
	CHECK(t.IsValid() == m.any, "box:transform-valid", "validity changed");
	if (m.any) {
		double lo[3] = {1e30, 1e30, 1e30}, hi[3] = {-1e30, -1e30, -1e30};
		for (int i = 0; i < 8; ++i) { P3 p = {{i & 1 ? m.lo[0] : m.hi[0], i & 2 ? m.lo[1] : m.hi[1], i & 4 ? m.lo[2] : m.hi[2]}}, q = apply(M, p); for (int j = 0; j < 3; ++j) { lo[j] = min(lo[j], q.v[j]); hi[j] = max(hi[j], q.v[j]); } }
		P3 a = of(t.GetMin()), z = of(t.GetMax()); for (int j = 0; j < 3; ++j) CHECK(fabs(a.v[j] - lo[j]) < 0.02 && fabs(z.v[j] - hi[j]) < 0.02, "box:transform", "axis %d becomes [%g,%g], the transformed corners span [%g,%g]", j, a.v[j], z.v[j], lo[j], hi[j]);
		mon::hit("box transform");
	}
	CHECK(FUBoundingBox::Infinity.Contains(pt(r)) && FUBoundingBox::Infinity.IsValid() && FUBoundingBox::Infinity.Transform(M).Equals(FUBoundingBox::Infinity), "box:infinity", "the infinite box is not infinite");
	FUBoundingBox e1(b); CHECK(e1.Equals(b) && b.Equals(e1), "box:equals", "Equals"); if (m.any) { FMVector3 w = e1.GetMax(); switch (r.below(3)) { case 0: w.x += 1; break; case 1: w.y += 1; break; default: w.z += 1; } e1.SetMax(w); CHECK(!e1.Equals(b), "box:equals", "a changed box is equal"); e1 = b; w = e1.GetMin(); switch (r.below(3)) { case 0: w.x -= 1; break; case 1: w.y -= 1; break; default: w.z -= 1; } e1.SetMin(w); CHECK(!e1.Equals(b), "box:equals", "a changed box is equal"); }
}

struct Ball { P3 c; double r; };
bool covers(const FUBoundingSphere& s, const Ball& b) { double t = 1e-4 * (s.GetRadius() + b.r + fabs(b.c.v[0]) + fabs(b.c.v[1]) + fabs(b.c.v[2])) + 1e-3; return dist(of(s.GetCenter()), b.c) + b.r <= s.GetRadius() + t; }
void spheres(Rng& r) {
	FUBoundingSphere s; vector<Ball> in; bool valid = false; int n = r.range(0, 8);
	CHECK(!s.IsValid() && !s.Contains(FMVector3::Zero), "sphere:fresh", "a fresh sphere is valid");
	for (int i = 0; i < n; ++i) {
		FMVector3 oldC = s.GetCenter(); float oldR = s.GetRadius();
		switch (r.below(8)) {
		case 0: case 1: case 2: { FMVector3 p = (valid && r.chance(20)) ? s.GetCenter() : pt(r); s.Include(p); Ball b = {of(p), 0}; in.push_back(b); valid = true; mon::hit("sphere include point"); break; }
		case 3: case 4: { FMVector3 c = pt(r); float rad = r.chance(10) ? 0 : r.flt(0, 15); if (valid && r.chance(30)) { c = s.GetCenter(); if (r.chance(50)) c.x += s.GetRadius() * r.flt(-0.9f, 0.9f); } FUBoundingSphere o(c, rad);
			Ball b = {of(c), rad}; Ball me = {of(oldC), oldR}; bool inside = valid && dist(me.c, b.c) + b.r <= me.r - 1e-3, outside = valid && dist(me.c, b.c) + me.r <= b.r - 1e-3;
			s.Include(o); in.push_back(b); mon::hit(inside ? "sphere include inner sphere" : outside ? "sphere include outer sphere" : "sphere include sphere");
			if (inside) CHECK(s.GetCenter() == oldC && s.GetRadius() == oldR, "sphere:include-inner", "including a contained sphere changes it");
			double best = !valid || outside ? rad : inside ? oldR : (oldR + rad + dist(me.c, b.c)) / 2;
			CHECK(s.GetRadius() <= best * 1.001 + 2e-3, "sphere:include-size", "the sphere around two spheres has radius %g, %g suffices", s.GetRadius(), best);
			valid = true; break; }
		case 5: { FUBoundingSphere o; s.Include(o); FUBoundingBox ob; s.Include(ob); CHECK(s.IsValid() == valid && s.GetRadius() == oldR && s.GetCenter() == oldC, "sphere:include-invalid", "including an invalid volume changes the sphere"); mon::hit("sphere include invalid"); break; }
		case 6: { FUBoundingBox o; int k = r.range(1, 3); for (int j = 0; j < k; ++j) o.Include(pt(r)); s.Include(o); P3 a = of(o.GetMin()), z = of(o.GetMax()); for (int c = 0; c < 8; ++c) { Ball b = {{{c & 1 ? a.v[0] : z.v[0], c & 2 ? a.v[1] : z.v[1], c & 4 ? a.v[2] : z.v[2]}}, 0}; in.push_back(b); } valid = true; mon::hit("sphere include box"); break; }
		default: if (r.chance(25)) { s.Reset(); in.clear(); valid = false; CHECK(!s.IsValid(), "sphere:reset", "still valid"); }
		}
		CHECK(s.IsValid() == valid, "sphere:valid", "IsValid is %d", s.IsValid());
		for (size_t k = 0; k < in.size(); ++k) CHECK(covers(s, in[k]), "sphere:contains", "centre (%g,%g,%g) radius %g does not cover the included ball (%g,%g,%g) radius %g", s.GetCenter().x, s.GetCenter().y, s.GetCenter().z, s.GetRadius(), in[k].c.v[0], in[k].c.v[1], in[k].c.v[2], in[k].r);
	}
	{ float f[4] = { s.GetCenter().x, s.GetCenter().y, s.GetCenter().z, s.GetRadius() }; mon::sig(mon::hash(f, 16)); if (valid) mon::nontrivial(); }
	P3 c = of(s.GetCenter()); double R = s.GetRadius();
	for (int i = 0; i < 3; ++i) { FMVector3 q = pt(r); if (i && valid) { double len = R * r.flt(0, 2); FMVector3 d(r.flt(-1, 1), r.flt(-1, 1), r.flt(-1, 1)); if (d.LengthSquared() < 1e-3) continue; d = d.Normalize(); q = s.GetCenter() + d * (float) len; }
		double d = dist(c, of(q)); if (valid && fabs(d - R) < 1e-3 * (1 + R + fabs(c.v[0]) + fabs(c.v[1])) + 2e-2) continue; bool exp = valid && d <= R; CHECK(s.Contains(q) == exp, "sphere:point", "Contains says %d at distance %g, radius %g", !exp, d, R); }
	// Overlaps with a sphere
	FUBoundingSphere o; if (!r.chance(10)) { o.SetCenter(r.chance(15) ? s.GetCenter() : pt(r)); o.SetRadius(r.flt(0, 25)); }
	double d = dist(c, of(o.GetCenter())), gap = d - R - o.GetRadius(); bool both = valid && o.IsValid();
	if (!both || fabs(gap) > 1e-3 * (1 + d)) {
		bool exp = both && gap < 0; FMVector3 oc(0, 0, 0); CHECK(s.Overlaps(o, &oc) == exp && o.Overlaps(s) == exp, "sphere:overlap", "distance %g, radii %g and %g: Overlaps should be %d", d, R, o.GetRadius(), exp); mon::hit(exp ? "spheres overlap" : "spheres apart");
		if (exp) { P3 p = of(oc); double t = 1e-2 + 1e-3 * (R + d); CHECK(dist(p, c) <= R + t && dist(p, of(o.GetCenter())) <= o.GetRadius() + t, "sphere:overlap-center", "the overlap centre (%g,%g,%g) is %g from a sphere of radius %g and %g from one of radius %g", p.v[0], p.v[1], p.v[2], dist(p, c), R, dist(p, of(o.GetCenter())), o.GetRadius()); }
	}
	// Overlaps with a box
	FUBoundingBox b; int k = r.range(1, 3); for (int j = 0; j < k; ++j) b.Include(pt(r)); P3 lo = of(b.GetMin()), hi = of(b.GetMax()); double q2 = 0; for (int i = 0; i < 3; ++i) { double e = c.v[i] < lo.v[i] ? lo.v[i] - c.v[i] : c.v[i] > hi.v[i] ? c.v[i] - hi.v[i] : 0; q2 += e * e; }
	double q = sqrt(q2); if (!valid || fabs(q - R) > 1e-3 * (1 + R + q)) { bool exp = valid && q < R; FMVector3 oc; CHECK(s.Overlaps(b, &oc) == exp && b.Overlaps(s) == exp, "sphere:box-overlap", "the box is %g away, radius %g: Overlaps should be %d", q, R, exp); mon::hit(exp ? "sphere and box overlap" : "sphere and box apart");
		if (exp) { P3 p = of(oc); bool inb = true; for (int i = 0; i < 3; ++i) inb = inb && p.v[i] >= lo.v[i] - 1e-2 && p.v[i] <= hi.v[i] + 1e-2; CHECK(inb && dist(p, c) <= R * 1.001 + 1e-2, "sphere:box-overlap-center", "the overlap centre is outside the overlap"); } }
	// Transform
	double sc; FMMatrix44 M = affine(r, sc); FUBoundingSphere t = s.Transform(M); CHECK(t.IsValid() == valid, "sphere:transform-valid", "validity changed");
	if (valid) for (int i = 0; i < 12; ++i) { double v[3] = { r.flt(-1, 1), r.flt(-1, 1), r.flt(-1, 1) }, l = sqrt(v[0] * v[0] + v[1] * v[1] + v[2] * v[2]); if (l < 1e-2) continue; P3 p; for (int j = 0; j < 3; ++j) p.v[j] = c.v[j] + v[j] / l * R;
		double dd = dist(of(t.GetCenter()), apply(M, p)); CHECK(dd <= t.GetRadius() * 1.001 + 2e-2, "sphere:transform", "a transformed surface point is %g from the centre of a sphere of radius %g", dd, t.GetRadius()); mon::hit("sphere transform"); }
	if (valid) { FMMatrix44 U = FMMatrix44::TranslationMatrix(pt(r)) * FMMatrix44::AxisRotationMatrix(FMVector3(0.6f, 0, 0.8f), r.flt(-7, 7)); CHECK(fabs(s.Transform(U).GetRadius() - R) <= 2e-3 * R + 1e-3, "sphere:rigid", "a rigid motion changes the radius %g to %g", R, s.Transform(U).GetRadius()); }
	FUBoundingSphere cp(s); CHECK(cp.GetCenter() == s.GetCenter() && cp.GetRadius() == s.GetRadius(), "sphere:copy", "a copy differs");
}
}

PROP(C21, "the case included at least one point or volume; every bound is compared with exact geometry over everything included so far") { if (r.chance(50)) boxes(r); else spheres(r); }
