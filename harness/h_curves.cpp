// C22: curve evaluation. Oracle: the same segment in double precision, with the tolerance of the library's own solver.
#include "mon.h"
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationMultiCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FCDocument/FCDLibrary.h"
#include <cmath>
#include <vector>
typedef std::string S;
using std::vector;

namespace {
namespace Ip = FUDaeInterpolation;
struct Key { double x, y, ix, iy, ox, oy; int ip; };
struct Hull { double lo = 1e300, hi = -1e300; void add(double v) { lo = std::min(lo, v); hi = std::max(hi, v); } };

// The curve that the keys describe, inside their range.
struct Ref
{
	vector<Key> k; bool flat2d;
	static double bez(double a, double b, double c, double d, double t) { double s = 1 - t; return a * s * s * s + 3 * b * s * s * t + 3 * c * s * t * t + d * t * t * t; }
	// False: the specification leaves the value between these keys open.
	bool segment(size_t i, double x, Hull& h) const
	{
		const Key& a = k[i], & b = k[i + 1]; double w = b.x - a.x;
		if (x == a.x) { h.add(a.y); return true; }
		if (a.ip == Ip::STEP) { h.add(a.y); return true; }
		if (a.ip == Ip::LINEAR || b.ip == Ip::LINEAR) { h.add(a.y + (x - a.x) / w * (b.y - a.y)); return true; }
		if (b.ip == Ip::STEP) { h.add(a.y); return true; }
		if (a.ip == Ip::TCB || b.ip == Ip::TCB) return false;
		if (flat2d)
		{
			auto cl = [](double v) { return v < 0.01 || std::isnan(v) ? 0.01 : v > 100 ? 100 : v; };
			double t = (x - a.x) / w, br = cl(w / (a.ox - a.x)), cr = cl(w / (b.x - b.ix));
			h.add(bez(a.y, a.y + br / 3 * (a.oy - a.y), b.y + cr / 3 * (b.iy - b.y), b.y, t)); return true;
		}
		// Every parameter whose time is within the solver's tolerance of x, and its neighbours.
		double lo = 0, hi = 1; for (int n = 0; n < 60; ++n) { double m = (lo + hi) / 2; if (bez(a.x, a.ox, b.ix, b.x, m) < x) lo = m; else hi = m; }
		double tol = 0.001 + 4e-6 * (fabs(a.x) + fabs(b.x));
		double t0 = lo - 0.0021, t1 = lo + 0.0021;
		double l2 = 0, h2 = lo; for (int n = 0; n < 60; ++n) { double m = (l2 + h2) / 2; if (bez(a.x, a.ox, b.ix, b.x, m) < x - tol) l2 = m; else h2 = m; } t0 = std::min(t0, l2);
		l2 = lo; h2 = 1; for (int n = 0; n < 60; ++n) { double m = (l2 + h2) / 2; if (bez(a.x, a.ox, b.ix, b.x, m) > x + tol) h2 = m; else l2 = m; } t1 = std::max(t1, h2);
		t0 = std::max(0.0, t0); t1 = std::min(1.0, t1);
		int s = t1 - t0 > 0.005 ? 1000 : 16; for (int n = 0; n <= s; ++n) h.add(bez(a.y, a.oy, b.iy, b.y, t0 + (t1 - t0) * n / s));
		return true;
	}
	bool inside(double x, Hull& h) const
	{
		if (x >= k.back().x) { h.add(k.back().y); return true; }
		if (x <= k[0].x && !(k.size() > 1 && k[1].x == k[0].x)) { h.add(k[0].y); return true; }
		for (size_t i = 0; i + 1 < k.size(); ++i) if (k[i].x <= x && x < k[i + 1].x) return segment(i, x, h);
		h.add(k[0].y); return true;
	}
	double lastTime() const { return k.back().x; }
};

Ip::Interpolation anyIp(Rng& r, int style)
{
	if (style < 4) return (Ip::Interpolation) vector<int> { Ip::STEP, Ip::LINEAR, Ip::BEZIER, Ip::BEZIER }[style];
	switch (r.below(7)) { case 0: return Ip::STEP; case 1: case 2: return Ip::LINEAR; case 3: return Ip::TCB; default: return Ip::BEZIER; }
}
double scaleOf(Rng& r) { switch (r.below(6)) { case 0: return 0.01; case 1: return 100; case 2: return 10000; default: return 1; } }

// Times that rise, sometimes equal, sometimes far apart.
vector<float> times(Rng& r, size_t n, bool twins)
{
	vector<float> t; float x = (float) (r.chance(20) ? 0 : r.flt(-20, 20)), s = (float) scaleOf(r);
	for (size_t i = 0; i < n; ++i)
	{
		t.push_back(x);
		if (twins && r.chance(10)) continue;
		x += s * (r.chance(30) ? (float) r.range(1, 4) : r.chance(10) ? r.flt(20, 60) : r.flt(0.05f, 3));
	}
	return t;
}
float value(Rng& r) { return r.chance(20) ? (float) r.range(-2, 2) : r.chance(10) ? r.flt(-5000, 5000) : r.flt(-30, 30); }
void tangents(Rng& r, Key& k, double before, double after)
{
	int m = (int) r.below(5);
	k.ix = (float) (k.x - before * (m == 0 ? 1.0 / 3 : m == 1 ? 0.0 : m == 2 ? 1.0 : r.unit())); k.ox = (float) (k.x + after * (m == 0 ? 1.0 / 3 : m == 1 ? 0.0 : m == 2 ? 1.0 : r.unit()));
	k.iy = (float) (k.y + (r.chance(25) ? 0 : r.flt(-20, 20))); k.oy = (float) (k.y + (r.chance(25) ? 0 : r.flt(-20, 20)));
}
vector<Key> keys(Rng& r, bool twins)
{
	size_t n = r.chance(8) ? r.below(2) : r.chance(70) ? (size_t) r.range(2, 6) : (size_t) r.range(7, 40);
	vector<float> t = times(r, n, twins); int style = (int) r.below(8); vector<Key> o;
	for (size_t i = 0; i < n; ++i)
	{
		Key k; k.x = t[i]; k.y = value(r); k.ip = anyIp(r, style); k.ix = k.ox = k.x; k.iy = k.oy = k.y;
		tangents(r, k, i ? t[i] - t[i - 1] : 1.0, i + 1 < n ? t[i + 1] - t[i] : 1.0); o.push_back(k);
	}
	return o;
}
FUDaeInfinity::Infinity anyInf(Rng& r) { return (FUDaeInfinity::Infinity) vector<int> { FUDaeInfinity::CONSTANT, FUDaeInfinity::LINEAR, FUDaeInfinity::CYCLE, FUDaeInfinity::CYCLE_RELATIVE, FUDaeInfinity::OSCILLATE }[r.below(5)]; }
S infName(int f) { return FUDaeInfinity::ToString((FUDaeInfinity::Infinity) f); }

// The times worth asking for: keys, next to keys, between and outside.
vector<float> queries(Rng& r, const vector<Key>& k)
{
	vector<float> q; if (k.empty()) { q.push_back(r.flt(-5, 5)); return q; }
	for (auto& a : k) { q.push_back((float) a.x); if (r.chance(30)) { q.push_back(nextafterf((float) a.x, 1e30f)); q.push_back(nextafterf((float) a.x, -1e30f)); } }
	double a = k[0].x, b = k.back().x, w = b - a;
	for (size_t i = 0; i + 1 < k.size(); ++i) if (k[i + 1].x > k[i].x) for (int n = 0; n < 3; ++n) q.push_back((float) (k[i].x + (k[i + 1].x - k[i].x) * r.unit()));
	for (int n = 0; n < 4; ++n) { q.push_back((float) (a - w * r.unit() * (n + 1))); q.push_back((float) (b + w * r.unit() * (n + 1))); }
	q.push_back((float) (a - 1 - r.unit() * 10)); q.push_back((float) (b + 1 + r.unit() * 10));
	for (int n = 1; n < 4; ++n) { q.push_back((float) (b + n * w)); q.push_back((float) (a - n * w)); }
	if (r.chance(20)) { q.push_back(r.flt(1e6f, 1e9f)); q.push_back(-r.flt(1e6f, 1e9f)); }
	return q;
}

struct Expect { bool open = false; Hull h; const char* where = ""; };
Expect expected(const Ref& f, int pre, int post, double x)
{
	Expect e; const vector<Key>& k = f.k; double a = k[0].x, b = k.back().x, w = b - a, off = 0, rise = k.back().y - k[0].y;
	double slack = 0; e.where = "inside";
	auto at = [&](double y) { Hull h; if (!f.inside(y, h)) e.open = true; else { e.h.add(h.lo + off); e.h.add(h.hi + off); } };
	if (x < a || x >= b)
	{
		bool before = x < a; int inf = before ? pre : post; e.where = before ? "before" : "after"; double d = before ? a - x : x - b;
		if (k.size() == 1 || !(w > 0)) { e.h.add(before ? k[0].y : k.back().y); return e; }
		const Key& p = before ? k[0] : k[k.size() - 2], & n = before ? k[1] : k.back();
		switch (inf)
		{
		case FUDaeInfinity::LINEAR: { if (d == 0 || !(n.x > p.x)) { e.h.add(before ? p.y : n.y); return e; } double s = (n.y - p.y) / (n.x - p.x); e.h.add(before ? p.y - s * d : n.y + s * d); return e; }
		case FUDaeInfinity::CYCLE: case FUDaeInfinity::CYCLE_RELATIVE:
		{
			double c = ceil(d / w); slack = 3e-7 * (fabs(x) + fabs(a) + fabs(b) + c * w); if (slack > w * 0.002) { e.open = true; return e; }
			double y = before ? x + c * w : x - c * w; if (inf == FUDaeInfinity::CYCLE_RELATIVE) off = before ? -c * rise : c * rise;
			// Where one cycle ends and the next begins, either may answer.
			if (y - a <= slack || b - y <= slack) { if (d == 0) { e.h.add(k.back().y); return e; } if (inf == FUDaeInfinity::CYCLE) { at(a); at(b); at(a + slack); at(b - slack); if (a + slack < y) at(y); } else { double o = round((x - a) / w); off = o * rise; at(a); off = (o - 1) * rise; at(b); } if (f.k.size() < 2) return e; e.open = e.open || true; return e; }
			for (int s = -12; s <= 12; ++s) at(std::min(b, std::max(a, y + slack * s / 12))); x = y; break;
		}
		case FUDaeInfinity::OSCILLATE:
		{
			double c = ceil(d / (2 * w)); slack = 3e-7 * (fabs(x) + fabs(a) + fabs(b) + 2 * c * w); if (slack > w * 0.002) { e.open = true; return e; }
			double y = before ? b - fabs(x + c * 2 * w - b) : a + fabs(x - c * 2 * w - a);
			for (int s = -12; s <= 12; ++s) at(std::min(b, std::max(a, y + slack * s / 12))); x = y; break;
		}
		default: e.h.add(before ? k[0].y : k.back().y); return e;
		}
		// A jump within the rounding of the time: both sides are right.
		for (size_t i = 0; i < k.size(); ++i) if (fabs(k[i].x - x) <= slack) { e.h.add(k[i].y + off); if (i) { Hull h; double y = std::max(k[i - 1].x, k[i].x - slack); if (f.inside(y, h)) { e.h.add(h.lo + off); e.h.add(h.hi + off); } else e.open = true; } }
		return e;
	}
	at(x); return e;
}
void setBezier(FCDAnimationKey* key, const Key& k)
{
	FCDAnimationKeyBezier* b = static_cast<FCDAnimationKeyBezier*>(key);
	b->inTangent = FMVector2((float) k.ix, (float) k.iy); b->outTangent = FMVector2((float) k.ox, (float) k.oy);
}
FCDAnimationCurve* newCurve(FCDocument* d)
{
	return d->GetAnimationLibrary()->AddEntity()->AddChannel()->AddCurve();
}
void judge(const char* what, const Expect& e, float got, float x, double mag, const S& inf)
{
	if (!std::isfinite(got)) { mon::viol(S("not-finite:") + what + ":" + e.where, "%g at %g (%s)", got, x, inf.c_str()); return; }
	mon::hit(S("evaluated_") + e.where);
	if (e.open) { mon::hit("evaluated_open"); return; }
	double tol = 2e-5 * mag + 1e-6;
	if (got < e.h.lo - tol || got > e.h.hi + tol) mon::viol(S("value:") + what + ":" + e.where + (S(e.where) == "inside" ? S() : ":" + inf), "%.9g at %.9g for [%.9g, %.9g]", got, x, e.h.lo, e.h.hi);
}
}

PROP(C22, "random curves of 0 to 40 keys of every interpolation and infinity, and multi-curves, evaluated at keys, next to keys, between and outside; a case counts with at least four keys or an infinity that is not constant")
{
	FUObjectRef<FCDocument> doc = new FCDocument();
	bool flat = r.chance(25);
	{
		FCDAnimationCurve* c = newCurve(doc); Ref f; f.flat2d = flat; f.k = keys(r, r.chance(25));
		int pre = anyInf(r), post = anyInf(r); c->SetPreInfinity((FUDaeInfinity::Infinity) pre); c->SetPostInfinity((FUDaeInfinity::Infinity) post);
		for (auto& k : f.k)
		{
			FCDAnimationKey* key = c->AddKey((Ip::Interpolation) k.ip); key->input = (float) k.x; key->output = (float) k.y;
			if (k.ip == Ip::BEZIER) setBezier(key, k);
			if (k.ip == Ip::TCB) { auto t = static_cast<FCDAnimationKeyTCB*>(key); t->tension = r.flt(-1, 1); t->continuity = r.flt(-1, 1); t->bias = r.flt(-1, 1); t->easeIn = r.flt(0, 1); t->easeOut = r.flt(0, 1); }
		}
		double mag = 1; for (auto& k : f.k) mag = std::max(mag, std::max(fabs(k.y), std::max(fabs(k.iy), fabs(k.oy))));
		FCDAnimationCurve::Set2DCurveEvaluation(!flat);
		vector<float> q = queries(r, f.k), first;
		for (float x : q)
		{
			float got = c->Evaluate(x); first.push_back(got);
			if (f.k.empty()) { CHECK(got == 0, "value:empty", "%g", got); continue; }
			if (f.k.size() == 1) { CHECK(got == (float) f.k[0].y, "value:pose", "%g for %g", got, f.k[0].y); continue; }
			Expect e = expected(f, pre, post, x); double m = mag;
			bool lin = (x < f.k[0].x ? pre : post) == FUDaeInfinity::LINEAR;
			if (S(e.where) != "inside") m = std::max(m, std::max(fabs(e.h.lo), fabs(e.h.hi)) * (e.h.lo <= e.h.hi)); if (lin && S(e.where) != "inside") m *= 4;
			judge("curve", e, got, x, m, infName(x < f.k[0].x ? pre : post));
			mon::sig(mon::hash(&got, 4));
		}
		// At the keys, exactly; where several share a time, one of them.
		for (auto& k : f.k)
		{
			float got = c->Evaluate((float) k.x); bool ok = false;
			for (auto& o : f.k) if (o.x == k.x && got == (float) o.y) ok = true;
			if (!ok && k.x == f.k.back().x && post == FUDaeInfinity::CYCLE_RELATIVE) ok = fabs(got - k.y) <= 1e-5 * mag;
			CHECK(ok, "at-key", "%.9g at the key (%.9g, %.9g) %zu of %zu post %d", got, k.x, k.y, (size_t) (&k - &f.k[0]), f.k.size(), post);
		}
		// Evaluating changes nothing.
		for (size_t i = 0; i < q.size(); ++i) { float again = c->Evaluate(q[i]); CHECK(memcmp(&again, &first[i], 4) == 0, "not-repeatable", "%.9g then %.9g at %g", first[i], again, q[i]); }
		CHECK(c->GetKeyCount() == f.k.size(), "keys-changed", "%zu", c->GetKeyCount());
		if (f.k.size() >= 4 || pre != FUDaeInfinity::CONSTANT) mon::nontrivial();
	}
	{
		uint32 dim = (uint32) r.range(1, 4); FUObjectRef<FCDAnimationMultiCurve> m = new FCDAnimationMultiCurve(doc, dim);
		vector<Ref> f(dim); for (auto& g : f) g.flat2d = flat;
		vector<Key> base = keys(r, r.chance(25));
		for (size_t i = 0; i < base.size(); ++i)
		{
			if (base[i].ip == Ip::TCB) base[i].ip = Ip::LINEAR;
			FCDAnimationMKey* key = m->AddKey((Ip::Interpolation) base[i].ip); key->input = (float) base[i].x;
			for (uint32 d = 0; d < dim; ++d)
			{
				Key k = base[i]; if (d) { k.y = value(r); tangents(r, k, i ? k.x - base[i - 1].x : 1, i + 1 < base.size() ? base[i + 1].x - k.x : 1); }
				key->output[d] = (float) k.y;
				if (k.ip == Ip::BEZIER) { auto b = static_cast<FCDAnimationMKeyBezier*>(key); b->inTangent[d] = FMVector2((float) k.ix, (float) k.iy); b->outTangent[d] = FMVector2((float) k.ox, (float) k.oy); }
				f[d].k.push_back(k);
			}
		}
		m->Set2DCurveEvaluation(!flat);
		for (float x : queries(r, base))
		{
			float out[4] = { 77, 77, 77, 77 }; m->Evaluate(x, out);
			for (uint32 d = 0; d < 4; ++d)
			{
				if (d >= dim) { CHECK(out[d] == 77, "multi:overrun", "%u of %u", d, dim); continue; }
				if (base.empty()) { CHECK(out[d] == 0, "value:empty-multi", "%g", out[d]); continue; }
				Expect e = expected(f[d], FUDaeInfinity::CONSTANT, FUDaeInfinity::CONSTANT, x);
				double mag = 1; for (auto& k : f[d].k) mag = std::max(mag, std::max(fabs(k.y), std::max(fabs(k.iy), fabs(k.oy))));
				judge("multi", e, out[d], x, mag, "CONSTANT");
			}
		}
	}
	FCDAnimationCurve::Set2DCurveEvaluation(true);
}

// ---- C23 ------------------------------------------------------------------------------------------
#include "FCDocument/FCDAnimationCurveTools.h"
#include "FCDocument/FCDAnimationClip.h"
#include "FCDocument/FCDAnimationClipTools.h"

namespace {
struct MKey { FCDAnimationKey* p; float x, y; int ip; float e[5]; };
void fill(Rng& r, MKey& k)
{
	k.p->output = k.y = value(r);
	for (float& f : k.e) f = 0;
	if (k.ip == Ip::BEZIER) { auto b = static_cast<FCDAnimationKeyBezier*>(k.p); for (float& f : k.e) f = r.flt(-9, 9); b->inTangent = FMVector2(k.e[0], k.e[1]); b->outTangent = FMVector2(k.e[2], k.e[3]); k.e[4] = 0; }
	if (k.ip == Ip::TCB) { auto t = static_cast<FCDAnimationKeyTCB*>(k.p); for (float& f : k.e) f = r.flt(-1, 1); t->tension = k.e[0]; t->continuity = k.e[1]; t->bias = k.e[2]; t->easeIn = k.e[3]; t->easeOut = k.e[4]; }
}
bool sameKey(const FCDAnimationKey* p, const MKey& k)
{
	if (p->input != k.x || p->output != k.y || (int) p->interpolation != k.ip) return false;
	if (k.ip == Ip::BEZIER) { auto b = static_cast<const FCDAnimationKeyBezier*>(p); return b->inTangent.u == k.e[0] && b->inTangent.v == k.e[1] && b->outTangent.u == k.e[2] && b->outTangent.v == k.e[3]; }
	if (k.ip == Ip::TCB) { auto t = static_cast<const FCDAnimationKeyTCB*>(p); return t->tension == k.e[0] && t->continuity == k.e[1] && t->bias == k.e[2] && t->easeIn == k.e[3] && t->easeOut == k.e[4]; }
	return true;
}
bool sameKeys(const FCDAnimationCurve* c, const vector<MKey>& m, const char* after, bool identity = true)
{
	if (c->GetKeyCount() != m.size()) { mon::viol(S("key-count:") + after, "%zu for %zu", c->GetKeyCount(), m.size()); return false; }
	for (size_t i = 0; i < m.size(); ++i)
	{
		const FCDAnimationKey* k = c->GetKey(i);
		if (identity && k != m[i].p) { mon::viol(S("key-moved:") + after, "key %zu of %zu", i, m.size()); return false; }
		if (!sameKey(k, m[i])) { mon::viol(S("key-changed:") + after, "key %zu of %zu: %g %g %u for %g %g %d", i, m.size(), k->input, k->output, k->interpolation, m[i].x, m[i].y, m[i].ip); return false; }
	}
	return true;
}
float twice(float v) { return v * 2; }
float lessOne(float v) { return v - 1; }
struct Affine : FCDConversionFunctor { float a, b; Affine(float x, float y) : a(x), b(y) {} float operator()(float v) override { return a * v + b; } };
float spread(float* v, uint32 n) { float lo = v[0], hi = v[0]; for (uint32 i = 1; i < n; ++i) { lo = std::min(lo, v[i]); hi = std::max(hi, v[i]); } return hi - lo; }

void editing(Rng& r, FCDocument* doc)
{
	FCDAnimationCurve* c = newCurve(doc); vector<MKey> m; int ops = r.range(1, 40);
	for (int o = 0; o < ops; ++o)
	{
		Ip::Interpolation ip = (Ip::Interpolation) vector<int> { Ip::STEP, Ip::LINEAR, Ip::BEZIER, Ip::TCB }[r.below(4)];
		switch (r.below(8))
		{
		case 0: case 1: case 2: case 3:
		{
			float x = m.empty() || r.chance(40) ? (float) r.range(-20, 20) : r.chance(50) ? m[r.below(m.size())].x : r.flt(-30, 30); size_t index = 999;
			MKey k; k.p = r.chance(20) ? c->AddKey(ip, x) : c->AddKey(ip, x, index); k.x = x; k.ip = ip;
			size_t want = 0; while (want < m.size() && m[want].x <= x) ++want;
			CHECK(index == 999 || index == want, "insert-index", "%zu for %zu", index, want);
			CHECK(k.p->input == x && (int) k.p->interpolation == ip, "insert-key", "%g %u", k.p->input, k.p->interpolation);
			fill(r, k); m.insert(m.begin() + want, k); if (!sameKeys(c, m, "insert")) return; mon::hit("keys_inserted"); break;
		}
		case 4: { MKey k; k.p = c->AddKey(ip); k.ip = ip; k.p->input = k.x = m.empty() ? 0.0f : m.back().x + (float) r.range(0, 3); fill(r, k); m.push_back(k); if (!sameKeys(c, m, "append")) return; break; }
		case 5:
			if (m.empty()) break;
			{
				size_t i = r.below(m.size()); FCDAnimationCurve* other = newCurve(doc); FCDAnimationKey* foreign = other->AddKey(ip, 0);
				CHECK(!c->DeleteKey(foreign), "delete-foreign", "deleted"); CHECK(other->GetKeyCount() == 1, "delete-foreign", "gone");
				CHECK(c->DeleteKey(m[i].p), "delete", "refused"); m.erase(m.begin() + i); if (!sameKeys(c, m, "delete")) return; mon::hit("keys_deleted"); break;
			}
		case 6: { size_t n = r.below(m.size() + 1); c->SetKeyCount(n, ip); m.resize(n); if (!sameKeys(c, m, "shrink")) return; break; }
		default:
		{
			size_t old = m.size(), n = old + r.below(4); c->SetKeyCount(n, ip); CHECK(c->GetKeyCount() == n, "key-count:grow", "%zu", c->GetKeyCount()); if (c->GetKeyCount() != n) return;
			for (size_t i = old; i < n; ++i) { MKey k; k.p = c->GetKey(i); k.ip = ip; k.p->input = k.x = m.empty() ? 0.0f : m.back().x + 1; CHECK((int) k.p->interpolation == ip, "grow-interpolation", "%u", k.p->interpolation); fill(r, k); m.push_back(k); }
			if (!sameKeys(c, m, "grow")) return; break;
		}
		}
	}
	for (size_t i = 0; i < m.size(); ++i) CHECK(i == 0 || m[i - 1].x <= m[i].x, "model", "not sorted");
	// Conversions.
	c->SetPreInfinity(anyInf(r)); c->SetPostInfinity(anyInf(r)); c->SetTargetQualifier(".X"); c->SetTargetElement(r.range(-1, 5));
	int how = (int) r.below(6); Affine f(r.pick(vector<float> { 0.5f, 2, -1, 4 }), (float) r.range(-2, 2)), g(r.pick(vector<float> { 0.5f, 2, 4 }), (float) r.range(-2, 2));
	bool tang = r.chance(60), main = r.chance(80);
	switch (how)
	{
	case 0: c->ConvertValues(main ? &f : NULL, tang ? &g : NULL); for (auto& k : m) { if (main) k.y = f(k.y); if (tang && k.ip == Ip::BEZIER) { k.e[1] = g(k.e[1]); k.e[3] = g(k.e[3]); } } break;
	case 1: c->ConvertInputs(main ? &g : NULL, tang ? &f : NULL); for (auto& k : m) { if (main) k.x = g(k.x); if (tang && k.ip == Ip::BEZIER) { k.e[0] = f(k.e[0]); k.e[2] = f(k.e[2]); } } break;
	case 2: c->ConvertValues(main ? twice : NULL, tang ? lessOne : NULL); for (auto& k : m) { if (main) k.y = twice(k.y); if (tang && k.ip == Ip::BEZIER) { k.e[1] = lessOne(k.e[1]); k.e[3] = lessOne(k.e[3]); } } break;
	case 3: c->ConvertInputs(main ? twice : NULL, tang ? lessOne : NULL); for (auto& k : m) { if (main) k.x = twice(k.x); if (tang && k.ip == Ip::BEZIER) { k.e[0] = lessOne(k.e[0]); k.e[2] = lessOne(k.e[2]); } } break;
	default: break;
	}
	if (!sameKeys(c, m, "convert")) return;
	// Cloning, into a new curve or one that has keys.
	FUObjectRef<FCDAnimationCurve> copy;
	if (r.chance(50)) { copy = new FCDAnimationCurve(doc, NULL); for (size_t i = r.below(4); i > 0; --i) copy->AddKey((Ip::Interpolation) vector<int> { Ip::LINEAR, Ip::BEZIER, Ip::TCB }[r.below(3)], (float) i); c->Clone(copy, r.chance(50)); }
	else copy = c->Clone(NULL, r.chance(50));
	if (!sameKeys(copy, m, "clone", false)) return;
	CHECK(copy->GetPreInfinity() == c->GetPreInfinity() && copy->GetPostInfinity() == c->GetPostInfinity(), "clone-infinity", "differs");
	CHECK(copy->GetTargetElement() == c->GetTargetElement() && copy->GetTargetQualifier() == c->GetTargetQualifier(), "clone-target", "differs");
	if (!m.empty())
	{
		copy->GetKey(r.below(m.size()))->output += 1; copy->DeleteKey(copy->GetKey(r.below(m.size()))); copy->SetPreInfinity(FUDaeInfinity::UNKNOWN);
		if (!sameKeys(c, m, "edit-of-clone")) return; mon::hit("clones_edited");
		if (m.size() >= 4) mon::nontrivial();
	}
}

// Keys that the library's own segments can be rebuilt from: times in sixteenths.
FCDAnimationCurve* grid(Rng& r, FCDocument* doc, Ref& f, int ip, size_t n, float sx)
{
	FCDAnimationCurve* c = newCurve(doc); float x = (float) r.range(-10, 10) * sx;
	for (size_t i = 0; i < n; ++i)
	{
		Key k; k.x = x; k.y = value(r); k.ip = ip < 0 ? vector<int> { Ip::STEP, Ip::LINEAR, Ip::BEZIER }[r.below(3)] : ip; k.ix = k.x - sx / 3; k.ox = k.x + sx / 3; k.iy = k.y + r.flt(-5, 5); k.oy = k.y + r.flt(-5, 5); k.ix = (float) k.ix; k.ox = (float) k.ox; k.iy = (float) k.iy; k.oy = (float) k.oy;
		FCDAnimationKey* key = c->AddKey((Ip::Interpolation) k.ip); key->input = x; key->output = (float) k.y; if (k.ip == Ip::BEZIER) setBezier(key, k);
		f.k.push_back(k); x += (float) r.range(1, 4) * sx;
	}
	return c;
}

void merging(Rng& r, FCDocument* doc)
{
	size_t dim = (size_t) r.range(1, 4); FCDAnimationCurveList list; FloatList defaults; vector<Ref> f(dim); float sx = r.pick(vector<float> { 1.0f, 0.25f, 16.0f });
	int ip = r.chance(30) ? -1 : vector<int> { Ip::STEP, Ip::LINEAR, Ip::BEZIER }[r.below(3)]; bool shared = r.chance(35);
	FUDaeInfinity::Infinity pre = anyInf(r), post = anyInf(r); int element = r.range(-1, 6); bool any = false;
	for (size_t d = 0; d < dim; ++d)
	{
		f[d].flat2d = false; defaults.push_back(value(r));
		if (r.chance(15)) { list.push_back(NULL); continue; }
		FCDAnimationCurve* c = grid(r, doc, f[d], ip, r.chance(8) ? 0 : (size_t) r.range(1, 8), sx);
		if (shared && d && list[0]) { for (size_t i = 0; i < f[d].k.size(); ++i) if (i >= f[0].k.size()) { c->SetKeyCount(i, Ip::LINEAR); f[d].k.resize(i); break; } size_t i = 0; for (; i < f[d].k.size(); ++i) { double s = f[0].k[i].x - f[d].k[i].x; Key& k = f[d].k[i]; k.x += s; k.ix += s; k.ox += s; c->GetKey(i)->input = (float) k.x; if (k.ip == Ip::BEZIER) setBezier(c->GetKey(i), k); } }
		c->SetPreInfinity(pre); c->SetPostInfinity(post); c->SetTargetElement(element); any = true; list.push_back(c);
	}
	if (r.chance(15)) defaults.resize(r.below(dim + 1));
	FUObjectRef<FCDAnimationMultiCurve> m = FCDAnimationCurveTools::MergeCurves(list, defaults);
	if (!any) { CHECK(m == NULL, "merge-nothing", "a curve"); return; }
	if (m == NULL) { mon::viol("merge-refused", "%zu curves", dim); return; }
	CHECK(m->GetDimension() == dim, "merge-dimension", "%zu", (size_t) m->GetDimension());
	CHECK(m->GetPreInfinity() == pre && m->GetPostInfinity() == post && m->GetTargetElement() == element, "merge-target", "infinities or element differ");
	std::map<double, std::set<int>> times; for (auto& g : f) for (auto& k : g.k) times[k.x].insert(k.ip);
	CHECK(m->GetKeyCount() == times.size(), "merge-key-count", "%zu for %zu", m->GetKeyCount(), times.size()); if (m->GetKeyCount() != times.size()) return;
	size_t i = 0; std::set<int> all; for (auto& t : times) all.insert(t.second.begin(), t.second.end());
	for (auto& t : times)
	{
		const FCDAnimationMKey* k = m->GetKeys()[i++];
		CHECK(k->input == (float) t.first, "merge-time", "%g for %g", k->input, t.first);
		CHECK((int) k->interpolation == (t.second.size() == 1 ? *t.second.begin() : (int) Ip::BEZIER), "merge-interpolation", "%u", k->interpolation);
		float out[4]; m->Evaluate(k->input, out);
		for (size_t d = 0; d < dim; ++d)
		{
			float want = list[d] && list[d]->GetKeyCount() ? list[d]->Evaluate(k->input) : d < defaults.size() ? defaults[d] : 0.0f;
			CHECK(k->output[d] == want && out[d] == want, "merge-key-value", "%g and %g for %g, dimension %zu of %zu at %g", k->output[d], out[d], want, d, dim, k->input);
		}
		mon::hit("merged_keys");
	}
	// Where all the keys are of one kind and that kind survives being cut, the motion is the same everywhere.
	if (all.size() == 1)
	{
		double mag = 1; for (auto& g : f) for (auto& k : g.k) mag = std::max(mag, std::max(fabs(k.y), std::max(fabs(k.iy), fabs(k.oy))));
		for (int q = 0; q < 12; ++q)
		{
			double a = times.begin()->first, b = times.rbegin()->first; float x = (float) (a + (b - a) * r.unit()), out[4]; m->Evaluate(x, out);
			for (size_t d = 0; d < dim; ++d)
			{
				if (f[d].k.empty()) { float want = d < defaults.size() ? defaults[d] : 0.0f; CHECK(fabs(out[d] - want) <= 1e-5 * (fabs(want) + 1), "merge-default", "%g for %g at %g", out[d], want, x); continue; }
				bool own = f[d].k.size() == times.size() || *all.begin() != Ip::BEZIER;
				if (!own || x < f[d].k[0].x || x >= f[d].k.back().x) continue;
				Expect e = expected(f[d], 0, 0, x); judge("merged", e, out[d], x, mag, "");
			}
		}
		if (times.size() >= 4 && dim >= 2) mon::nontrivial();
	}
	// And back to one dimension.
	int how = (int) r.below(4); FCDCollapsingFunction fn = how == 0 ? NULL : how == 1 ? FCDAnimationCurveTools::TakeFirst : how == 2 ? FCDAnimationCurveTools::Average : spread;
	auto want = [&](vector<float> v) -> double { if (how == 1) return v[0]; if (how == 3) return spread(v.data(), (uint32) v.size()); double s = 0; for (float x : v) s += x; return s / v.size(); };
	FUObjectRef<FCDAnimationCurve> c = FCDAnimationCurveTools::Collapse(m, fn);
	if (c == NULL) { CHECK(m->GetKeyCount() == 0, "collapse-refused", "%zu keys", m->GetKeyCount()); return; }
	CHECK(c->GetKeyCount() == m->GetKeyCount(), "collapse-key-count", "%zu", c->GetKeyCount()); if (c->GetKeyCount() != m->GetKeyCount()) return;
	CHECK(c->GetPreInfinity() == pre && c->GetPostInfinity() == post, "collapse-infinity", "%d %d for %d %d", c->GetPreInfinity(), c->GetPostInfinity(), pre, post);
	auto near = [&](float a, double b) { return fabs(a - b) <= 1e-5 * (fabs(b) + 10); };
	for (size_t k = 0; k < c->GetKeyCount(); ++k)
	{
		const FCDAnimationMKey* a = m->GetKeys()[k]; const FCDAnimationKey* b = c->GetKey(k);
		CHECK(a->input == b->input && a->interpolation == b->interpolation, "collapse-key", "%g %u for %g %u", b->input, b->interpolation, a->input, a->interpolation);
		CHECK(near(b->output, want(vector<float>(a->output, a->output + dim))), "collapse-value", "%g at key %zu", b->output, k);
		if (b->interpolation != (uint32) Ip::BEZIER || a->interpolation != b->interpolation) continue;
		auto s = static_cast<const FCDAnimationMKeyBezier*>(a); auto o = static_cast<const FCDAnimationKeyBezier*>(b); vector<float> in, out;
		for (size_t d = 0; d < dim; ++d) { in.push_back(s->inTangent[d].v); out.push_back(s->outTangent[d].v); }
		CHECK(o->inTangent.u == s->inTangent[0].u && o->outTangent.u == s->outTangent[0].u, "collapse-tangent-time", "%g %g for %g %g", o->inTangent.u, o->outTangent.u, s->inTangent[0].u, s->outTangent[0].u);
		CHECK(near(o->inTangent.v, want(in)) && near(o->outTangent.v, want(out)), "collapse-tangent", "%g %g", o->inTangent.v, o->outTangent.v);
	}
	mon::hit("collapsed");
}

// Clips move their curves along the time without changing the motion.
void clips(Rng& r, FCDocument* doc)
{
	size_t nc = (size_t) r.range(1, 3), nk = (size_t) r.range(1, 3); vector<FCDAnimationCurve*> curves; vector<Ref> refs(nc); vector<double> shift(nc, 0.0);
	for (size_t i = 0; i < nc; ++i) curves.push_back(grid(r, doc, refs[i], -1, (size_t) r.range(2, 8), 1));
	struct Clip { FCDAnimationClip* c; double start, end; std::map<size_t, double> offset; }; vector<Clip> cs;
	for (size_t k = 0; k < nk; ++k)
	{
		Clip c; c.c = doc->GetAnimationClipLibrary()->AddEntity(); c.start = r.range(-8, 8); c.end = c.start + r.range(1, 20); c.c->SetStart((float) c.start); c.c->SetEnd((float) c.end);
		for (size_t i = 0; i < nc; ++i) if (r.chance(70)) { c.c->AddClipCurve(curves[i]); c.offset[i] = -c.start; }
		cs.push_back(c);
	}
	for (int o = r.range(1, 6); o > 0; --o)
	{
		int op = r.range(0, 9);
		if (op == 0 && curves.size() < 8) // A curve with clones of its clips, or without any.
		{
			size_t i = r.below(curves.size()), n = curves.size(); bool with = r.chance(70);
			FCDAnimationCurve* c = curves[i]->GetParent()->AddCurve(); curves[i]->Clone(c, with); curves.push_back(c); refs.push_back(Ref(refs[i])); shift.push_back(shift[i]);
			CHECK(c->GetClipCount() == (with ? curves[i]->GetClipCount() : 0), "clone-clip-count", "%zu of %zu", c->GetClipCount(), curves[i]->GetClipCount());
			for (size_t k = 0; k < c->GetClipCount(); ++k)
			{
				FCDAnimationClip* was = curves[i]->GetClip(k); Clip x; x.c = c->GetClip(k); auto m = std::find_if(cs.begin(), cs.end(), [&](Clip& y) { return y.c == was; });
				CHECK(m != cs.end() && x.c != was && x.c->GetClipCurves().size() == 1 && x.c->GetClipCurves().front() == c && x.c->GetName() == was->GetName(), "clone-clip", "clip %zu", k);
				x.start = m->start; x.end = m->end; x.offset[n] = m->offset[i]; cs.push_back(x);
			}
			mon::hit("curves_cloned_with_clips", with);
		}
		else if (op == 1 && curves.size() < 8) // A clip with clones of its curves, or without any.
		{
			Clip m = cs[r.below(cs.size())]; bool with = r.chance(70); Clip x; x.c = doc->GetAnimationClipLibrary()->AddEntity(); m.c->Clone(x.c, with); x.start = m.start; x.end = m.end;
			CHECK(x.c->GetClipCurves().size() == (with ? m.c->GetClipCurves().size() : 0), "clone-curve-count", "%zu of %zu", x.c->GetClipCurves().size(), m.c->GetClipCurves().size());
			for (size_t k = 0; k < x.c->GetClipCurves().size(); ++k)
			{
				size_t i = std::find(curves.begin(), curves.end(), (FCDAnimationCurve*) m.c->GetClipCurves()[k]) - curves.begin(); x.offset[curves.size()] = m.offset[i];
				curves.push_back(x.c->GetClipCurves()[k]); refs.push_back(Ref(refs[i])); shift.push_back(shift[i]);
			}
			cs.push_back(x); mon::hit("clips_cloned_with_curves", with);
		}
		else if (op < 4) { float start = (float) r.range(-8, 8); FCDAnimationClipTools::ResetAnimationClipTimes(doc, start); for (auto& c : cs) { double d = start - c.start; c.start = start; c.end += d; for (auto& p : c.offset) p.second = d; } }
		else
		{
			size_t i = r.below(curves.size()); Clip& c = cs[r.below(cs.size())];
			curves[i]->SetCurrentAnimationClip(NULL); curves[i]->SetCurrentAnimationClip(c.c); if (c.offset.count(i)) shift[i] = c.offset[i];
			mon::hit("clips_selected");
		}
		for (auto& c : cs) { CHECK(c.c->GetStart() == (float) c.start && c.c->GetEnd() == (float) c.end, "clip-span", "%g %g for %g %g", c.c->GetStart(), c.c->GetEnd(), c.start, c.end); }
		for (size_t i = 0; i < curves.size(); ++i)
		{
			size_t n = 0; for (auto& c : cs) n += c.offset.count(i); CHECK(curves[i]->GetClipCount() == n, "clip-count", "%zu for %zu", curves[i]->GetClipCount(), n);
			Ref s = refs[i]; double mag = 1; for (auto& k : s.k) { k.x += shift[i]; k.ix += shift[i]; k.ox += shift[i]; mag = std::max(mag, std::max(fabs(k.y), std::max(fabs(k.iy), fabs(k.oy)))); }
			for (size_t k = 0; k < s.k.size(); ++k) CHECK(fabs(curves[i]->GetKey(k)->input - s.k[k].x) < 1e-4, "clip-key-time", "%g for %g", curves[i]->GetKey(k)->input, s.k[k].x);
			for (int q = 0; q < 4; ++q) { float x = (float) (s.k[0].x + (s.k.back().x - s.k[0].x) * r.unit()); bool close = false; for (auto& k : s.k) close = close || fabs(k.x - x) < 1e-3; if (!close) judge("clip", expected(s, 0, 0, x), curves[i]->Evaluate(x), x, mag * 4, ""); }
		}
	}
	mon::nontrivial();
}
}

PROP(C23, "histories of key insertion, removal, resizing, conversion and cloning against a list model; merges of up to four curves and their collapse; clip selection; a case counts with four keys in the end, a merge of two dimensions, or clips")
{
	FUObjectRef<FCDocument> doc = new FCDocument();
	switch (r.below(5)) { case 0: case 1: editing(r, doc); break; case 2: case 3: merging(r, doc); break; default: clips(r, doc); break; }
	mon::sig(r.next());
}
