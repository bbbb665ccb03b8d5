// C35: the conversion tools give what they convert: penumbras, sampled transforms, spline kinds.
#include "docmon.h"
#include "FCDocument/FCDLightTools.h"
#include "FCDocument/FCDSceneNodeTools.h"
#include "FCDocument/FCDAnimationMultiCurve.h"
#include <algorithm>
#include <functional>

namespace
{
namespace Ip = FUDaeInterpolation;
struct Key { double x, y; };
struct Line   // a curve of straight lines or steps, constant outside its keys
{
	std::vector<Key> k; bool step = false;
	double at(double t) const
	{
		if (t <= k.front().x) return k.front().y;
		if (t >= k.back().x) return k.back().y;
		size_t i = 1; while (k[i].x <= t) ++i;
		if (step) return k[i - 1].y;
		double u = (t - k[i - 1].x) / (k[i].x - k[i - 1].x);
		return k[i - 1].y + (k[i].y - k[i - 1].y) * u;
	}
};
FCDAnimationCurve* newCurve(FCDocument* d) { return d->GetAnimationLibrary()->AddEntity()->AddChannel()->AddCurve(); }
FCDAnimationCurve* put(FCDocument* d, const Line& l)
{
	FCDAnimationCurve* c = newCurve(d); c->SetPreInfinity(FUDaeInfinity::CONSTANT); c->SetPostInfinity(FUDaeInfinity::CONSTANT);
	for (const Key& q : l.k) { FCDAnimationKey* k = c->AddKey(l.step ? Ip::STEP : Ip::LINEAR); k->input = (float) q.x; k->output = (float) q.y; }
	return c;
}
double valueAt(FCDParameterAnimatableFloat& p, double t) { FCDAnimated* a = p.GetAnimated(); return a != NULL && a->GetCurve(0) != NULL ? a->GetCurve(0)->Evaluate((float) t) : (double) (float) p; }

void penumbra(Rng& r)
{
	DocRef doc, back, again;
	bool step = r.chance(30), fAnim = r.chance(60), pAnim = r.chance(70), file = r.chance(40), create = r.chance(50);
	int sign = r.range(0, 2); // penumbra negative, mixed, positive
	auto pick = [&]() { double v = r.range(1, 40) * 0.5; if (sign == 0 || (sign == 1 && r.chance(50))) v = -v; if (r.chance(12)) v = 0; return v; };
	auto line = [&](std::function<double()> val) { Line l; l.step = step; int n = r.range(1, 6); double x = r.range(-8, 8) * 0.25; for (int i = 0; i < n; ++i) { l.k.push_back({ x, val() }); x += r.range(1, 12) * 0.25; } return l; };
	double f0 = r.range(10, 90), p0 = pick();
	Line f, p;
	if (fAnim) f = line([&]() { return (double) r.range(10, 90); });
	if (pAnim) p = line(pick);

	FCDLight* light = doc->GetLightLibrary()->AddEntity(); light->SetLightType(FCDLight::SPOT); light->SetDaeId("lamp");
	light->SetFallOffAngle((float) f0);
	// An id for whoever is to be animated comes from the export.
	if (fAnim) light->GetFallOffAngle().GetAnimated()->AddCurve(0, put(doc, f));
	FCDENode* node = light->GetExtra()->GetDefaultType()->AddTechnique("MAYA")->AddParameter("penumbra_angle", (float) p0);
	if (pAnim) node->GetAnimated()->AddCurve(0, put(doc, p));
	FCDocument* d = doc; ErrorTap errs;
	if (!file)
	{
		FCDLightTools::LoadPenumbra(light, (float) p0, node->GetAnimated(), create);
		SAFE_RELEASE(node);
	}
	else
	{
		S path = tmpFile("penumbra.dae");
		if (!saveDoc(doc, path) || !loadDoc(back, path)) { mon::viol("penumbra:file", "%s", errs.all().c_str()); return; }
		d = back;
		if (d->GetLightLibrary()->GetEntityCount() != 1) { mon::viol("penumbra:light", "the light is lost"); return; }
		light = d->GetLightLibrary()->GetEntity(0);
	}
	// Times at, between and outside the keys; never next to a step.
	std::vector<double> times; for (double t = -6; t < 26; t += 0.125) times.push_back(t + (step ? 1.0 / 16 : 0)); for (double t = -6; t < 26; t += 1.0 / 3) times.push_back(t + 0.01);
	bool want = fAnim || pAnim; S how = S(file ? "file" : create ? "new-animation" : "same-animation") + (fAnim ? "+falloff" : "") + (pAnim ? "+penumbra" : "") + (step ? "+step" : "");
	auto check = [&](const char* where)
	{
		size_t bad = 0;
		for (double t : times)
		{
			double fv = fAnim ? f.at(t) : f0, pv = pAnim ? p.at(t) : p0, outer = fv + 2 * std::max(pv, 0.0), inner = fv + 2 * std::min(pv, 0.0);
			double go = valueAt(light->GetOuterAngle(), t), gi = valueAt(light->GetFallOffAngle(), t);
			if (fabs(go - outer) < 0.02 && fabs(gi - inner) < 0.02) { mon::hit("penumbra_values"); continue; }
			if (bad++ == 0) mon::viol(S("penumbra:") + where, "%s: at time %g, fall-off %g and penumbra %g: outer angle %g (expected %g), fall-off angle %g (expected %g)", how.c_str(), t, fv, pv, go, outer, gi, inner);
		}
	};
	check("values");
	if (!want)
	{
		double outer = f0 + 2 * std::max(p0, 0.0), inner = f0 + 2 * std::min(p0, 0.0);
		CHECK(fabs(light->GetOuterAngle() - outer) < 1e-3 && fabs(light->GetFallOffAngle() - inner) < 1e-3, "penumbra:constant", "outer angle %g (expected %g), fall-off angle %g (expected %g)", (float) light->GetOuterAngle(), outer, (float) light->GetFallOffAngle(), inner);
	}
	// Each angle has curves of its own.
	FCDAnimationCurve* oc = light->GetOuterAngle().GetAnimated()->GetCurve(0), * ic = light->GetFallOffAngle().GetAnimated()->GetCurve(0);
	CHECK(oc == NULL || oc != ic, "penumbra:shared-curve", "%s: both angles have the same curve", how.c_str());
	for (FCDAnimationCurve* c : { oc, ic }) if (c != NULL) for (size_t i = 1; i < c->GetKeyCount(); ++i) CHECK(c->GetKey(i - 1)->input <= c->GetKey(i)->input, "penumbra:key-order", "%s: key %zu is out of order", how.c_str(), i);
	// They outlive a round trip.
	if (r.chance(60))
	{
		S path = tmpFile("penumbra2.dae");
		if (!saveDoc(d, path) || !loadDoc(again, path)) { mon::viol("penumbra:file", "%s", errs.all().c_str()); return; }
		if (again->GetLightLibrary()->GetEntityCount() != 1) { mon::viol("penumbra:light", "the light is lost"); return; }
		light = again->GetLightLibrary()->GetEntity(0); mon::hit("penumbra_saved"); check("saved");
	}
	mon::hit(("penumbra_" + S(sign == 0 ? "negative" : sign == 1 ? "mixed" : "positive")).c_str());
	mon::sig(mon::hash(how.data(), how.size())); for (const Line* l : { &f, &p }) for (const Key& k : l->k) mon::sig(mon::hash(&k, sizeof k));
	mon::sig(mon::hash(&f0, sizeof f0)); mon::sig(mon::hash(&p0, sizeof p0));
	if (fAnim || pAnim) mon::nontrivial();
}

void sampled(Rng& r)
{
	DocRef a, b;
	FCDSceneNode* na = a->AddVisualScene()->AddChildNode(), * nb = b->AddVisualScene()->AddChildNode();
	struct An { FCDAnimated* a, * b; size_t index; Line l; bool angle; };
	std::vector<An> an; std::vector<FCDTransform*> tb;
	int n = r.range(1, 5); bool bigAngles = false;
	for (int i = 0; i < n; ++i)
	{
		FCDTransform::Type ty = r.pick(std::vector<FCDTransform::Type> { FCDTransform::TRANSLATION, FCDTransform::ROTATION, FCDTransform::ROTATION, FCDTransform::SCALE, FCDTransform::MATRIX, FCDTransform::SKEW });
		FCDTransform* x = na->AddTransform(ty), * y = nb->AddTransform(ty); tb.push_back(y);
		FMVector3 v((float) r.range(-4, 4), (float) r.range(1, 4), (float) r.range(-4, 4)); float g = (float) r.range(-180, 180);
		for (FCDTransform* z : { x, y }) switch (ty)
		{
		case FCDTransform::TRANSLATION: ((FCDTTranslation*) z)->SetTranslation(v); break;
		case FCDTransform::SCALE: ((FCDTScale*) z)->SetScale(v); break;
		case FCDTransform::ROTATION: ((FCDTRotation*) z)->SetRotation(FMVector3::XAxis, g); break;
		case FCDTransform::SKEW: ((FCDTSkew*) z)->SetRotateAxis(FMVector3::XAxis); ((FCDTSkew*) z)->SetAroundAxis(FMVector3::YAxis); ((FCDTSkew*) z)->SetAngle((float) (int) (g / 4)); break;
		default: ((FCDTMatrix*) z)->SetTransform(FMMatrix44::TranslationMatrix(v)); break;
		}
		if (r.chance(35)) continue;
		FCDAnimated* p = x->GetAnimated(), * q = y->GetAnimated(); if (p == NULL) continue;
		bool angles = ty == FCDTransform::ROTATION;
		for (size_t j = 0; j < p->GetValueCount(); ++j)
		{
			bool angle = angles && j == 3;
			if (!r.chance(angle ? 80 : angles ? 8 : p->GetValueCount() > 4 ? 15 : 50)) continue;
			Line l; int kn = r.range(1, 5); double t = r.range(0, 8) * 0.25;
			for (int k = 0; k < kn; ++k) { l.k.push_back({ t, (double) (angle ? (r.chance(40) ? r.range(-20, 20) * 45 : r.range(-90, 90)) : angles ? r.range(1, 5) : ty == FCDTransform::SKEW ? r.range(1, 40) : r.range(1, 9)) }); t += r.range(1, 8) * 0.25; }
			for (int k = 1; k < kn; ++k) bigAngles |= angle && fabs(l.k[k].y - l.k[k - 1].y) >= 180;
			p->AddCurve(j, put(a, l)); an.push_back({ p, q, j, l, angle });
		}
	}
	ErrorTap errs;
	FCDSceneNodeTools::GenerateSampledAnimation(na);
	std::vector<float> keys(FCDSceneNodeTools::GetSampledAnimationKeys().begin(), FCDSceneNodeTools::GetSampledAnimationKeys().end());
	FMMatrix44List mats = FCDSceneNodeTools::GetSampledAnimationMatrices();
	CHECK(keys.size() == mats.size(), "sampled:sizes", "%zu times, %zu matrices", keys.size(), mats.size());
	if (an.empty()) { CHECK(keys.empty(), "sampled:nothing", "%zu samples of a node that is not animated", keys.size()); return; }
	for (size_t i = 1; i < keys.size(); ++i) CHECK(keys[i - 1] < keys[i], "sampled:order", "sample %zu at %g follows one at %g", i, keys[i], keys[i - 1]);
	auto has = [&](double t) { for (float k : keys) if (fabs(k - t) < 1.5e-4) return true; return false; };
	std::set<double> own;
	for (auto& x : an) for (auto& k : x.l.k) { own.insert(k.x); CHECK(has(k.x), "sampled:missing-key", "no sample at the key time %g", k.x); }
	for (auto& x : an) if (x.angle) for (size_t i = 1; i < keys.size(); ++i)
	{
		double turn = fabs(x.l.at(keys[i]) - x.l.at(keys[i - 1]));
		CHECK(turn < 180.01, "sampled:half-turn", "the angle turns by %g between the samples at %g and %g", turn, keys[i - 1], keys[i]);
		mon::hit("sampled_turns");
	}
	// Samples which are not at a key belong to a large turn at that time.
	for (float k : keys)
	{
		bool at = false; for (double o : own) at |= fabs(o - k) < 1.5e-4;
		if (at) continue;
		bool need = false;
		for (auto& x : an) if (x.angle) for (size_t i = 1; i < x.l.k.size(); ++i) need |= k > x.l.k[i - 1].x && k < x.l.k[i].x && fabs(x.l.k[i].y - x.l.k[i - 1].y) >= 180;
		CHECK(need, "sampled:extra-sample", "a sample at %g for no reason", k); mon::hit("sampled_extra");
	}
	for (size_t i = 0; i < keys.size() && i < mats.size(); ++i)
	{
		for (auto& x : an) *x.b->GetValue(x.index) = (float) x.l.at(keys[i]);
		double m[4][4] = { { 1 }, { 0, 1 }, { 0, 0, 1 }, { 0, 0, 0, 1 } }, size = 1;
		for (FCDTransform* t : tb)
		{
			FMMatrix44 w = t->ToMatrix(); double q[4][4];
			for (int c = 0; c < 4; ++c) for (int row = 0; row < 4; ++row) { q[c][row] = 0; for (int k = 0; k < 4; ++k) q[c][row] += m[k][row] * w[c][k]; }
			memcpy(m, q, sizeof m); for (auto& c : m) for (double v : c) size = std::max(size, fabs(v));
		}
		double off = 0; for (int c = 0; c < 4; ++c) for (int row = 0; row < 4; ++row) off = std::max(off, fabs(m[c][row] - mats[i][c][row]));
		CHECK(off <= 2e-4 * size, "sampled:matrix", "the matrix at time %g is off by %g", keys[i], off);
		mon::hit("sampled_matrices"); mon::sig(mon::hash(&mats[i], sizeof mats[i]));
	}
	if (bigAngles) mon::hit("sampled_large_turns");
	if (r.chance(30)) { FCDSceneNodeTools::ClearSampledAnimation(); CHECK(FCDSceneNodeTools::GetSampledAnimationKeys().empty() && FCDSceneNodeTools::GetSampledAnimationMatrices().empty(), "sampled:clear", "samples are left after the clearing"); }
	mon::nontrivial();
}

typedef double P3[3];
void bez(const FMVector3* const* q, double u, P3 out) { double w[4] = { (1 - u) * (1 - u) * (1 - u), 3 * u * (1 - u) * (1 - u), 3 * u * u * (1 - u), u * u * u }; for (int c = 0; c < 3; ++c) { out[c] = 0; for (int i = 0; i < 4; ++i) out[c] += w[i] * (&q[i]->x)[c]; } }
// A point of a rational B-spline, from the recursion on its basis.
bool nurbs(FCDNURBSSpline* s, double u, P3 out)
{
	size_t d = s->GetDegree(), n = s->GetCVCount(), m = s->GetKnotCount(); if (m != n + d + 1) return false;
	std::vector<double> k(m); for (size_t i = 0; i < m; ++i) k[i] = *s->GetKnot(i);
	std::vector<double> b(m - 1); for (size_t i = 0; i + 1 < m; ++i) b[i] = k[i] <= u && u < k[i + 1] ? 1 : 0;
	for (size_t e = 1; e <= d; ++e) for (size_t i = 0; i + e + 1 < m; ++i) { double l = k[i + e] - k[i], h = k[i + e + 1] - k[i + 1]; b[i] = (l > 0 ? (u - k[i]) / l * b[i] : 0) + (h > 0 ? (k[i + e + 1] - u) / h * b[i + 1] : 0); }
	double w = 0; out[0] = out[1] = out[2] = 0;
	for (size_t i = 0; i < n; ++i) { double q = b[i] * *s->GetWeight(i); w += q; for (int c = 0; c < 3; ++c) out[c] += q * (&s->GetCV(i)->x)[c]; }
	if (w == 0) return false; for (int c = 0; c < 3; ++c) out[c] /= w; return true;
}

void splines(Rng& r)
{
	DocRef doc; ErrorTap errs;
	FCDGeometrySpline* gs = doc->GetGeometryLibrary()->AddEntity()->CreateSpline();
	gs->SetType(FUDaeSplineType::BEZIER);
	size_t total = 0; struct Seg { const FMVector3* q[4]; }; std::vector<Seg> want; std::vector<FMVector3List> keep; keep.reserve(8);
	int n = r.range(1, 3);
	for (int s = 0; s < n; ++s)
	{
		FCDBezierSpline* bz = (FCDBezierSpline*) gs->AddSpline(); bool closed = r.chance(50);
		auto pt = [&]() { return FMVector3((float) r.range(-9, 9), (float) r.range(-9, 9), (float) r.range(-9, 9)); };
		std::vector<FMVector3> line;
		if (r.chance(50))
		{
			FCDLinearSpline* ls = new FCDLinearSpline(doc); int k = r.range(0, 5); for (int i = 0; i < k; ++i) { line.push_back(pt()); ls->AddCV(line.back()); }
			ls->SetClosed(closed);
			if (r.chance(50)) { for (int i = r.range(0, 5); i > 0; --i) bz->AddCV(pt()); if (line.size() >= 2) bz->SetClosed(r.chance(50)); else bz->ClearCVs(); } // replaced
			CHECK(ls->IsValid() == (line.size() >= 2), "splines:valid", "a linear spline of %zu points is valid: %d", line.size(), ls->IsValid());
			ls->ToBezier(*bz);
			if (line.size() < 2) { CHECK(bz->GetCVCount() == 0, "splines:bezier", "a spline of %zu points gives %zu control points", line.size(), bz->GetCVCount()); }
			else
			{
				CHECK(bz->IsClosed() == closed, "splines:closed", "a spline that is closed: %d becomes one that is closed: %d", closed, bz->IsClosed());
				size_t segs = closed ? line.size() : line.size() - 1, cvs = bz->GetCVCount();
				CHECK(cvs == (closed ? 3 * segs : 3 * segs + 1), "splines:bezier", "%zu points give %zu control points", line.size(), cvs);
				for (size_t i = 0; i < segs && cvs == (closed ? 3 * segs : 3 * segs + 1); ++i) for (double u : { 0.0, 0.3, 0.5, 1.0 })
				{
					const FMVector3* q[4]; for (size_t k = 0; k < 4; ++k) q[k] = bz->GetCV((3 * i + k + (closed ? 1 : 0)) % cvs);
					P3 o; bez(q, u, o); const FMVector3& p0 = line[i], & p1 = line[(i + 1) % line.size()];
					double v = 3 * u * u - 2 * u * u * u, off = 0; for (int c = 0; c < 3; ++c) off = std::max(off, fabs((&p0.x)[c] * (1 - v) + (&p1.x)[c] * v - o[c]));
					CHECK(off < 1e-4, "splines:line", "point %g of line %zu is off by %g", u, i, off); mon::hit("spline_points");
				}
			}
			ls->Release();
		}
		else { size_t k = r.range(0, 4); bz->SetClosed(closed); for (size_t i = 0; i < (closed ? 3 * k : k == 0 ? r.range(0, 3) : 3 * k + 1); ++i) bz->AddCV(pt()); }
		keep.push_back(bz->GetCVs()); const FMVector3List& c = keep.back(); bool cl = bz->IsClosed(); size_t k = c.size();
		total += k;
		if (!cl) for (size_t i = 0; i + 3 < k; i += 3) want.push_back({ { &c[i], &c[i + 1], &c[i + 2], &c[i + 3] } });
		else for (size_t i = 0; i + 3 <= k; i += 3) want.push_back({ { &c[i + 1], &c[i + 2], &c[(i + 3) % k], &c[(i + 4) % k] } });
	}
	CHECK(gs->GetTotalCVCount() == total, "splines:total", "%zu control points in all, expected %zu", gs->GetTotalCVCount(), total);
	FCDNURBSSplineList list; gs->ConvertBezierToNURBS(list);
	CHECK(list.size() == want.size(), "splines:segments", "%zu NURBS, expected %zu", list.size(), want.size());
	for (size_t i = 0; i < list.size() && i < want.size(); ++i)
	{
		CHECK(list[i]->IsValid() && !list[i]->IsClosed(), "splines:nurbs-valid", "NURBS %zu is not valid, or closed", i);
		for (double u : { 0.0, 0.2, 0.5, 0.9 })
		{
			P3 x, y; bez(want[i].q, u, x); bool ok = nurbs(list[i], u, y);
			CHECK(ok && fabs(x[0] - y[0]) < 1e-3 && fabs(x[1] - y[1]) < 1e-3 && fabs(x[2] - y[2]) < 1e-3, "splines:nurbs", "point %g of NURBS %zu is off", u, i); mon::hit("nurbs_points");
		}
	}
	for (size_t i = 0; i < list.size(); ++i) list[i]->Release();
	CHECK(errs.errors.empty() , "splines:errors", "%s", errs.all().c_str());
	mon::sig(mon::hash(&total, sizeof total)); for (auto& k : keep) if (k.size()) mon::sig(mon::hash(k.begin(), k.size() * sizeof(FMVector3)));
	if (!want.empty()) mon::nontrivial();
}
}

PROP(C35, "penumbras of lights, sampled transforms of scene nodes and conversions between kinds of splines, from random curves, transforms and points, against the values of the originals; a case counts when something was animated or converted")
{
	switch (mon::caseIndex % 3) { case 0: penumbra(r); break; case 1: sampled(r); break; default: splines(r); break; }
}
