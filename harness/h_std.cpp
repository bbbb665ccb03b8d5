// C28: up-axis and unit standardisation against one change of basis, computed per entity in double precision.
#include "docmon.h"
#include "FCDocument/FCDocumentTools.h"
#include <cmath>
#include <map>
using std::vector; typedef std::string S;

namespace {
struct M { double a[3][4]; bool affine = true; };     // the upper three rows
M unit() { M m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) m.a[i][j] = i == j; return m; }
M mul(const M& x, const M& y)
{
	M m; m.affine = x.affine && y.affine;
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) { m.a[i][j] = j == 3 ? x.a[i][3] : 0; for (int k = 0; k < 3; ++k) m.a[i][j] += x.a[i][k] * y.a[k][j]; }
	return m;
}
M of(const FMMatrix44& f) { M m; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) m.a[i][j] = f[j][i]; m.affine = f[0][3] == 0 && f[1][3] == 0 && f[2][3] == 0 && f[3][3] == 1; return m; }
typedef struct { double v[3]; } V;
V vec(const float* p) { V v = { { p[0], p[1], p[2] } }; return v; }
V norm(V a) { double l = sqrt(a.v[0] * a.v[0] + a.v[1] * a.v[1] + a.v[2] * a.v[2]); for (double& x : a.v) x /= l; return a; }
V cross(V a, V b) { V c = { { a.v[1] * b.v[2] - a.v[2] * b.v[1], a.v[2] * b.v[0] - a.v[0] * b.v[2], a.v[0] * b.v[1] - a.v[1] * b.v[0] } }; return c; }
// A transform element by the COLLADA specification; a skew is taken as a plain dyad, whatever its axes.
M element(const FCDTransform* t)
{
	M a = unit(); const double rad = 3.14159265358979323846 / 180;
	switch (t->GetType())
	{
	case FCDTransform::TRANSLATION: { const FMVector3& v = ((const FCDTTranslation*) t)->GetTranslation(); a.a[0][3] = v.x; a.a[1][3] = v.y; a.a[2][3] = v.z; break; }
	case FCDTransform::SCALE: { const FMVector3& v = ((const FCDTScale*) t)->GetScale(); a.a[0][0] = v.x; a.a[1][1] = v.y; a.a[2][2] = v.z; break; }
	case FCDTransform::ROTATION:
	{
		FMVector3 ax = ((const FCDTRotation*) t)->GetAxis(); double an = ((const FCDTRotation*) t)->GetAngle() * rad, c = cos(an), s = sin(an); V u = norm({ { ax.x, ax.y, ax.z } });
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a.a[i][j] = (i == j ? c : 0) + (1 - c) * u.v[i] * u.v[j];
		a.a[0][1] -= s * u.v[2]; a.a[0][2] += s * u.v[1]; a.a[1][0] += s * u.v[2]; a.a[1][2] -= s * u.v[0]; a.a[2][0] -= s * u.v[1]; a.a[2][1] += s * u.v[0]; break;
	}
	case FCDTransform::MATRIX: a = of(((const FCDTMatrix*) t)->GetTransform()); break;
	case FCDTransform::LOOKAT:
	{
		const FCDTLookAt* l = (const FCDTLookAt*) t; FMVector3 e = l->GetPosition(), g = l->GetTarget(), up = l->GetUp();
		V f = norm({ { (double) g.x - e.x, (double) g.y - e.y, (double) g.z - e.z } }), s = norm(cross(f, norm({ { up.x, up.y, up.z } }))), u = cross(s, f);
		for (int i = 0; i < 3; ++i) { a.a[i][0] = s.v[i]; a.a[i][1] = u.v[i]; a.a[i][2] = -f.v[i]; } a.a[0][3] = e.x; a.a[1][3] = e.y; a.a[2][3] = e.z; break;
	}
	default:
	{
		const FCDTSkew* k = (const FCDTSkew*) t; double s = tan(k->GetAngle() * rad); FMVector3 ro = k->GetRotateAxis(), ar = k->GetAroundAxis(); double r[3] = { ro.x, ro.y, ro.z }, v[3] = { ar.x, ar.y, ar.z };
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a.a[i][j] += s * v[i] * r[j]; break;
	}
	}
	return a;
}
bool near(const M& x, const M& y, double tol)
{
	double big[2] = { 1e-6, 1e-6 };
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) { if (!(std::isfinite(x.a[i][j]) && std::isfinite(y.a[i][j]))) return true; big[j == 3] = std::max(big[j == 3], std::max(fabs(x.a[i][j]), fabs(y.a[i][j]))); }
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) if (fabs(x.a[i][j] - y.a[i][j]) > tol * big[j == 3] + 1e-6) return false;
	return true;
}
double big(const M& m, bool last) { double b = 1e-6; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) if ((j == 3) == last) b = std::max(b, fabs(m.a[i][j])); return b; }
S str(const M& m) { S s; char b[40]; for (int i = 0; i < 3; ++i) { for (int j = 0; j < 4; ++j) { snprintf(b, sizeof b, "%s%.5g", j ? " " : i ? " / " : "", m.a[i][j]); s += b; } } return s; }

// Right, up and inward directions of each system, as the specification lists them.
struct Basis { int up; double metres; };   // 0, 1, 2: X, Y, Z up; -1: unknown
void frame(int up, double f[3][3])
{
	static const double t[3][3][3] = { { { 0, -1, 0 }, { 1, 0, 0 }, { 0, 0, 1 } }, { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 } }, { { 1, 0, 0 }, { 0, 0, 1 }, { 0, -1, 0 } } };
	for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) f[i][j] = t[up][i][j];
}
struct Change
{
	double r[3][3], s; bool turns;
	Change(Basis from, Basis to)
	{
		s = from.metres > 0 ? from.metres / to.metres : 1; if (fabs(s - 1) < 2e-5) s = 1; turns = from.up >= 0 && from.up != to.up;
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) r[i][j] = i == j;
		if (!turns) return;
		double a[3][3], b[3][3]; frame(from.up, a); frame(to.up, b);
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) { r[i][j] = 0; for (int k = 0; k < 3; ++k) r[i][j] += b[k][i] * a[k][j]; }
	}
	M rot() const { M m = unit(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) m.a[i][j] = r[i][j]; return m; }
	M operator()(const M& m) const
	{
		M inv = unit(); for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) inv.a[i][j] = r[j][i];
		M x = mul(mul(rot(), m), inv); for (int i = 0; i < 3; ++i) x.a[i][3] *= s; x.affine = m.affine; return x;
	}
	V point(V p, bool length) const { V o; for (int i = 0; i < 3; ++i) { o.v[i] = 0; for (int k = 0; k < 3; ++k) o.v[i] += r[i][k] * p.v[k]; if (length) o.v[i] *= s; } return o; }
};
bool near(V a, V b, double tol) { double big = 1e-6; for (int i = 0; i < 3; ++i) { if (!std::isfinite(a.v[i]) || !std::isfinite(b.v[i])) return true; big = std::max(big, std::max(fabs(a.v[i]), fabs(b.v[i]))); } for (int i = 0; i < 3; ++i) if (fabs(a.v[i] - b.v[i]) > tol * big + 1e-7) return false; return true; }

int axisOf(const FMVector3& v) { return v.x > 0.5f ? 0 : v.y > 0.5f ? 1 : v.z > 0.5f ? 2 : -1; }
const FMVector3& axisVec(int k) { return k == 0 ? FMVector3::XAxis : k == 1 ? FMVector3::YAxis : FMVector3::ZAxis; }
void take(const FCDAsset* a, Basis& b, bool& u, bool& x)
{
	if (a == NULL) return;
	if (!u && a->GetHasUnitsFlag()) { u = true; b.metres = a->GetUnitConversionFactor(); }
	if (!x && a->GetHasUpAxisFlag()) { x = true; b.up = axisOf(a->GetUpAxis()); }
}
Basis basisOf(const FCDEntity* e, const FCDAsset* lib)
{
	Basis b = { -1, -1 }; bool u = false, x = false;
	if (e->GetType() == FCDEntity::SCENE_NODE) for (const FCDSceneNode* n = (const FCDSceneNode*) e; n != NULL; n = n->GetParent(0)) take(((const FCDEntity*) n)->GetAsset(), b, u, x);
	else take(e->GetAsset(), b, u, x);
	take(lib, b, u, x); take(((const FCDocument*) e->GetDocument())->GetAsset(), b, u, x);
	return b;
}
bool turnsOnly(FCDEntity::Type t) { return t == FCDEntity::CAMERA || t == FCDEntity::LIGHT || t == FCDEntity::FORCE_FIELD || t == FCDEntity::EMITTER; }

struct Look   // what a document shows
{
	struct Node { vector<vector<M>> t; vector<std::pair<FCDEntity*, int>> seen; size_t kids; };
	std::map<FCDSceneNode*, Node> nodes;
	std::map<FCDGeometrySource*, vector<vector<V>>> sources;
	std::map<FCDSpline*, vector<V>> splines;
	std::map<FCDController*, vector<M>> skins;
	std::map<FCDCamera*, vector<double>> cameras;
};
void walk(FCDSceneNode* n, std::set<FCDSceneNode*>& done, vector<FCDSceneNode*>& out)
{
	if (!done.insert(n).second) return;
	out.push_back(n); for (size_t k = 0; k < n->GetChildrenCount(); ++k) walk(n->GetChild(k), done, out);
}
vector<FCDSceneNode*> allNodes(FCDocument* d) { std::set<FCDSceneNode*> s; vector<FCDSceneNode*> v; for (size_t k = 0; k < d->GetVisualSceneLibrary()->GetEntityCount(); ++k) walk(d->GetVisualSceneLibrary()->GetEntity(k), s, v); return v; }
void observe(FCDocument* d, const vector<float>& times, Look& o)
{
	for (FCDSceneNode* n : allNodes(d))
	{
		Look::Node& w = o.nodes[n]; w.kids = n->GetChildrenCount();
		for (size_t i = 0; i < n->GetTransformCount(); ++i)
		{
			FCDTransform* t = n->GetTransform(i); w.t.push_back(vector<M>());
			bool moving = t->IsAnimated();
			for (size_t k = 0; k < times.size(); ++k) { if (moving) t->GetAnimated()->Evaluate(times[k]); if (k == 0 || moving) w.t.back().push_back(element(t)); else w.t.back().push_back(w.t.back()[0]); }
			if (moving) mon::hit("animated_transforms");
			mon::hit("transforms");
		}
		for (size_t i = 0; i < n->GetInstanceCount(); ++i) w.seen.push_back(std::make_pair(n->GetInstance(i)->GetEntity(), (int) n->GetInstance(i)->GetEntityType()));
	}
	FCDGeometryLibrary* gl = d->GetGeometryLibrary();
	for (size_t g = 0; g < gl->GetEntityCount(); ++g)
	{
		FCDGeometry* e = gl->GetEntity(g);
		if (e->IsMesh()) for (size_t q = 0; q < e->GetMesh()->GetSourceCount(); ++q)
		{
			FCDGeometrySource* s = e->GetMesh()->GetSource(q); uint32 st = s->GetStride(); if (st < 3) continue;
			auto& w = o.sources[s];
			for (float t : times)
			{
				for (size_t a = 0; a < s->GetSourceData().GetAnimatedValues().size(); ++a) s->GetSourceData().GetAnimatedValues()[a]->Evaluate(t);
				w.push_back(vector<V>()); for (size_t v = 0; v < s->GetValueCount(); ++v) w.back().push_back(vec(s->GetValue(v)));
				if (s->GetSourceData().GetAnimatedValues().empty()) break;
				mon::hit("animated_sources");
			}
			mon::hit("values", s->GetValueCount());
		}
		else if (e->IsSpline()) for (size_t q = 0; q < e->GetSpline()->GetSplineCount(); ++q) { FCDSpline* s = e->GetSpline()->GetSpline(q); for (size_t v = 0; v < s->GetCVCount(); ++v) o.splines[s].push_back(vec((const float*) *s->GetCV(v))); mon::hit("values", s->GetCVCount()); }
	}
	for (size_t c = 0; c < d->GetControllerLibrary()->GetEntityCount(); ++c)
	{
		FCDController* e = d->GetControllerLibrary()->GetEntity(c); if (!e->IsSkin()) continue;
		FCDSkinController* s = e->GetSkinController(); o.skins[e].push_back(of(s->GetBindShapeTransform()));
		for (size_t j = 0; j < s->GetJointCount(); ++j) { M m = of(s->GetJoint(j)->GetBindPoseInverse()); o.skins[e].push_back(m); mon::hit("bind_poses"); }
	}
	for (size_t c = 0; c < d->GetCameraLibrary()->GetEntityCount(); ++c)
	{
		FCDCamera* e = d->GetCameraLibrary()->GetEntity(c);
		for (float t : times)
		{
			if (e->GetNearZ().IsAnimated()) e->GetNearZ().GetAnimated()->Evaluate(t); if (e->GetFarZ().IsAnimated()) e->GetFarZ().GetAnimated()->Evaluate(t);
			o.cameras[e].push_back(e->GetNearZ()); o.cameras[e].push_back(e->GetFarZ()); o.cameras[e].push_back(e->GetFovX()); o.cameras[e].push_back(e->GetFovY());
		}
		mon::hit("clip_planes");
	}
}
bool invertible(const M& m)
{
	double d = m.a[0][0] * (m.a[1][1] * m.a[2][2] - m.a[1][2] * m.a[2][1]) - m.a[0][1] * (m.a[1][0] * m.a[2][2] - m.a[1][2] * m.a[2][0]) + m.a[0][2] * (m.a[1][0] * m.a[2][1] - m.a[1][1] * m.a[2][0]);
	double b = 0; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) b = std::max(b, fabs(m.a[i][j]));
	return b > 0 && fabs(d) > 1e-3 * b * b * b && b < 1e4;
}
template <class F> void assets(FCDocument* d, F f)
{
	for (FCDSceneNode* n : allNodes(d)) f((FCDEntity*) n);
	for (size_t k = 0; k < d->GetGeometryLibrary()->GetEntityCount(); ++k) f((FCDEntity*) d->GetGeometryLibrary()->GetEntity(k));
	for (size_t k = 0; k < d->GetControllerLibrary()->GetEntityCount(); ++k) f((FCDEntity*) d->GetControllerLibrary()->GetEntity(k));
	for (size_t k = 0; k < d->GetCameraLibrary()->GetEntityCount(); ++k) f((FCDEntity*) d->GetCameraLibrary()->GetEntity(k));

}
void animationAssets(FCDAnimation* a, const std::function<void(FCDEntity*)>& f) { f(a); for (size_t k = 0; k < a->GetChildrenCount(); ++k) animationAssets(a->GetChild(k), f); }
}

PROP(C28, "random documents are standardised one to three times; a case counts when a conversion that changes something was compared")
{
	DocRef d; bool moving = r.chance(50);
	DocGen g(r, d, DocGen::SCENE | DocGen::CAMERA | DocGen::LIGHT | DocGen::MESH | (r.chance(40) ? DocGen::SPLINE : 0) | (r.chance(40) ? DocGen::SKIN : 0) | (r.chance(40) ? DocGen::FORCE | DocGen::EMITTER : 0) | (r.chance(50) ? DocGen::ASSET : 0) | (moving ? DocGen::ANIM : 0), 1);
	g.build();
	static const float units[] = { 1.0f, 0.01f, 0.0254f, 0.3048f, 1000.0f, 0.001f };
	auto anyUnit = [&]() { return r.chance(80) ? units[r.below(6)] : g.pos(0.01f, 50); };
	// The document always declares both, so that there is a system to come from.
	d->GetAsset()->SetUpAxis(axisVec(r.below(3))); d->GetAsset()->SetUnitConversionFactor(anyUnit());
	Basis doc = { axisOf(d->GetAsset()->GetUpAxis()), d->GetAsset()->GetUnitConversionFactor() };
	bool mixed = !moving && r.chance(50);
	// With curves, everything is in the system of the document: whose system a key is in would be a matter of taste otherwise.
	auto touch = [&](FCDAsset* a)
	{
		a->ResetHasUnitsFlag(); a->ResetHasUpAxisFlag();
		if (r.chance(40)) a->SetUnitConversionFactor(mixed ? anyUnit() : (float) doc.metres);
		if (r.chance(40)) a->SetUpAxis(axisVec(mixed ? r.below(3) : doc.up));
	};
	assets(d, [&](FCDEntity* e) { if (((const FCDEntity*) e)->GetAsset() != NULL || r.chance(mixed ? 20 : 3)) { touch(e->GetAsset()); mon::hit("entity_assets"); } });
	for (size_t k = 0; k < d->GetAnimationLibrary()->GetEntityCount(); ++k) animationAssets(d->GetAnimationLibrary()->GetEntity(k), [&](FCDEntity* e) { if (((const FCDEntity*) e)->GetAsset() != NULL) touch(e->GetAsset()); });
	const FCDAsset* lib[4] = { NULL, NULL, NULL, NULL };
	if (r.chance(20)) { touch(d->GetVisualSceneLibrary()->GetAsset(true)); mon::hit("library_assets"); } if (r.chance(20)) touch(d->GetGeometryLibrary()->GetAsset(true)); if (r.chance(20)) touch(d->GetControllerLibrary()->GetAsset(true)); if (r.chance(20)) touch(d->GetCameraLibrary()->GetAsset(true)); if (r.chance(20)) touch(d->GetAnimationLibrary()->GetAsset(true));
	lib[0] = d->GetVisualSceneLibrary()->GetAsset(false); lib[1] = d->GetGeometryLibrary()->GetAsset(false); lib[2] = d->GetControllerLibrary()->GetAsset(false); lib[3] = d->GetCameraLibrary()->GetAsset(false);
	if (moving)
	{
		// Some vertices move too.
		FCDAnimation* a = d->GetAnimationLibrary()->AddEntity();
		for (FCDGeometry* e : g.meshes) for (size_t q = 0; q < e->GetMesh()->GetSourceCount(); ++q)
		{
			FCDGeometrySource* s = e->GetMesh()->GetSource(q); if (s->GetStride() < 3 || s->GetValueCount() == 0 || !r.chance(30)) continue;
			for (int k = r.range(1, 4); k > 0; --k)
			{
				size_t at = r.below(s->GetValueCount()) * s->GetStride() + r.below(3); FCDAnimated* an = s->GetSourceData().GetAnimated(at);
				if (an->GetCurveCount(0) == 0) { an->AddCurve(0, g.curve(a->AddChannel())); mon::hit("vertex_curves"); }
			}
		}
		// What a driver's values are is not for this property to say.
		std::function<void(FCDAnimation*)> free = [&](FCDAnimation* x) { for (size_t c = 0; c < x->GetChannelCount(); ++c) for (size_t k = 0; k < x->GetChannel(c)->GetCurveCount(); ++k) x->GetChannel(c)->GetCurve(k)->SetDriver(NULL, -1); for (size_t k = 0; k < x->GetChildrenCount(); ++k) free(x->GetChild(k)); };
		for (size_t k = 0; k < d->GetAnimationLibrary()->GetEntityCount(); ++k) free(d->GetAnimationLibrary()->GetEntity(k));
	}
	vector<float> times; times.push_back(0); if (moving) for (int k = 0; k < 4; ++k) times.push_back(r.flt(-20, 60));
	ErrorTap errs;
	for (int turn = r.range(1, 3); turn > 0; --turn)
	{
		FMVector3 up = r.chance(85) ? axisVec(r.below(3)) : FMVector3::Origin; float metres = r.chance(80) ? anyUnit() : r.chance(50) ? 0.0f : -1.0f;
		Basis to = { axisOf(up), metres }; if (to.up < 0) to.up = axisOf(d->GetAsset()->GetUpAxis()); if (metres <= 0) to.metres = d->GetAsset()->GetUnitConversionFactor();
		Look a, b; observe(d, times, a);
		std::map<const FCDEntity*, Basis> from; std::map<FCDGeometrySource*, FCDGeometry*> owner; std::map<FCDSpline*, FCDGeometry*> sowner;
		assets(d, [&](FCDEntity* e) { from[e] = basisOf(e, e->GetType() == FCDEntity::SCENE_NODE ? lib[0] : e->GetType() == FCDEntity::GEOMETRY ? lib[1] : e->GetType() == FCDEntity::CONTROLLER ? lib[2] : lib[3]); });
		for (size_t k = 0; k < d->GetGeometryLibrary()->GetEntityCount(); ++k)
		{
			FCDGeometry* e = d->GetGeometryLibrary()->GetEntity(k);
			if (e->IsMesh()) for (size_t q = 0; q < e->GetMesh()->GetSourceCount(); ++q) owner[e->GetMesh()->GetSource(q)] = e;
			if (e->IsSpline()) for (size_t q = 0; q < e->GetSpline()->GetSplineCount(); ++q) sowner[e->GetSpline()->GetSpline(q)] = e;
		}
		FCDocumentTools::StandardizeUpAxisAndLength(d, up, metres);
		mon::hit("conversions");
		observe(d, times, b);
		bool did = false;
		for (auto& it : a.nodes)
		{
			FCDSceneNode* n = it.first; Change c(from[n], to); const Look::Node& x = it.second;
			if (!b.nodes.count(n)) { mon::viol("lost-node", "a node has left the scene"); continue; }
			const Look::Node& y = b.nodes[n]; did |= c.turns || c.s != 1;
			// A look-at element cannot be mapped as such: what follows it is turned back.
			bool looks = false; for (size_t i = 0; i < n->GetTransformCount(); ++i) looks |= n->GetTransform(i)->GetType() == FCDTransform::LOOKAT; looks = looks && c.turns;
			bool leaf = x.kids == 0 && x.seen.size() == 1 && turnsOnly((FCDEntity::Type) x.seen[0].second) && c.turns;   // the node itself is turned then
			size_t each = looks ? 0 : leaf ? (x.t.empty() ? 0 : x.t.size() - 1) : x.t.size();
			if (!leaf && !looks) CHECK(y.t.size() == x.t.size(), "transform-count", "%zu transforms became %zu", x.t.size(), y.t.size());
			for (size_t k = 0; k < times.size(); ++k)
			{
				for (size_t i = 0; i < each && i < y.t.size(); ++i)
				{
					M want = c(x.t[i][k]);
					if (!near(want, y.t[i][k], 1e-4)) { mon::viol("transform", "%s of type %d at %g, up %d to %d, scale %g: %s, but %s was expected from %s", k ? "a moving transform" : "a transform", (int) n->GetTransform(i)->GetType(), times[k], from[n].up, to.up, c.s, str(y.t[i][k]).c_str(), str(want).c_str(), str(x.t[i][k]).c_str()); break; }
				}
				if (looks)
				{
					M want = unit(), got = unit(); double size = 1, far = 1; for (size_t i = 0; i < x.t.size(); ++i) { M q = c(x.t[i][k]); want = mul(want, q); size *= big(q, false); far = far * std::max(1.0, big(q, false)) + size * big(q, true); } if (leaf) want = mul(want, c.rot());
					for (size_t i = 0; i < y.t.size(); ++i) got = mul(got, y.t[i][k]);
					bool same = true; for (int i = 0; i < 3; ++i) for (int j = 0; j < 4; ++j) if (fabs(want.a[i][j] - got.a[i][j]) > 1e-3 * (j == 3 ? far : size) + 1e-6) same = false;   // not so when not a number
					CHECK(same, "look-at", "%s, up %d to %d: %s, but %s was expected", leaf ? "with an instance that turns" : "without one", from[n].up, to.up, str(got).c_str(), str(want).c_str());
					mon::hit("look_ats");
				}
				else if (leaf)
				{
					M want = x.t.empty() ? c.rot() : mul(c(x.t.back()[k]), c.rot()), got = unit(); for (size_t i = each; i < y.t.size(); ++i) got = mul(got, y.t[i][k]);
					CHECK(near(want, got, 2e-4), "turn", "an instance of type %d, up %d to %d: %s, but %s was expected", x.seen[0].second, from[n].up, to.up, str(got).c_str(), str(want).c_str());
					mon::hit("turned_leaves");
				}
			}
			// Instances: those that must be turned have moved to a child each, the others have stayed.
			vector<std::pair<FCDEntity*, int>> stay, move;
			for (auto& s : x.seen) if (c.turns && !leaf && turnsOnly((FCDEntity::Type) s.second)) move.push_back(s); else stay.push_back(s);
			CHECK(y.seen == stay, "instances", "%zu instances where %zu were expected", y.seen.size(), stay.size());
			CHECK(y.kids == x.kids + move.size(), "children", "%zu children became %zu, with %zu instances to turn", x.kids, y.kids, move.size());
			for (size_t i = 0; i < move.size() && x.kids + i < y.kids; ++i)
			{
				FCDSceneNode* kid = n->GetChild(x.kids + i); M got = unit(); for (size_t q = 0; q < kid->GetTransformCount(); ++q) got = mul(got, element(kid->GetTransform(q)));
				CHECK(near(c.rot(), got, 1e-5), "pivot", "an instance of type %d, up %d to %d: %s", move[i].second, from[n].up, to.up, str(got).c_str());
				CHECK(kid->GetInstanceCount() == 1 && kid->GetInstance(0)->GetEntity() == move[i].first && kid->GetInstance(0)->GetEntityType() == move[i].second, "pivot-instance", "the pivot node instantiates something else");
				mon::hit("pivots");
			}
		}
		for (auto& it : a.sources)
		{
			FCDGeometrySource* s = it.first; Change c(from[owner[s]], to); auto ty = s->GetType(); did |= c.turns || c.s != 1;
			bool point = ty == FUDaeGeometryInput::POSITION, dir = ty == FUDaeGeometryInput::NORMAL || ty == FUDaeGeometryInput::GEOTANGENT || ty == FUDaeGeometryInput::GEOBINORMAL || ty == FUDaeGeometryInput::TEXTANGENT || ty == FUDaeGeometryInput::TEXBINORMAL;
			for (size_t k = 0; k < it.second.size() && k < b.sources[s].size(); ++k) for (size_t v = 0; v < it.second[k].size() && v < b.sources[s][k].size(); ++v)
			{
				V want = point || dir ? c.point(it.second[k][v], point) : it.second[k][v], got = b.sources[s][k][v];
				if (!near(want, got, 1e-4)) { mon::viol(S("vertex-") + (point ? "position" : dir ? "direction" : "other"), "value %zu at %g, up %d to %d, scale %g: (%g %g %g), but (%g %g %g) was expected", v, times[k], from[owner[s]].up, to.up, c.s, got.v[0], got.v[1], got.v[2], want.v[0], want.v[1], want.v[2]); break; }
			}
		}
		for (auto& it : a.splines)
		{
			Change c(from[sowner[it.first]], to);
			for (size_t v = 0; v < it.second.size() && v < b.splines[it.first].size(); ++v) { V want = c.point(it.second[v], true), got = b.splines[it.first][v]; CHECK(near(want, got, 1e-5), "spline", "control point %zu: (%g %g %g), but (%g %g %g) was expected", v, got.v[0], got.v[1], got.v[2], want.v[0], want.v[1], want.v[2]); }
		}
		for (auto& it : a.skins)
		{
			Change c(from[it.first], to); const vector<M>& y = b.skins[it.first];
			for (size_t j = 0; j < it.second.size() && j < y.size(); ++j)
			{
				M want = c(it.second[j]); if (!it.second[j].affine || (j > 0 && !invertible(it.second[j]))) continue;
				CHECK(near(want, y[j], j ? 5e-3 : 1e-5), j ? "bind-pose" : "bind-shape", "joint %d, up %d to %d, scale %g: %s, but %s was expected", (int) j - 1, from[it.first].up, to.up, c.s, str(y[j]).c_str(), str(want).c_str());
			}
		}
		for (auto& it : a.cameras)
		{
			Change c(from[it.first], to); const vector<double>& y = b.cameras[it.first];
			for (size_t k = 0; k < it.second.size() && k < y.size(); ++k) { double want = it.second[k] * (k % 4 < 2 ? c.s : 1), most = 1e-3; for (double q : it.second) most = std::max(most, fabs(q) * (k % 4 < 2 ? c.s : 1)); CHECK(fabs(want - y[k]) <= 1e-4 * fabs(want) + (k < 4 ? 0 : 1e-4 * most) + 1e-7, "clip-plane", "item %zu: %g, but %g was expected", k % 4, y[k], want); }
		}
		// Everything is in the wanted system now.
		CHECK(axisOf(d->GetAsset()->GetUpAxis()) == to.up && fabs(d->GetAsset()->GetUnitConversionFactor() - to.metres) <= 1e-6 * to.metres && d->GetAsset()->GetHasUnitsFlag() && d->GetAsset()->GetHasUpAxisFlag(), "declared", "the document declares up %d and %g metres", axisOf(d->GetAsset()->GetUpAxis()), d->GetAsset()->GetUnitConversionFactor());
		assets(d, [&](FCDEntity* e) { Basis q = basisOf(e, e->GetType() == FCDEntity::SCENE_NODE ? lib[0] : e->GetType() == FCDEntity::GEOMETRY ? lib[1] : e->GetType() == FCDEntity::CONTROLLER ? lib[2] : lib[3]); CHECK(q.up == to.up && fabs(q.metres - to.metres) <= 2e-5 * to.metres, "left-behind", "an entity of type %d is still in up %d and %g metres", (int) e->GetType(), q.up, q.metres); });
		if (did) { mon::nontrivial(); mon::hit("real_conversions"); }
		mon::sig(mon::hash(&to, sizeof to, a.nodes.size() * 31 + a.sources.size()));
	}
	CHECK(errs.errors.empty(), "errors", "%s", errs.all().c_str());
}
