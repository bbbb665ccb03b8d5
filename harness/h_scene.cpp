// C27: the scene graph against a list of nodes with their parents, children, instances and transforms.
#include "mon.h"
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDAsset.h"
#include "FCDocument/FCDEntityInstance.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDSceneNodeIterator.h"
#include "FCDocument/FCDTransform.h"
#include <algorithm>
#include <cmath>
#include <set>
#include <vector>
using std::vector; typedef std::string S;

namespace {
struct M4 { double m[4][4]; };     // [row][column]
M4 unitM() { M4 a; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) a.m[i][j] = i == j; return a; }
M4 mul(const M4& a, const M4& b) { M4 c; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) { c.m[i][j] = 0; for (int k = 0; k < 4; ++k) c.m[i][j] += a.m[i][k] * b.m[k][j]; } return c; }
struct D3 { double x, y, z; };
D3 norm(D3 a) { double l = sqrt(a.x * a.x + a.y * a.y + a.z * a.z); return { a.x / l, a.y / l, a.z / l }; }
D3 cross(D3 a, D3 b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
// The matrix of a transform element as the COLLADA specification defines it.
M4 element(const FCDTransform* t)
{
	M4 a = unitM(); const double rad = 3.14159265358979323846 / 180;
	switch (t->GetType())
	{
	case FCDTransform::TRANSLATION: { const FMVector3& v = ((const FCDTTranslation*) t)->GetTranslation(); a.m[0][3] = v.x; a.m[1][3] = v.y; a.m[2][3] = v.z; break; }
	case FCDTransform::SCALE: { const FMVector3& v = ((const FCDTScale*) t)->GetScale(); a.m[0][0] = v.x; a.m[1][1] = v.y; a.m[2][2] = v.z; break; }
	case FCDTransform::ROTATION:
	{
		FMVector3 ax = ((const FCDTRotation*) t)->GetAxis(); double an = ((const FCDTRotation*) t)->GetAngle() * rad, c = cos(an), s = sin(an); D3 u = norm({ ax.x, ax.y, ax.z }); double v[3] = { u.x, u.y, u.z };
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a.m[i][j] = (i == j ? c : 0) + (1 - c) * v[i] * v[j];
		a.m[0][1] -= s * u.z; a.m[0][2] += s * u.y; a.m[1][0] += s * u.z; a.m[1][2] -= s * u.x; a.m[2][0] -= s * u.y; a.m[2][1] += s * u.x; break;
	}
	case FCDTransform::MATRIX: { FMMatrix44 m = ((const FCDTMatrix*) t)->GetTransform(); for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) a.m[i][j] = m[j][i]; break; }
	case FCDTransform::LOOKAT:
	{
		const FCDTLookAt* l = (const FCDTLookAt*) t; FMVector3 e = l->GetPosition(), g = l->GetTarget(), up = l->GetUp(); D3 f = norm({ (double) g.x - e.x, (double) g.y - e.y, (double) g.z - e.z }), s = norm(cross(f, norm({ up.x, up.y, up.z }))), u = cross(s, f);
		a.m[0][0] = s.x; a.m[1][0] = s.y; a.m[2][0] = s.z; a.m[0][1] = u.x; a.m[1][1] = u.y; a.m[2][1] = u.z; a.m[0][2] = -f.x; a.m[1][2] = -f.y; a.m[2][2] = -f.z; a.m[0][3] = e.x; a.m[1][3] = e.y; a.m[2][3] = e.z; break;
	}
	default:   // RenderMan: points along the rotated axis lean by the angle towards the other (perpendicular here), which stays
	{
		const FCDTSkew* k = (const FCDTSkew*) t; double s = tan(k->GetAngle() * rad); FMVector3 ro = k->GetRotateAxis(), ar = k->GetAroundAxis(); double r[3] = { ro.x, ro.y, ro.z }, v[3] = { ar.x, ar.y, ar.z };
		for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j) a.m[i][j] += s * v[i] * r[j]; break;
	}
	}
	return a;
}

struct Node { FCDSceneNode* n; bool alive, scene; S id; vector<int> kids, parents, inst; vector<FCDTransform*> t; M4 local; double mag; bool asset; };
struct Watch : public FUTracker { std::set<FUTrackable*> gone, held; void take(FUTrackable* o) { held.insert(o); TrackObject(o); } virtual void OnObjectReleased(FUTrackable* o) { gone.insert(o); held.erase(o); } virtual ~Watch() { for (auto o : held) UntrackObject(o); } };

struct Graph
{
	Rng& r; FUObjectRef<FCDocument> doc; vector<Node> v; Watch w;
	Graph(Rng& _r) : r(_r) { doc = new FCDocument(); }
	~Graph() { for (size_t i = 0; i < v.size(); ++i) if (v[i].alive && v[i].parents.empty() && !v[i].scene) kill((int) i, true); }
	int add(FCDSceneNode* n, bool scene) { Node x; x.n = n; x.alive = true; x.scene = scene; x.id = "n" + std::to_string(v.size()); n->SetDaeId(fm::string(x.id.c_str())); x.local = unitM(); x.mag = 1; x.asset = false; v.push_back(x); w.take(n); return (int) v.size() - 1; }
	int pick() { vector<int> a; for (size_t i = 0; i < v.size(); ++i) if (v[i].alive) a.push_back((int) i); return a[r.below(a.size())]; }
	bool reaches(int a, int b, bool inst) { vector<int> q { a }; std::set<int> seen; while (!q.empty()) { int x = q.back(); q.pop_back(); if (x == b) return true; if (!seen.insert(x).second) continue; for (int k : v[x].kids) q.push_back(k); if (inst) for (int k : v[x].inst) if (k >= 0) q.push_back(k); } return false; }
	static void drop(vector<int>& l, int x) { auto it = std::find(l.begin(), l.end(), x); if (it != l.end()) l.erase(it); }
	// Releasing a node lets go of its children; those without another parent go with it.
	void forget(int a)
	{
		v[a].alive = false; for (int p : v[a].parents) drop(v[p].kids, a); vector<int> kids = v[a].kids; v[a].kids.clear(); v[a].parents.clear();
		for (int k : kids) { drop(v[k].parents, a); if (v[k].parents.empty()) forget(k); }
		for (auto& x : v) for (int& i : x.inst) if (i == a) i = -1;
	}
	void kill(int a, bool model) { if (model) forget(a); v[a].n->Release(); }
	size_t paths(int a, size_t cap) { size_t n = 1; for (int k : v[a].kids) { n += paths(k, cap); if (n > cap) return n; } for (int k : v[a].inst) if (k >= 0) { n += paths(k, cap); if (n > cap) return n; } return n; }
	void pre(int a, bool pure, vector<int>& o) { o.push_back(a); for (int k : v[a].kids) if (!pure || v[k].parents[0] == a) pre(k, pure, o); if (!pure) for (int k : v[a].inst) if (k >= 0) pre(k, pure, o); }
	void post(int a, bool pure, vector<int>& o) { for (int k : v[a].kids) if (!pure || v[k].parents[0] == a) post(k, pure, o); if (!pure) for (int k : v[a].inst) if (k >= 0) post(k, pure, o); o.push_back(a); }
	void level(int a, bool pure, vector<int>& o) { o.push_back(a); for (size_t i = 0; i < o.size(); ++i) { int x = o[i]; for (int k : v[x].kids) if (!pure || v[k].parents[0] == x) o.push_back(k); if (!pure) for (int k : v[x].inst) if (k >= 0) o.push_back(k); } }

	bool check()
	{
		for (size_t i = 0; i < v.size(); ++i) if (v[i].alive == (w.gone.count(v[i].n) > 0)) { mon::viol(v[i].alive ? "released" : "kept", "node %zu", i); return false; }
		for (size_t i = 0; i < v.size(); ++i)
		{
			Node& x = v[i]; if (!x.alive) continue;
			if (x.n->GetChildrenCount() != x.kids.size() || x.n->GetParentCount() != x.parents.size()) { mon::viol("link-count", "node %zu: %zu children for %zu, %zu parents for %zu", i, x.n->GetChildrenCount(), x.kids.size(), x.n->GetParentCount(), x.parents.size()); return false; }
			for (size_t k = 0; k < x.kids.size(); ++k) if (x.n->GetChild(k) != v[x.kids[k]].n) { mon::viol("child", "%zu of node %zu", k, i); return false; }
			for (size_t k = 0; k < x.parents.size(); ++k) if (x.n->GetParent(k) != v[x.parents[k]].n) { mon::viol("parent", "%zu of node %zu", k, i); return false; }
			if (x.parents.empty()) CHECK(x.n->GetParent() == NULL, "parent", "of a root");
			if (x.n->GetInstanceCount() != x.inst.size()) { mon::viol("instance-count", "%zu for %zu", x.n->GetInstanceCount(), x.inst.size()); return false; }
			for (size_t k = 0; k < x.inst.size(); ++k) if (x.n->GetInstance(k)->GetEntity() != (x.inst[k] < 0 ? NULL : (FCDEntity*) v[x.inst[k]].n)) { mon::viol("instance", "%zu of node %zu", k, i); return false; }
			if (x.n->GetTransformCount() != x.t.size()) { mon::viol("transform-count", "%zu for %zu", x.n->GetTransformCount(), x.t.size()); return false; }
			for (size_t k = 0; k < x.t.size(); ++k) if (x.n->GetTransform(k) != x.t[k] || x.t[k]->GetParent() != x.n) { mon::viol("transform", "%zu of node %zu", k, i); return false; }
			mon::hit("nodes_compared");
		}
		return true;
	}
	void order(int a)
	{
		if (paths(a, 4000) > 4000) return; bool pure = r.chance(40);
		typedef FCDSceneNodeIterator It; It::SearchType st = r.pick(std::vector<It::SearchType> { It::BREADTH_FIRST, It::DEPTH_FIRST_PREORDER, It::DEPTH_FIRST_POSTORDER });
		vector<int> want; const char* name; if (st == It::BREADTH_FIRST) { level(a, pure, want); name = "breadth"; } else if (st == It::DEPTH_FIRST_PREORDER) { pre(a, pure, want); name = "preorder"; } else { post(a, pure, want); name = "postorder"; }
		size_t n = 0; bool bad = false;
		if (r.chance(50)) { It it(v[a].n, st, pure); for (; !it.IsDone() && !bad; it.Next(), ++n) bad = n >= want.size() || it.GetNode() != v[want[n]].n; CHECK(bad || it.GetNode() == NULL, "iterator:end", "not NULL"); }
		else { FCDSceneNodeConstIterator it(v[a].n, (FCDSceneNodeConstIterator::SearchType) (int) st, pure); for (; !it.IsDone() && !bad; ++it, ++n) bad = n >= want.size() || *it != v[want[n]].n; }
		CHECK(!bad && n == want.size(), S("iterator:") + name, "at %zu of %zu%s", n, want.size(), pure ? ", children only" : ""); mon::hit("nodes_visited", n);
	}
	bool close(const FMMatrix44& got, const M4& w2, double mag) { for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) if (!(fabs(got[j][i] - w2.m[i][j]) <= 2e-5 * mag)) return false; return true; }
	void matrices(int a)
	{
		auto local = [&](int n, double& mag) { M4 m = unitM(); mag = 1; for (auto t : v[n].t) { M4 e = element(t); m = mul(m, e); double big = 1; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) big = std::max(big, fabs(e.m[i][j])); mag *= 4 * big; } return m; };
		double mag; M4 m = local(a, mag); if (!(mag < 1e9)) return;
		for (auto t : v[a].t) { M4 e = element(t); double big = 1; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) big = std::max(big, fabs(e.m[i][j])); CHECK(close(t->ToMatrix(), e, big), "transform-matrix", "type %d", t->GetType()); mon::hit("matrices"); }
		CHECK(close(v[a].n->ToMatrix(), m, mag), "local-matrix", "%zu transforms", v[a].t.size()); CHECK(close(v[a].n->CalculateLocalTransform(), m, mag), "local-matrix", "%zu transforms", v[a].t.size());
		for (int p = a; !v[p].parents.empty(); ) { p = v[p].parents[0]; double pm; m = mul(local(p, pm), m); mag *= 4 * pm; }
		if (mag < 1e12) { CHECK(close(v[a].n->CalculateWorldTransform(), m, mag), "world-matrix", "magnitude %g", mag); mon::hit("world_matrices"); }
	}
	void set(FCDTransform* t)
	{
		auto V = [&](float b) { return FMVector3(r.flt(-b, b), r.flt(-b, b), r.flt(-b, b)); }; auto axis = [&]() { if (r.chance(40)) return r.pick(std::vector<FMVector3> { FMVector3::XAxis, FMVector3::YAxis, FMVector3::ZAxis, -FMVector3::ZAxis }); FMVector3 a; do a = V(1); while (a.Length() < 0.2f); return a.Normalize(); };
		switch (t->GetType())
		{
		case FCDTransform::TRANSLATION: ((FCDTTranslation*) t)->SetTranslation(V(5)); break;
		case FCDTransform::SCALE: ((FCDTScale*) t)->SetScale(V(3)); break;
		case FCDTransform::ROTATION: if (r.chance(70)) ((FCDTRotation*) t)->SetRotation(axis(), r.flt(-400, 400)); else { FMVector3 ax = axis(); float an = r.flt(5, 170); ((FCDTRotation*) t)->SetOrientation(FMQuaternion(ax, an * 3.14159265f / 180)); FMVector3 d = ((FCDTRotation*) t)->GetAxis() - ax; CHECK(d.Length() < 1e-3f && fabs(((FCDTRotation*) t)->GetAngle() - an) < 0.05f, "orientation", "%g for %g", (double) ((FCDTRotation*) t)->GetAngle(), an); } break;
		case FCDTransform::MATRIX: { FMMatrix44 m = FMMatrix44::Identity; for (int i = 0; i < 4; ++i) for (int j = 0; j < 3; ++j) m[i][j] = r.flt(-2, 2); ((FCDTMatrix*) t)->SetTransform(m); break; }
		case FCDTransform::LOOKAT: { auto l = (FCDTLookAt*) t; FMVector3 e = V(5), d = axis(), u; do u = axis(); while ((u ^ d).Length() < 0.3f); l->SetPosition(e); l->SetTarget(e + d * (float) (1 + 4 * r.unit())); l->SetUp(u); break; }
		default: { auto k = (FCDTSkew*) t; k->SetAngle(r.flt(-70, 70)); FMVector3 p = axis(), q; do q = axis(); while ((p ^ q).Length() < 0.3f); q = (p ^ q).Normalize(); k->SetRotateAxis(p); k->SetAroundAxis(q); break; }
		}
	}
};
}

PROP(C27, "random histories of adding, sharing, moving, instancing and releasing nodes and of editing transforms, assets and sub-ids; a case counts when a node was shared or released")
{
	Graph g(r); for (int k = r.range(1, 2); k > 0; --k) g.add(g.doc->AddVisualScene(), true);
	for (int k = r.range(1, 4); k > 0; --k) { int p = g.pick(); FCDSceneNode* n = g.v[p].n->AddChildNode(); int i = g.add(n, false); g.v[p].kids.push_back(i); g.v[i].parents.push_back(p); }
	bool worked = false;
	for (int o = r.range(4, 30); o > 0 && !mon::violations(); --o)
	{
		int a = g.pick(); Node* A = &g.v[a];
		switch (r.below(13))
		{
		case 0: case 1: { FCDSceneNode* n = A->n->AddChildNode(); int i = g.add(n, false); g.v[a].kids.push_back(i); g.v[i].parents.push_back(a); break; }
		case 2: case 3:
		{
			int b = g.pick(); if (g.v[b].scene) break; bool had = std::find(A->kids.begin(), A->kids.end(), b) != A->kids.end(), want = a != b && !had && !g.reaches(b, a, false); if (want && g.reaches(b, a, true)) break;
			bool got = A->n->AddChildNode(g.v[b].n); CHECK(got == want, "add-child", "%d for %d", got, want); if (want) { A->kids.push_back(b); g.v[b].parents.push_back(a); worked = worked || g.v[b].parents.size() > 1; } break;
		}
		case 4:
			if (!A->kids.empty()) { int b = r.pick(A->kids); A->n->RemoveChildNode(g.v[b].n); Graph::drop(A->kids, b); Graph::drop(g.v[b].parents, a); worked = true; }
			else { int b = g.pick(); A->n->RemoveChildNode(g.v[b].n); }
			break;
		case 5: if (!A->scene && r.chance(50)) { g.kill(a, true); worked = true; } break;
		case 6: { int b = g.pick(); if (g.reaches(b, a, true)) break; FCDEntityInstance* i = A->n->AddInstance(g.v[b].n); CHECK(i != NULL && i->GetParent() == A->n, "instance:parent", "differs"); A->inst.push_back(b); break; }
		case 7: if (!A->inst.empty()) { size_t k = r.below(A->inst.size()); A->n->GetInstance(k)->Release(); A->inst.erase(A->inst.begin() + k); } break;
		case 8: case 9:
		{
			FCDTransform::Type ty = r.pick(std::vector<FCDTransform::Type> { FCDTransform::TRANSLATION, FCDTransform::ROTATION, FCDTransform::SCALE, FCDTransform::MATRIX, FCDTransform::LOOKAT, FCDTransform::SKEW }); size_t at = r.chance(50) ? A->t.size() : r.below(A->t.size() + 1);
			A->n->ResetTransformsDirtyFlag(); FCDTransform* t = r.chance(50) && at == A->t.size() ? A->n->AddTransform(ty) : A->n->AddTransform(ty, at); CHECK(t != NULL && t->GetType() == ty && A->n->GetTransformsDirtyFlag(), "add-transform", "type %d", ty); g.set(t); A->t.insert(A->t.begin() + at, t); break;
		}
		case 10: if (!A->t.empty()) { size_t k = r.below(A->t.size()); if (r.chance(50)) { A->t[k]->Release(); A->t.erase(A->t.begin() + k); } else { A->n->ResetTransformsDirtyFlag(); g.set(A->t[k]); CHECK(A->n->GetTransformsDirtyFlag(), "transforms-dirty", "type %d", A->t[k]->GetType()); } } break;
		case 11:
		{
			S sid = "s" + std::to_string(r.range(0, 3)); A->n->SetSubId(fm::string(sid.c_str())); S got = A->n->GetSubId().c_str(); CHECK(got.compare(0, sid.size(), sid) == 0, "sub-id", "%s for %s", got.c_str(), sid.c_str());
			for (size_t b = 0; b < g.v.size(); ++b) if (g.v[b].alive && (int) b != a && (g.reaches((int) b, a, false) || g.reaches(a, (int) b, false))) CHECK(S(g.v[b].n->GetSubId().c_str()) != got, "sub-id:unique", "%s", got.c_str());
			CHECK(A->n->FindSubId(fm::string(got.c_str())) == A->n, "sub-id:find", "%s", got.c_str()); mon::hit("sub_ids"); break;
		}
		default: if (r.chance(50)) { A->n->GetAsset(); A->asset = true; } break;
		}
		if (!g.check()) return;
		int b = g.pick(); g.order(b); g.matrices(b); Node& B = g.v[b];
		const FCDSceneNode* c = B.n; FCDAssetConstList assets; c->GetHierarchicalAssets(assets); vector<const FCDAsset*> want; for (int p = b; ; p = g.v[p].parents[0]) { if (g.v[p].asset) want.push_back(((const FCDSceneNode*) g.v[p].n)->GetAsset()); if (g.v[p].parents.empty()) break; } want.push_back(((const FCDocument*) g.doc)->GetAsset());
		CHECK(assets.size() == want.size() && std::equal(want.begin(), want.end(), assets.begin()), "assets", "%zu for %zu", assets.size(), want.size());
		for (size_t k = 0; k < g.v.size(); ++k) { if (k > 6 && !r.chance(20)) continue; bool in = g.v[k].alive && g.reaches(b, (int) k, false); CHECK(B.n->FindDaeId(fm::string(g.v[k].id.c_str())) == (in ? g.v[k].n : NULL), "find", "node %zu from %d", k, b); }
		int k = (int) r.below(g.v.size()); bool in = false; for (size_t s = 0; s < g.v.size(); ++s) in = in || (g.v[s].alive && g.v[s].scene && g.v[k].alive && g.reaches((int) s, k, false)); CHECK(g.doc->FindSceneNode(g.v[k].id.c_str()) == (in ? g.v[k].n : NULL), "find:document", "node %d", k);
	}
	if (worked) mon::nontrivial();
	mon::sig(r.next());
}
