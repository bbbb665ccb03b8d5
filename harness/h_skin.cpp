// C25: editing skins and morphs. Oracle: the influence table and target list recomputed beside the library.
#include "mon.h"
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDController.h"
#include "FCDocument/FCDControllerInstance.h"
#include "FCDocument/FCDControllerTools.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometryPolygonsTools.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDGeometrySpline.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDMorphController.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDSkinController.h"
#include <algorithm>
#include <cmath>
#include <map>
#include <set>
#include <vector>
using std::vector; typedef std::string S;

namespace {
struct Inf { int joint; float w; };
typedef vector<Inf> Row;
vector<Row> table(const FCDSkinController* s)
{
	vector<Row> t; for (size_t v = 0; v < s->GetInfluenceCount(); ++v) { Row q; auto x = s->GetVertexInfluence(v); for (size_t k = 0; k < x->GetPairCount(); ++k) q.push_back(Inf { x->GetPair(k)->jointIndex, x->GetPair(k)->weight }); t.push_back(q); }
	return t;
}
FCDGeometry* mesh(Rng& r, FCDocument* d, size_t n, bool polygons)
{
	FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); FCDGeometryMesh* m = g->CreateMesh(); FCDGeometrySource* p = m->AddVertexSource(FUDaeGeometryInput::POSITION); FloatList l; for (size_t k = 0; k < n * 3; ++k) l.push_back(r.flt(-5, 5)); p->SetData(l, 3);
	if (polygons && n > 0)
	{
		FCDGeometrySource* nr = m->AddSource(FUDaeGeometryInput::NORMAL); FloatList nl; for (int k = 0; k < 12; ++k) nl.push_back(r.flt(-1, 1)); nr->SetData(nl, 3);
		FCDGeometryPolygons* q = m->AddPolygons(); q->AddInput(nr, 1); UInt32List a, b; for (int f = r.range(1, 12); f > 0; --f) { q->AddFaceVertexCount(3); for (int k = 0; k < 3; ++k) { a.push_back((uint32) r.below(n)); b.push_back((uint32) r.below(4)); } }
		q->FindInput(p)->SetIndices(&a.front(), a.size()); q->FindInput(nr)->SetIndices(&b.front(), b.size());
	}
	return g;
}
FCDSkinController* skin(Rng& r, FCDocument* d, size_t n, int joints)
{
	FCDSkinController* s = d->GetControllerLibrary()->AddEntity()->CreateSkinController();
	for (int j = 0; j < joints; ++j) s->AddJoint(fm::string("j") + FUStringConversion::ToString((int32) j));
	s->SetInfluenceCount(n);
	for (size_t v = 0; v < n; ++v)
	{
		bool ties = r.chance(30), zeros = r.chance(10), norm = r.chance(50); float sum = 0; vector<float> w; for (int k = r.range(0, 9); k > 0; --k) { float x = zeros ? 0 : ties ? 0.125f * r.range(0, 4) : (float) r.unit(); w.push_back(x); sum += x; }
		for (float x : w) s->GetVertexInfluence(v)->AddPair(r.range(-1, joints - 1), norm && sum > 0 ? x / sum : x);
	}
	return s;
}

void reduce(Rng& r, FCDocument* d)
{
	int joints = r.range(1, 12); FCDSkinController* s = skin(r, d, (size_t) r.range(0, 20), joints); vector<Row> before = table(s);
	uint32 most = r.chance(10) ? 0 : r.chance(10) ? (uint32) r.range(20, 5000) : (uint32) r.range(1, 6); float least = r.chance(40) ? 0.0f : r.chance(20) ? 0.125f * r.range(0, 5) : (float) r.unit() * 0.4f;
	s->ResetDirtyFlag();
	if (least == 0.0f && r.chance(50)) s->ReduceInfluences(most); else s->ReduceInfluences(most, least);
	CHECK(s->GetDirtyFlag(), "reduce:dirty", "clean"); CHECK(s->GetJointCount() == (size_t) joints, "reduce:joints", "%zu", s->GetJointCount());
	vector<Row> after = table(s); CHECK(after.size() == before.size(), "reduce:vertices", "%zu for %zu", after.size(), before.size());
	for (size_t v = 0; v < before.size() && v < after.size(); ++v)
	{
		const Row& b = before[v]; const Row& a = after[v]; vector<float> eligible; double total = 0; for (auto& x : b) { total += x.w; if (x.w >= least) eligible.push_back(x.w); }
		std::sort(eligible.rbegin(), eligible.rend()); size_t n = std::min<size_t>(most, eligible.size());
		if (a.size() != n) { mon::viol("reduce:count", "%zu for %zu (of %zu, at most %u from %g)", a.size(), n, b.size(), most, least); return; }
		if (n == b.size()) { for (size_t k = 0; k < n; ++k) if (a[k].joint != b[k].joint || a[k].w != b[k].w) { mon::viol("reduce:untouched", "pair %zu of vertex %zu", k, v); return; } mon::hit("rows_kept"); continue; }
		double kept = 0; for (size_t k = 0; k < n; ++k) kept += eligible[k]; double f = kept > 0 ? total / kept : 1;
		vector<bool> used(b.size(), false); vector<float> got;
		for (size_t k = 0; k < n; ++k)
		{
			// Any pair of the same joint and weight, once.
			size_t at = b.size(); for (size_t i = 0; i < b.size(); ++i) if (!used[i] && b[i].joint == a[k].joint && b[i].w >= least && fabs(b[i].w * f - a[k].w) <= 1e-5 * (1 + fabs(a[k].w))) { if (at == b.size() || b[i].w == eligible[k]) at = i; }
			if (at == b.size()) { mon::viol("reduce:pair", "joint %d, %g: no such pair (total %g, kept %g)", a[k].joint, a[k].w, total, kept); return; }
			used[at] = true; got.push_back(b[at].w);
		}
		std::sort(got.rbegin(), got.rend()); for (size_t k = 0; k < n; ++k) if (fabs(got[k] - eligible[k]) > 1e-4) { mon::viol("reduce:strongest", "%g kept for %g", got[k], eligible[k]); return; }
		double sum = 0; for (auto& x : a) sum += x.w; if (kept > 0) CHECK(fabs(sum - total) < 1e-4, "reduce:sum", "%g for %g", sum, total);
		mon::hit("rows_reduced"); mon::nontrivial();
	}
	// Reducing again changes nothing: what was kept is now at least as strong.
	if (least >= 0) { s->ReduceInfluences(most, least); vector<Row> again = table(s); for (size_t v = 0; v < again.size(); ++v) if (again[v].size() != after[v].size()) { mon::viol("reduce:again", "%zu for %zu", again[v].size(), after[v].size()); return; } }
}

// The influences of the vertices that the unique indices make.
void translation(Rng& r, FCDocument* d)
{
	size_t n = (size_t) r.range(1, 12); FCDGeometry* g = mesh(r, d, n, true); FCDSkinController* s = skin(r, d, n, 4); FCDGeometryMesh* m = g->GetMesh(); FCDGeometryPolygonsInput* in = m->GetPolygons(0)->FindInput(FUDaeGeometryInput::POSITION);
	vector<uint32> old(in->GetIndices(), in->GetIndices() + in->GetIndexCount()); FCDNewIndicesList idx; FCDGeometryIndexTranslationMapList maps; FCDGeometryPolygonsTools::GenerateUniqueIndices(m, NULL, idx, maps);
	const UInt32List& all = idx[0]; if (all.size() != old.size()) { mon::viol("translate:indices", "%zu", all.size()); return; } uint32 top = 0; for (uint32 x : all) top = std::max(top, x);
	UInt16List pack; uint16 nv = 0; size_t most = r.chance(60) ? all.size() : (size_t) r.range(1, (int) all.size()); uint16 done = FCDGeometryPolygonsTools::GenerateVertexPackingMap(top, most, 1000, &all.front(), NULL, &pack, &nv);
	fm::pvector<const FCDSkinControllerVertex> out; FCDControllerTools::ApplyTranslationMap(s, *maps[0], pack, out);
	CHECK(out.size() == nv, "translate:count", "%zu for %u", out.size(), nv);
	for (size_t k = 0; k < done; ++k) { size_t to = pack[all[k]]; if (to >= out.size() || out[to] != s->GetVertexInfluence(old[k])) { mon::viol("translate:influence", "corner %zu", k); break; } mon::hit("corners_bound"); }
	for (auto q : maps) delete q;
	mon::nontrivial();
}

// Targets: who is the base, how many vertices, which morph targets remain.
void targets(Rng& r, FCDocument* d)
{
	struct Geo { FCDGeometry* g; int kind; size_t n; }; vector<Geo> geos;
	for (int k = r.range(2, 5); k > 0; --k)
	{
		int kind = r.chance(70) ? 0 : r.chance(70) ? 1 : 2; size_t n = (size_t) r.range(1, 3);
		if (kind == 0) geos.push_back(Geo { mesh(r, d, n, r.chance(50)), 0, n });
		else { FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); if (kind == 1) { auto sp = g->CreateSpline(); sp->SetType(FUDaeSplineType::BEZIER); auto b = static_cast<FCDBezierSpline*>(sp->AddSpline()); for (size_t i = 0; i < n; ++i) b->AddCV(FMVector3(r.flt(-1, 1), 0, 0)); } else n = 0; geos.push_back(Geo { g, kind, n }); }
	}
	struct Ctl { FCDController* c; bool skin; int base; };       // base: geometry, ~controller, or none (1000)
	vector<Ctl> ctls; const int none = 1000;
	auto entity = [&](int b) -> FCDEntity* { return b == none ? NULL : b >= 0 ? (FCDEntity*) geos[b].g : (FCDEntity*) ctls[~b].c; };
	auto rootOf = [&](int b) { while (b < 0) b = ctls[~b].base; return b; };
	auto above = [&](size_t c) -> const FCDController* { const FCDController* p = ctls[c].c; int b = ctls[c].base; while (b < 0) { p = ctls[~b].c; b = ctls[~b].base; } return b == none ? NULL : p; };
	vector<vector<int>> morph; vector<vector<float>> weight;
	// A base can be told from its vertices only where it has some.
	auto similar = [&](int a, int b) { a = rootOf(a); if (a == none || b == none) return false; return geos[a].kind == geos[b].kind && geos[a].kind != 2 && geos[a].n == geos[b].n; };
	for (int o = r.range(3, 16); o > 0; --o)
	{
		int op = (int) r.below(4);
		if (op == 0 || ctls.empty()) { FCDController* c = d->GetControllerLibrary()->AddEntity(); bool k = r.chance(50); if (k) c->CreateSkinController(); else c->CreateMorphController(); ctls.push_back(Ctl { c, k, none }); morph.push_back({}); weight.push_back({}); }
		else if (op == 1)
		{
			// Only earlier controllers: chains have no cycles.
			size_t c = r.below(ctls.size()); int b = r.chance(10) ? none : c > 0 && r.chance(40) ? ~(int) r.below(c) : (int) r.below(geos.size());
			size_t n = rootOf(b) == none ? 0 : geos[rootOf(b)].n;
			if (ctls[c].skin)
			{
				FCDSkinController* s = ctls[c].c->GetSkinController(); size_t had = s->GetInfluenceCount(); if (had != 0 && rootOf(b) != none && n != had) s->SetInfluenceCount(0);
				s->SetTarget(entity(b)); ctls[c].base = rootOf(b) == none ? none : b;
				if (rootOf(b) != none) CHECK(s->GetInfluenceCount() == n, "targets:influences", "%zu for %zu", s->GetInfluenceCount(), n);
			}
			else
			{
				ctls[c].c->GetMorphController()->SetBaseTarget(entity(b)); ctls[c].base = rootOf(b) == none ? none : b;
				vector<int> m; vector<float> w; for (size_t k = 0; k < morph[c].size(); ++k) if (similar(ctls[c].base, morph[c][k])) { m.push_back(morph[c][k]); w.push_back(weight[c][k]); } morph[c] = m; weight[c] = w;
			}
		}
		else if (op == 2)
		{
			size_t c = r.below(ctls.size()); if (ctls[c].skin) continue; FCDMorphController* m = ctls[c].c->GetMorphController(); int g = (int) r.below(geos.size()); float w = r.flt(-1, 1); bool want = ctls[c].base == none || similar(ctls[c].base, g);
			CHECK(ctls[c].base == none || m->IsSimilar(geos[g].g) == want, "targets:similar", "%d", want);
			FCDMorphTarget* t = m->AddTarget(geos[g].g, w); CHECK((t != NULL) == want, "targets:added", "%d for %d", t != NULL, want); if (t == NULL || !want) continue;
			CHECK(t->GetParent() == m, "targets:parent", "differs"); morph[c].push_back(g); weight[c].push_back(w);
		}
		else
		{
			size_t c = r.below(ctls.size()); if (ctls[c].skin || morph[c].empty()) continue; size_t k = r.below(morph[c].size()); FCDMorphTarget* t = ctls[c].c->GetMorphController()->GetTarget(k);
			if (r.chance(50)) { t->Release(); morph[c].erase(morph[c].begin() + k); weight[c].erase(weight[c].begin() + k); }
			else { int g = (int) r.below(geos.size()); t->SetGeometry(geos[g].g); if (ctls[c].base == none || similar(ctls[c].base, g)) morph[c][k] = g; }
		}
		for (size_t c = 0; c < ctls.size(); ++c)
		{
			const Ctl& x = ctls[c]; CHECK(x.c->IsSkin() == x.skin && x.c->IsMorph() == !x.skin, "targets:kind", "%d", x.skin);
			CHECK(x.c->GetBaseTarget() == entity(x.base), "targets:base", "controller %zu", c); int g = rootOf(x.base); CHECK(x.c->GetBaseGeometry() == (g == none ? NULL : geos[g].g), "targets:geometry", "controller %zu", c); CHECK(((const FCDController*) x.c)->GetBaseGeometryController() == above(c), "targets:geometry-controller", "controller %zu", c);
			if (x.skin) continue; FCDMorphController* m = x.c->GetMorphController(); if (m->GetTargetCount() != morph[c].size()) { mon::viol("targets:count", "%zu for %zu", m->GetTargetCount(), morph[c].size()); return; }
			for (size_t k = 0; k < morph[c].size(); ++k) { CHECK(m->GetTarget(k)->GetGeometry() == geos[morph[c][k]].g, "targets:morph-geometry", "target %zu of controller %zu", k, c); CHECK(*m->GetTarget(k)->GetWeight() == weight[c][k], "targets:weight", "%g", (double) *m->GetTarget(k)->GetWeight()); }
		}
		CHECK(d->GetGeometryLibrary()->GetEntityCount() == geos.size(), "targets:library", "%zu geometries for %zu", d->GetGeometryLibrary()->GetEntityCount(), geos.size()); if (d->GetGeometryLibrary()->GetEntityCount() != geos.size()) return;
		mon::hit("target_steps");
	}
	mon::nontrivial();
}

// Joints of an instance: the roots are the joints without a parent among the joints.
void joints(Rng& r, FCDocument* d)
{
	vector<FCDSceneNode*> nodes; vector<std::set<int>> par; FCDSceneNode* root = d->AddVisualScene(); root->SetDaeId("scene");
	for (int k = r.range(1, 10); k > 0; --k)
	{
		int i = (int) nodes.size(); FCDSceneNode* p = i > 0 && r.chance(70) ? nodes[r.below(i)] : root; FCDSceneNode* n = p->AddChildNode(); n->SetDaeId(fm::string("n") + FUStringConversion::ToString((int32) i)); nodes.push_back(n); par.push_back({});
		for (int j = 0; j < i; ++j) if (nodes[j] == p) par[i].insert(j);
	}
	for (int k = r.range(0, 2); k > 0; --k) { int a = (int) r.below(nodes.size()), b = (int) r.below(nodes.size()); if (a < b && par[b].insert(a).second) nodes[a]->AddChildNode(nodes[b]); }
	FCDController* c = d->GetControllerLibrary()->AddEntity(); c->CreateSkinController(); FCDEntityInstance* e = nodes[0]->AddInstance(c); FCDControllerInstance* ci = (FCDControllerInstance*) e; CHECK(e->HasType(FCDControllerInstance::GetClassType()), "joints:type", "wrong");
	vector<int> order; std::set<int> in; for (int k = r.range(0, 8); k > 0; --k) { int j = (int) r.below(nodes.size()); if (in.insert(j).second) { order.push_back(j); CHECK(ci->AddJoint(nodes[j]) && nodes[j]->IsJoint(), "joints:add", "failed"); } }
	CHECK(!ci->AddJoint((FCDSceneNode*) NULL), "joints:null", "taken");
	ci->CalculateRootIds(); vector<S> want; for (int j : order) { bool top = true; for (int p : par[j]) top = top && !in.count(p); if (top) want.push_back(S("n") + std::to_string(j)); }
	if (ci->GetSkeletonRoots().size() != want.size()) { mon::viol("joints:roots", "%zu for %zu", ci->GetSkeletonRoots().size(), want.size()); return; }
	for (size_t k = 0; k < want.size(); ++k) CHECK(S(ci->GetSkeletonRoots()[k].GetFragment().c_str()) == want[k], "joints:root", "%s for %s", ci->GetSkeletonRoots()[k].GetFragment().c_str(), want[k].c_str());
	CHECK(ci->GetJointCount() == order.size(), "joints:count", "%zu", ci->GetJointCount());
	for (size_t j = 0; j < nodes.size(); ++j) { size_t at = (size_t) (std::find(order.begin(), order.end(), (int) j) - order.begin()); CHECK(ci->FindJoint(nodes[j]) == (at < order.size()), "joints:find", "%zu", j); CHECK(ci->FindJointIndex(nodes[j]) == (at < order.size() ? at : (size_t) ~0), "joints:index", "%zu", j); }
	FCDSceneNodeList sk; ci->FindSkeletonNodes(sk); if (want.empty()) { mon::hit("no_roots"); return; }
	CHECK(sk.size() == want.size(), "joints:skeleton", "%zu for %zu", sk.size(), want.size()); for (size_t k = 0; k < sk.size() && k < want.size(); ++k) CHECK(S(sk[k]->GetDaeId().c_str()) == want[k], "joints:skeleton", "%s", sk[k]->GetDaeId().c_str());
	mon::nontrivial(); mon::hit("roots_checked", want.size());
}
}

PROP(C25, "random influence tables with ties and zeros, limits and thresholds; unique indices over random meshes; histories of targets over chains of controllers; joints in random graphs; a case counts when something was reduced, bound or changed")
{
	FUObjectRef<FCDocument> doc = new FCDocument();
	switch (r.below(4)) { case 0: reduce(r, doc); break; case 1: translation(r, doc); break; case 2: targets(r, doc); break; default: joints(r, doc); break; }
	mon::sig(r.next());
}
