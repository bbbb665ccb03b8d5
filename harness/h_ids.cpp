// C19: the unique text map, and the ids and names of documents.
#include "mon.h"
#include "FCollada.h"
#include "FUtils/FUUniqueStringMap.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationClip.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDController.h"
#include "FCDocument/FCDEffect.h"
#include "FCDocument/FCDEmitter.h"
#include "FCDocument/FCDForceField.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDImage.h"
#include "FCDocument/FCDLight.h"
#include "FCDocument/FCDMaterial.h"
#include "FCDocument/FCDPhysicsMaterial.h"
#include "FCDocument/FCDPhysicsModel.h"
#include "FCDocument/FCDPhysicsScene.h"
#include "FCDocument/FCDSceneNode.h"

typedef std::string S;

static S wish(Rng& r)
{
	static const char* stems[] = { "a", "node", "Box", "x-y", "_", "unknown_object", "mesh.pos", "LongerName" };
	S s = stems[r.below(8)];
	switch (r.below(7))
	{
	case 0: break;
	case 1: s += std::to_string(r.below(12)); break;
	case 2: s += "0" + std::to_string(r.below(4)); break;
	case 3: s += std::to_string((r.chance(50) ? 999999990ull : 4294967290ull) + r.below(12)); break;
	case 4: s += S(r.range(1, 4), '0'); break;
	case 5: s += std::to_string(r.next()); break;
	default: s += "-" + std::to_string(r.below(3));
	}
	return s;
}

static void uniqueMap(Rng& r)
{
	FUSUniqueStringMap m; std::set<S> model; std::vector<S> seen;
	int steps = r.range(5, 80);
	for (int i = 0; i < steps && !mon::violations(); ++i)
	{
		S w = r.chance(40) && !seen.empty() ? r.pick(seen) : wish(r);
		if (r.chance(3)) w = "";
		switch (r.below(4))
		{
		case 0: case 1:
			{
				fm::string got(w.c_str()); m.insert(got); S g(got.c_str());
				CHECK(got.size() == g.size(), "map:text", "the inserted text holds a NUL");
				if (!model.count(w)) CHECK(g == w, "map:unchanged", "'%s' was free but became '%s'", w.c_str(), g.c_str());
				else { S stem = w; while (!stem.empty() && isdigit((unsigned char) stem.back())) stem.pop_back(); CHECK(g.compare(0, stem.size(), stem) == 0, "map:derived", "'%s' became '%s'", w.c_str(), g.c_str()); }
				CHECK(model.insert(g).second, "map:unique", "'%s' was made '%s', which is already in the set", w.c_str(), g.c_str());
				CHECK(m.contains(got), "map:contains", "'%s' was inserted but is not contained", g.c_str());
				seen.push_back(g); mon::hit("map_inserts"); break;
			}
		case 2: m.erase(fm::string(w.c_str())); model.erase(w); mon::hit("map_erases"); break;
		default: break;
		}
		CHECK(m.contains(fm::string(w.c_str())) == (model.count(w) != 0), "map:contains", "contains('%s') is wrong", w.c_str());
		mon::sig(w);
	}
	for (const S& s : seen) CHECK(m.contains(fm::string(s.c_str())) == (model.count(s) != 0), "map:contains", "contains('%s') is wrong at the end", s.c_str());
	mon::nontrivial();
}

static bool ncName(const S& s)
{
	if (s.empty() || !(isalpha((unsigned char) s[0]) || s[0] == '_')) return false;
	for (unsigned char c : s) if (c > 127 || !(isalnum(c) || c == '_' || c == '-' || c == '.')) return false;
	return true;
}

namespace
{
	struct Doc
	{
		FCDocument* d;
		struct E { FCDObjectWithId* o; FCDEntity* e; int kind; S id; bool asked; };
		std::vector<E> all;
		std::set<S> used() const { std::set<S> u; for (const E& x : all) if (x.asked) u.insert(x.id); return u; }
	};
}

static FCDEntity* newEntity(FCDocument* d, int kind)
{
	switch (kind)
	{
	case 0: return d->GetAnimationLibrary()->AddEntity();
	case 1: return d->GetAnimationClipLibrary()->AddEntity();
	case 2: return d->GetCameraLibrary()->AddEntity();
	case 3: return d->GetControllerLibrary()->AddEntity();
	case 4: return d->GetEffectLibrary()->AddEntity();
	case 5: return d->GetEmitterLibrary()->AddEntity();
	case 6: return d->GetForceFieldLibrary()->AddEntity();
	case 7: return d->GetGeometryLibrary()->AddEntity();
	case 8: return d->GetImageLibrary()->AddEntity();
	case 9: return d->GetLightLibrary()->AddEntity();
	case 10: return d->GetMaterialLibrary()->AddEntity();
	case 11: return d->GetPhysicsMaterialLibrary()->AddEntity();
	case 12: return d->GetPhysicsModelLibrary()->AddEntity();
	case 13: return d->GetPhysicsSceneLibrary()->AddEntity();
	default: return d->GetVisualSceneLibrary()->AddEntity();
	}
}

static FCDEntity* findKind(FCDocument* d, int kind, const fm::string& id)
{
	switch (kind)
	{
	case 0: return d->FindAnimation(id);
	case 1: return d->FindAnimationClip(id);
	case 2: return d->FindCamera(id);
	case 3: return d->FindController(id);
	case 4: return d->FindEffect(id);
	case 5: return d->FindEmitter(id);
	case 6: return d->FindForceField(id);
	case 7: return d->FindGeometry(id);
	case 8: return d->FindImage(id);
	case 9: return d->FindLight(id);
	case 10: return d->FindMaterial(id);
	case 11: return d->FindPhysicsMaterial(id);
	case 12: return d->FindPhysicsModel(id);
	case 13: return d->FindPhysicsScene(id);
	case 14: return d->FindVisualScene(id);
	case 15: return d->FindSceneNode(id.c_str());
	case 16: return d->FindAnimation(id);
	default: return NULL;
	}
}

static void documentIds(Rng& r)
{
	Doc w; w.d = FCollada::NewTopDocument();
	int steps = r.range(4, 40);
	std::set<S> history;
	auto ask = [&](Doc::E& x) {
		S id(x.o->GetDaeId().c_str());
		if (!x.asked)
		{
			CHECK(!w.used().count(id), "id:unique", "a new object got the id '%s', which another object holds", id.c_str());
			x.id = id; x.asked = true;
		}
		else CHECK(id == x.id, "id:stable", "the id '%s' became '%s' without being set", x.id.c_str(), id.c_str());
		CHECK(ncName(id), "id:valid", "the id '%s' is not an XML name", id.c_str());
		mon::hit("ids_read");
	};
	auto add = [&](FCDObjectWithId* o, FCDEntity* e, int kind) { w.all.push_back({ o, e, kind, "", false }); };
	for (int i = 0; i < steps && !mon::violations(); ++i)
	{
		int what = (int) r.below(10); mon::sig(what);
		if (what < 3 || w.all.empty())
		{
			int kind = (int) r.below(15);
			FCDEntity* e = newEntity(w.d, kind); add(e, e, kind);
			if (kind == 14 && r.chance(70)) { FCDSceneNode* n = ((FCDSceneNode*) e)->AddChildNode(); add(n, n, 15); if (r.chance(40)) { FCDSceneNode* m = n->AddChildNode(); add(m, m, 15); } }
			if (kind == 0 && r.chance(50)) { FCDAnimation* a = ((FCDAnimation*) e)->AddChild(); add(a, a, 16); }
			if (kind == 7 && r.chance(60)) { FCDGeometryMesh* m = ((FCDGeometry*) e)->CreateMesh(); FCDGeometrySource* s = m->AddSource(FUDaeGeometryInput::POSITION); add(s, NULL, 17); }
		}
		else if (what < 6)
		{
			Doc::E& x = w.all[r.below(w.all.size())];
			S want = wish(r);
			if (r.chance(25)) { want.clear(); for (int k = r.range(0, 12); k > 0; --k) want += (char) r.range(1, 255); }
			if (r.chance(3)) want = S(r.range(505, 530), 'q');
			std::set<S> used; for (Doc::E& y : w.all) if (&y != &x && y.asked) used.insert(y.id);
			S got;
			if (r.chance(50)) { x.o->SetDaeId(fm::string(want.c_str())); got = x.o->GetDaeId().c_str(); }
			else { fm::string t(want.c_str()); x.o->SetDaeId(t); got = t.c_str(); CHECK(got == x.o->GetDaeId().c_str(), "id:returned", "SetDaeId returned '%s', the object holds '%s'", got.c_str(), x.o->GetDaeId().c_str()); }
			CHECK(ncName(got), "id:valid", "wishing for '%s' gave '%s'", mon::esc(want).c_str(), mon::esc(got).c_str());
			CHECK(!used.count(got), "id:unique", "wishing for '%s' gave '%s', which another object holds", want.c_str(), got.c_str());
			// Free means: no object holds it (a never-asked object holds nothing yet).
			if (ncName(want) && want.size() <= 512 && !used.count(want)) CHECK(got == want, "id:granted", "'%s' was free but became '%s'", want.c_str(), got.c_str());
			x.id = got; x.asked = true; history.insert(got); mon::hit("ids_set"); mon::sig(got);
		}
		else if (what == 6) { ask(w.all[r.below(w.all.size())]); }
		else if (what == 7)
		{
			// Release an entity: its id and those of what it owns become free.
			size_t k = r.below(w.all.size());
			if (w.all[k].e == NULL || w.all[k].kind >= 15) continue;
			for (Doc::E& x : w.all) ask(x);
			FCDEntity* e = w.all[k].e; S id = w.all[k].id; int kind = w.all[k].kind;
			size_t n = 1;
			while (k + n < w.all.size() && w.all[k + n].kind >= 15 && ((kind == 14 && w.all[k + n].kind == 15) || (kind == 0 && w.all[k + n].kind == 16) || (kind == 7 && w.all[k + n].kind == 17))) ++n;
			std::vector<S> freed; for (size_t z = k; z < k + n; ++z) { freed.push_back(w.all[z].id); if (w.all[z].e) CHECK(w.d->FindEntity(fm::string(w.all[z].id.c_str())) != NULL || w.all[z].kind >= 15, "id:find", "FindEntity does not know '%s'", w.all[z].id.c_str()); }
			e->Release();
			w.all.erase(w.all.begin() + k, w.all.begin() + k + n);
			for (const S& f : freed)
			{
				CHECK(w.d->FindEntity(fm::string(f.c_str())) == NULL, "id:released-found", "'%s' is still found after its object was released", f.c_str());
				FUSUniqueStringMap* names = w.d->GetUniqueNameMap();
				CHECK(!names->contains(fm::string(f.c_str())), "id:released", "'%s' is still taken after its object was released", f.c_str());
			}
			mon::hit("releases");
		}
		else if (what == 8)
		{
			// A copy has an id of its own, and the original keeps its id.
			Doc::E x = w.all[r.below(w.all.size())];
			if (x.e == NULL || x.kind >= 14) continue;
			if (r.chance(70)) { for (Doc::E& y : w.all) ask(y); }
			static const int ok[] = { 0, 1, 4, 5, 6, 7, 8, 10, 12, 13 }; bool can = false; for (int o : ok) if (o == x.kind) can = true;
			if (!can) continue;
			FCDEntity* c = newEntity(w.d, x.kind);
			bool cloneAskedBefore = r.chance(30); S before; if (cloneAskedBefore) before = c->GetDaeId().c_str();
			if (w.all.size() && cloneAskedBefore) for (Doc::E& y : w.all) if (y.asked) CHECK(y.id != before, "id:unique", "a new object shares '%s'", before.c_str());
			x.e->Clone(c, false);
			// Re-read the library: a geometry's or animation's copy may own copies of sub-objects; only the entity itself is tracked here.
			add(c, c, x.kind);
			if (x.kind == 7 || x.kind == 0) { /* sub-objects of the copy have ids of their own; the map knows them */ }
			for (Doc::E& y : w.all) ask(y);
			mon::hit("clones");
		}
		else
		{
			// Names are made valid, and setting one does not disturb ids.
			Doc::E& x = w.all[r.below(w.all.size())];
			if (!x.e) continue;
			S want; for (int k = r.range(1, 12); k > 0; --k) want += (char) (r.chance(70) ? r.range('A', 'z') : r.range(1, 255));
			x.e->SetName(want.c_str()); S got(x.e->GetName().c_str());
			bool clean = isalpha((unsigned char) want[0]) || want[0] == '_'; for (unsigned char c : want) if (c > 127 || !(isalnum(c) || c == '_' || c == '-')) clean = false;
			if (clean) CHECK(got == want, "name:granted", "the name '%s' became '%s'", want.c_str(), got.c_str());
			CHECK(got.size() == want.size() && ncName(got), "name:valid", "the name '%s' became '%s'", mon::esc(want).c_str(), mon::esc(got).c_str());
			mon::hit("names_set");
		}
		// Lookup finds exactly the holder.
		if (r.chance(30) && !w.all.empty())
		{
			Doc::E& x = w.all[r.below(w.all.size())]; ask(x);
			if (x.kind < 17)
			{
				FCDEntity* f = findKind(w.d, x.kind, fm::string(x.id.c_str()));
				CHECK(f == x.e, "id:lookup", "looking up '%s' (kind %d) finds %s", x.id.c_str(), x.kind, f == NULL ? "nothing" : f->GetDaeId().c_str());
				FCDEntity* g = w.d->FindEntity(fm::string(x.id.c_str()));
				CHECK(g == x.e, "id:lookup-any", "FindEntity('%s') (kind %d) finds %s", x.id.c_str(), x.kind, g == NULL ? "nothing" : g->GetDaeId().c_str());
				mon::hit("lookups");
			}
			S absent = "absent-" + std::to_string(r.next());
			CHECK(w.d->FindEntity(fm::string(absent.c_str())) == NULL, "id:lookup-absent", "FindEntity finds an id nobody holds");
		}
	}
	if (!mon::violations())
	{
		for (Doc::E& x : w.all) ask(x);
		std::map<S, int> n; for (Doc::E& x : w.all) if (++n[x.id] > 1) mon::viol("id:unique", "two objects hold '%s'", x.id.c_str());
		if (n.size() >= 3) mon::nontrivial();
	}
	w.d->Release();
}


PROP(C19, "the unique map was used past a collision, or a document held three or more ids")
{
	if (r.chance(50)) uniqueMap(r); else documentIds(r);
}
