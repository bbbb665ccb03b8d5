// C26: references between documents, whatever the order in which the documents come and go.
#include "docmon.h"
#include <sys/stat.h>

namespace
{
enum Kind { CAM, LIGHT, GEOM, CTRL, NODE, FORCE, EFFECT, MATERIAL, KINDS };
struct Target { int doc; Kind kind; S id, mark; };
struct Site { int doc; S name; enum Where { INSTANCE, EFFECT_OF, MATERIAL_OF, SKIN_OF, SCENE_OF } where; int target; };

// Learns of the end of a document without being one of its trackers: these keep it loaded.
struct Life : FUTracker
{
	std::set<FUTrackable*> assets; std::map<FUTrackable*, FCDocument*> of; std::set<FCDocument*> alive; size_t seen = 0;
	void add(FCDocument* d) { if (!alive.insert(d).second) return; ++seen; FUTrackable* a = d->GetAsset(); of[a] = d; assets.insert(a); TrackObject(a); }
	void OnObjectReleased(FUTrackable* o) override { alive.erase(of[o]); of.erase(o); assets.erase(o); }
	~Life() { for (auto* a : assets) UntrackObject(a); }
};

FCDSceneNode* nodeNamed(FCDSceneNode* n, const S& name)
{
	if (S(n->GetName().c_str()) == name) return n;
	for (size_t k = 0; k < n->GetChildrenCount(); ++k) if (FCDSceneNode* f = nodeNamed(n->GetChild(k), name)) return f;
	return NULL;
}
FCDSceneNode* nodeNamed(FCDocument* d, const S& name)
{
	for (size_t k = 0; k < d->GetVisualSceneLibrary()->GetEntityCount(); ++k) if (FCDSceneNode* f = nodeNamed(d->GetVisualSceneLibrary()->GetEntity(k), name)) return f;
	return NULL;
}
template <class T> T* named(FCDLibrary<T>* l, const S& name) { for (size_t k = 0; k < l->GetEntityCount(); ++k) if (S(l->GetEntity(k)->GetName().c_str()) == name) return l->GetEntity(k); return NULL; }

// What a document holds at a site.
struct Held { bool found = false, external = false; FCDEntity* entity = NULL; S uri; };
Held hold(FCDocument* d, const Site& s)
{
	Held h; FCDEntityReference* ref = NULL;
	if (s.where == Site::SCENE_OF) ref = d->GetVisualSceneInstanceReference();
	else if (s.where == Site::EFFECT_OF) { FCDMaterial* m = named(d->GetMaterialLibrary(), s.name); if (m) ref = m->GetEffectReference(); }
	else if (s.where == Site::SKIN_OF)
	{
		FCDController* c = named(d->GetControllerLibrary(), s.name);
		if (c && c->GetSkinController()) { h.found = true; h.entity = c->GetSkinController()->GetTarget(); FUUri u = c->GetSkinController()->GetTargetUri(); h.uri = u.GetAbsoluteUri().c_str(); h.external = u.GetScheme() != FUUri::NONE; }
		return h;
	}
	else
	{
		FCDSceneNode* n = nodeNamed(d, s.name); if (n == NULL || n->GetInstanceCount() != 1) return h;
		FCDEntityInstance* i = n->GetInstance(0);
		if (s.where == Site::MATERIAL_OF)
		{
			FCDGeometryInstance* g = i->GetObjectType() == FCDGeometryInstance::GetClassType() ? (FCDGeometryInstance*) i : NULL;
			if (g == NULL || g->GetMaterialInstanceCount() != 1) return h;
			i = g->GetMaterialInstance(0);
		}
		ref = i->GetEntityReference();
	}
	if (ref == NULL) return h;
	h.found = true; h.external = ref->IsExternal(); h.entity = ref->GetEntity(); h.uri = ref->GetUri().GetAbsoluteUri().c_str();
	return h;
}
FCDEntity* make(FCDocument* d, Kind k, const S& id, const S& mark)
{
	FCDEntity* e = NULL;
	switch (k)
	{
	case CAM: e = d->GetCameraLibrary()->AddEntity(); break;
	case LIGHT: e = d->GetLightLibrary()->AddEntity(); break;
	case GEOM: { FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); e = g; FCDGeometryMesh* m = g->CreateMesh(); FCDGeometrySource* src = m->AddVertexSource(FUDaeGeometryInput::POSITION); src->SetStride(3); src->SetValueCount(3); for (size_t q = 0; q < 9; ++q) src->GetData()[q] = (float) (q % 4);
		FCDGeometryPolygons* p = m->AddPolygons(); p->SetMaterialSemantic(FC("sem")); p->AddFace(3); uint32 idx[3] = { 0, 1, 2 }; for (size_t q = 0; q < p->GetInputCount(); ++q) p->GetInput(q)->SetIndices(idx, 3); p->Recalculate(); break; }
	case CTRL: { FCDController* c = d->GetControllerLibrary()->AddEntity(); e = c; c->CreateSkinController(); break; }
	case NODE: e = d->GetVisualSceneLibrary()->AddEntity(); break;
	case FORCE: e = d->GetForceFieldLibrary()->AddEntity(); break;
	case EFFECT: { FCDEffect* f = d->GetEffectLibrary()->AddEntity(); e = f; f->AddProfile(FUDaeProfileType::COMMON); break; }
	case MATERIAL: { FCDMaterial* m = d->GetMaterialLibrary()->AddEntity(); e = m; FCDEffect* f = d->GetEffectLibrary()->AddEntity(); f->AddProfile(FUDaeProfileType::COMMON); m->SetEffect(f); break; }
	default: return NULL;
	}
	e->SetDaeId(id.c_str()); e->SetName(mark.c_str());
	return e;
}
S urlOf(FCDocument* d) { return FUUri(d->GetFileUrl()).GetAbsoluteUri().c_str(); }
}

PROP(C26, "documents with references to each other are saved, then loaded, released, saved again and looked at in random orders, with and without dereferencing; a case counts when a reference was seen resolved, unresolved and resolved again, or a document was loaded by following a reference")
{
	const int n = r.range(2, 5);
	bool cyclic = r.chance(35);                       // then nothing follows references by itself, or there are two documents
	std::vector<S> path(n);
	{
		static const char* dirs[] = { "", "sub/", "sub dir/", "a/b/" };
		mkdir((mon::tmpDir + "/sub").c_str(), 0755); mkdir((mon::tmpDir + "/sub dir").c_str(), 0755); mkdir((mon::tmpDir + "/a").c_str(), 0755); mkdir((mon::tmpDir + "/a/b").c_str(), 0755);
		bool same = r.chance(40);
		for (int k = 0; k < n; ++k) path[k] = mon::tmpDir + "/" + (same ? "" : dirs[r.below(4)]) + (r.chance(20) ? "my file " : "d") + std::to_string(k) + ".dae";
	}
	std::vector<FCDocument*> top(n, (FCDocument*) NULL);
	std::vector<Target> targets; std::vector<Site> sites;
	Life life;

	// Building
	for (int k = 0; k < n; ++k) { top[k] = FCollada::NewTopDocument(); life.add(top[k]); }
	FCollada::SetDereferenceFlag(false);
	std::vector<FCDSceneNode*> root(n);
	for (int k = 0; k < n; ++k)
	{
		root[k] = top[k]->AddVisualScene(); root[k]->SetName(("scene" + std::to_string(k)).c_str()); root[k]->SetDaeId("VisualScene");
		if (r.chance(15)) top[k]->GetFileManager()->SetForceAbsoluteFlag(true);
		int count = r.range(1, 6);
		for (int q = 0; q < count; ++q)
		{
			Kind kind = (Kind) r.below(KINDS); Target t{ k, kind, "e" + std::to_string(q), "mark_" + std::to_string(k) + "_" + std::to_string(q) };
			FCDEntity* e = make(top[k], kind, t.id, t.mark); CHECK(S(e->GetDaeId().c_str()) == t.id, "setup", "id %s", e->GetDaeId().c_str());
			targets.push_back(t);
		}
	}
	bool early = r.chance(50);                       // whether files get their places before they are saved
	if (early || cyclic) for (int k = 0; k < n; ++k) top[k]->SetFileUrl(path[k].c_str());
	std::vector<std::set<int>> uses(n);
	auto entity = [&](FCDocument* d, const Target& t) -> FCDEntity* { return d->FindEntity(t.id.c_str()); };
	int want = r.range(1, 4 * n);
	for (int q = 0; q < want; ++q)
	{
		int ti = (int) r.below(targets.size()); const Target& t = targets[ti]; int k = (int) r.below(n);
		if (k == t.doc || (!cyclic && k > t.doc)) continue;
		Site s; s.doc = k; s.name = "site" + std::to_string(q); s.target = ti; FCDEntity* e = entity(top[t.doc], t);
		CHECK(e != NULL && S(e->GetName().c_str()) == t.mark, "setup", "%s not found", t.mark.c_str()); if (e == NULL) continue;
		FCDSceneNode* node = root[k];
		auto newNode = [&]() { FCDSceneNode* p = r.chance(30) && root[k]->GetChildrenCount() != 0 ? root[k]->GetChild(0) : root[k]; node = p->AddChildNode(); node->SetName(s.name.c_str()); return node; };
		if (t.kind == EFFECT) { s.where = Site::EFFECT_OF; FCDMaterial* m = top[k]->GetMaterialLibrary()->AddEntity(); m->SetName(s.name.c_str()); m->SetEffect((FCDEffect*) e); }
		else if (t.kind == MATERIAL)
		{
			s.where = Site::MATERIAL_OF; newNode(); FCDGeometry* g = (FCDGeometry*) make(top[k], GEOM, ("g" + s.name).c_str(), "local");
			FCDGeometryInstance* gi = (FCDGeometryInstance*) node->AddInstance(g); FCDMaterialInstance* mi = gi->AddMaterialInstance(); mi->SetSemantic(FC("sem")); mi->SetMaterial((FCDMaterial*) e);
		}
		else if (t.kind == GEOM && r.chance(30)) { s.where = Site::SKIN_OF; FCDController* c = top[k]->GetControllerLibrary()->AddEntity(); c->SetName(s.name.c_str()); c->CreateSkinController()->SetTarget(e); }
		else if (t.kind == NODE && r.chance(25) && top[k]->GetVisualSceneInstance() == root[k]) { s.where = Site::SCENE_OF; top[k]->GetVisualSceneInstanceReference()->SetEntity(e); }
		else { s.where = Site::INSTANCE; newNode(); node->AddInstance(e); }
		sites.push_back(s); uses[k].insert(t.doc); mon::hit("references"); mon::sig(s.doc * 64 + t.doc * 8 + (int) t.kind);
	}
	if (sites.empty()) { for (auto* d : top) d->Release(); return; }

	// Saving: the referenced documents first when they have no place yet. Some are gone by the time others are saved.
	auto url = [&](int k) { return S(FUUri(path[k].c_str()).GetAbsoluteUri().c_str()); };
	auto settled = [&](const Site& s) { const Target& t = targets[s.target]; return url(t.doc) + "#" + t.id; };
	std::vector<int> order; for (int k = n - 1; k >= 0; --k) order.push_back(k);
	if (early || cyclic) for (int k = n - 1; k > 0; --k) std::swap(order[k], order[r.below(k + 1)]);
	bool dropping = r.chance(50);
	for (int k : order)
	{
		{ ErrorTap tap; bool ok = saveDoc(top[k], path[k]); CHECK(ok && tap.errors.empty(), "save", "saving %s: %s", path[k].c_str(), tap.all().c_str()); }
		if (dropping) { top[k]->Release(); top[k] = NULL; }
	}
	for (const Site& s : sites) if (top[s.doc] != NULL)
	{
		Held h = hold(top[s.doc], s); const Target& t = targets[s.target];
		CHECK(h.found && h.external && h.entity != NULL && h.entity->GetDocument() == top[t.doc] && S(h.entity->GetName().c_str()) == t.mark, "built", "%s of document %d to %s after saving", s.name.c_str(), s.doc, t.mark.c_str());
		CHECK(h.uri == settled(s), "uri-built", "%s instead of %s", h.uri.c_str(), settled(s).c_str());
	}
	// Building the cycle with everything loaded is fine; following references into one would keep it loaded for ever.
	if (r.chance(60)) for (int k = 0; k < n; ++k) if (top[k] != NULL) { top[k]->Release(); top[k] = NULL; }

	// Histories
	bool mayFollow = !cyclic || n == 2;
	std::map<std::pair<FCDocument*, int>, FCDocument*> seen;      // (document, target) -> the document its references lead to
	for (const Site& s : sites) if (top[s.doc] != NULL && top[targets[s.target].doc] != NULL) seen[{ top[s.doc], targets[s.target].doc }] = top[targets[s.target].doc];
	bool follow = false; std::set<size_t> was, lost, again; bool followed = false;
	auto look = [&](int loaded, const char* after)
	{
		for (auto it = seen.begin(); it != seen.end();) { if (!life.alive.count(it->first.first)) it = seen.erase(it); else ++it; }
		for (int round = 0; round < (follow ? 2 : 1); ++round)
		{
			std::vector<std::pair<FCDocument*, int>> todo; for (int k = 0; k < n; ++k) if (top[k] != NULL) todo.push_back({ top[k], k });
			std::map<int, std::set<FCDocument*>> known; for (int k = 0; k < n; ++k) if (top[k] != NULL) known[k].insert(top[k]);
			for (auto& x : seen) if (x.second != NULL && life.alive.count(x.second)) known[x.first.second].insert(x.second);
			for (size_t q = 0; q < todo.size(); ++q)
			{
				FCDocument* d = todo[q].first;
				for (size_t si = 0; si < sites.size(); ++si)
				{
					const Site& s = sites[si]; if (s.doc != todo[q].second) continue;
					const Target& t = targets[s.target]; ErrorTap tap; Held h = hold(d, s); mon::hit("observations");
					CHECK(h.found, "site-lost", "after %s: %s is no longer in document %d", after, s.name.c_str(), s.doc); if (!h.found) continue;
					CHECK(h.external, "not-external", "after %s: %s of document %d is not external", after, s.name.c_str(), s.doc);
					CHECK(h.uri == settled(s), "uri", "after %s: %s of document %d leads to %s instead of %s", after, s.name.c_str(), s.doc, h.uri.c_str(), settled(s).c_str());
					CHECK(tap.errors.empty() && tap.warnings.empty(), "errors", "after %s: looking at %s: %s", after, s.name.c_str(), tap.all().c_str());
					auto& last = seen[{ d, t.doc }]; bool lastAlive = last != NULL && life.alive.count(last);
					if (h.entity == NULL)
					{
						mon::hit("unresolved"); if (was.count(si)) lost.insert(si);
						CHECK(!follow, "not-followed", "after %s: %s of document %d does not load %s", after, s.name.c_str(), s.doc, t.mark.c_str());
						CHECK(!lastAlive, "dropped", "after %s: %s of document %d no longer leads to document %d, which is loaded", after, s.name.c_str(), s.doc, t.doc);
						CHECK(loaded != t.doc, "not-resolved", "after %s: %s of document %d does not lead to document %d, which was just loaded", after, s.name.c_str(), s.doc, t.doc);
						CHECK(loaded != s.doc || top[t.doc] == NULL, "not-resolved-at-load", "after %s: %s of document %d, which was just loaded, does not lead to document %d, which is loaded", after, s.name.c_str(), s.doc, t.doc);
						continue;
					}
					mon::hit("resolved"); was.insert(si); if (lost.count(si)) again.insert(si);
					FCDocument* to = h.entity->GetDocument();
					if (!life.alive.count(to)) { followed = true; mon::hit("followed"); CHECK(follow || loaded >= 0, "loaded-unasked", "after %s: document %d was loaded for %s", after, t.doc, s.name.c_str()); }
					CHECK(S(h.entity->GetName().c_str()) == t.mark && S(h.entity->GetDaeId().c_str()) == t.id, "wrong-entity", "after %s: %s of document %d leads to %s instead of %s", after, s.name.c_str(), s.doc, h.entity->GetName().c_str(), t.mark.c_str());
					CHECK(urlOf(to) == url(t.doc), "wrong-document", "after %s: %s of document %d leads into %s", after, s.name.c_str(), s.doc, to->GetFileUrl().c_str());
					if (lastAlive) CHECK(to == last, "moved", "after %s: %s of document %d now leads to another document", after, s.name.c_str(), s.doc);
					else if (!known[t.doc].empty()) CHECK(known[t.doc].count(to), "loaded-twice", "after %s: %s of document %d leads to another copy of document %d than the one loaded", after, s.name.c_str(), s.doc, t.doc);
					life.add(to); last = to; known[t.doc].insert(to);
					bool listed = false; for (auto& x : todo) listed |= x.first == to; if (!listed) todo.push_back({ to, t.doc });
				}
			}
		}
	};
	look(-1, "building");
	int steps = r.range(3, mon::thorough ? 24 : 14);
	for (int q = 0; q < steps && mon::violations() == 0; ++q)
	{
		S what; int loaded = -1; int k = (int) r.below(n);
		switch (r.below(8))
		{
		case 0: case 1: case 2:
			if (top[k] == NULL)
			{
				if (mayFollow && r.chance(50)) { follow = !follow; FCollada::SetDereferenceFlag(follow); }
				what = S("loading ") + std::to_string(k) + (follow ? " (following)" : ""); top[k] = FCollada::NewTopDocument();
				ErrorTap tap; bool ok = loadDoc(top[k], path[k]); loaded = k; CHECK(ok && tap.errors.empty() && tap.warnings.empty(), "load", "%s: %s", what.c_str(), tap.all().c_str()); life.add(top[k]);
				break;
			}
			// fall through
		case 3: case 4:
			if (top[k] == NULL) continue;
			what = "releasing " + std::to_string(k); top[k]->Release(); top[k] = NULL; break;
		case 5:
		{
			if (top[k] == NULL) continue;
			what = "saving " + std::to_string(k); ErrorTap tap; bool ok = saveDoc(top[k], path[k]); CHECK(ok && tap.errors.empty(), "save", "%s: %s", what.c_str(), tap.all().c_str()); break;
		}
		case 6:
			if (!mayFollow) continue;
			follow = !follow; FCollada::SetDereferenceFlag(follow); what = follow ? "asking to follow" : "asking not to follow"; break;
		default:
		{
			// An entity which several documents refer to keeps its place when it gets a new id in memory.
			what = "nothing"; break;
		}
		}
		if (mon::verbose) fprintf(stderr, "%s\n", what.c_str());
		mon::sig(what); look(loaded, what.c_str());
	}
	for (int k = n - 1; k > 0; --k) { int o = (int) r.below(k + 1); std::swap(top[k], top[o]); }
	for (int k = 0; k < n; ++k) if (top[k] != NULL) top[k]->Release();
	FCollada::SetDereferenceFlag(true);
	CHECK(life.alive.empty(), "kept-loaded", "%zu of %zu documents are left once all those of the user are released", life.alive.size(), life.seen);
	CHECK(FCollada::GetTopDocumentCount() == 0, "top-documents", "%zu are left", FCollada::GetTopDocumentCount());
	mon::hit("documents", life.seen);
	if (!again.empty() || followed) mon::nontrivial();
}
