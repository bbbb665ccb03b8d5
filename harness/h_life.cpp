// C13: parts of a document are released in any order.
#include "docmon.h"
#include "FCDocument/FCDTargetedEntity.h"
#include <set>
#include <unistd.h>

namespace
{
struct Watch : FUTracker
{
	std::set<const FUTrackable*> live, dead; size_t twice = 0;
	void add(const FUTrackable* o) { if (live.count(o)) return; dead.erase(o); live.insert(o); TrackObject(const_cast<FUTrackable*>(o)); }
	void OnObjectReleased(FUTrackable* o) override { if (!live.erase(o)) ++twice; dead.insert(o); }
	~Watch() { for (auto* o : live) UntrackObject(const_cast<FUTrackable*>(o)); }
};

template <class T> void libraryOf(Dump& o, FCDLibrary<T>* lib)
{
	for (size_t q = 0; q < lib->GetEntityCount(); ++q) { o.push("entity", q); o.any(lib->GetEntity(q)); o.pop(); }
}
void channels(Dump& o, FCDAnimation* a)
{
	for (size_t q = 0; q < a->GetChannelCount(); ++q)
	{
		Dump::See s(&o, a->GetChannel(q), "channel"); o.i("curves", a->GetChannel(q)->GetCurveCount());
		for (size_t k = 0; k < a->GetChannel(q)->GetCurveCount(); ++k) { Dump::See c(&o, a->GetChannel(q)->GetCurve(k), "curve"); o.curve(a->GetChannel(q)->GetCurve(k)); }
	}
	for (size_t q = 0; q < a->GetChildrenCount(); ++q) { Dump::See s(&o, a->GetChild(q), "animation"); o.entity(a->GetChild(q)); channels(o, a->GetChild(q)); }
}
// Everything that can be reached from a document, with its owner, what it refers to and its own description.
void walk(FCDocument* d, Dump& o)
{
	o.flags = Dump::ANIM | Dump::IDS; o.rawNames = true; o.watching = true;
	Dump::See see(&o, d, "document");
	o.refTo("scene", d->GetVisualSceneInstance());
	for (size_t q = 0; q < d->GetPhysicsSceneInstanceCount(); ++q) o.refTo("physics", d->GetPhysicsSceneInstance(q));
	o.extra("extra", d->GetExtra());
	for (size_t q = 0; q < d->GetAnimationLibrary()->GetEntityCount(); ++q) { Dump::See s(&o, d->GetAnimationLibrary()->GetEntity(q), "entity"); o.entity(d->GetAnimationLibrary()->GetEntity(q)); channels(o, d->GetAnimationLibrary()->GetEntity(q)); }
	libraryOf(o, d->GetGeometryLibrary()); libraryOf(o, d->GetControllerLibrary()); libraryOf(o, d->GetImageLibrary()); libraryOf(o, d->GetEffectLibrary()); libraryOf(o, d->GetMaterialLibrary());
	libraryOf(o, d->GetCameraLibrary()); libraryOf(o, d->GetLightLibrary()); libraryOf(o, d->GetForceFieldLibrary()); libraryOf(o, d->GetEmitterLibrary());
	libraryOf(o, d->GetPhysicsMaterialLibrary()); libraryOf(o, d->GetPhysicsModelLibrary()); libraryOf(o, d->GetPhysicsSceneLibrary()); libraryOf(o, d->GetVisualSceneLibrary());
	for (size_t q = 0; q < d->GetAnimationClipLibrary()->GetEntityCount(); ++q)
	{
		FCDAnimationClip* c = d->GetAnimationClipLibrary()->GetEntity(q); Dump::See s(&o, c, "entity"); o.entity(c); o.clip(c); for (const FCDAnimationCurve* x : c->GetClipCurves()) o.use(x);
	}
}
bool releasable(const Dump& o, const Dump::Object& x)
{
	S k = x.kind; if (k == "document" || k == "asset" || k == "extra" || k == "animated") return false;
	const Dump::Object* w = o.objectAt.count(x.owner) ? &o.objects[o.objectAt.at(x.owner)] : NULL;
	if (k == "instance" && w != NULL && S(w->kind) == "shape") return false;      // the shape's only geometry
	return true;
}
}

PROP(C13, "parts of random documents are released one after the other, with content added in between; a case counts when ten parts were released")
{
	static const int parts[] = { DocGen::SCENE | DocGen::CAMERA | DocGen::LIGHT, DocGen::MESH, DocGen::MESH | DocGen::SKIN | DocGen::SCENE, DocGen::MESH | DocGen::MORPH, DocGen::MATERIAL, DocGen::MATERIAL | DocGen::FX, DocGen::PHYSICS | DocGen::MESH, DocGen::ANIM | DocGen::CLIP | DocGen::CAMERA, DocGen::EXTRA, DocGen::FORCE | DocGen::EMITTER | DocGen::SCENE, DocGen::ASSET, DocGen::SPLINE };
	auto anyParts = [&]() { int f = 0; if (r.chance(8)) return (int) DocGen::ALL; for (int k = r.range(1, 4); k > 0; --k) f |= parts[r.below(12)]; return f; };
	DocRef d; size_t released = 0;
	ErrorTap errs;
	{
		Watch w;
		{ DocGen g(r, d, anyParts(), 1); g.build(); }
		for (int step = r.range(5, 40); step > 0; --step)
		{
			if (r.chance(3)) { DocGen g(r, d, anyParts(), 1); g.build(); mon::hit("rebuilds"); }
			Dump a; walk(d, a);
			for (auto& x : a.objects) { w.add(x.o); for (auto* u : x.uses) w.add(u); }
			std::vector<size_t> can; for (size_t q = 0; q < a.objects.size(); ++q) if (releasable(a, a.objects[q])) can.push_back(q);
			if (can.empty()) break;
			// Every kind is as likely as any other.
			std::vector<S> kinds; for (size_t q : can) if (std::find(kinds.begin(), kinds.end(), S(a.objects[q].kind)) == kinds.end()) kinds.push_back(a.objects[q].kind);
			S kind = kinds[r.below(kinds.size())]; can.erase(std::remove_if(can.begin(), can.end(), [&](size_t q) { return kind != a.objects[q].kind; }), can.end());
			const Dump::Object pick = a.objects[can[r.below(can.size())]];
			// What goes with it: what it owns, unless it is a node that has another parent.
			std::set<const FUTrackable*> gone; gone.insert(pick.o);
			for (bool more = true; more; )
			{
				more = false;
				for (auto& x : a.objects)
				{
					if (gone.count(x.o)) continue;
					bool goes;
					if (S(x.kind) == "node")
					{
						const FCDSceneNode* n = (const FCDSceneNode*) x.o; goes = n->GetParentCount() > 0;
						for (size_t q = 0; q < n->GetParentCount(); ++q) goes = goes && gone.count(n->GetParent(q));
					}
					else goes = gone.count(x.owner) != 0;
					if (goes) { gone.insert(x.o); more = true; }
				}
			}
			std::set<const FUTrackable*> touched;
			for (auto& x : a.objects)
			{
				if (gone.count(x.o)) { touched.insert(x.owner); if (S(x.kind) == "node") for (size_t q = 0; q < ((const FCDSceneNode*) x.o)->GetParentCount(); ++q) touched.insert(((const FCDSceneNode*) x.o)->GetParent(q)); if (S(x.kind) == "node") for (size_t q = 0; q < ((const FCDSceneNode*) x.o)->GetChildrenCount(); ++q) { const FCDSceneNode* c = ((const FCDSceneNode*) x.o)->GetChild(q); touched.insert(c); for (size_t k = 0; k < c->GetParentCount(); ++k) touched.insert(c->GetParent(k)); } }
				for (auto* u : x.uses) if (gone.count(u)) { touched.insert(x.o); if (S(x.kind) == "input") touched.insert(x.owner); }
			}
			if (mon::verbose) fprintf(stderr, "release %s %p (%s), %zu go\n", pick.kind, (const void*) pick.o, pick.o->GetObjectType().GetTypeName(), gone.size());
			const_cast<FUTrackable*>(pick.o)->Release();
			++released; mon::hit("released"); mon::hit(("released_" + kind).c_str()); mon::hit("went_along", gone.size() - 1);
			for (auto& x : a.objects)
			{
				bool is = !w.live.count(x.o), should = gone.count(x.o) != 0;
				if (is != should) mon::viol(S(is ? "died:" : "survived:") + x.kind + "-with-" + kind, "a %s %s when a %s was released", x.kind, is ? "was destroyed" : "was left behind", pick.kind);
			}
			// Also what refers to something the walk does not list itself, a value of a released part for example.
			for (auto& x : a.objects) for (auto* u : x.uses) if (w.dead.count(u)) touched.insert(x.o);
			CHECK(w.twice == 0, "twice", "%zu objects were destroyed twice", w.twice);
			Dump b; walk(d, b);
			for (auto& x : b.objects)
			{
				if (!a.objectAt.count(x.o)) { mon::viol(S("appeared:") + x.kind + "-with-" + kind, "a %s has appeared", x.kind); continue; }
				auto& y = a.objects[a.objectAt[x.o]];
				if (!touched.count(x.o) && x.text != y.text) mon::viol(S("changed:") + x.kind + "-with-" + kind, "a %s has changed from %s to %s", x.kind, mon::esc(y.text.substr(0, 300)).c_str(), mon::esc(x.text.substr(0, 300)).c_str());
				for (auto* u : x.uses) if (w.dead.count(u)) mon::viol(S("refers:") + x.kind + "-to-" + kind, "a %s refers to something that is not there", x.kind);
			}
			for (auto& x : a.objects) if (w.live.count(x.o) && !b.objectAt.count(x.o) && S(x.kind) != "animated") mon::viol(S("lost:") + x.kind + "-with-" + kind, "a %s cannot be reached any more", x.kind);
			mon::sig(mon::hash(kind.data(), kind.size(), gone.size() * 7 + a.objects.size() * 131));
		}
	}
	if (released >= 10) mon::nontrivial();
	S file = tmpFile("life.dae");
	if (!saveDoc(d, file)) mon::viol("save", "%s", errs.all().c_str());
	DocRef back; mon::AllowAsserts allow; bool ok = loadDoc(back, file);
	mon::hit(ok ? "reloaded" : "reloaded_with_errors"); // what was released may be needed by what is left
	if (r.chance(50)) { d->Release(); d.d = NULL; }
}
