// C02-C08: a document built through the public interface, written and read back, is observably the same.
#include "docmon.h"
#include <unistd.h>

// Builds, saves, loads and compares. Returns false when a step failed.
// A hull read from a file has the data of the mesh it is the hull of.
static void hullData(FCDocument* d)
{
	for (size_t k = 0; k < d->GetGeometryLibrary()->GetEntityCount(); ++k)
	{
		FCDGeometryMesh* m = d->GetGeometryLibrary()->GetEntity(k)->GetMesh(); if (m == NULL || m->GetConvexHullOf().empty()) continue;
		FCDGeometry* g = d->FindGeometry(m->GetConvexHullOf()); FCDGeometryMesh* o = g == NULL ? NULL : g->GetMesh(); if (o == NULL || o == m) continue;
		bool same = m->GetSourceCount() == o->GetSourceCount() && m->GetPolygonsCount() == o->GetPolygonsCount() && m->GetFaceCount() == o->GetFaceCount() && m->GetFaceVertexCount() == o->GetFaceVertexCount();
		for (size_t s = 0; same && s < o->GetSourceCount(); ++s) same = m->GetSource(s)->GetDataCount() == o->GetSource(s)->GetDataCount() && m->GetSource(s)->GetStride() == o->GetSource(s)->GetStride() && (o->GetSource(s)->GetDataCount() == 0 || memcmp(m->GetSource(s)->GetData(), o->GetSource(s)->GetData(), o->GetSource(s)->GetDataCount() * sizeof(float)) == 0);
		CHECK(same, "hull-data", "geometry %zu of %zu is the hull of %s and has %zu sources for %zu, %zu faces for %zu", k, d->GetGeometryLibrary()->GetEntityCount(), m->GetConvexHullOf().c_str(), m->GetSourceCount(), o->GetSourceCount(), m->GetFaceCount(), o->GetFaceCount());
		mon::hit("hulls read");
	}
}

static bool roundTrip(Rng& r, int flags, int scale, const char* tag)
{
	DocRef a, b;
	DocGen g(r, a, flags, scale);
	g.build();
	S file = tmpFile("rt.dae");
	bool early = r.chance(70);
	Dump before; if (early) before = dumpDoc(a);
	ErrorTap errs;
	if (!saveDoc(a, file)) { mon::viol(S(tag) + ":save-failed", "%s", errs.all().c_str()); return false; }
	if (!errs.errors.empty()) mon::viol(S(tag) + ":save-errors", "%s", errs.all().c_str());
	Dump after = dumpDoc(a);
	S text = readFile(file);
	mon::sig(mon::hash(text.data(), text.size()));
	mon::hit("documents"); mon::hit("observations", after.lines.size()); mon::hit("document_bytes", text.size());
	bool mem = r.chance(30), ok = mem ? loadDocMem(b, file, text) : loadDoc(b, file);
	if (!ok) { mon::viol(S(tag) + ":load-failed", "%s", errs.all().c_str()); return false; }
	if (!errs.errors.empty()) mon::viol(S(tag) + ":load-errors", "%s", errs.all().c_str());
	Dump back = dumpDoc(b);
	reportDiff(tag, after, back);
	hullData(b);
	if (after.lines.size() > 40) mon::nontrivial();
	if (mon::verbose && mon::violations()) { writeFile(tmpFile("rt-a.txt"), after.text()); writeFile(tmpFile("rt-b.txt"), back.text()); printf("kept %s\n", file.c_str()); }
	return true;
}

PROP(C03, "a random scene graph is written and read back; a case counts when over forty observations were compared")
{
	int f = DocGen::SCENE | DocGen::CAMERA | DocGen::LIGHT;
	if (r.chance(40)) f |= DocGen::EXTRA;
	if (r.chance(20)) f |= DocGen::EMITTER | DocGen::FORCE;
	roundTrip(r, f, r.chance(20) ? 2 : 1, "scene");
}

PROP(C07, "random cameras, lights, assets, extra trees, layers, emitters and force fields are written and read back; a case counts when over forty observations were compared")
{
	int f = DocGen::CAMERA | DocGen::LIGHT | DocGen::ASSET | DocGen::EXTRA | DocGen::LAYER | DocGen::FORCE | DocGen::EMITTER;
	if (r.chance(60)) f |= DocGen::SCENE;
	roundTrip(r, f, r.chance(20) ? 2 : 1, "entities");
}

PROP(C02, "random meshes and splines are written and read back; a case counts when over forty observations were compared")
{
	int f = DocGen::MESH;
	if (r.chance(50)) f |= DocGen::SPLINE;
	if (r.chance(30)) f |= DocGen::EXTRA;
	if (r.chance(15)) f |= DocGen::SCENE;
	roundTrip(r, f, r.chance(20) ? 4 : 1, "geometry");
}

PROP(C04, "random images, effects, effect parameters, materials and their bindings are written and read back; a case counts when over forty observations were compared")
{
	int f = DocGen::MATERIAL;
	if (r.chance(60)) f |= DocGen::FX;
	if (r.chance(40)) f |= DocGen::EXTRA;
	if (r.chance(35)) f |= DocGen::MESH | DocGen::SCENE;
	roundTrip(r, f, r.chance(20) ? 3 : 1, "material");
}

PROP(C05, "random animations drive the values of random scenes, cameras, lights and materials, with drivers and clips, and are written and read back; a case counts when over forty observations were compared")
{
	int f = DocGen::SCENE | DocGen::CAMERA | DocGen::LIGHT | DocGen::ANIM;
	if (r.chance(50)) f |= DocGen::CLIP;
	if (r.chance(30)) f |= DocGen::MATERIAL;
	if (r.chance(15)) f |= DocGen::MATERIAL | DocGen::FX | DocGen::MESH;
	if (r.chance(25)) f |= DocGen::EXTRA;
	if (r.chance(15)) f |= DocGen::FORCE | DocGen::EMITTER | DocGen::PHYSICS;
	roundTrip(r, f, r.chance(20) ? 2 : 1, "animation");
}

PROP(C06, "random skins and morphs of random meshes, splines and of each other, with their joints, weights and instances, are written and read back; a case counts when over forty observations were compared")
{
	int f = DocGen::SCENE | DocGen::MESH | (r.chance(70) ? DocGen::SKIN : 0);
	if (!(f & DocGen::SKIN) || r.chance(60)) f |= DocGen::MORPH;
	if (r.chance(30)) f |= DocGen::SPLINE;
	if (r.chance(25)) f |= DocGen::MATERIAL;
	if (r.chance(40)) f |= DocGen::ANIM;
	if (r.chance(25)) f |= DocGen::EXTRA;
	roundTrip(r, f, r.chance(20) ? 2 : 1, "controller");
}

PROP(C08, "random physics materials, models with their bodies, shapes and constraints, and scenes of their instances are written and read back; a case counts when over forty observations were compared")
{
	int f = DocGen::PHYSICS;
	if (r.chance(70)) f |= DocGen::SCENE;
	if (r.chance(50)) f |= DocGen::FORCE;
	if (r.chance(30)) f |= DocGen::MESH;
	if (r.chance(40)) f |= DocGen::ANIM;
	if (r.chance(25)) f |= DocGen::EXTRA;
	roundTrip(r, f, r.chance(20) ? 2 : 1, "physics");
}
