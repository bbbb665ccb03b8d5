// C11: cloning of library entities.
#include "docmon.h"

static Dump look(const FCDEntity* e, int flags)
{
	Dump o; o.flags = flags; o.rawNames = true; o.any(e);
	for (size_t k = 0; k < o.lines.size();)
	{
		S& p = o.lines[k].first; size_t s = p.rfind('/'); S last = s == S::npos ? p : p.substr(s + 1);
		// Depends on who uses the entity or on the time of the copy.
		if (last == "parents" || (last == "target" && s != S::npos && p.find("transform") == S::npos && e->GetType() == FCDEntity::SCENE_NODE)
			|| (e->GetType() == FCDEntity::PHYSICS_SCENE_NODE && last == "node" && p.find("/instance[") != S::npos)   // meant to be left out
			|| (e->GetType() == FCDEntity::SCENE_NODE && p == "target") || last == "modified") o.lines.erase(o.lines.begin() + k);
		else ++k;
	}
	return o;
}
static bool ends(const S& p, const char* tail) { size_t n = strlen(tail); return p.size() >= n && p.compare(p.size() - n, n, tail) == 0; }
// The joints of a controller instance may be among the nodes that are released; what drives a curve may be gone too.
static void withoutJoints(Dump& o)
{
	for (size_t k = 0; k < o.lines.size();) { const S& p = o.lines[k].first; if (p.find("/joint[") != S::npos || ends(p, "/driver") || (p.size() > 7 && p.compare(p.size() - 7, 7, "/joints") == 0)) o.lines.erase(o.lines.begin() + k); else ++k; }
}
static const char* typeName(FCDEntity::Type t)
{
	switch (t)
	{
	case FCDEntity::ANIMATION: return "animation"; case FCDEntity::ANIMATION_CLIP: return "clip"; case FCDEntity::CAMERA: return "camera"; case FCDEntity::LIGHT: return "light";
	case FCDEntity::IMAGE: return "image"; case FCDEntity::MATERIAL: return "material"; case FCDEntity::EFFECT: return "effect"; case FCDEntity::GEOMETRY: return "geometry";
	case FCDEntity::CONTROLLER: return "controller"; case FCDEntity::PHYSICS_MATERIAL: return "physmaterial"; case FCDEntity::PHYSICS_MODEL: return "physmodel";
	case FCDEntity::PHYSICS_SCENE_NODE: return "physscene"; case FCDEntity::SCENE_NODE: return "node"; case FCDEntity::FORCE_FIELD: return "forcefield"; case FCDEntity::EMITTER: return "emitter";
	default: return "other";
	}
}
template <class T> static void collect(std::vector<FCDEntity*>& out, FCDLibrary<T>* lib) { for (size_t q = 0; q < lib->GetEntityCount(); ++q) out.push_back(lib->GetEntity(q)); }
static void all(std::vector<FCDEntity*>& v, FCDocument* d)
{
	collect(v, d->GetAnimationLibrary()); collect(v, d->GetAnimationClipLibrary()); collect(v, d->GetCameraLibrary()); collect(v, d->GetLightLibrary());
	collect(v, d->GetImageLibrary()); collect(v, d->GetMaterialLibrary()); collect(v, d->GetEffectLibrary()); collect(v, d->GetGeometryLibrary());
	collect(v, d->GetControllerLibrary()); collect(v, d->GetPhysicsMaterialLibrary()); collect(v, d->GetPhysicsModelLibrary()); collect(v, d->GetPhysicsSceneLibrary());
	collect(v, d->GetVisualSceneLibrary()); collect(v, d->GetForceFieldLibrary()); collect(v, d->GetEmitterLibrary());
}
static FCDEntity* fresh(FCDocument* d, FCDEntity::Type t)
{
	switch (t)
	{
	case FCDEntity::ANIMATION: return d->GetAnimationLibrary()->AddEntity(); case FCDEntity::ANIMATION_CLIP: return d->GetAnimationClipLibrary()->AddEntity();
	case FCDEntity::CAMERA: return d->GetCameraLibrary()->AddEntity(); case FCDEntity::LIGHT: return d->GetLightLibrary()->AddEntity();
	case FCDEntity::IMAGE: return d->GetImageLibrary()->AddEntity(); case FCDEntity::MATERIAL: return d->GetMaterialLibrary()->AddEntity();
	case FCDEntity::EFFECT: return d->GetEffectLibrary()->AddEntity(); case FCDEntity::GEOMETRY: return d->GetGeometryLibrary()->AddEntity();
	case FCDEntity::CONTROLLER: return d->GetControllerLibrary()->AddEntity(); case FCDEntity::PHYSICS_MATERIAL: return d->GetPhysicsMaterialLibrary()->AddEntity();
	case FCDEntity::PHYSICS_MODEL: return d->GetPhysicsModelLibrary()->AddEntity(); case FCDEntity::PHYSICS_SCENE_NODE: return d->GetPhysicsSceneLibrary()->AddEntity();
	case FCDEntity::SCENE_NODE: return d->GetVisualSceneLibrary()->AddEntity(); case FCDEntity::FORCE_FIELD: return d->GetForceFieldLibrary()->AddEntity();
	case FCDEntity::EMITTER: return d->GetEmitterLibrary()->AddEntity(); default: return NULL;
	}
}
// Changes about everything that can be reached from an entity.
static void upset(Rng& r, DocGen& g, FCDEntity* e)
{
	e->SetName("upset"); e->SetNote("upset note"); g.extra(e->GetExtra());
	switch (e->GetType())
	{
	case FCDEntity::CAMERA: { FCDCamera* c = (FCDCamera*) e; c->SetNearZ(12345); c->SetFarZ(54321); c->SetTargetNode(NULL); break; }
	case FCDEntity::LIGHT: { FCDLight* c = (FCDLight*) e; c->SetColor(FMVector3(9, 8, 7)); c->SetIntensity(77); c->SetTargetNode(NULL); break; }
	case FCDEntity::IMAGE: { FCDImage* c = (FCDImage*) e; c->SetWidth(99999); c->SetFilename("upset.png"); break; }
	case FCDEntity::MATERIAL: { FCDMaterial* c = (FCDMaterial*) e; while (c->GetEffectParameterCount() > 0) c->GetEffectParameter(0)->Release(); c->SetEffect(NULL); break; }
	case FCDEntity::EFFECT:
	{
		FCDEffect* c = (FCDEffect*) e;
		for (size_t p = 0; p < c->GetProfileCount(); ++p)
			if (c->GetProfile(p)->GetType() == FUDaeProfileType::COMMON) { FCDEffectStandard* s = (FCDEffectStandard*) c->GetProfile(p); for (int q = 0; q < FUDaeTextureChannel::COUNT; ++q) while (s->GetTextureCount(q) > 0) s->GetTexture(q, 0)->Release(); s->SetDiffuseColor(FMVector4(5, 6, 7, 8)); }
			else
			{
				FCDEffectProfileFX* s = (FCDEffectProfileFX*) c->GetProfile(p);
				for (size_t t = 0; t < s->GetTechniqueCount(); ++t) { FCDEffectTechnique* k = s->GetTechnique(t); k->SetName("upset"); while (k->GetPassCount() > 0) k->GetPass(0)->Release(); while (k->GetCodeCount() > 0) k->GetCode(0)->Release(); while (k->GetEffectParameterCount() > 0) k->GetEffectParameter(0)->Release(); }
				for (size_t t = 0; t < s->GetCodeCount(); ++t) s->GetCode(t)->SetCode("upset");
				while (s->GetEffectParameterCount() > 0) s->GetEffectParameter(0)->Release();
			}
		while (c->GetEffectParameterCount() > 0) c->GetEffectParameter(0)->Release();
		if (r.chance(50)) while (c->GetProfileCount() > 0) c->GetProfile(0)->Release();
		break;
	}
	case FCDEntity::GEOMETRY:
	{
		FCDGeometry* c = (FCDGeometry*) e;
		if (c->IsMesh())
		{
			FCDGeometryMesh* m = c->GetMesh();
			for (size_t q = 0; q < m->GetSourceCount(); ++q) { FCDGeometrySource* s = m->GetSource(q); for (size_t w = 0; w < s->GetDataCount(); ++w) s->GetData()[w] = 7; s->SetName("upset"); }
			for (size_t q = 0; q < m->GetPolygonsCount(); ++q)
			{
				FCDGeometryPolygons* p = m->GetPolygons(q);
				for (size_t w = 0; w < p->GetInputCount(); ++w) { FCDGeometryPolygonsInput* in = p->GetInput(w); for (size_t z = 0; z < in->GetIndexCount(); ++z) in->GetIndices()[z] = 0; in->SetSet(77); }
				p->SetMaterialSemantic("upset"); p->AddFace(3); g.extra(p->GetExtra());
			}
		}
		else if (c->IsSpline())
		{
			FCDGeometrySpline* s = c->GetSpline();
			for (size_t q = 0; q < s->GetSplineCount(); ++q) { s->GetSpline(q)->GetCVs().clear(); s->GetSpline(q)->SetName("upset"); }
		}
		break;
	}
	case FCDEntity::CONTROLLER:
	{
		FCDController* c = (FCDController*) e;
		if (c->IsSkin()) { FCDSkinController* s = c->GetSkinController(); s->SetBindShapeTransform(FMMatrix44::Identity); s->SetInfluenceCount(1); s->SetJointCount(0); }
		else if (c->IsMorph()) { FCDMorphController* m = c->GetMorphController(); m->SetMethod(FUDaeMorphMethod::NORMALIZED); while (m->GetTargetCount() > 0) m->GetTarget(0)->Release(); }
		break;
	}
	case FCDEntity::PHYSICS_MATERIAL: { FCDPhysicsMaterial* c = (FCDPhysicsMaterial*) e; c->SetStaticFriction(5); c->SetRestitution(6); break; }
	case FCDEntity::PHYSICS_MODEL:
	{
		FCDPhysicsModel* c = (FCDPhysicsModel*) e;
		for (size_t q = 0; q < c->GetRigidBodyCount(); ++q) { FCDPhysicsRigidBodyParameters* p = c->GetRigidBody(q)->GetParameters(); p->SetMass(777); while (p->GetPhysicsShapeCount() > 0) p->GetPhysicsShape(0)->Release(); }
		for (size_t q = 0; q < c->GetRigidConstraintCount(); ++q) c->GetRigidConstraint(q)->SetLimitsLinearMax(FMVector3(7, 7, 8));
		while (c->GetInstanceCount() > 0) c->GetInstance(0)->Release();
		break;
	}
	case FCDEntity::PHYSICS_SCENE_NODE:
	{
		FCDPhysicsScene* c = (FCDPhysicsScene*) e;
		c->SetGravity(FMVector3(7, 8, 9)); while (c->GetPhysicsModelInstancesCount() > 0) c->GetPhysicsModelInstance(0)->Release();
		break;
	}
	case FCDEntity::SCENE_NODE:
	{
		FCDSceneNode* c = (FCDSceneNode*) e;
		while (c->GetTransformCount() > 0) c->GetTransform(0)->Release();
		while (c->GetInstanceCount() > 0) c->GetInstance(0)->Release();
		while (c->GetChildrenCount() > 0) { FCDSceneNode* k = c->GetChild(0); if (k->GetParentCount() == 1) k->Release(); else c->RemoveChildNode(k); }
		break;
	}
	case FCDEntity::ANIMATION:
	{
		FCDAnimation* c = (FCDAnimation*) e; 		for (size_t q = 0; q < c->GetChannelCount(); ++q) for (size_t w = 0; w < c->GetChannel(q)->GetCurveCount(); ++w) { FCDAnimationCurve* v = c->GetChannel(q)->GetCurve(w); for (size_t k = 0; k < v->GetKeyCount(); ++k) v->GetKey(k)->output += 1000; }
		break;
	}
	case FCDEntity::ANIMATION_CLIP: { FCDAnimationClip* c = (FCDAnimationClip*) e; c->SetStart(-77); c->SetEnd(77); break; }
	default: break;
	}
}
static bool has(const Dump& o, const char* tail, const char* value)
{
	size_t n = strlen(tail);
	for (const auto& l : o.lines) if (l.first.size() >= n && l.first.compare(l.first.size() - n, n, tail) == 0 && l.second != value) return true;
	return false;
}

PROP(C11, "entities of a random document are cloned, into new library entries or into free objects; a case counts when three entities were compared, changed and released")
{
	DocRef d, d2;
	static const int sets[] = { DocGen::SCENE | DocGen::MESH | DocGen::CAMERA | DocGen::LIGHT, DocGen::MATERIAL | DocGen::FX, DocGen::SCENE | DocGen::PHYSICS | DocGen::MESH, DocGen::MESH | DocGen::SPLINE | DocGen::MORPH | DocGen::SKIN | DocGen::SCENE,
		DocGen::ANIM | DocGen::CLIP | DocGen::SCENE | DocGen::LIGHT | DocGen::CAMERA, DocGen::FORCE | DocGen::EMITTER | DocGen::CAMERA | DocGen::LIGHT, DocGen::ALL };
	int flags = sets[r.below(7)]; if (r.chance(70)) flags |= DocGen::EXTRA; if (r.chance(40)) flags |= DocGen::ASSET; if (r.chance(30)) flags |= DocGen::ANIM;
	DocGen g(r, d, flags, 1); g.build();
	std::vector<FCDEntity*> raw; all(raw, d);
	for (FCDSceneNode* n : g.nodes) raw.push_back(n);
	std::vector<FUTrackedPtr<FCDEntity>> es(raw.begin(), raw.end());
	ErrorTap errs;
	struct Pair { FCDEntity* e; FCDEntity* c; bool owned; };
	std::vector<FCDEntity*> free_; std::vector<FUTrackedPtr<FCDEntity>> across_;
	size_t done = 0, want = 1 + r.below(5);
	for (size_t turn = 0; turn < 12 && done < want && !es.empty(); ++turn)
	{
		FCDEntity* e = es[r.below(es.size())]; if (e == NULL) continue;
		S tn = typeName(e->GetType());
		Dump full = look(e, Dump::DEFAULT), before = look(e, 0);
		if (e->GetType() == FCDEntity::SCENE_NODE && has(before, "shared", "0")) continue;   // a shared child is copied for each of its parents
		bool library = r.chance(60), across = library && r.chance(30);
		FCDEntity* c = e->Clone(library ? fresh(across ? d2 : d, e->GetType()) : NULL, true);
		if (across) mon::hit("clones_across_documents");
		mon::hit("clones"); mon::hit(("clones_" + tn).c_str());
		if (c == NULL || c == e) { mon::viol(S("none:") + tn, "no clone of a %s", tn.c_str()); continue; }
		if (c->GetType() != e->GetType() || !(c->GetObjectType() == e->GetObjectType())) { mon::viol(S("type:") + tn, "the clone of a %s is something else", tn.c_str()); c->Release(); continue; }
		if (!library) free_.push_back(c);
		Dump a = look(c, 0);
		if (e->GetType() == FCDEntity::MATERIAL)
		{
			// The clone has its own copy of the effect.
			FCDEffect* x = ((FCDMaterial*) e)->GetEffect(); FCDEffect* y = ((FCDMaterial*) c)->GetEffect();
			CHECK((x == NULL) == (y == NULL), "material-effect", "an effect on one side only");
			if (x != NULL && y != NULL) { CHECK(x != y, "material-effect-shared", "the effect is shared"); Dump p = look(x, 0), q = look(y, 0); reportDiff("effect-copy", p, q); }
			for (Dump* o : { &before, &a }) for (auto& l : o->lines) if (l.first == "effect") l.second = "?";
		}
		if (across)
		{
			// What the entity refers to stays in its document; except that physics objects then own a copy of their materials.
			for (Dump* o : { &before, &a }) for (auto& l : o->lines) if (ends(l.first, "/external") || ends(l.first, "/ownsMaterial") || l.first == "external") l.second = "?";
			for (Dump* o : { &before, &a }) for (size_t k = 0; k < o->lines.size();) if (ends(o->lines[k].first, "/material/id")) o->lines.erase(o->lines.begin() + k); else ++k;
			across_.push_back(c);
		}
		reportDiff("copy-" + tn, before, a);
		mon::hit("observations", a.lines.size());
		{ Dump again = look(e, Dump::DEFAULT); reportDiff("source-" + tn, full, again); }
		if (across) { CHECK(c->GetDocument() == d2.d, "across:" + tn, "the clone of a %s is not of the other document", tn.c_str()); }
		else CHECK(S(c->GetDaeId().c_str()) != S(e->GetDaeId().c_str()), "same-id", "the clone of %s has the id %s too", tn.c_str(), c->GetDaeId().c_str());
		// Either may be changed or released without the other noticing.
		FCDEntity* victim = r.chance(50) ? c : e; FCDEntity* other = victim == c ? e : c;
		if (r.chance(60))
		{
			Dump o1 = look(other, Dump::DEFAULT); upset(r, g, victim); Dump o2 = look(other, Dump::DEFAULT); withoutJoints(o1); withoutJoints(o2);
			reportDiff("changed-" + tn, o1, o2); mon::hit("changes");
		}
		if (r.chance(60) && !(victim == e && e->GetType() == FCDEntity::SCENE_NODE))
		{
			Dump o1 = look(other, 0); 
			if (victim == c) free_.erase(std::remove(free_.begin(), free_.end(), c), free_.end());
			victim->Release();
			Dump o2 = look(other, 0); withoutJoints(o1); withoutJoints(o2); reportDiff("released-" + tn, o1, o2); mon::hit("releases");
		}
		++done;
		mon::sig(mon::hash(tn.data(), tn.size(), before.lines.size() * 31 + library));
	}
	if (r.chance(30)) { CHECK(saveDoc(d, tmpFile("clone.dae")), "save", "the document is not saved: %s", errs.all().c_str()); mon::hit("saves"); }
	if (r.chance(50)) { for (FCDEntity* c : free_) c->Release(); free_.clear(); }
	if (!free_.empty())
	{
		// Free objects may not outlive their document: they are released first, but after the rest of the libraries' contents.
		while (d->GetGeometryLibrary()->GetEntityCount() > 0 && r.chance(80)) d->GetGeometryLibrary()->GetEntity(0)->Release();
		for (FCDEntity* c : free_) c->Release();
	}
	if (!across_.empty())
	{
		// The copies do not need the original document. References to it may then not be resolved: there is no file to find it in.
		FCollada::SetDereferenceFlag(false); mon::AllowAsserts allow;
		if (r.chance(70)) { d.d->Release(); d.d = NULL; mon::hit("original_document_gone"); }
		else { CHECK(saveDoc(d, tmpFile("clone.dae")), "save", "the document is not saved: %s", errs.all().c_str()); }
		if (r.chance(50)) for (FCDEntity* c : across_) if (c != NULL) { Dump o = look(c, Dump::DEFAULT); mon::hit("observations", o.lines.size()); }
		if (r.chance(50)) { CHECK(saveDoc(d2, tmpFile("clone2.dae")), "save-across", "the document is not saved: %s", errs.all().c_str()); mon::hit("saves"); }
		if (r.chance(50)) for (FCDEntity* c : across_) if (c != NULL) c->Release();
		FCollada::SetDereferenceFlag(true);
	}
	if (done >= 3) mon::nontrivial();
}
