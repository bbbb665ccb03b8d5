// Random document construction, through the public interface only: values, entities, scene.
#include "docmon.h"

float DocGen::num(float scale_)
{
	if (r.chance(6)) return 0.0f;
	if (r.chance(6)) return 1.0f;
	int digits = r.range(1, 4), top = 1; for (int k = 0; k < digits; ++k) top *= 10;
	double m = r.range(1, top - 1), e = r.range(0, 3);
	double v = m / pow(10.0, e);
	while (v > scale_ * 10.0) v /= 10.0;
	v = strtod([&] { static char b[40]; snprintf(b, sizeof b, "%.4g", v); return b; }(), NULL);
	if (v < 0.001) v = 0.001;
	return (float) (r.chance(40) ? -v : v);
}
float DocGen::pos(float lo, float hi) { char b[40]; snprintf(b, sizeof b, "%.4g", r.flt(lo, hi)); float v = strtof(b, NULL); return v < 0.001f && lo >= 0.001f ? lo : v; }
FMVector3 DocGen::axis()
{
	static const float t[][3] = { { 1, 0, 0 }, { 0, 1, 0 }, { 0, 0, 1 }, { -1, 0, 0 }, { 0, 0.6f, 0.8f }, { 0.6f, -0.8f, 0 }, { 0.28f, 0, 0.96f } };
	int k = r.range(0, 6); return FMVector3(t[k][0], t[k][1], t[k][2]);
}
FMVector3 DocGen::color3() { float a = pos(0.01f, 1), b = pos(0.01f, 1), c = pos(0.01f, 1); return FMVector3(a, b, c); }
FMVector4 DocGen::color4() { float a = pos(0.01f, 1), b = pos(0.01f, 1), c = pos(0.01f, 1), d4 = pos(0.01f, 1); return FMVector4(a, b, c, d4); }
FMMatrix44 DocGen::matrix() { FMMatrix44 m; for (int i = 0; i < 4; ++i) for (int j = 0; j < 4; ++j) m.m[i][j] = num(); return m; }
FMMatrix44 DocGen::affine() { FMMatrix44 m = matrix(); m.m[0][3] = m.m[1][3] = m.m[2][3] = 0.0f; m.m[3][3] = 1.0f; return m; }
S DocGen::word(int maxLen)
{
	static const char a[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_", b[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_0123456789-";
	S s; s += a[r.below(sizeof a - 1)]; int n = r.range(0, maxLen - 1);
	for (int i = 0; i < n; ++i) s += b[r.below(sizeof b - 1)];
	return s;
}
S DocGen::text(int maxLen)
{
	static const char* odd[] = { "<", ">", "&", "\"", "'", "%", "%20", "&amp;", "]]>", "\xC3\xA9", "\xE2\x82\xAC", "#", "/", "\\", ";", ",", "(", "!", "  ", "0", "-1.5", "e9" };
	S s; int n = r.range(1, maxLen);
	for (int i = 0; i < n; ++i) { if (r.chance(25)) s += odd[r.below(sizeof odd / sizeof *odd)]; else if (r.chance(8)) s += ' '; else s += word(1); }
	while (!s.empty() && s[0] == ' ') s.erase(0, 1);
	while (!s.empty() && s[s.size() - 1] == ' ') s.erase(s.size() - 1);
	if (s.empty()) s = word(4);
	return s;
}
S DocGen::uri() { S s = r.chance(50) ? "textures/" : ""; s += word(8) + (r.chance(50) ? ".png" : ".tga"); return s; }

// ---- Entities ------------------------------------------------------------------------------------
void DocGen::enode(FCDENode* n, int depth)
{
	if (has(EXTRA))
	{
		int at = r.chance(60) ? 0 : r.range(1, 3);
		for (int i = 0; i < at; ++i) n->AddAttribute((word(6) + std::to_string(i)).c_str(), fstring(r.chance(15) ? "" : text(10).c_str()));
	}
	int kids = depth > 0 && r.chance(40) ? r.range(1, 3) : 0;
	if (kids == 0) { if (r.chance(85)) n->SetContent(r.chance(50) ? fstring(text(16).c_str()) : fstring(std::to_string(r.range(-999, 999)).c_str())); if (has(ANIM) && !still && r.chance(8) && r.chance(50)) n->AddAttribute("id", fstring(("en" + std::to_string(animatables.size()) + word(4)).c_str())), animatables.push_back({ n->GetAnimated(), 1 });
		else if (has(ANIM) && !still && r.chance(8)) animatables.push_back({ n->GetAnimated(), 1 }); return; }
	for (int i = 0; i < kids; ++i)
	{
		FCDENode* c = n->AddChildNode(word(8).c_str());
		enode(c, depth - 1);
	}
}
void DocGen::extra(FCDExtra* x, int depth, bool untyped)
{
	if (x == NULL || !has(EXTRA)) return;
	int types = untyped ? 1 : r.range(1, 2);
	for (int t = 0; t < types; ++t)
	{
		FCDEType* ty = t == 0 && (untyped || r.chance(70)) ? x->GetDefaultType() : x->AddType((word(6) + "T").c_str());
		if (ty == NULL) ty = x->AddType("");
		int te = r.range(1, 2);
		for (int i = 0; i < te; ++i)
		{
			FCDETechnique* q = ty->AddTechnique(("P" + word(5)).c_str());
			int n = r.range(1, 3);
			for (int k = 0; k < n; ++k)
			{
				if (r.chance(40)) { S nm = word(8); switch (r.below(4)) { case 0: q->AddParameter(nm.c_str(), num()); break; case 1: q->AddParameter(nm.c_str(), r.range(-5000, 5000)); break; case 2: q->AddParameter(nm.c_str(), vec3()); break; default: q->AddParameter(nm.c_str(), text(12).c_str()); break; } }
				else enode(q->AddChildNode(word(8).c_str()), depth);
			}
		}
	}
	mon::hit("extra_trees");
}
void DocGen::asset(FCDAsset* a)
{
	auto opt = [&](int len) { return fstring(r.chance(30) ? "" : text(len).c_str()); };
	int n = r.range(0, 3);
	for (int i = 0; i < n; ++i)
	{
		FCDAssetContributor* c = a->AddContributor();
		c->SetAuthor(opt(10)); c->SetAuthoringTool(opt(10)); c->SetComments(opt(20)); c->SetCopyright(opt(10));
		if (r.chance(40)) c->SetSourceData(("file:///" + word(6) + "/" + word(6) + ".mb").c_str());
	}
	a->SetKeywords(opt(12)); a->SetRevision(opt(6)); a->SetSubject(opt(8)); a->SetTitle(opt(12));
	FUDateTime& t = a->GetCreationDateTime();
	t.SetYear(r.range(1970, 2030)); t.SetMonth(r.range(1, 12)); t.SetDay(r.range(1, 28)); t.SetHour(r.range(0, 23)); t.SetMinutes(r.range(0, 59)); t.SetSeconds(r.range(0, 59));
	if (r.chance(60)) { int k = r.range(0, 2); a->SetUpAxis(k == 0 ? FMVector3::XAxis : k == 1 ? FMVector3::YAxis : FMVector3::ZAxis); }
	if (r.chance(60)) { a->SetUnitName(word(8).c_str()); a->SetUnitConversionFactor(pos(0.01f, 100.0f)); }
	mon::hit("assets");
}
void DocGen::entity(FCDEntity* e, bool nameIt)
{
	entities.push_back(e);
	if (nameIt && r.chance(70)) e->SetName((r.chance(80) ? word(12) : text(12)).c_str());
	if (r.chance(60)) e->SetDaeId(fm::string((word(10) + (r.chance(20) ? "." + word(3) : S())).c_str()));
	if (has(EXTRA) && r.chance(15)) e->SetNote(text(20).c_str());
	if (has(EXTRA) && r.chance(25)) extra(e->GetExtra());
	if (has(ASSET) && r.chance(12)) asset(e->GetAsset());
}

void DocGen::camera()
{
	FCDCamera* c = d->GetCameraLibrary()->AddEntity(); cameras.push_back(c); entity(c);
	int form = r.range(0, 2);
	if (r.chance(60))
	{
		c->SetProjectionType(FCDCamera::PERSPECTIVE);
		if (form != 1) { c->SetFovX(pos(5, 170)); animatable(c->GetFovX(), 1); }
		if (form != 0) { c->SetFovY(pos(5, 170)); animatable(c->GetFovY(), 1); }
	}
	else
	{
		c->SetProjectionType(FCDCamera::ORTHOGRAPHIC);
		if (form != 1) { c->SetMagX(pos(0.1f, 50)); animatable(c->GetMagX(), 1); }
		if (form != 0) { c->SetMagY(pos(0.1f, 50)); animatable(c->GetMagY(), 1); }
	}
	if (form != 2 && r.chance(50)) { c->SetAspectRatio(pos(0.5f, 3)); animatable(c->GetAspectRatio(), 1); }
	c->SetNearZ(pos(0.01f, 10)); c->SetFarZ(pos(20, 5000)); animatable(c->GetNearZ(), 1); animatable(c->GetFarZ(), 1);
	mon::hit("cameras");
}
void DocGen::light()
{
	FCDLight* l = d->GetLightLibrary()->AddEntity(); lights.push_back(l); entity(l);
	l->SetLightType((FCDLight::LightType) r.range(0, 3));
	l->SetColor(color3()); animatable(l->GetColor(), 3);
	if (r.chance(60)) { l->SetIntensity(pos(0.1f, 10)); animatable(l->GetIntensity(), 1); }
	if (r.chance(60)) { l->SetConstantAttenuationFactor(pos(0.01f, 5)); l->SetLinearAttenuationFactor(pos(0.01f, 5)); l->SetQuadraticAttenuationFactor(pos(0.01f, 5));
		animatable(l->GetConstantAttenuationFactor(), 1); animatable(l->GetLinearAttenuationFactor(), 1); animatable(l->GetQuadraticAttenuationFactor(), 1); }
	if ((l->GetLightType() == FCDLight::SPOT || l->GetLightType() == FCDLight::DIRECTIONAL) && r.chance(80))
	{
		l->SetFallOffExponent(pos(0.1f, 20)); l->SetFallOffAngle(pos(1, 80)); animatable(l->GetFallOffExponent(), 1); animatable(l->GetFallOffAngle(), 1);
		if (r.chance(50)) { l->SetOuterAngle(pos(1, 120)); animatable(l->GetOuterAngle(), 1); }
		if (r.chance(50)) { l->SetDropoff(pos(0.1f, 20)); animatable(l->GetDropoff(), 1); }
	}
	mon::hit("lights");
}
void DocGen::force() { FCDForceField* f = d->GetForceFieldLibrary()->AddEntity(); forces.push_back(f); entity(f); if (has(EXTRA)) extra(f->GetInformation(), 3, true); mon::hit("force_fields"); }
void DocGen::emitter() { FCDEmitter* e = d->GetEmitterLibrary()->AddEntity(); emitters.push_back(e); entity(e); mon::hit("emitters"); }
void DocGen::layers()
{
	int n = r.range(0, 3);
	for (int i = 0; i < n; ++i)
	{
		FCDLayer* l = d->AddLayer(); l->name = (word(8) + std::to_string(i)).c_str();
		int k = r.range(0, 4); for (int q = 0; q < k; ++q) l->objects.push_back(word(8).c_str());
		mon::hit("layers");
	}
}

// ---- Scene ---------------------------------------------------------------------------------------
void DocGen::transformValue(FCDTransform* t)
{
	switch (t->GetType())
	{
	case FCDTransform::TRANSLATION: { auto* x = (FCDTTranslation*) t; x->SetTranslation(vec3()); animatable(x->GetTranslation(), 3); break; }
	case FCDTransform::SCALE: { auto* x = (FCDTScale*) t; x->SetScale(vec3()); animatable(x->GetScale(), 3); break; }
	case FCDTransform::ROTATION: { auto* x = (FCDTRotation*) t; x->SetRotation(axis(), num(360)); animatable(x->GetAngleAxis(), 4); break; }
	case FCDTransform::MATRIX: { auto* x = (FCDTMatrix*) t; x->SetTransform(affine()); animatable(x->GetTransform(), 16); break; }
	case FCDTransform::LOOKAT: { auto* x = (FCDTLookAt*) t; x->SetPosition(vec3()); x->SetTarget(vec3()); x->SetUp(axis()); animatable(x->GetLookAt(), 9); break; }
	case FCDTransform::SKEW: { auto* x = (FCDTSkew*) t; x->SetRotateAxis(axis()); x->SetAroundAxis(axis()); x->SetAngle(num(90)); animatable(x->GetSkew(), 7); break; }
	default: break;
	}
}
void DocGen::transforms(FCDSceneNode* n)
{
	int k = count(3);
	for (int i = 0; i < k; ++i)
	{
		FCDTransform* t = n->AddTransform((FCDTransform::Type) r.range(0, FCDTransform::TYPE_COUNT - 1), r.chance(80) ? (size_t) -1 : (size_t) r.range(0, (int) n->GetTransformCount()));
		if (t == NULL) continue;
		transformValue(t);
		if (r.chance(40)) t->SetSubId((word(6) + "_" + std::to_string(i)).c_str());
		mon::hit("transforms");
	}
}
void DocGen::instances(FCDSceneNode* n)
{
	int k = r.chance(45) ? 0 : r.range(1, 2);
	for (int i = 0; i < k; ++i)
	{
		std::vector<FCDEntity*> cand;
		if (!cameras.empty()) cand.push_back(r.pick(cameras));
		if (!lights.empty()) cand.push_back(r.pick(lights));
		if (!meshes.empty()) { cand.push_back(r.pick(meshes)); cand.push_back(r.pick(meshes)); }
		if (!splines.empty()) cand.push_back(r.pick(splines));
		if (!skins.empty()) { cand.push_back(r.pick(skins)); cand.push_back(r.pick(skins)); }
		if (!morphs.empty()) cand.push_back(r.pick(morphs));
		if (!forces.empty()) cand.push_back(r.pick(forces));
		if (!emitters.empty()) cand.push_back(r.pick(emitters));
		if (cand.empty()) return;
		FCDEntity* e = r.pick(cand);
		FCDEntityInstance* in = n->AddInstance(e);
		if (in == NULL) { mon::viol("add-instance", "AddInstance refused an entity of type %d", (int) e->GetType()); continue; }
		if (r.chance(30)) in->SetName(word(8).c_str());
		if (r.chance(30)) in->SetWantedSubId((word(6) + "I" + std::to_string(i)).c_str());
		if (has(EXTRA) && r.chance(20)) extra(in->GetExtra(), 1);
		if (e->GetType() == FCDEntity::GEOMETRY) { FCDGeometry* g = (FCDGeometry*) e; if (g->IsMesh()) bindMaterials((FCDGeometryInstance*) in, g->GetMesh()); }
		if (e->GetType() == FCDEntity::CONTROLLER)
		{
			FCDControllerInstance* ci = (FCDControllerInstance*) in; FCDController* c = (FCDController*) e;
			FCDGeometry* g = c->GetBaseGeometry(); if (g != NULL && g->IsMesh()) bindMaterials(ci, g->GetMesh());
			FCDSkinController* sk = c->IsSkin() ? c->GetSkinController() : NULL;
			if (sk != NULL && !joints.empty())
				for (size_t j = 0; j < sk->GetJointCount(); ++j)
				{
					for (size_t q = 0; q < joints.size(); ++q) if (joints[q]->GetSubId() == sk->GetJoint(j)->GetId()) { ci->AddJoint(joints[q]); break; }
				}
			if (sk != NULL && !joints.empty() && r.chance(85))
			{
				if (r.chance(60)) ci->CalculateRootIds();
				else ci->GetSkeletonRoots().push_back(FUUri(FS("#") + TO_FSTRING(joints[0]->GetDaeId())));
				mon::hit("skeletons");
			}
		}
		mon::hit("instances");
	}
}
void DocGen::sceneNode(FCDSceneNode* n, int depth)
{
	entity(n); nodes.push_back(n);
	if (r.chance(50)) n->SetSubId(word(8).c_str());
	if (r.chance(15)) n->SetJointFlag(true);
	if (r.chance(25)) n->SetVisibility(r.chance(40));
	if (r.chance(30)) animatable(n->GetVisibility(), 1);
	transforms(n);
	instances(n);
	int k = depth <= 0 ? 0 : r.range(0, 2 + scale);
	for (int i = 0; i < k; ++i)
	{
		if (r.chance(12) && nodes.size() > 1)
		{
			FCDSceneNode* o = r.pick(nodes);
			bool already = false; for (size_t q = 0; q < n->GetChildrenCount(); ++q) already |= n->GetChild(q) == o;
			if (!already && o->GetParentCount() > 0 && n->AddChildNode(o)) mon::hit("shared_nodes");
		}
		else sceneNode(n->AddChildNode(), depth - 1);
	}
	mon::hit("nodes");
}
void DocGen::scene()
{
	int scenes = r.chance(75) ? 1 : 2;
	// Joints come first, so that skins can name them.
	for (int s = 0; s < scenes; ++s)
	{
		FCDSceneNode* v = d->AddVisualScene(); entity(v);
		if (s == 0 && has(SKIN))
		{
			FCDSceneNode* root = v->AddChildNode(); root->SetJointFlag(true); root->SetSubId("jroot"); root->SetDaeId("jroot-id"); joints.push_back(root);
			int k = r.range(1, 4);
			for (int i = 0; i < k; ++i) { FCDSceneNode* j = r.pick(joints)->AddChildNode(); j->SetJointFlag(true); j->SetSubId(("joint" + std::to_string(i)).c_str()); if (r.chance(50)) transforms(j); joints.push_back(j); }
		}
		if (s == 0 && has(SKIN)) { int k = r.range(1, 2); for (int i = 0; i < k; ++i) skin(); }
		int k = r.range(0, 3);
		for (int i = 0; i < k; ++i) sceneNode(v->AddChildNode(), 3);
		mon::hit("scenes");
	}
	for (auto* c : cameras) if (!nodes.empty() && r.chance(25)) { c->SetTargetNode(r.pick(nodes)); mon::hit("targets"); }
	for (auto* c : lights) if (!nodes.empty() && r.chance(25)) { c->SetTargetNode(r.pick(nodes)); mon::hit("targets"); }
}

void DocGen::animatable(FCDParameterAnimatable& p, int values)
{
	if (!has(ANIM) || still || !r.chance(15)) return;
	animatables.push_back({ p.GetAnimated(), values });
}

void DocGen::build()
{
	if (has(ASSET)) asset(d->GetAsset());
	if (has(EXTRA) && r.chance(30)) extra(d->GetExtra());
	int n;
	if (has(CAMERA)) for (n = count(2); n > 0; --n) camera();
	if (has(LIGHT)) for (n = count(2); n > 0; --n) light();
	if (has(FORCE)) for (n = count(2); n > 0; --n) force();
	if (has(EMITTER)) for (n = count(2); n > 0; --n) emitter();
	if (has(MATERIAL))
	{
		for (n = count(2); n > 0; --n) image();
		for (n = 1 + count(2); n > 0; --n) effect();
		for (n = 1 + count(2); n > 0; --n) material();
	}
	if (has(MESH)) for (n = 1 + count(2); n > 0; --n) mesh();
	if (!hulls.empty() && meshes.empty()) mesh();
	for (auto* h : hulls) h->SetConvexHullOf(meshes[r.below(meshes.size())]);
	if (has(SPLINE)) for (n = count(2); n > 0; --n) spline();
	if (has(MORPH) && !meshes.empty()) for (n = count(2); n > 0; --n) morph();
	if (has(SCENE)) scene();
	if (d->GetVisualSceneInstance() != NULL)
	{
		// These are kept in the main visual scene.
		if (has(LAYER)) layers();
		if (has(ASSET) && r.chance(30)) d->SetStartTime(num(50));
		if (has(ASSET) && r.chance(30)) d->SetEndTime(pos(51, 900));
	}
	if (has(PHYSICS)) physics();
	if (has(ANIM)) animations();
	if (has(CLIP)) clips();
}
