// Canonical observation of a document through its public getters.
#include "docmon.h"
#include <stdarg.h>
#include <unistd.h>

static S fs(float v)
{
	if (v != v) return "nan";
	if (fabsf(v) < 1e-6f) return "0";
	char b[64]; snprintf(b, sizeof b, "%.5g", (double) v); return b;
}
void Dump::kv(const S& k, const S& v)
{
	lines.push_back({ prefix.empty() ? k : prefix + "/" + k, v });
	if (!watching || scopes.empty() || scopes.back().second == ~(size_t)0) return;
	Object& o = objects[scopes.back().second]; size_t skip = scopes.back().first;
	if (prefix.size() > skip) { o.text.append(prefix, skip, S::npos); o.text += '/'; } o.text += k; o.text += '='; o.text += v; o.text += '\n';
}
void Dump::use(const FUTrackable* o) { if (watching && o != NULL && !scopes.empty() && scopes.back().second != ~(size_t)0) objects[scopes.back().second].uses.push_back(o); }
Dump::See::See(Dump* dump, const FUTrackable* o, const char* kind) : d(dump)
{
	if (!d->watching) return;
	if (o == NULL || d->objectAt.count(o)) { d->scopes.push_back({ 0, ~(size_t)0 }); return; }   // described elsewhere
	const FUTrackable* owner = NULL; for (size_t q = d->scopes.size(); q-- > 0 && owner == NULL; ) if (d->scopes[q].second != ~(size_t)0) owner = d->objects[d->scopes[q].second].o;
	d->objectAt[o] = d->objects.size(); d->scopes.push_back({ d->prefix.size(), d->objects.size() }); d->objects.push_back({ o, owner, kind, S(), {} });
}
void Dump::f(const S& k, float v) { kv(k, fs(v)); }
void Dump::i(const S& k, long long v) { kv(k, std::to_string(v)); }
void Dump::v2(const S& k, const FMVector2& v) { kv(k, fs(v.x) + " " + fs(v.y)); }
void Dump::v3(const S& k, const FMVector3& v) { kv(k, fs(v.x) + " " + fs(v.y) + " " + fs(v.z)); }
void Dump::v4(const S& k, const FMVector4& v) { kv(k, fs(v.x) + " " + fs(v.y) + " " + fs(v.z) + " " + fs(v.w)); }
void Dump::floats(const S& k, const float* v, size_t n)
{
	S s = "(" + std::to_string(n) + ")";
	for (size_t q = 0; q < n; ++q) { s += ' '; s += fs(v[q]); }
	kv(k, s);
}
S Dump::text() const { S s; for (auto& l : lines) { s += l.first; s += " = "; s += l.second; s += '\n'; } return s; }

static S idOf(const FCDObjectWithId* e) { return e == NULL ? S("(none)") : S(e->GetDaeId().c_str()); }
static S cs(const fm::string& s) { return S(s.c_str()); }

void Dump::asset(const FCDAsset* a, bool dates)
{
	See see_(this, a, "asset");
	if (a == NULL) return;
	push("asset");
	auto date = [&](const char* n, const FUDateTime& t) {
		char b[64]; snprintf(b, sizeof b, "%u-%u-%uT%u:%u:%u", t.GetYear(), t.GetMonth(), t.GetDay(), t.GetHour(), t.GetMinutes(), t.GetSeconds()); kv(n, S(b)); };
	date("created", a->GetCreationDateTime());
	if (dates) date("modified", a->GetModifiedDateTime());
	kv("keywords", a->GetKeywords()); kv("revision", a->GetRevision()); kv("subject", a->GetSubject()); kv("title", a->GetTitle());
	i("hasUp", a->GetHasUpAxisFlag()); if (a->GetHasUpAxisFlag()) v3("up", a->GetUpAxis());
	i("hasUnits", a->GetHasUnitsFlag()); if (a->GetHasUnitsFlag()) { kv("unitName", a->GetUnitName()); f("unit", a->GetUnitConversionFactor()); }
	size_t n = 0;
	for (size_t q = 0; q < a->GetContributorCount(); ++q)
	{
		const FCDAssetContributor* c = a->GetContributor(q);
		if (c->IsEmpty()) continue;
		push("contributor", n++);
		kv("author", c->GetAuthor()); kv("tool", c->GetAuthoringTool()); kv("comments", c->GetComments()); kv("copyright", c->GetCopyright()); kv("source", c->GetSourceData());
		pop();
	}
	i("contributors", n);
	pop();
}

void Dump::enode(const FCDENode* n)
{
	See see_(this, n, "enode");
	kv("name", n->GetName());
	if (n->GetChildNodeCount() == 0) kv("content", n->GetContent());
	std::vector<std::pair<S, S>> attrs;
	for (size_t q = 0; q < n->GetAttributeCount(); ++q) attrs.push_back({ cs(n->GetAttribute(q)->GetName()), cs(n->GetAttribute(q)->GetValue()) });
	const FCDAnimatedCustom* an = n->GetAnimated();
	// An animated element is given a sub-id when it is written.
	if (an != NULL && (an->HasCurve() || ownerless || buffered)) attrs.erase(std::remove_if(attrs.begin(), attrs.end(), [](const std::pair<S, S>& x) { return x.first == "sid"; }), attrs.end());
	i("attrs", attrs.size());
	for (size_t q = 0; q < attrs.size(); ++q) { push("attr", q); kv("name", attrs[q].first); kv("value", attrs[q].second); pop(); }
	// The document's extra tree has no identified parent: animation targets start at the node's own id.
	if ((flags & ANIM) && an != NULL && an->HasCurve()) { push(buffered ? "animated-in-extra-instance" : ownerless && const_cast<FCDENode*>(n)->FindAttribute("id") == NULL ? "animated-without-id" : "animated"); animated(an); pop(); }
	i("nodes", n->GetChildNodeCount());
	for (size_t q = 0; q < n->GetChildNodeCount(); ++q) { push("node", q); enode(n->GetChildNode(q)); pop(); }
}
void Dump::extra(const S& k, const FCDExtra* e)
{
	if (e == NULL) return;
	// Types and techniques are found by name; those without content are scaffolding.
	std::vector<std::pair<S, std::vector<std::pair<S, const FCDETechnique*>>>> all; See see_(this, e, "extra");
	for (size_t q = 0; q < e->GetTypeCount(); ++q)
	{
		const FCDEType* t = e->GetType(q);
		std::vector<std::pair<S, const FCDETechnique*>> ts;
		for (size_t w = 0; w < t->GetTechniqueCount(); ++w) if (watching || t->GetTechnique(w)->GetChildNodeCount() != 0) ts.push_back({ cs(t->GetTechnique(w)->GetProfile()), t->GetTechnique(w) });
		std::stable_sort(ts.begin(), ts.end(), [](auto& a, auto& b) { return a.first < b.first; });
		if (watching || !ts.empty()) all.push_back({ cs(t->GetName()), ts });
	}
	std::stable_sort(all.begin(), all.end(), [](auto& a, auto& b) { return a.first < b.first; });
	if (all.empty()) return;
	push(k);
	size_t types = 0;
	for (auto& t : all)
	{
		push("type", types++); kv("name", t.first);
		i("techniques", t.second.size());
		for (size_t w = 0; w < t.second.size(); ++w)
		{
			const FCDETechnique* x = t.second[w].second;
			push("technique", w); See see_(this, x, "etechnique"); kv("profile", x->GetProfile());
			i("nodes", x->GetChildNodeCount());
			for (size_t c = 0; c < x->GetChildNodeCount(); ++c) { push("node", c); enode(x->GetChildNode(c)); pop(); }
			pop();
		}
		pop();
	}
	i("types", types);
	pop();
}

void Dump::curve(const FCDAnimationCurve* c)
{
	i("pre", c->GetPreInfinity()); i("post", c->GetPostInfinity());
	const FCDAnimated* drv = NULL; int32 di = 0;
	if (c->HasDriver()) { c->GetDriver(drv, di); use(drv); if (drv != NULL) { driverLines.push_back({ lines.size(), { drv, di } }); kv("driver", "?"); } }
	i("keys", c->GetKeyCount());
	for (size_t k = 0; k < c->GetKeyCount(); ++k)
	{
		const FCDAnimationKey* key = c->GetKey(k);
		push("key", k); i("interp", key->interpolation); f("in", key->input); f("out", key->output);
		if (key->interpolation == FUDaeInterpolation::BEZIER)
		{
			const FCDAnimationKeyBezier* b = (const FCDAnimationKeyBezier*) key;
			if (k > 0) v2("inTan", b->inTangent);
			if (k + 1 < c->GetKeyCount()) v2("outTan", b->outTangent);
		}
		else if (key->interpolation == FUDaeInterpolation::TCB)
		{
			const FCDAnimationKeyTCB* b = (const FCDAnimationKeyTCB*) key;
			f("t", b->tension); f("c", b->continuity); f("b", b->bias); f("ein", b->easeIn); f("eout", b->easeOut);
		}
		pop();
	}
}
void Dump::animated(const FCDAnimated* a)
{
	See see_(this, a, "animated");
	for (size_t q = 0; q < a->GetValueCount(); ++q)
	{
		size_t n = a->GetCurves().at(q).size();
		if (n == 0) continue;
		push("value", q); i("curves", n);
		for (size_t c = 0; c < n; ++c) { push("curve", c); use(a->GetCurves().at(q).at(c)); { See mute(this, NULL, ""); curve(a->GetCurves().at(q).at(c)); } pop(); }
		pop();
	}
}
void Dump::anim(const S& k, const FCDParameterAnimatable& p, const FCDAnimated*)
{
	if (!(flags & ANIM)) return;
	animatedPaths[(const char*) &p] = prefix + "/" + k;
	const FCDAnimated* a = const_cast<FCDParameterAnimatable&>(p).IsAnimated() ? const_cast<FCDParameterAnimatable&>(p).GetAnimated() : NULL;
	if (a == NULL || !a->HasCurve()) return;
	push("~" + k); animated(a); pop();
}

void Dump::entity(const FCDEntity* e)
{
	if (flags & IDS) kv("id", idOf(e));
	// The reader names an unnamed entity after its id.
	fm::string n = e->GetName();
	if (n.empty() && !rawNames) n = FCDEntity::CleanName(idOf(e).c_str());
	kv("name", n);
	i("hasNote", e->HasNote()); if (e->HasNote()) kv("note", e->GetNote());
	asset(e->GetAsset(), true);
	extra("extra", e->GetExtra());
}

void Dump::camera(const FCDCamera* c)
{
	i("projection", c->GetProjectionType());
	if (c->GetProjectionType() == FCDCamera::PERSPECTIVE)
	{
		i("hasH", c->HasHorizontalFov()); i("hasV", c->HasVerticalFov());
		if (c->HasHorizontalFov()) { f("fovX", *c->GetFovX()); anim("fovX", c->GetFovX()); }
		if (c->HasVerticalFov()) { f("fovY", *c->GetFovY()); anim("fovY", c->GetFovY()); }
	}
	else
	{
		i("hasH", c->HasHorizontalMag()); i("hasV", c->HasVerticalMag());
		if (c->HasHorizontalMag()) { f("magX", *c->GetMagX()); anim("magX", c->GetMagX()); }
		if (c->HasVerticalMag()) { f("magY", *c->GetMagY()); anim("magY", c->GetMagY()); }
	}
	i("hasAspect", c->HasAspectRatio()); if (c->HasAspectRatio()) { f("aspect", *c->GetAspectRatio()); anim("aspect", c->GetAspectRatio()); }
	f("near", *c->GetNearZ()); anim("near", c->GetNearZ());
	f("far", *c->GetFarZ()); anim("far", c->GetFarZ());
	refTo("target", (c->GetTargetNode()));
}
void Dump::light(const FCDLight* l)
{
	i("type", l->GetLightType());
	v3("color", *l->GetColor()); anim("color", l->GetColor());
	f("intensity", *l->GetIntensity()); anim("intensity", l->GetIntensity());
	bool ambient = l->GetLightType() == FCDLight::AMBIENT, spot = l->GetLightType() == FCDLight::SPOT, directional = l->GetLightType() == FCDLight::DIRECTIONAL;
	auto value = [&](const char* name, const FCDParameterAnimatableFloat& v) { S n = S(directional ? "directional-" : "") + name; f(n.c_str(), *v); anim(n.c_str(), v); };
	if (!ambient)
	{
		value("att0", l->GetConstantAttenuationFactor()); value("att1", l->GetLinearAttenuationFactor()); value("att2", l->GetQuadraticAttenuationFactor());
	}
	if (spot || directional)
	{
		value("exponent", l->GetFallOffExponent()); value("angle", l->GetFallOffAngle());
		f("outer", *l->GetOuterAngle()); anim("outer", l->GetOuterAngle());
		if (spot) { f("dropoff", *l->GetDropoff()); anim("dropoff", l->GetDropoff()); }
	}
	refTo("target", (l->GetTargetNode()));
}

void Dump::transform(const FCDTransform* t)
{
	See see_(this, t, "transform");
	i("type", t->GetType());
	// An animated transform without a sub-id is given one when it is written.
	S sid = cs(const_cast<FCDTransform*>(t)->GetSubId());
	for (const char* n : { "translation", "translate", "rotate", "rotation", "scale", "matrix", "transform", "lookat", "skew" }) if (sid.compare(0, strlen(n), n) == 0 && sid.find_first_not_of("0123456789", strlen(n)) == S::npos) sid.clear();
	kv("sid", sid);
	switch (t->GetType())
	{
	case FCDTransform::TRANSLATION: { auto* x = (const FCDTTranslation*) t; v3("v", *x->GetTranslation()); anim("v", x->GetTranslation()); break; }
	case FCDTransform::SCALE: { auto* x = (const FCDTScale*) t; v3("v", *x->GetScale()); anim("v", x->GetScale()); break; }
	case FCDTransform::ROTATION: { auto* x = (const FCDTRotation*) t; v3("axis", x->GetAxis()); f("angle", x->GetAngle()); anim("aa", x->GetAngleAxis()); break; }
	case FCDTransform::MATRIX: { auto* x = (const FCDTMatrix*) t; floats("m", (const float*) (*x->GetTransform()).m, 16); anim("m", x->GetTransform()); break; }
	case FCDTransform::LOOKAT: { auto* x = (const FCDTLookAt*) t; v3("pos", x->GetPosition()); v3("target", x->GetTarget()); v3("up", x->GetUp()); anim("l", x->GetLookAt()); break; }
	case FCDTransform::SKEW: { auto* x = (const FCDTSkew*) t; v3("rot", x->GetRotateAxis()); v3("around", x->GetAroundAxis()); f("angle", x->GetAngle()); anim("s", x->GetSkew()); break; }
	default: kv("unknown", "transform"); break;
	}
}

void Dump::instance(const FCDEntityInstance* in)
{
	See see_(this, in, "instance");
	i("entityType", in->GetEntityType());
	kv("class", in->GetObjectType().GetTypeName());
	const FCDEntityReference* ref = in->GetEntityReference();
	refTo("entity", (const_cast<FCDEntityInstance*>(in)->GetEntity()));
	i("external", ref != NULL && ref->IsExternal());
	kv("name", in->GetName());
	kv("sid", in->GetWantedSubId());
	// The nodes' instances of these are kept in an extra tree.
	buffered = in->GetParent() != NULL && (in->GetEntityType() == FCDEntity::FORCE_FIELD || in->GetEntityType() == FCDEntity::EMITTER);
	extra("extra", in->GetExtra()); buffered = false;
	if (in->HasType(FCDGeometryInstance::GetClassType()))
	{
		const FCDGeometryInstance* g = (const FCDGeometryInstance*) in;
		i("materials", g->GetMaterialInstanceCount());
		for (size_t q = 0; q < g->GetMaterialInstanceCount(); ++q)
		{
			const FCDMaterialInstance* m = g->GetMaterialInstance(q);
			push("material", q); See see_(this, m, "material-instance");
			kv("semantic", m->GetSemantic()); refTo("entity", (m->GetMaterial())); extra("extra", m->GetExtra());
			i("binds", m->GetBindingCount());
			for (size_t b = 0; b < m->GetBindingCount(); ++b) { push("bind", b); kv("semantic", m->GetBinding(b)->semantic); kv("target", m->GetBinding(b)->target); pop(); }
			i("vbinds", m->GetVertexInputBindingCount());
			for (size_t b = 0; b < m->GetVertexInputBindingCount(); ++b) { auto* x = m->GetVertexInputBinding(b); push("vbind", b); kv("semantic", x->semantic); i("input", x->GetInputSemantic()); i("set", x->inputSet); pop(); }
			pop();
		}
		i("params", g->GetEffectParameterCount());
		for (size_t q = 0; q < g->GetEffectParameterCount(); ++q) { push("param", q); param(g->GetEffectParameter(q)); pop(); }
	}
	if (in->HasType(FCDControllerInstance::GetClassType()))
	{
		const FCDControllerInstance* c = (const FCDControllerInstance*) in;
		i("joints", c->GetJointCount());
		for (size_t q = 0; q < c->GetJointCount(); ++q) { push("joint", q); refTo("id", (c->GetJoint(q))); pop(); }
		i("roots", c->GetSkeletonRoots().size());
		for (size_t q = 0; q < c->GetSkeletonRoots().size(); ++q) { push("root", q); kv("fragment", const_cast<FCDControllerInstance*>(c)->GetSkeletonRoots().at(q).GetFragment()); pop(); }
	}
}

void Dump::node(const FCDSceneNode* n, const FCDSceneNode* parent)
{
	(void) parent; See see_(this, n, "node");
	entity(n);
	kv("sid", n->GetSubId()); i("joint", n->GetJointFlag());
	f("visibility", *n->GetVisibility()); anim("visibility", n->GetVisibility());
	i("target", n->IsTarget());
	i("transforms", n->GetTransformCount());
	for (size_t q = 0; q < n->GetTransformCount(); ++q) { push("transform", q); transform(n->GetTransform(q)); pop(); }
	i("instances", n->GetInstanceCount());
	// Emitter and force field instances are kept in the extra tree, after the others.
	std::vector<const FCDEntityInstance*> ins;
	for (size_t pass = 0; pass < 2; ++pass)
		for (size_t q = 0; q < n->GetInstanceCount(); ++q)
		{
			FCDEntity::Type t = n->GetInstance(q)->GetEntityType();
			if ((t == FCDEntity::FORCE_FIELD || t == FCDEntity::EMITTER) == (pass == 1)) ins.push_back(n->GetInstance(q));
		}
	for (size_t q = 0; q < ins.size(); ++q) { push("instance", q); instance(ins[q]); pop(); }
	// A node with several parents is described under its first one; the others only refer to it.
	std::vector<const FCDSceneNode*> own; std::vector<S> shared;
	for (size_t q = 0; q < n->GetChildrenCount(); ++q)
	{
		const FCDSceneNode* c = n->GetChild(q);
		if (c->GetParent() == n && std::find(own.begin(), own.end(), c) == own.end()) own.push_back(c); else shared.push_back(idOf(c));
	}
	std::sort(shared.begin(), shared.end());
	i("children", own.size()); i("shared", shared.size());
	for (size_t q = 0; q < own.size(); ++q) { push("child", q); node(own[q], n); pop(); }
	for (size_t q = 0; q < shared.size(); ++q) { push("shared", q); kv("id", shared[q]); pop(); }
	// All uses.
	std::vector<S> ps; for (size_t q = 0; q < n->GetParentCount(); ++q) ps.push_back(idOf(n->GetParent(q)));
	i("parents", ps.size());
}

void Dump::mesh(const FCDGeometryMesh* m)
{
	// Without ids, sources are known by their place.
	auto sourceName = [&](const FCDGeometrySource* x) -> S { if (x == NULL || (flags & IDS)) return idOf(x); for (size_t q = 0; q < m->GetSourceCount(); ++q) if (m->GetSource(q) == x) return "#" + std::to_string(q); return "(foreign)"; };
	kv("convexHullOf", m->GetConvexHullOf());
	if (!m->GetConvexHullOf().empty())
	{
		// The data is that of another mesh.
		i("convex", m->IsConvex());
		return;
	}
	i("faces", m->GetFaceCount()); i("holes", m->GetHoleCount()); i("faceVertices", m->GetFaceVertexCount());
	i("sources", m->GetSourceCount());
	for (size_t q = 0; q < m->GetSourceCount(); ++q)
	{
		const FCDGeometrySource* s = m->GetSource(q);
		push("source", q); See see_(this, s, "source"); if (flags & IDS) kv("id", idOf(s)); kv("name", s->GetName()); i("type", s->GetType()); i("stride", s->GetStride());
		i("vertexSource", m->IsVertexSource(s));
		floats("data", s->GetData(), s->GetDataCount());
		extra("extra", s->GetExtra());
		if (flags & ANIM)
			for (size_t a = 0; a < s->GetAnimatedValues().size(); ++a) { const FCDAnimated* an = s->GetAnimatedValues().at(a); if (an->HasCurve()) { push("~data"); push("element", an->GetArrayElement()); animated(an); pop(); pop(); } }
		pop();
	}
	i("vertexSources", m->GetVertexSourceCount());
	for (size_t q = 0; q < m->GetVertexSourceCount(); ++q) { push("vs", q); use(m->GetVertexSource(q)); kv("id", sourceName(m->GetVertexSource(q))); pop(); }
	i("sets", m->GetPolygonsCount());
	for (size_t q = 0; q < m->GetPolygonsCount(); ++q)
	{
		const FCDGeometryPolygons* p = m->GetPolygons(q);
		push("set", q); See see_(this, p, "polygons");
		i("primitive", p->GetPrimitiveType()); kv("material", p->GetMaterialSemantic()); extra("extra", p->GetExtra());
		i("faces", p->GetFaceCount()); i("holes", p->GetHoleCount()); i("faceVertices", p->GetFaceVertexCount());
		i("faceOffset", p->GetFaceOffset()); i("faceVertexOffset", p->GetFaceVertexOffset()); i("holeOffset", p->GetHoleOffset());
		S c; for (size_t k = 0; k < p->GetFaceVertexCountCount(); ++k) c += std::to_string(p->GetFaceVertexCounts()[k]) + " "; kv("counts", c);
		S h; for (size_t k = 0; k < p->GetHoleFaceCount(); ++k) h += std::to_string(p->GetHoleFaces()[k]) + " "; kv("holeFaces", h);
		i("inputs", p->GetInputCount());
		// The per-vertex inputs are shared by all the sets and come first.
		std::vector<const FCDGeometryPolygonsInput*> ins;
		for (size_t v = 0; v < m->GetVertexSourceCount(); ++v)
			for (size_t w = 0; w < p->GetInputCount(); ++w) if (p->GetInput(w)->GetSource() == m->GetVertexSource(v)) ins.push_back(p->GetInput(w));
		for (size_t w = 0; w < p->GetInputCount(); ++w) if (p->GetInput(w)->GetSource() == NULL || !m->IsVertexSource(p->GetInput(w)->GetSource())) ins.push_back(p->GetInput(w));
		for (size_t w = 0; w < ins.size(); ++w)
		{
			const FCDGeometryPolygonsInput* x = ins[w];
			push("input", w); See seen_(this, x, "input"); use(x->GetSource()); i("semantic", x->GetSource() == NULL ? -1 : (int) x->GetSemantic()); kv("source", sourceName(x->GetSource())); i("set", x->GetSet());
			S s; if (!watching || x->GetSource() != NULL) for (size_t k = 0; k < x->GetIndexCount(); ++k) s += std::to_string(x->GetIndices()[k]) + " "; kv("indices", s);
			pop();
		}
		pop();
	}
}
void Dump::geometry(const FCDGeometry* g)
{
	i("isMesh", g->IsMesh()); i("isSpline", g->IsSpline());
	if (g->IsMesh()) mesh(g->GetMesh());
	if (g->IsSpline())
	{
		const FCDGeometrySpline* s = g->GetSpline();
		i("splineType", s->GetType()); i("splines", s->GetSplineCount());
		for (size_t q = 0; q < s->GetSplineCount(); ++q)
		{
			const FCDSpline* x = s->GetSpline(q);
			push("spline", q); See see_(this, x, "spline"); i("type", x->GetSplineType()); i("closed", x->IsClosed());
			i("cvs", x->GetCVCount());
			for (size_t k = 0; k < x->GetCVCount(); ++k) { push("cv", k); v3("p", *x->GetCV(k)); pop(); }
			if (x->GetSplineType() == FUDaeSplineType::NURBS)
			{
				const FCDNURBSSpline* nb = (const FCDNURBSSpline*) x;
				i("degree", nb->GetDegree());
				FCDNURBSSpline* mnb = const_cast<FCDNURBSSpline*>(nb);
				floats("weights", mnb->GetWeights().begin(), mnb->GetWeights().size()); floats("knots", mnb->GetKnots().begin(), mnb->GetKnots().size());
			}
			pop();
		}
	}
}
void Dump::controller(const FCDController* c)
{
	i("skin", c->IsSkin()); i("morph", c->IsMorph());
	if (c->IsSkin())
	{
		const FCDSkinController* s = c->GetSkinController();
		refTo("target", (const_cast<FCDSkinController*>(s)->GetTarget()));
		floats("bindShape", (const float*) s->GetBindShapeTransform().m, 16);
		i("joints", s->GetJointCount());
		for (size_t q = 0; q < s->GetJointCount(); ++q) { push("joint", q); kv("id", s->GetJoint(q)->GetId()); floats("inv", (const float*) s->GetJoint(q)->GetBindPoseInverse().m, 16); pop(); }
		i("influences", s->GetInfluenceCount());
		for (size_t q = 0; q < s->GetInfluenceCount(); ++q)
		{
			push("vertex", q); const FCDSkinControllerVertex* v = s->GetVertexInfluence(q);
			i("pairs", v->GetPairCount());
			for (size_t k = 0; k < v->GetPairCount(); ++k) { push("pair", k); i("joint", v->GetPair(k)->jointIndex); f("weight", v->GetPair(k)->weight); pop(); }
			pop();
		}
	}
	if (c->IsMorph())
	{
		const FCDMorphController* m = c->GetMorphController();
		refTo("target", (m->GetBaseTarget())); i("method", m->GetMethod()); i("targets", m->GetTargetCount());
		for (size_t q = 0; q < m->GetTargetCount(); ++q) { push("morphTarget", q); See see_(this, m->GetTarget(q), "morph-target"); refTo("geometry", (m->GetTarget(q)->GetGeometry())); f("weight", *m->GetTarget(q)->GetWeight()); anim("weight", m->GetTarget(q)->GetWeight()); pop(); }
	}
}

void Dump::image(const FCDImage* x) { kv("file", x->GetFilename()); i("w", x->GetWidth()); i("h", x->GetHeight()); i("d", x->GetDepth()); i("video", x->GetVideoFlag()); }

void Dump::param(const FCDEffectParameter* p)
{
	See see_(this, p, "param");
	i("type", p->GetType()); i("paramType", p->GetParamType());
	kv("reference", p->GetReference()); kv("semantic", p->GetSemantic());
	i("annotations", p->GetAnnotationCount());
	for (size_t q = 0; q < p->GetAnnotationCount(); ++q) { const FCDEffectParameterAnnotation* a = p->GetAnnotation(q); push("annotation", q); See seen_(this, a, "annotation"); kv("name", *a->name); i("type", *a->type); kv("value", *a->value); pop(); }
	switch (p->GetType())
	{
	case FCDEffectParameter::INTEGER: i("value", ((const FCDEffectParameterInt*) p)->GetValue()); break;
	case FCDEffectParameter::BOOLEAN: i("value", ((const FCDEffectParameterBool*) p)->GetValue()); break;
	case FCDEffectParameter::STRING: kv("value", ((const FCDEffectParameterString*) p)->GetValue()); break;
	case FCDEffectParameter::FLOAT: { auto* x = (const FCDEffectParameterFloat*) p; f("value", *x->GetValue()); i("half", x->GetFloatType()); anim("value", x->GetValue()); break; }
	case FCDEffectParameter::FLOAT2: { auto* x = (const FCDEffectParameterFloat2*) p; v2("value", *x->GetValue()); i("half", x->GetFloatType()); anim("value", x->GetValue()); break; }
	case FCDEffectParameter::FLOAT3: { auto* x = (const FCDEffectParameterFloat3*) p; v3("value", *x->GetValue()); i("half", x->GetFloatType()); anim("value", x->GetValue()); break; }
	case FCDEffectParameter::VECTOR: { if (p->HasType(FCDEffectParameterColor4::GetClassType())) { auto* x = (const FCDEffectParameterColor4*) p; v4("value", *x->GetValue()); i("half", x->GetFloatType()); anim("value", x->GetValue()); } else { auto* x = (const FCDEffectParameterVector*) p; v4("value", *x->GetValue()); i("half", x->GetFloatType()); anim("value", x->GetValue()); } break; }
	case FCDEffectParameter::MATRIX: { auto* x = (const FCDEffectParameterMatrix*) p; floats("value", (const float*) (*x->GetValue()).m, 16); i("half", x->GetFloatType()); anim("value", x->GetValue()); break; }
	case FCDEffectParameter::SAMPLER:
	{
		auto* x = (const FCDEffectParameterSampler*) p;
		i("samplerType", x->GetSamplerType()); use(x->GetSurface()); kv("surface", x->GetSurface() == NULL ? "(none)" : x->GetSurface()->GetReference().c_str());
		i("wrapS", x->GetWrapS()); i("wrapT", x->GetWrapT()); i("wrapP", x->GetWrapP());
		i("min", x->GetMinFilter()); i("mag", x->GetMagFilter()); i("mip", x->GetMipFilter());
		break;
	}
	case FCDEffectParameter::SURFACE:
	{
		auto* x = const_cast<FCDEffectParameterSurface*>((const FCDEffectParameterSurface*) p);
		kv("surfaceType", x->GetSurfaceType()); kv("format", x->GetFormat());
		v3("size", x->GetSize()); f("viewport", x->GetViewportRatio()); i("mips", x->GetMipLevelCount()); i("generate", x->IsGenerateMipMaps());
		i("images", x->GetImageCount());
		for (size_t q = 0; q < x->GetImageCount(); ++q) { push("image", q); refTo("id", (x->GetImage(q))); pop(); }
		FCDEffectParameterSurfaceInit* m = x->GetInitMethod();
		i("init", m == NULL ? -1 : (int) m->GetInitType());
		if (m != NULL && m->GetInitType() == FCDEffectParameterSurfaceInitFactory::CUBE) { auto* c = (FCDEffectParameterSurfaceInitCube*) m; i("cube", c->cubeType); S o; for (size_t q = 0; q < c->order.size(); ++q) o += std::to_string(c->order[q]) + " "; kv("order", o); }
		if (m != NULL && m->GetInitType() == FCDEffectParameterSurfaceInitFactory::VOLUME) i("volume", ((FCDEffectParameterSurfaceInitVolume*) m)->volumeType);
		if (m != NULL && m->GetInitType() == FCDEffectParameterSurfaceInitFactory::FROM)
		{
			auto* c = (FCDEffectParameterSurfaceInitFrom*) m;
			S o; for (size_t q = 0; q < c->face.size(); ++q) o += cs(c->face[q]) + ","; o += "|"; for (size_t q = 0; q < c->mip.size(); ++q) o += cs(c->mip[q]) + ","; o += "|"; for (size_t q = 0; q < c->slice.size(); ++q) o += cs(c->slice[q]) + ","; kv("from", o);
		}
		if (FCDFormatHint* h = x->GetFormatHint()) { i("hint.channels", h->channels); i("hint.range", h->range); i("hint.precision", h->precision); S o; for (size_t q = 0; q < h->options.size(); ++q) o += std::to_string(h->options[q]) + " "; kv("hint.options", o); }
		break;
	}
	default: kv("unknown", "param"); break;
	}
}
void Dump::material(const FCDMaterial* m)
{
	refTo("effect", (const_cast<FCDMaterial*>(m)->GetEffect()));
	FCDMaterial* mm = const_cast<FCDMaterial*>(m);
	i("hints", mm->GetTechniqueHints().size());
	for (size_t q = 0; q < mm->GetTechniqueHints().size(); ++q) { push("hint", q); kv("platform", mm->GetTechniqueHints()[q].platform); kv("technique", mm->GetTechniqueHints()[q].technique); pop(); }
	i("params", m->GetEffectParameterCount());
	for (size_t q = 0; q < m->GetEffectParameterCount(); ++q) { push("param", q); param(m->GetEffectParameter(q)); pop(); }
}
void Dump::code(const FCDEffectCode* c) { See see_(this, c, "code"); i("type", c->GetType()); kv("sid", c->GetSubId()); if (c->GetType() == FCDEffectCode::CODE) kv("code", c->GetCode()); else kv("file", c->GetFilename()); }
void Dump::texture(const FCDTexture* t)
{
	See see_(this, t, "texture");
	refTo("image", (t->GetImage()));
	const FCDEffectParameterSampler* s = t->GetSampler();
	kv("sampler", s == NULL ? "(none)" : s->GetReference().c_str());
	if (s != NULL) { push("s"); use(s); use(s->GetSurface()); See mute(this, NULL, ""); param(s); pop(); }
	i("set", t->GetSet() == NULL ? -99 : (int) t->GetSet()->GetValue()); kv("setSemantic", t->GetSet() == NULL ? "" : t->GetSet()->GetSemantic().c_str());
	extra("extra", t->GetExtra());
}
void Dump::effect(const FCDEffect* e)
{
	i("params", e->GetEffectParameterCount());
	for (size_t q = 0; q < e->GetEffectParameterCount(); ++q) { push("param", q); param(e->GetEffectParameter(q)); pop(); }
	i("profiles", e->GetProfileCount());
	for (size_t q = 0; q < e->GetProfileCount(); ++q)
	{
		const FCDEffectProfile* p = e->GetProfile(q);
		push("profile", q); See see_(this, p, "profile"); i("type", p->GetType());
		extra("extra", p->GetExtra());
		i("params", p->GetEffectParameterCount());
		for (size_t w = 0; w < p->GetEffectParameterCount(); ++w) { push("param", w); param(p->GetEffectParameter(w)); pop(); }
		if (p->GetType() == FUDaeProfileType::COMMON)
		{
			const FCDEffectStandard* s = (const FCDEffectStandard*) p;
			i("lighting", s->GetLightingType());
			auto col = [&](const char* n, const FCDEffectParameterColor4* c) { push(n); v4("v", *c->GetValue()); kv("ref", c->GetReference()); anim("v", c->GetValue()); pop(); };
			auto flt = [&](const char* n, const FCDEffectParameterFloat* c) { push(n); f("v", *c->GetValue()); kv("ref", c->GetReference()); anim("v", c->GetValue()); pop(); };
			bool amb = s->GetLightingType() != FCDEffectStandard::CONSTANT, spec = s->GetLightingType() == FCDEffectStandard::PHONG || s->GetLightingType() == FCDEffectStandard::BLINN;
			if (s->IsEmissionFactor()) flt("emissionFactor", s->GetEmissionFactorParam()); else col("emission", s->GetEmissionColorParam());
			i("isEmissionFactor", s->IsEmissionFactor());
			i("transparency", s->GetTransparencyMode()); col("translucency", s->GetTranslucencyColorParam()); flt("translucencyFactor", s->GetTranslucencyFactorParam());
			i("reflective", s->IsReflective()); if (s->IsReflective()) { col("reflectivity", s->GetReflectivityColorParam()); flt("reflectivityFactor", s->GetReflectivityFactorParam()); }
			i("refractive", s->IsRefractive()); if (s->IsRefractive()) flt("refraction", s->GetIndexOfRefractionParam());
			if (amb) { col("diffuse", s->GetDiffuseColorParam()); col("ambient", s->GetAmbientColorParam()); }
			if (spec) { col("specular", s->GetSpecularColorParam()); flt("specularFactor", s->GetSpecularFactorParam()); flt("shininess", s->GetShininessParam()); }
			for (uint32 b = 0; b < FUDaeTextureChannel::COUNT; ++b)
			{
				push("bucket", b); i("textures", s->GetTextureCount(b));
				for (size_t w = 0; w < s->GetTextureCount(b); ++w) { push("texture", w); texture(s->GetTexture(b, w)); pop(); }
				pop();
			}
		}
		else
		{
			const FCDEffectProfileFX* x = (const FCDEffectProfileFX*) p;
			kv("platform", x->GetPlatform());
			i("codes", x->GetCodeCount());
			for (size_t w = 0; w < x->GetCodeCount(); ++w) { push("code", w); code(x->GetCode(w)); pop(); }
			i("techniques", x->GetTechniqueCount());
			for (size_t w = 0; w < x->GetTechniqueCount(); ++w)
			{
				const FCDEffectTechnique* t = x->GetTechnique(w);
				push("technique", w); See seen_(this, t, "technique"); kv("name", t->GetName());
				i("codes", t->GetCodeCount()); for (size_t k = 0; k < t->GetCodeCount(); ++k) { push("code", k); code(t->GetCode(k)); pop(); }
				i("params", t->GetEffectParameterCount()); for (size_t k = 0; k < t->GetEffectParameterCount(); ++k) { push("param", k); param(t->GetEffectParameter(k)); pop(); }
				i("passes", t->GetPassCount());
				for (size_t k = 0; k < t->GetPassCount(); ++k)
				{
					const FCDEffectPass* ps = t->GetPass(k);
					push("pass", k); See seenPass_(this, ps, "pass"); kv("name", ps->GetPassName());
					i("shaders", ps->GetShaderCount());
					for (size_t z = 0; z < ps->GetShaderCount(); ++z)
					{
						const FCDEffectPassShader* sh = ps->GetShader(z);
						push("shader", z); See seenShader_(this, sh, "shader"); use(sh->GetCode()); i("fragment", sh->IsFragmentShader()); kv("name", sh->GetName()); kv("target", sh->GetCompilerTarget()); kv("options", sh->GetCompilerOptions());
						kv("code", sh->GetCode() == NULL ? "(none)" : sh->GetCode()->GetSubId().c_str());
						i("bindings", sh->GetBindingCount());
						for (size_t b = 0; b < sh->GetBindingCount(); ++b) { push("binding", b); See seenBinding_(this, sh->GetBinding(b), "shader-binding"); kv("ref", *sh->GetBinding(b)->reference); kv("symbol", *sh->GetBinding(b)->symbol); pop(); }
						pop();
					}
					i("states", ps->GetRenderStateCount());
					for (size_t z = 0; z < ps->GetRenderStateCount(); ++z)
					{
						const FCDEffectPassState* st = ps->GetRenderState(z);
						push("state", z); See seenState_(this, st, "state"); i("type", st->GetType());
						size_t used = st->GetDataSize(); // an FMVector3 ends with four bytes of padding
						if (st->GetType() == FUDaePassState::POINT_DISTANCE_ATTENUATION) used = 12;
						if (st->GetType() == FUDaePassState::LIGHT_SPOT_DIRECTION) used = 13;
						S hex; for (size_t b = 0; b < used; ++b) { char h[4]; snprintf(h, 4, "%02x", const_cast<FCDEffectPassState*>(st)->GetData()[b]); hex += h; }
						kv("data", hex); pop();
					}
					pop();
				}
				pop();
			}
		}
		pop();
	}
}

void Dump::animation(const FCDAnimation* a)
{
	i("children", a->GetChildrenCount());
	for (size_t q = 0; q < a->GetChildrenCount(); ++q) { push("animation", q); See see_(this, const_cast<FCDAnimation*>(a)->GetChild(q), "animation"); entity(const_cast<FCDAnimation*>(a)->GetChild(q)); animation(const_cast<FCDAnimation*>(a)->GetChild(q)); pop(); }
}
void Dump::clip(const FCDAnimationClip* c)
{
	f("start", c->GetStart()); f("end", c->GetEnd());
	// The animations a clip plays: those it instantiates, then those of its own curves.
	std::vector<const FCDAnimation*> seen;
	for (size_t q = 0; q < c->GetAnimationCount(); ++q) { push("animation", q); refTo("id", (c->GetAnimation(q))); kv("name", c->GetAnimationName(q)); pop(); seen.push_back(c->GetAnimation(q)); }
	for (const FCDAnimationCurve* cv : c->GetClipCurves())
	{
		const FCDAnimation* a = cv->GetParent() == NULL ? NULL : cv->GetParent()->GetParent();
		if (a == NULL || std::find(seen.begin(), seen.end(), a) != seen.end()) continue;
		push("animation", seen.size()); refTo("id", (a)); kv("name", ""); pop(); seen.push_back(a);
	}
	i("animations", seen.size());
}

void Dump::physMaterial(const FCDPhysicsMaterial* m) { f("static", m->GetStaticFriction()); f("dynamic", m->GetDynamicFriction()); f("restitution", m->GetRestitution()); }
void Dump::physShape(const FCDPhysicsShape* s)
{
	See see_(this, s, "shape");
	i("hollow", s->IsHollow());
	i("densityMoreAccurate", s->IsDensityMoreAccurate());
	if (s->IsDensityMoreAccurate()) f("density", s->GetDensity()); else f("mass", s->GetMass());
	FCDPhysicsShape* ms = const_cast<FCDPhysicsShape*>(s);
	i("ownsMaterial", ms->OwnsPhysicsMaterial());
	if (ms->GetPhysicsMaterial() != NULL) { push("material"); if (!ms->OwnsPhysicsMaterial()) refTo("id", (ms->GetPhysicsMaterial())); physMaterial(ms->GetPhysicsMaterial()); pop(); } else kv("material", "(none)");
	i("transforms", ms->GetTransforms().size());
	for (size_t q = 0; q < ms->GetTransforms().size(); ++q) { push("transform", q); transform(ms->GetTransforms().at(q)); pop(); }
	if (s->IsAnalyticalGeometry())
	{
		const FCDPhysicsAnalyticalGeometry* g = ms->GetAnalyticalGeometry();
		i("analytical", g->GetGeomType());
		switch (g->GetGeomType())
		{
		case FCDPhysicsAnalyticalGeometry::BOX: v3("half", ((const FCDPASBox*) g)->halfExtents); break;
		case FCDPhysicsAnalyticalGeometry::PLANE: v3("normal", ((const FCDPASPlane*) g)->normal); f("d", ((const FCDPASPlane*) g)->d); break;
		case FCDPhysicsAnalyticalGeometry::SPHERE: f("radius", ((const FCDPASSphere*) g)->radius); break;
		case FCDPhysicsAnalyticalGeometry::TAPERED_CYLINDER: v2("radius2", ((const FCDPASTaperedCylinder*) g)->radius2); // fallthrough
		case FCDPhysicsAnalyticalGeometry::CYLINDER: f("height", ((const FCDPASCylinder*) g)->height); v2("radius", ((const FCDPASCylinder*) g)->radius); break;
		case FCDPhysicsAnalyticalGeometry::TAPERED_CAPSULE: v2("radius2", ((const FCDPASTaperedCapsule*) g)->radius2); // fallthrough
		case FCDPhysicsAnalyticalGeometry::CAPSULE: f("height", ((const FCDPASCapsule*) g)->height); v2("radius", ((const FCDPASCapsule*) g)->radius); break;
		default: break;
		}
	}
	if (s->IsGeometryInstance()) { push("geometry"); instance(ms->GetGeometryInstance()); pop(); }
}
void Dump::physParams(const FCDPhysicsRigidBodyParameters* cp)
{
	FCDPhysicsRigidBodyParameters* p = const_cast<FCDPhysicsRigidBodyParameters*>(cp);
	i("dynamic", p->IsDynamic()); anim("dynamic", p->GetDynamic());
	f("mass", *p->GetMass()); anim("mass", p->GetMass());
	i("inertiaAccurate", p->IsInertiaAccurate());
	if (p->IsInertiaAccurate()) { v3("inertia", *p->GetInertia()); anim("inertia", p->GetInertia()); }
	v3("frameT", *p->GetMassFrameTranslate()); anim("frameT", p->GetMassFrameTranslate());
	v3("frameAxis", (*p->GetMassFrameOrientation()).axis); f("frameAngle", (*p->GetMassFrameOrientation()).angle); anim("frameR", p->GetMassFrameOrientation());
	i("ownsMaterial", p->OwnsPhysicsMaterial());
	if (p->GetPhysicsMaterial() != NULL) { push("material"); if (!p->OwnsPhysicsMaterial()) refTo("id", (p->GetPhysicsMaterial())); physMaterial(p->GetPhysicsMaterial()); pop(); } else kv("material", "(none)");
	i("shapes", p->GetPhysicsShapeCount());
	for (size_t q = 0; q < p->GetPhysicsShapeCount(); ++q) { push("shape", q); physShape(p->GetPhysicsShape(q)); pop(); }
}
void Dump::physModel(const FCDPhysicsModel* cm)
{
	auto bodyName = [&](const FCDPhysicsRigidBody* x) -> S { if (x == NULL) return "(none)"; if (flags & IDS) return x->GetSubId().c_str(); for (size_t q = 0; q < cm->GetRigidBodyCount(); ++q) if (cm->GetRigidBody(q) == x) return "#" + std::to_string(q); return "(foreign)"; };
	FCDPhysicsModel* m = const_cast<FCDPhysicsModel*>(cm);
	i("instances", m->GetInstanceCount());
	for (size_t q = 0; q < m->GetInstanceCount(); ++q) { push("instance", q); instance(m->GetInstance(q)); pop(); }
	i("bodies", m->GetRigidBodyCount());
	for (size_t q = 0; q < m->GetRigidBodyCount(); ++q) { FCDPhysicsRigidBody* b = m->GetRigidBody(q); push("body", q); See see_(this, b, "body"); int keep = flags; flags &= ~IDS; entity(b); flags = keep; if (flags & IDS) kv("sid", b->GetSubId()); physParams(b->GetParameters()); pop(); }
	i("constraints", m->GetRigidConstraintCount());
	for (size_t q = 0; q < m->GetRigidConstraintCount(); ++q)
	{
		FCDPhysicsRigidConstraint* c = m->GetRigidConstraint(q);
		push("constraint", q); See see_(this, c, "constraint"); use(c->GetReferenceRigidBody()); use(c->GetTargetRigidBody()); int keep = flags; flags &= ~IDS; entity(c); flags = keep; kv("sid", c->GetSubId());
		i("enabled", c->IsEnabled()); anim("enabled", c->GetEnabled()); i("interpenetrate", c->IsInterpenetrate()); anim("interpenetrate", c->GetInterpenetrate());
		kv("refBody", bodyName(c->GetReferenceRigidBody())); refTo("refNode", (c->GetReferenceNode()));
		kv("tarBody", bodyName(c->GetTargetRigidBody())); refTo("tarNode", (c->GetTargetNode()));
		v3("linMin", *c->GetLimitsLinearMin()); v3("linMax", *c->GetLimitsLinearMax()); v3("sctMin", *c->GetLimitsSCTMin()); v3("sctMax", *c->GetLimitsSCTMax());
		f("sl.stiff", *c->GetSpringLinearStiffness()); f("sl.damp", *c->GetSpringLinearDamping()); f("sl.target", *c->GetSpringLinearTargetValue());
		f("sa.stiff", *c->GetSpringAngularStiffness()); f("sa.damp", *c->GetSpringAngularDamping()); f("sa.target", *c->GetSpringAngularTargetValue());
		i("transformsRef", c->GetTransformsRef().size()); for (size_t k = 0; k < c->GetTransformsRef().size(); ++k) { push("tref", k); transform(c->GetTransformsRef().at(k)); pop(); }
		i("transformsTar", c->GetTransformsTar().size()); for (size_t k = 0; k < c->GetTransformsTar().size(); ++k) { push("ttar", k); transform(c->GetTransformsTar().at(k)); pop(); }
		pop();
	}
}
void Dump::physScene(const FCDPhysicsScene* cs_)
{
	FCDPhysicsScene* s = const_cast<FCDPhysicsScene*>(cs_);
	v3("gravity", s->GetGravity()); f("timestep", s->GetTimestep());
	i("models", s->GetPhysicsModelInstancesCount());
	for (size_t q = 0; q < s->GetPhysicsModelInstancesCount(); ++q)
	{
		FCDPhysicsModelInstance* m = s->GetPhysicsModelInstance(q);
		push("model", q); See see_(this, m, "model-instance"); instance(m);
		i("instances", m->GetInstanceCount());
		for (size_t k = 0; k < m->GetInstanceCount(); ++k)
		{
			FCDEntityInstance* in = m->GetInstance(k);
			push("instance", k); See seen_(this, in, "physics-instance"); i("kind", in->GetEntityType()); kv("class", in->GetObjectType().GetTypeName());
			if (in->GetObjectType() == FCDPhysicsRigidBodyInstance::GetClassType())
			{
				FCDPhysicsRigidBodyInstance* b = (FCDPhysicsRigidBodyInstance*) in;
				use(b->GetRigidBody()); kv("body", b->GetRigidBody() == NULL ? "(none)" : b->GetRigidBody()->GetSubId().c_str()); refTo("node", (b->GetTargetNode()));
				v3("velocity", *b->GetVelocity()); anim("velocity", b->GetVelocity()); v3("angular", *b->GetAngularVelocity()); anim("angular", b->GetAngularVelocity());
				kv("sid", b->GetWantedSubId()); kv("name", b->GetName()); extra("extra", b->GetExtra());
				push("parameters"); physParams(b->GetParameters()); pop();
			}
			else if (in->GetObjectType() == FCDPhysicsRigidConstraintInstance::GetClassType())
			{
				FCDPhysicsRigidConstraintInstance* b = (FCDPhysicsRigidConstraintInstance*) in;
				use(b->GetRigidConstraint()); kv("constraint", b->GetRigidConstraint() == NULL ? "(none)" : b->GetRigidConstraint()->GetSubId().c_str());
				kv("sid", b->GetWantedSubId()); kv("name", b->GetName()); extra("extra", b->GetExtra());
			}
			else instance(in);
			pop();
		}
		pop();
	}
	i("forces", s->GetForceFieldInstancesCount());
	for (size_t q = 0; q < s->GetForceFieldInstancesCount(); ++q) { push("force", q); instance(s->GetForceFieldInstance(q)); pop(); }
}

void Dump::any(const FCDEntity* e)
{
	if (e->GetType() == FCDEntity::SCENE_NODE) { node((const FCDSceneNode*) e, NULL); return; }
	See see_(this, e, "entity");
	entity(e);
	switch (e->GetType())
	{
	case FCDEntity::ANIMATION: animation((const FCDAnimation*) e); break;
	case FCDEntity::ANIMATION_CLIP: clip((const FCDAnimationClip*) e); break;
	case FCDEntity::CAMERA: camera((const FCDCamera*) e); break;
	case FCDEntity::LIGHT: light((const FCDLight*) e); break;
	case FCDEntity::IMAGE: image((const FCDImage*) e); break;
	case FCDEntity::MATERIAL: material((const FCDMaterial*) e); break;
	case FCDEntity::EFFECT: effect((const FCDEffect*) e); break;
	case FCDEntity::GEOMETRY: geometry((const FCDGeometry*) e); break;
	case FCDEntity::CONTROLLER: controller((const FCDController*) e); break;
	case FCDEntity::PHYSICS_MATERIAL: physMaterial((const FCDPhysicsMaterial*) e); break;
	case FCDEntity::PHYSICS_MODEL: physModel((const FCDPhysicsModel*) e); break;
	case FCDEntity::PHYSICS_SCENE_NODE: physScene((const FCDPhysicsScene*) e); break;
	case FCDEntity::FORCE_FIELD: extra("information", ((const FCDForceField*) e)->GetInformation()); break;
	default: break;
	}
}

template <class T> static void library(Dump& o, const char* name, const FCDLibrary<T>* lib)
{
	o.push(name);
	o.i("count", lib->GetEntityCount());
	o.extra("extra", lib->GetExtra());
	o.asset(const_cast<FCDLibrary<T>*>(lib)->GetAsset(false), true);
	for (size_t q = 0; q < lib->GetEntityCount(); ++q) { o.push("entity", q); o.any(lib->GetEntity(q)); o.pop(); }
	o.pop();
}

void Dump::document(const FCDocument* d, bool dates)
{
	asset(d->GetAsset(), dates);
	ownerless = true; extra("extra", d->GetExtra()); ownerless = false;
	i("hasStart", d->HasStartTime()); if (d->HasStartTime()) f("start", d->GetStartTime());
	i("hasEnd", d->HasEndTime()); if (d->HasEndTime()) f("end", d->GetEndTime());
	i("layers", d->GetLayerCount());
	for (size_t q = 0; q < d->GetLayerCount(); ++q)
	{
		const FCDLayer* l = const_cast<FCDocument*>(d)->GetLayer(q);
		push("layer", q); kv("name", l->name); S s; for (size_t k = 0; k < l->objects.size(); ++k) s += cs(l->objects[k]) + ";"; kv("objects", s); pop();
	}
	refTo("visualScene", (const_cast<FCDocument*>(d)->GetVisualSceneInstance()));
	i("physicsScenes", d->GetPhysicsSceneInstanceCount());
	for (size_t q = 0; q < d->GetPhysicsSceneInstanceCount(); ++q) { push("physicsScene", q); refTo("id", (const_cast<FCDocument*>(d)->GetPhysicsSceneInstance(q))); pop(); }
	library(*this, "animations", d->GetAnimationLibrary());
	library(*this, "clips", d->GetAnimationClipLibrary());
	library(*this, "cameras", d->GetCameraLibrary());
	library(*this, "controllers", d->GetControllerLibrary());
	library(*this, "geometries", d->GetGeometryLibrary());
	library(*this, "forcefields", d->GetForceFieldLibrary());
	library(*this, "images", d->GetImageLibrary());
	library(*this, "lights", d->GetLightLibrary());
	library(*this, "materials", d->GetMaterialLibrary());
	library(*this, "effects", d->GetEffectLibrary());
	library(*this, "visualscenes", d->GetVisualSceneLibrary());
	library(*this, "physmodels", d->GetPhysicsModelLibrary());
	library(*this, "physmaterials", d->GetPhysicsMaterialLibrary());
	library(*this, "physscenes", d->GetPhysicsSceneLibrary());
	library(*this, "emitters", d->GetEmitterLibrary());
	for (auto& x : driverLines)
	{
		// The value that drives is inside the parameter object whose path was recorded.
		const char* at = (const char*) x.second.first->GetValue(0);
		auto it = animatedPaths.upper_bound(at);
		S path = "(elsewhere)"; if (it != animatedPaths.begin() && at - (--it)->first < 256) path = it->second;
		S leaf = path.substr(path.rfind('/') + 1);
		// Values written to an extra tree are a case of their own.
		static const std::set<S> extras = { "directional-att0", "directional-att1", "directional-att2", "directional-exponent", "directional-angle", "intensity", "outer", "dropoff", "visibility" };
		if (extras.count(leaf)) lines[x.first].first += "-from-extra-" + leaf;
		lines[x.first].second = path + "#" + std::to_string(x.second.second);
	}
}
Dump dumpDoc(const FCDocument* d, bool dates) { Dump o; o.document(d, dates); return o; }

// ---- Comparison ----------------------------------------------------------------------------------
S pathKey(const S& p)
{
	S o; bool in = false, child = false;
	for (size_t q = 0; q < p.size(); ++q)
	{
		if (p[q] == '[') { in = true; continue; }
		if (p[q] == ']') { in = false; continue; }
		if (!in) o += p[q];
	}
	(void) child;
	// Recursive levels fold together.
	for (const char* rep : { "/child/child", "/node/node", "/animation/animation" })
	{
		S half = S(rep).substr(0, S(rep).size() / 2);
		for (size_t at; (at = o.find(rep)) != S::npos;) o.replace(at, S(rep).size(), half);
	}
	return o;
}
// Tangents of merged curves are recomputed from their slopes: they may differ by rounding.
static bool alike(const S& path, const S& a, const S& b)
{
	if (a == b) return true;
	// One unit of the last digit printed: the text of the file has one digit more.
	if (a.find('.') != S::npos && b.find('.') != S::npos)
	{
		char* ea; char* eb; double x = strtod(a.c_str(), &ea), y = strtod(b.c_str(), &eb);
		if (!*ea && !*eb && fabs(x - y) <= 1.01e-4 * fabs(x)) return true;
	}
	if (path.size() < 6 || (path.compare(path.size() - 5, 5, "inTan") != 0 && path.compare(path.size() - 6, 6, "outTan") != 0)) return false;
	double ax, ay, bx, by;
	if (sscanf(a.c_str(), "%lf %lf", &ax, &ay) != 2 || sscanf(b.c_str(), "%lf %lf", &bx, &by) != 2) return false;
	return fabs(ax - bx) <= 2e-4 + 1e-5 * fabs(ax) && fabs(ay - by) <= 2e-4 + 1e-5 * fabs(ay);
}
std::vector<DiffLine> diffDumps(const Dump& a, const Dump& b)
{
	std::vector<DiffLine> out;
	std::map<S, S> ma, mb;
	for (auto& l : a.lines) ma[l.first] = l.second;
	for (auto& l : b.lines) mb[l.first] = l.second;
	for (auto& l : a.lines) { auto f = mb.find(l.first); if (f == mb.end()) out.push_back({ l.first, pathKey(l.first), l.second, "(absent)" }); else if (!alike(l.first, l.second, f->second)) out.push_back({ l.first, pathKey(l.first), l.second, f->second }); }
	for (auto& l : b.lines) if (ma.find(l.first) == ma.end()) out.push_back({ l.first, pathKey(l.first), "(absent)", l.second });
	return out;
}
size_t reportDiff(const S& what, const Dump& a, const Dump& b)
{
	std::vector<DiffLine> d = diffDumps(a, b);
	std::set<S> seen; size_t n = 0;
	// Lines present on one side only follow from a count that differs; alone they are differences too.
	bool both = false; for (auto& l : d) both |= l.a != "(absent)" && l.b != "(absent)";
	for (auto& l : d)
	{
		// Findings on record for the animation property; the other properties do not depend on them.
		if (what != "animation" && (l.key.find("/driver-from-extra-") != S::npos || l.key.find("/animated-without-id/") != S::npos || l.key.find("/animated-in-extra-instance/") != S::npos)) continue;
		if (both && (l.a == "(absent)" || l.b == "(absent)")) continue;
		if (!seen.insert(l.key).second) continue;
		if (++n > 8) break;
		mon::viol(what + ":" + l.key, "%s: '%s' became '%s'", l.path.c_str(), mon::esc(l.a.substr(0, 300)).c_str(), mon::esc(l.b.substr(0, 300)).c_str());
	}
	return d.size();
}

// ---- Files and loading ---------------------------------------------------------------------------
S readFile(const S& path) { S s; FILE* f = fopen(path.c_str(), "rb"); if (!f) return s; char b[65536]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0) s.append(b, n); fclose(f); return s; }
void writeFile(const S& path, const S& text) { FILE* f = fopen(path.c_str(), "wb"); if (!f) return; fwrite(text.data(), 1, text.size(), f); fclose(f); }
S tmpFile(const char* name) { return mon::tmpDir + "/" + name; }

ErrorTap::ErrorTap()
{
	FUError::AddErrorCallback(FUError::ERROR_LEVEL, this, [this](FUError::Level l, uint32 c, uint32 n) { onError(l, c, n); });
	FUError::AddErrorCallback(FUError::WARNING_LEVEL, this, [this](FUError::Level l, uint32 c, uint32 n) { onWarning(l, c, n); });
}
ErrorTap::~ErrorTap() { FUError::RemoveErrorCallback(FUError::ERROR_LEVEL, this); FUError::RemoveErrorCallback(FUError::WARNING_LEVEL, this); }
void ErrorTap::onError(FUError::Level, uint32 code, uint32 line) { const char* s = FUError::GetErrorString((FUError::Code) code); errors.push_back(S(s == NULL ? "?" : s) + "@" + std::to_string(line)); }
void ErrorTap::onWarning(FUError::Level, uint32 code, uint32 line) { const char* s = FUError::GetErrorString((FUError::Code) code); warnings.push_back(S(s == NULL ? "?" : s) + "@" + std::to_string(line)); }
S ErrorTap::all() const { S s; for (auto& e : errors) s += "E:" + e + "; "; for (auto& e : warnings) s += "W:" + e + "; "; return s; }
bool saveDoc(FCDocument* d, const S& p) { return FCollada::SaveDocument(d, p.c_str()); }
bool loadDoc(FCDocument* d, const S& p) { return FCollada::LoadDocumentFromFile(d, p.c_str()); }
bool loadDocMem(FCDocument* d, const S& p, const S& t) { return FCollada::LoadDocumentFromMemory(p.c_str(), d, (void*) t.data(), t.size()); }
