// C33: effect parameters found, overridden and synchronised level by level; standard material values;
// surfaces, shared textures, material bindings and shader bindings.
#include "docmon.h"
#include "FCDocument/FCDEffectTools.h"
#include "FCDocument/FCDEffectParameterFactory.h"

namespace
{
using namespace FCDEffectTools;
typedef std::vector<FCDEffectParameter*> Params;
const uint32 kTypes[] = { FCDEffectParameter::SAMPLER, FCDEffectParameter::INTEGER, FCDEffectParameter::BOOLEAN, FCDEffectParameter::FLOAT, FCDEffectParameter::FLOAT2,
	FCDEffectParameter::FLOAT3, FCDEffectParameter::VECTOR, FCDEffectParameter::MATRIX, FCDEffectParameter::STRING, FCDEffectParameter::SURFACE };

struct Tree
{
	Rng& r; DocRef d; FCDGeometryInstance* gi = NULL; FCDMaterialInstance* mi = NULL; FCDMaterial* m = NULL; FCDEffect* e = NULL;
	Params onInstance, onMaterial, onEffect;
	struct Prof { FCDEffectProfile* p; FCDEffectStandard* std = NULL; FCDEffectProfileFX* fx = NULL; Params local; std::vector<std::pair<FCDEffectTechnique*, Params>> techniques; std::vector<std::pair<uint32, FCDTexture*>> textures; };
	std::vector<Prof> profiles;
	std::vector<S> sems = { "DIFFUSE", "Diffuse", "SHININESS", "DIFFUSE2", "UV" }, refs = { "p", "q", "pq", "P", "r" };
	bool valueTypes;
	explicit Tree(Rng& r_, bool v = false) : r(r_), valueTypes(v) {}
	float serial = 1;
	void value(FCDEffectParameter* p)
	{
		switch (p->GetType())
		{
		case FCDEffectParameter::FLOAT: ((FCDEffectParameterFloat*) p)->SetValue(serial++); break;
		case FCDEffectParameter::FLOAT3: ((FCDEffectParameterFloat3*) p)->SetValue(FMVector3(serial, serial + .25f, serial + .5f)); serial++; break;
		case FCDEffectParameter::VECTOR: ((FCDEffectParameterVector*) p)->SetValue(FMVector4(serial, serial + .25f, serial + .5f, serial + .75f)); serial++; break;
		default: break;
		}
	}
	template <class O> void fill(O* o, Params& out, int most)
	{
		int n = r.range(0, most);
		for (int k = 0; k < n; ++k)
		{
			uint32 t = valueTypes && r.chance(85) ? r.pick<uint32>({ FCDEffectParameter::FLOAT, FCDEffectParameter::FLOAT3, FCDEffectParameter::VECTOR }) : kTypes[r.below(10)];
			FCDEffectParameter* p = o->AddEffectParameter(t);
			if (r.chance(80)) p->SetReference(r.pick(refs).c_str());
			if (r.chance(70)) p->SetSemantic(r.pick(sems).c_str());
			value(p); out.push_back(p);
		}
	}
	void build(bool common, int most)
	{
		e = r.chance(93) || common ? d->GetEffectLibrary()->AddEntity() : NULL;
		if (e != NULL)
		{
			fill(e, onEffect, most);
			int n = r.range(0, 3); int at = common ? r.range(0, n) : -1;
			for (int k = 0; k <= n; ++k)
			{
				if (k != at && k == n) break;
				Prof p; FUDaeProfileType::Type t = k == at ? FUDaeProfileType::COMMON : r.pick<FUDaeProfileType::Type>({ FUDaeProfileType::COMMON, FUDaeProfileType::CG, FUDaeProfileType::HLSL, FUDaeProfileType::GLSL, FUDaeProfileType::GLES });
				if (k < at && t == FUDaeProfileType::COMMON) t = FUDaeProfileType::CG;
				p.p = e->AddProfile(t);
				if (p.p == NULL) continue;
				fill(p.p, p.local, most);
				if (p.p->HasType(FCDEffectStandard::GetClassType()))
				{
					p.std = (FCDEffectStandard*) p.p;
					int c = r.range(0, 4);
					for (int q = 0; q < c; ++q)
					{
						uint32 ch = (uint32) r.below(FUDaeTextureChannel::COUNT); FCDTexture* x = p.std->AddTexture(ch);
						if (r.chance(60)) x->GetSet()->SetSemantic(r.pick(sems).c_str());
						if (r.chance(60)) x->GetSet()->SetReference(r.pick(refs).c_str());
						p.textures.push_back({ ch, x });
					}
					std::stable_sort(p.textures.begin(), p.textures.end(), [](const std::pair<uint32, FCDTexture*>& a, const std::pair<uint32, FCDTexture*>& b) { return a.first < b.first; });
				}
				else
				{
					p.fx = (FCDEffectProfileFX*) p.p; int c = r.range(0, 3);
					for (int q = 0; q < c; ++q) { Params v; FCDEffectTechnique* x = p.fx->AddTechnique(); fill(x, v, most); p.techniques.push_back({ x, v }); }
				}
				profiles.push_back(p);
			}
		}
		m = r.chance(95) || common ? d->GetMaterialLibrary()->AddEntity() : NULL;
		if (m != NULL) { if (e != NULL) m->SetEffect(e); fill(m, onMaterial, most); } 
		FCDSceneNode* node = d->AddVisualScene()->AddChildNode();
		if (r.chance(80)) gi = (FCDGeometryInstance*) node->AddInstance(d->GetGeometryLibrary()->AddEntity());
		else { FCDController* c = d->GetControllerLibrary()->AddEntity(); c->CreateSkinController(); gi = (FCDGeometryInstance*) node->AddInstance(c); }
		fill(gi, onInstance, most);
		mi = m == NULL ? gi->AddMaterialInstance() : gi->AddMaterialInstance(m, "sym");
	}
	// The naive walk: from one level down.
	enum Level { INSTANCE, MATERIAL, EFFECT };
	template <class F> static void match(const Params& v, F f, Params& out) { for (auto* p : v) if (f(p)) out.push_back(p); }
	template <class F> void ofProfile(const Prof& p, F f, bool localOnly, Params& out)
	{
		match(p.local, f, out);
		if (!localOnly) for (auto& t : p.techniques) match(t.second, f, out);
		for (auto& t : p.textures) if (f(t.second->GetSet())) out.push_back(t.second->GetSet());
	}
	template <class F> Params walk(Level l, F f, bool localOnly)
	{
		Params out;
		if (l == INSTANCE) { match(onInstance, f, out); if (localOnly) return out; }
		if (l <= MATERIAL && m == NULL) return out;
		if (l <= MATERIAL) { match(onMaterial, f, out); if (localOnly) return out; }
		if (e == NULL) return out;
		match(onEffect, f, out);
		if (!localOnly) for (auto& p : profiles) ofProfile(p, f, false, out);
		return out;
	}
};
S show(const Params& v) { S s; for (auto* p : v) { char b[120]; snprintf(b, sizeof b, "%p(type %d, \"%s\", \"%s\") ", (void*) p, (int) p->GetType(), p->GetReference().c_str(), p->GetSemantic().c_str()); s += b; } return s; }

void lookup(Rng& r)
{
	Tree t(r); t.build(r.chance(50), r.range(0, 4)); size_t found = 0, overridden = 0;
	std::vector<S> keys = t.sems; keys.insert(keys.end(), t.refs.begin(), t.refs.end()); keys.push_back(""); keys.push_back("absent"); keys.push_back("diffuse"); keys.push_back("DIFF");
	for (const S& k : keys) for (int byRef = 0; byRef < 2; ++byRef) for (int local = 0; local < 2; ++local)
	{
		auto f = [&](FCDEffectParameter* p) { return !k.empty() && k == (byRef ? p->GetReference() : p->GetSemantic()).c_str(); };
		const char* fn = byRef ? "reference" : "semantic";
		auto cmp = [&](const char* level, FCDEffectParameter* one, const FCDEffectParameterList* all, const Params& want)
		{
			found += !want.empty(); overridden += want.size() > 1;
			CHECK(one == (want.empty() ? NULL : want[0]), "find/one", "by %s \"%s\" from the %s (local only: %d): %p, expected the first of [%s]", fn, k.c_str(), level, local, (void*) one, show(want).c_str());
			if (all == NULL) return;
			Params got; for (size_t i = 1; i < all->size(); ++i) got.push_back(const_cast<FCDEffectParameter*>((*all)[i]));
			CHECK(all->size() > 0 && (*all)[0] == NULL, "find/list-cleared", "the list that was passed is not appended to");
			CHECK(got == want, "find/list", "by %s \"%s\" from the %s (local only: %d): [%s], expected [%s]", fn, k.c_str(), level, local, show(got).c_str(), show(want).c_str());
		};
		FCDEffectParameterList l; l.push_back((FCDEffectParameter*) NULL);
#define BOTH(level, obj, want) { FCDEffectParameterList a(l); if (byRef) FindEffectParametersByReference(obj, k.c_str(), a, local != 0); else FindEffectParametersBySemantic(obj, k.c_str(), a, local != 0); \
	cmp(level, byRef ? FindEffectParameterByReference(obj, k.c_str(), local != 0) : FindEffectParameterBySemantic(obj, k.c_str(), local != 0), &a, want); }
		BOTH("material instance", t.mi, t.walk(Tree::INSTANCE, f, local));
		if (!local) { Params w = t.walk(Tree::INSTANCE, f, true); cmp("geometry instance", byRef ? FindEffectParameterByReference(t.gi, k.c_str()) : FindEffectParameterBySemantic(t.gi, k.c_str()), NULL, w); }
		BOTH("material", t.m, t.walk(Tree::MATERIAL, f, local));
		BOTH("effect", t.e, t.walk(Tree::EFFECT, f, local));
		for (auto& p : t.profiles)
		{
			Params w; t.ofProfile(p, f, local, w); BOTH("profile", p.p, w);
			for (auto& q : p.techniques) { Params w2; Tree::match(q.second, f, w2); BOTH("technique", q.first, w2); }
		}
#undef BOTH
	}
	mon::sig(found); mon::sig(overridden); mon::hit("parameters found", found); mon::hit("lookups with overridden candidates", overridden);
	if (overridden > 3) mon::nontrivial();
}

struct Std { const char* sem; bool isFloat; int n; };
const Std kStd[] = { { "AMBIENT", false, 0 }, { "DIFFUSE", false, 1 }, { "EMISSION", false, 2 }, { "REFLECTIVITY", false, 3 }, { "SPECULAR", false, 4 }, { "TRANSLUCENCY", false, 5 },
	{ "EMISSIONFACTOR", true, 0 }, { "INDEXOFREFRACTION", true, 1 }, { "REFLECTIVITYFACTOR", true, 2 }, { "SHININESS", true, 3 }, { "SPECULARFACTOR", true, 4 }, { "TRANSLUCENCYFACTOR", true, 5 } };
FCDEffectParameterColor4* colorParam(FCDEffectStandard* s, int n) { return n == 0 ? s->GetAmbientColorParam() : n == 1 ? s->GetDiffuseColorParam() : n == 2 ? s->GetEmissionColorParam() : n == 3 ? s->GetReflectivityColorParam() : n == 4 ? s->GetSpecularColorParam() : s->GetTranslucencyColorParam(); }
FCDEffectParameterFloat* floatParam(FCDEffectStandard* s, int n) { return n == 0 ? s->GetEmissionFactorParam() : n == 1 ? s->GetIndexOfRefractionParam() : n == 2 ? s->GetReflectivityFactorParam() : n == 3 ? s->GetShininessParam() : n == 4 ? s->GetSpecularFactorParam() : s->GetTranslucencyFactorParam(); }

void* valueOf(FCDEffectParameter* p)
{
	if (p->GetType() == FCDEffectParameter::FLOAT) return &(float&) ((FCDEffectParameterFloat*) p)->GetValue();
	if (p->GetType() == FCDEffectParameter::FLOAT3) return &(FMVector3&) ((FCDEffectParameterFloat3*) p)->GetValue();
	if (p->HasType(FCDEffectParameterVector::GetClassType())) return &(FMVector4&) ((FCDEffectParameterVector*) p)->GetValue();
	return &(FMVector4&) ((FCDEffectParameterColor4*) p)->GetValue();
}

void values(Rng& r)
{
	Tree t(r, true);
	t.sems = { "DIFFUSE", "SPECULAR", "SHININESS", "TRANSLUCENCYFACTOR", "UV" };
	t.build(true, r.range(0, 4));
	FCDEffectStandard* std = (FCDEffectStandard*) t.e->FindProfile(FUDaeProfileType::COMMON); Tree::Prof* prof = NULL;
	if (r.chance(10))
	{
		FCDMaterial* none = t.d->GetMaterialLibrary()->AddEntity(); FCDMaterial* other = t.d->GetMaterialLibrary()->AddEntity(); FCDEffect* noCommon = t.d->GetEffectLibrary()->AddEntity(); noCommon->AddProfile(FUDaeProfileType::CG); other->SetEffect(noCommon);
		bool f3 = false; for (FCDMaterial* x : { none, other }) CHECK(GetDefaultFloat(x, "SHININESS") == NULL && GetDefaultColor(x, "DIFFUSE", &f3) == NULL && GetAnimatedFloat(t.gi, x, "SHININESS") == NULL && GetAnimatedColor(NULL, x, "DIFFUSE", &f3) == NULL, "values/no-effect", "a value of a material without a common profile");
	}
	for (auto& p : t.profiles) if (prof == NULL && p.std != NULL) prof = &p;
	CHECK(prof != NULL && prof->std == std, "values/profile", "FindProfile does not give the first common profile");
	if (prof == NULL || std != prof->std) return;
	size_t through = 0, overridden = 0;
	for (auto& q : kStd)
	{
		FCDEffectParameter* p = q.isFloat ? (FCDEffectParameter*) floatParam(std, q.n) : colorParam(std, q.n);
		bool f = !q.isFloat; FCDEffectParameter* got = std->GetParam(q.sem, &f);
		CHECK(got == p && f == q.isFloat, "values/get-param", "GetParam(\"%s\") gives another parameter or the wrong kind (float: %d)", q.sem, f);
		if (r.chance(65)) p->SetReference(r.pick(t.refs).c_str());
		if (r.chance(60)) p->SetReferencer();
	}
	bool f = false; CHECK(std->GetParam("NOTHING", &f) == NULL, "values/get-param", "GetParam of an unknown semantic gives a parameter");
	auto first = [](const Params& v) { return v.empty() ? (FCDEffectParameter*) NULL : v[0]; };
	for (auto& q : kStd)
	{
		FCDEffectParameter* p = q.isFloat ? (FCDEffectParameter*) floatParam(std, q.n) : colorParam(std, q.n);
		S ref = p->GetReference().c_str(), sem = q.sem;
		auto byRef = [&](FCDEffectParameter* x) { return !ref.empty() && ref == x->GetReference().c_str(); };
		auto bySem = [&](FCDEffectParameter* x) { return sem == x->GetSemantic().c_str(); };
		Params inProfile; t.ofProfile(*prof, byRef, false, inProfile);
		FCDEffectParameter *onMat = first(t.walk(Tree::MATERIAL, byRef, true)), *onEff = first(t.walk(Tree::EFFECT, byRef, true)), *onProf = first(inProfile), *onInst = first(t.walk(Tree::INSTANCE, bySem, true));
		for (int inst = 0; inst < 3; ++inst) // 0: GetAnimated with the instance, 1: without, 2: GetDefault
		{
			FCDEffectParameter* src = p;
			if (!ref.empty()) src = inst == 0 && onInst != NULL ? onInst : onMat != NULL ? onMat : onEff != NULL ? onEff : onProf != NULL ? onProf : p;
			through += src != p; overridden += (onMat != NULL) + (onEff != NULL) + (onProf != NULL) > 1;
			bool f3 = false, usable = q.isFloat ? src->GetType() == FCDEffectParameter::FLOAT : src->GetType() == FCDEffectParameter::FLOAT3 || src->GetType() == FCDEffectParameter::VECTOR;
			void* want = q.isFloat && usable ? valueOf(src) : NULL; void* got; const char* fn;
			if (inst < 2) { fn = "GetAnimatedFloat"; FCDParameterAnimatableFloat* a = GetAnimatedFloat(inst == 0 ? t.gi : NULL, t.m, sem.c_str()); got = a == NULL ? NULL : &(float&) *a; }
			else { fn = "GetDefaultFloat"; got = GetDefaultFloat(t.m, sem.c_str()); }
			CHECK(got == want, "values/float", "%s(\"%s\", reference \"%s\"): another value than the one that applies (%p, %p)", fn, q.sem, ref.c_str(), got, want);
			want = !q.isFloat && usable ? valueOf(src) : NULL;
			if (inst < 2) { fn = "GetAnimatedColor"; FCDParameterAnimatableColor4* a = GetAnimatedColor(inst == 0 ? t.gi : NULL, t.m, sem.c_str(), &f3); got = a == NULL ? NULL : &(FMVector4&) *a; }
			else { fn = "GetDefaultColor"; got = GetDefaultColor(t.m, sem.c_str(), &f3); }
			CHECK(got == want, "values/color", "%s(\"%s\", reference \"%s\"): another value than the one that applies (%p, %p)", fn, q.sem, ref.c_str(), got, want);
			if (got != NULL && src != p) CHECK(f3 == (src->GetType() == FCDEffectParameter::FLOAT3), "values/float3", "%s(\"%s\"): the kind of the value is not reported (float3: %d)", fn, q.sem, f3);
		}
	}
	CHECK(GetAnimatedFloat(t.gi, NULL, "SHININESS") == NULL && GetAnimatedColor(t.gi, NULL, "DIFFUSE", &f) == NULL, "values/no-material", "a value without a material");
	// Synchronise: the animators of the instance take the value of the first parameter of a usable type, material, effect, profile.
	struct Expect { FCDEffectParameter* p; S sem; FMVector4 v; };
	std::vector<std::pair<FCDEffectParameter*, FMVector4>> model;
	auto read = [](FCDEffectParameter* p) { if (p->GetType() == FCDEffectParameter::FLOAT) return FMVector4(*(float*) valueOf(p), 0, 0, 0); if (p->GetType() == FCDEffectParameter::FLOAT3) { FMVector3& v = *(FMVector3*) valueOf(p); return FMVector4(v.x, v.y, v.z, 1.0f); } if (p->GetType() == FCDEffectParameter::VECTOR) return *(FMVector4*) valueOf(p); return FMVector4(0, 0, 0, 0); };
	for (auto* p : t.onInstance) model.push_back({ p, read(p) });
	size_t changed = 0;
	for (auto& q : kStd)
	{
		FCDEffectParameter* p = q.isFloat ? (FCDEffectParameter*) floatParam(std, q.n) : colorParam(std, q.n);
		S ref = p->GetReference().c_str(), sem = q.sem;
		if (!p->IsReferencer() || ref.empty()) continue;
		auto byRef = [&](FCDEffectParameter* x) { return ref == x->GetReference().c_str(); };
		auto bySem = [&](FCDEffectParameter* x) { return sem == x->GetSemantic().c_str(); };
		FCDEffectParameter* target = first(t.walk(Tree::INSTANCE, bySem, true)); if (target == NULL) continue;
		auto fits = [&](FCDEffectParameter* x) { uint32 ty = x->GetType(); return q.isFloat ? ty == FCDEffectParameter::FLOAT : ty == FCDEffectParameter::FLOAT3 || ty == FCDEffectParameter::VECTOR; };
		if (!fits(target)) continue;
		Params inProfile; t.ofProfile(*prof, byRef, false, inProfile);
		for (FCDEffectParameter* x : { first(t.walk(Tree::MATERIAL, byRef, true)), first(t.walk(Tree::EFFECT, byRef, true)), first(inProfile) })
			if (x != NULL && fits(x)) { for (auto& y : model) if (y.first == target) { y.second = read(x); if (target->GetType() == FCDEffectParameter::FLOAT3) y.second.w = 1.0f; ++changed; } break; }
	}
	if (t.mi->GetMaterial() != NULL) SynchronizeAnimatedParams(t.gi, t.mi);
	for (auto& x : model) { FMVector4 v = read(x.first); CHECK(v.x == x.second.x && v.y == x.second.y && v.z == x.second.z && v.w == x.second.w, "values/synchronize", "the instance's parameter %s is %g %g %g %g after the synchronisation, expected %g %g %g %g", x.first->GetSemantic().c_str(), v.x, v.y, v.z, v.w, x.second.x, x.second.y, x.second.z, x.second.w); }
	mon::sig(through); mon::sig(changed); mon::hit("values taken from a parameter", through); mon::hit("values with several candidates", overridden); mon::hit("animators synchronised", changed);
	if (through > 6) mon::nontrivial();
}

// The value of a parameter, as text.
S text(FCDEffectParameter* p)
{
	char b[400] = "";
	auto f = [&](const float* v, int n) { for (int k = 0; k < n; ++k) snprintf(b + strlen(b), sizeof b - strlen(b), "%.9g ", v[k]); };
	switch (p->GetType())
	{
	case FCDEffectParameter::INTEGER: snprintf(b, sizeof b, "%d", (int) *&((FCDEffectParameterInt*) p)->GetValue()); break;
	case FCDEffectParameter::BOOLEAN: snprintf(b, sizeof b, "%d", (int) (bool) ((FCDEffectParameterBool*) p)->GetValue()); break;
	case FCDEffectParameter::STRING: return ((FCDEffectParameterString*) p)->GetValue().c_str();
	case FCDEffectParameter::FLOAT: f((float*) valueOf(p), 1); snprintf(b + strlen(b), 20, "%d", ((FCDEffectParameterFloat*) p)->GetFloatType()); break;
	case FCDEffectParameter::FLOAT2: f((float*) &(FMVector2&) ((FCDEffectParameterFloat2*) p)->GetValue(), 2); break;
	case FCDEffectParameter::FLOAT3: f((float*) valueOf(p), 3); break;
	case FCDEffectParameter::VECTOR: f((float*) valueOf(p), 4); break;
	case FCDEffectParameter::MATRIX: f((float*) &(FMMatrix44&) ((FCDEffectParameterMatrix*) p)->GetValue(), 16); break;
	case FCDEffectParameter::SAMPLER: { FCDEffectParameterSampler* s = (FCDEffectParameterSampler*) p; snprintf(b, sizeof b, "%d %p %d %d %d %d %d %d", s->GetSamplerType(), (void*) s->GetSurface(), s->GetWrapS(), s->GetWrapT(), s->GetWrapP(), s->GetMinFilter(), s->GetMagFilter(), s->GetMipFilter()); break; }
	case FCDEffectParameter::SURFACE:
	{
		FCDEffectParameterSurface* s = (FCDEffectParameterSurface*) p; S x;
		for (size_t k = 0; k < s->GetImageCount(); ++k) x += s->GetImage(k)->GetDaeId().c_str() + S(" ");
		snprintf(b, sizeof b, "%g %g %g %g %d %d %s %s", s->GetSize().x, s->GetSize().y, s->GetSize().z, s->GetViewportRatio(), s->GetMipLevelCount(), s->IsGenerateMipMaps(), s->GetFormat().c_str(), s->GetSurfaceType().c_str());
		x += b;
		if (s->GetInitMethod() != NULL)
		{
			x += " init " + std::to_string(s->GetInitMethod()->GetInitType());
			if (s->GetInitMethod()->GetInitType() == FCDEffectParameterSurfaceInitFactory::CUBE) { auto* c = (FCDEffectParameterSurfaceInitCube*) s->GetInitMethod(); x += " " + std::to_string(c->cubeType); for (uint16 o : c->order) x += " " + std::to_string(o); }
			if (s->GetInitMethod()->GetInitType() == FCDEffectParameterSurfaceInitFactory::VOLUME) x += " " + std::to_string(((FCDEffectParameterSurfaceInitVolume*) s->GetInitMethod())->volumeType);
			if (s->GetInitMethod()->GetInitType() == FCDEffectParameterSurfaceInitFactory::FROM) { auto* c = (FCDEffectParameterSurfaceInitFrom*) s->GetInitMethod(); for (auto& v : c->face) x += S(" f") + v.c_str(); for (auto& v : c->mip) x += S(" m") + v.c_str(); for (auto& v : c->slice) x += S(" s") + v.c_str(); }
		}
		if (s->GetFormatHint() != NULL) { auto* h = s->GetFormatHint(); snprintf(b, sizeof b, " hint %d %d %d %zu", h->channels, h->range, h->precision, h->options.size()); x += b; }
		return x;
	}
	default: break;
	}
	return b;
}
void set(Rng& r, FCDEffectParameter* p, FCDocument* d, std::vector<FCDImage*>& images, std::vector<FCDEffectParameterSurface*>& surfaces)
{
	float v[16]; for (auto& x : v) x = (float) r.range(-3, 3);
	switch (p->GetType())
	{
	case FCDEffectParameter::INTEGER: ((FCDEffectParameterInt*) p)->SetValue(r.range(-2, 2)); break;
	case FCDEffectParameter::BOOLEAN: ((FCDEffectParameterBool*) p)->SetValue(r.chance(50)); break;
	case FCDEffectParameter::STRING: ((FCDEffectParameterString*) p)->SetValue(r.pick<const char*>({ "", "a", "A", "ab" })); break;
	case FCDEffectParameter::FLOAT: ((FCDEffectParameterFloat*) p)->SetValue(v[0]); if (r.chance(30)) ((FCDEffectParameterFloat*) p)->SetFloatType(FCDEffectParameterFloat::HALF); break;
	case FCDEffectParameter::FLOAT2: ((FCDEffectParameterFloat2*) p)->SetValue(FMVector2(v[0], v[1])); break;
	case FCDEffectParameter::FLOAT3: ((FCDEffectParameterFloat3*) p)->SetValue(FMVector3(v[0], v[1], v[2])); break;
	case FCDEffectParameter::VECTOR: ((FCDEffectParameterVector*) p)->SetValue(FMVector4(v[0], v[1], v[2], v[3])); break;
	case FCDEffectParameter::MATRIX: ((FCDEffectParameterMatrix*) p)->SetValue(FMMatrix44(v)); break;
	case FCDEffectParameter::SAMPLER:
	{
		FCDEffectParameterSampler* s = (FCDEffectParameterSampler*) p; s->SetSamplerType((FCDEffectParameterSampler::SamplerType) r.below(4)); s->SetSurface(r.chance(30) ? NULL : r.pick(surfaces));
		s->SetWrapS((FUDaeTextureWrapMode::WrapMode) r.below(5)); s->SetWrapT((FUDaeTextureWrapMode::WrapMode) r.below(5)); s->SetWrapP((FUDaeTextureWrapMode::WrapMode) r.below(5));
		s->SetMinFilter((FUDaeTextureFilterFunction::FilterFunction) r.below(6)); s->SetMagFilter((FUDaeTextureFilterFunction::FilterFunction) r.below(6)); s->SetMipFilter((FUDaeTextureFilterFunction::FilterFunction) r.below(6)); break;
	}
	case FCDEffectParameter::SURFACE:
	{
		FCDEffectParameterSurface* s = (FCDEffectParameterSurface*) p; int n = r.range(0, 3); for (int k = 0; k < n; ++k) s->AddImage(r.pick(images));
		if (r.chance(50)) s->SetSize(FMVector3(v[0] + 4, v[1] + 4, v[2] + 4));
		if (r.chance(40)) s->SetViewportRatio(v[3] + 4);
		if (r.chance(40)) s->SetMipLevelCount((uint16) r.below(4));
		s->SetGenerateMipMaps(r.chance(50)); if (r.chance(50)) s->SetFormat("R32F"); if (r.chance(50)) s->SetSurfaceType("CUBE");
		if (r.chance(70)) s->SetInitMethod(FCDEffectParameterSurfaceInitFactory::Create((FCDEffectParameterSurfaceInitFactory::InitType) r.below(6)));
		if (s->GetInitMethod() != NULL && s->GetInitMethod()->GetInitType() == FCDEffectParameterSurfaceInitFactory::CUBE) { auto* c = (FCDEffectParameterSurfaceInitCube*) s->GetInitMethod(); c->cubeType = (FCDEffectParameterSurfaceInitCube::CubeType) r.below(3); int q = r.range(0, 6); for (int k = 0; k < q; ++k) c->order.push_back((uint16) r.below(6)); }
		if (s->GetInitMethod() != NULL && s->GetInitMethod()->GetInitType() == FCDEffectParameterSurfaceInitFactory::VOLUME) ((FCDEffectParameterSurfaceInitVolume*) s->GetInitMethod())->volumeType = (FCDEffectParameterSurfaceInitVolume::VolumeType) r.below(2);
		if (s->GetInitMethod() != NULL && s->GetInitMethod()->GetInitType() == FCDEffectParameterSurfaceInitFactory::FROM && r.chance(60)) { auto* c = (FCDEffectParameterSurfaceInitFrom*) s->GetInitMethod(); c->face.push_back("3"); c->mip.push_back("1"); c->slice.push_back("2"); }
		if (r.chance(40)) { s->AddFormatHint()->channels = FCDFormatHint::CHANNEL_RGBA; }
		break;
	}
	default: break;
	}
	(void) d;
}

void single(Rng& r)
{
	DocRef d; std::vector<FCDImage*> images; for (int k = 0; k < 3; ++k) images.push_back(d->GetImageLibrary()->AddEntity());
	FCDEffect* e = d->GetEffectLibrary()->AddEntity(); std::vector<FCDEffectParameterSurface*> surfaces;
	for (int k = 0; k < 2; ++k) { surfaces.push_back((FCDEffectParameterSurface*) e->AddEffectParameter(FCDEffectParameter::SURFACE)); surfaces.back()->SetReference(k ? "s1" : "s0"); }
	size_t equal = 0, over = 0;
	for (int q = 0; q < 12; ++q)
	{
		uint32 ty = kTypes[r.below(10)], ty2 = r.chance(75) ? ty : kTypes[r.below(10)];
		FCDEffectParameter *a = e->AddEffectParameter(ty), *b = e->AddEffectParameter(ty2);
		set(r, a, &*d, images, surfaces); set(r, b, &*d, images, surfaces); a->SetReference("ra"); b->SetReference("rb"); a->SetSemantic("sa"); b->SetSemantic("sb"); a->SetModifier();
		CHECK(a->GetType() == ty && b->GetType() == ty2, "parameter/type", "a new parameter of type %u has type %d", ty, (int) a->GetType());
		if (r.chance(50)) a->AddAnnotation("note", FCDEffectParameter::STRING, "text");
		S ta = text(a), tb = text(b);
		// Equal values, of values that differ by nothing or by at least one.
		if (ty != FCDEffectParameter::SURFACE || ty2 != ty)
		{
			bool want = ty == ty2 && (ty == FCDEffectParameter::SAMPLER ? ((FCDEffectParameterSampler*) a)->GetSamplerType() == ((FCDEffectParameterSampler*) b)->GetSamplerType() && ((FCDEffectParameterSampler*) a)->GetSurface() == ((FCDEffectParameterSampler*) b)->GetSurface() : ta == tb);
			equal += want; CHECK(a->IsValueEqual(b) == want && b->IsValueEqual(a) == want, "parameter/equal", "type %u \"%s\" and type %u \"%s\": equal is %d", ty, ta.c_str(), ty2, tb.c_str(), !want);
		}
		else if (ta == tb) CHECK(a->IsValueEqual(b), "parameter/equal", "two surfaces that are alike are not equal: %s", ta.c_str());
		else
		{
			// Images, initialisation method, sizes and mip levels make the difference.
			auto key = [&](FCDEffectParameter* p) { FCDEffectParameterSurface* s = (FCDEffectParameterSurface*) p; S k; for (size_t n = 0; n < s->GetImageCount(); ++n) k += s->GetImage(n)->GetDaeId().c_str() + S(" "); char c[200]; snprintf(c, sizeof c, "%g %g %g %g %d %d %d", s->GetSize().x, s->GetSize().y, s->GetSize().z, s->GetViewportRatio(), s->GetMipLevelCount(), s->IsGenerateMipMaps(), s->GetInitMethod() == NULL ? -1 : (int) s->GetInitMethod()->GetInitType()); return k + c; };
			CHECK(a->IsValueEqual(b) == (key(a) == key(b)), "parameter/equal", "surfaces \"%s\" and \"%s\": equal is %d", key(a).c_str(), key(b).c_str(), key(a) != key(b));
		}
		CHECK(a->IsValueEqual(a) && !a->IsValueEqual(NULL), "parameter/equal", "a parameter of type %u does not equal itself, or equals nothing", ty);
		// A copy made from nothing.
		FCDEffectParameter* c = a->Clone(NULL);
		CHECK(c != NULL && c->GetType() == ty && text(c) == ta && c->IsValueEqual(a), "parameter/clone", "the copy of a parameter of type %u is \"%s\", expected \"%s\"", ty, c == NULL ? "NULL" : text(c).c_str(), ta.c_str());
		CHECK(c->GetReference() == "ra" && c->GetSemantic() == "sa" && c->IsModifier() && c->GetAnnotationCount() == a->GetAnnotationCount(), "parameter/clone-identity", "the copy of a parameter lost its reference, semantic, kind or annotations");
		SAFE_RELEASE(c);
		CHECK(text(a) == ta, "parameter/clone-source", "copying a parameter changes it: \"%s\", \"%s\"", ta.c_str(), text(a).c_str());
		// Overwriting changes the value of a target of the same type and nothing else.
		a->ResetDirtyFlag(); b->ResetDirtyFlag(); a->ResetValueChangedFlag(); b->ResetValueChangedFlag(); a->ResetStructureChangedFlag(); b->ResetStructureChangedFlag(); a->ResetNewChildFlag(); b->ResetNewChildFlag();
		a->Overwrite(b); ++over;
		CHECK(b->GetReference() == "rb" && b->GetSemantic() == "sb" && text(a) == ta, "parameter/overwrite-other", "overwriting a parameter changes its identity, or the source");
		bool took = ty == ty2 && (ty != FCDEffectParameter::SAMPLER || ((FCDEffectParameterSampler*) a)->GetSamplerType() == ((FCDEffectParameterSampler*) b)->GetSamplerType());
		if (took) CHECK(b->IsValueEqual(a) || ty == FCDEffectParameter::SURFACE || ((ty == FCDEffectParameter::FLOAT) && text(a) != text(b)), "parameter/overwrite", "type %u: \"%s\" is \"%s\" once overwritten with \"%s\"", ty, tb.c_str(), text(b).c_str(), ta.c_str());
		else CHECK(text(b) == tb, "parameter/overwrite-type", "type %u overwritten with type %u changes from \"%s\" to \"%s\"", ty2, ty, tb.c_str(), text(b).c_str());
		if (took && ty == FCDEffectParameter::FLOAT) CHECK(*(float*) valueOf(a) == *(float*) valueOf(b), "parameter/overwrite", "float %s is %s once overwritten with %s", tb.c_str(), text(b).c_str(), ta.c_str());
		if (took && ty == FCDEffectParameter::SURFACE)
		{
			FCDEffectParameterSurface *x = (FCDEffectParameterSurface*) a, *y = (FCDEffectParameterSurface*) b; bool same = x->GetImageCount() == y->GetImageCount();
			for (size_t k = 0; same && k < x->GetImageCount(); ++k) same = x->GetImage(k) == y->GetImage(k);
			CHECK(same && x->GetSize() == y->GetSize() && x->GetViewportRatio() == y->GetViewportRatio() && x->GetMipLevelCount() == y->GetMipLevelCount() && x->IsGenerateMipMaps() == y->IsGenerateMipMaps(), "parameter/overwrite", "surface \"%s\" is \"%s\" once overwritten with \"%s\"", tb.c_str(), text(b).c_str(), ta.c_str());
		}
		if (took && text(b) != tb) CHECK(b->GetDirtyFlag() || b->GetNewChildFlag() || b->GetStructureChangedFlag() || b->GetValueChangedFlag(), "parameter/overwrite-dirty", "a parameter of type %u is overwritten and is not dirty", ty);
		CHECK(!a->GetDirtyFlag() && !a->GetNewChildFlag(), "parameter/overwrite-source-dirty", "the source that overwrites a parameter of type %u becomes dirty", ty);
		mon::sig(ta);
	}
	mon::hit("parameters overwritten", over); mon::hit("equal values", equal); mon::nontrivial();
}

void surface(Rng& r)
{
	DocRef d; std::vector<FCDImage*> images; for (int k = 0; k < 8; ++k) images.push_back(d->GetImageLibrary()->AddEntity());
	FCDEffectParameterSurface* s = (FCDEffectParameterSurface*) d->GetEffectLibrary()->AddEntity()->AddEffectParameter(FCDEffectParameter::SURFACE);
	FCDEffectParameterSurfaceInitCube* cube = NULL; std::vector<uint16> order;
	if (r.chance(70)) { s->SetInitMethod(cube = new FCDEffectParameterSurfaceInitCube()); cube->cubeType = FCDEffectParameterSurfaceInitCube::FACE; }
	std::vector<FCDImage*> m; size_t removed = 0, again = 0;
	int steps = r.range(4, 30);
	for (int q = 0; q < steps && mon::violations() == 0; ++q)
	{
		FCDImage* x = r.pick(images); size_t at = std::find(m.begin(), m.end(), x) - m.begin(), none = (size_t) ~0;
		CHECK(s->FindImage(x) == (at < m.size() ? at : none), "surface/find", "FindImage gives %zd, expected %zd of %zu", (ssize_t) s->FindImage(x), (ssize_t) at, m.size());
		s->ResetDirtyFlag(); s->ResetStructureChangedFlag();
		switch (r.below(4))
		{
		case 0: { size_t got = s->AddImage(x); again += at < m.size(); if (at == m.size()) m.push_back(x); CHECK(got == at, "surface/add", "AddImage gives index %zd, the image is at %zu", (ssize_t) got, at); break; }
		case 1: { size_t where = r.below(m.size() + 1), got = s->AddImage(x, where); again += at < m.size(); if (at == m.size()) { m.insert(m.begin() + where, x); at = where; } CHECK(got == at, "surface/add-at", "AddImage at %zu gives index %zd, the image is at %zu", where, (ssize_t) got, at);
			if (cube != NULL) order.assign(cube->order.begin(), cube->order.end()); break; }
		case 2: s->RemoveImage(x); if (at < m.size()) { ++removed; m.erase(m.begin() + at); for (auto& o : order) o = o == at ? 0 : o > at ? o - 1 : o; } break;
		default: if (cube != NULL && !m.empty()) { cube->order.clear(); order.clear(); for (int k = 0; k < 6; ++k) { uint16 o = (uint16) r.below(m.size()); order.push_back(o); cube->order.push_back(o); } } break;
		}
		bool same = s->GetImageCount() == m.size(); for (size_t k = 0; same && k < m.size(); ++k) same = s->GetImage(k) == m[k] && s->GetImages()[k] == m[k];
		CHECK(same, "surface/images", "the images are not those of the model (%zu, expected %zu)", s->GetImageCount(), m.size());
		CHECK(s->GetImage(m.size()) == NULL, "surface/past-end", "an image past the end");
		if (cube != NULL) CHECK(std::vector<uint16>(cube->order.begin(), cube->order.end()) == order, "surface/order", "the faces of the cube do not keep their images");
	}
	if (r.chance(40) && !m.empty())
	{
		size_t k = r.below(m.size()); m[k]->Release(); m.erase(m.begin() + k);
		CHECK(s->GetImageCount() == m.size(), "surface/release", "a released image stays in the surface");
	}
	mon::sig(removed); mon::hit("images removed from surfaces", removed); mon::hit("images added twice", again); if (removed + again > 2) mon::nontrivial();
}

void standard(Rng& r)
{
	DocRef d; FCDEffect* e = d->GetEffectLibrary()->AddEntity(); FCDEffectStandard* s = (FCDEffectStandard*) e->AddProfile(FUDaeProfileType::COMMON);
	CHECK(s->GetOpacity() == 1.0f, "standard/default", "a new material has opacity %g", s->GetOpacity());
	FMVector4 c[6]; float f[6];
	for (int n = 0; n < 6; ++n) { c[n] = FMVector4(r.flt(0, 1), r.flt(0, 1), r.flt(0, 1), r.flt(0, 1)); f[n] = r.flt(0, 2); }
	s->SetAmbientColor(c[0]); s->SetDiffuseColor(c[1]); s->SetEmissionColor(c[2]); s->SetReflectivityColor(c[3]); s->SetSpecularColor(c[4]); s->SetTranslucencyColor(c[5]);
	CHECK(!s->IsEmissionFactor(), "standard/emission", "an emission colour makes the emission a factor");
	s->SetEmissionFactor(f[0]); s->SetIndexOfRefraction(f[1]); s->SetReflectivityFactor(f[2]); s->SetShininess(f[3]); s->SetSpecularFactor(f[4]); s->SetTranslucencyFactor(f[5]);
	for (auto& q : kStd)
	{
		bool isF; FCDEffectParameter* p = s->GetParam(q.sem, &isF);
		if (q.isFloat) CHECK(*(float*) valueOf(p) == f[q.n], "standard/value", "%s is %g, expected %g", q.sem, *(float*) valueOf(p), f[q.n]);
		else { FMVector4& v = *(FMVector4*) valueOf(p); CHECK(v.x == c[q.n].x && v.y == c[q.n].y && v.z == c[q.n].z && v.w == c[q.n].w, "standard/value", "%s is not the colour that was set", q.sem); }
	}
	for (int mode = 0; mode < 2; ++mode)
	{
		s->SetTransparencyMode(mode ? FCDEffectStandard::RGB_ZERO : FCDEffectStandard::A_ONE);
		double want = mode ? 1.0 - ((double) c[5].x + c[5].y + c[5].z) / 3.0 * f[5] : (double) c[5].w * f[5];
		CHECK(fabs(s->GetOpacity() - want) < 1e-5, "standard/opacity", "opacity %g in mode %s for colour %g %g %g %g and factor %g, expected %g", s->GetOpacity(), mode ? "RGB_ZERO" : "A_ONE", c[5].x, c[5].y, c[5].z, c[5].w, f[5], want);
	}
	double want = ((double) c[3].x + c[3].y + c[3].z) / 3.0 * f[2];
	CHECK(fabs(s->GetReflectivity() - want) < 1e-5, "standard/reflectivity", "reflectivity %g for colour %g %g %g and factor %g, expected %g", s->GetReflectivity(), c[3].x, c[3].y, c[3].z, f[2], want);
	CHECK(s->IsReflective(), "standard/reflective", "a material with a reflectivity is not reflective"); CHECK(s->IsRefractive(), "standard/refractive", "a material with an index of refraction is not refractive"); { bool b = r.chance(50); s->SetIsEmissionFactor(b); CHECK(s->IsEmissionFactor() == b, "standard/emission", "IsEmissionFactor is not what was set"); }
	// Extra attributes.
	std::map<std::pair<S, S>, S> m; std::vector<S> profiles = { "MAYA", "MAX3D", "OTHER" }, keys = { "k", "key", "K" };
	for (int q = 0; q < 6; ++q)
	{
		S p = r.pick(profiles), k = r.pick(keys), v = "v" + std::to_string(r.below(9));
		if (m.count({ p, k }) == 0) { s->AddExtraAttribute(p.c_str(), k.c_str(), v.c_str()); m[{ p, k }] = v; }
		for (auto& pp : profiles) for (auto& kk : keys) { const char* got = s->GetExtraAttribute(pp.c_str(), kk.c_str()); auto it = m.find({ pp, kk }); CHECK(it == m.end() ? got == NULL : got != NULL && it->second == got, "standard/extra", "attribute %s of %s is %s, expected %s", kk.c_str(), pp.c_str(), got ? got : "absent", it == m.end() ? "absent" : it->second.c_str()); }
	}
	// Textures, by channel, sharing surfaces and samplers by image.
	std::vector<FCDImage*> images; std::vector<S> ids = { "img", "img.a", "img_a", "x" };
	for (auto& i : ids) { FCDImage* x = d->GetImageLibrary()->AddEntity(); fm::string id(i.c_str()); x->SetDaeId(id); images.push_back(x); }
	std::vector<std::pair<FCDTexture*, FCDImage*>> model[FUDaeTextureChannel::COUNT]; size_t shared = 0;
	for (int q = 0; q < 14 && mon::violations() == 0; ++q)
	{
		uint32 ch = (uint32) r.below(FUDaeTextureChannel::COUNT); if (r.chance(40)) ch = FUDaeTextureChannel::DIFFUSE;
		auto& v = model[ch]; int what = r.range(0, 3); size_t k = r.below(v.size() + 1);
		if (k == v.size() || what == 0) { FCDTexture* x = s->AddTexture(ch); FCDImage* i = r.chance(85) ? r.pick(images) : NULL; x->SetImage(i); v.push_back({ x, i }); }
		else if (what == 1) { FCDImage* i = r.chance(80) ? r.pick(images) : NULL; v[k].first->SetImage(i); v[k].second = i; }
		else if (what == 2) { v[k].first->Release(); v.erase(v.begin() + k); }
		std::map<FCDImage*, std::set<const FCDEffectParameter*>> samplers;
		for (uint32 b = 0; b < FUDaeTextureChannel::COUNT; ++b)
		{
			bool same = s->GetTextureCount(b) == model[b].size(); for (size_t n = 0; same && n < model[b].size(); ++n) same = s->GetTexture(b, n) == model[b][n].first;
			CHECK(same, "standard/textures", "the textures of channel %u are not those that were added", b);
			for (auto& x : model[b])
			{
				CHECK(x.first->GetImage() == x.second, "standard/texture-image", "a texture of channel %u has another image than the one that was set", b);
				if (x.second != NULL) samplers[x.second].insert(x.first->GetSampler());
			}
		}
		for (auto& x : samplers) { bool clash = x.first == images[1] || x.first == images[2]; /* their sids look the same */ CHECK(clash || x.second.size() == 1, "standard/texture-sampler", "the textures of one image use %zu samplers", x.second.size()); shared += x.second.size(); }
	}
	mon::sig((uint64_t) (f[5] * 1000)); mon::hit("textures compared", shared); mon::hit("opacities computed", 2); mon::nontrivial();
}

void bindings(Rng& r)
{
	DocRef d; FCDSceneNode* node = d->AddVisualScene()->AddChildNode(); FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); FCDGeometryMesh* mesh = g->CreateMesh();
	std::vector<S> syms = { "a", "b", "B", "ab", "" }; std::vector<std::pair<S, FCDGeometryPolygons*>> polys;
	int n = r.range(0, 4); for (int k = 0; k < n; ++k) { FCDGeometryPolygons* p = mesh->AddPolygons(); S sy = r.pick(syms); p->SetMaterialSemantic(sy.c_str()); polys.push_back({ sy, p }); }
	int kind = r.range(0, 4); FCDGeometryInstance* gi;
	if (kind <= 1) gi = (FCDGeometryInstance*) node->AddInstance(g);
	else
	{
		FCDController* c = d->GetControllerLibrary()->AddEntity();
		if (kind == 2) c->CreateSkinController()->SetTarget(g); else c->CreateMorphController()->SetBaseTarget(g);
		if (kind == 4) { FCDController* c2 = d->GetControllerLibrary()->AddEntity(); c2->CreateSkinController()->SetTarget(c); c = c2; }
		gi = (FCDGeometryInstance*) node->AddInstance(c);
	}
	struct MI { FCDMaterialInstance* i; S sym; FCDMaterial* m; std::vector<std::pair<S, S>> b; std::vector<S> v; }; std::vector<MI> model;
	std::vector<FCDMaterial*> mats; for (int k = 0; k < 2; ++k) mats.push_back(d->GetMaterialLibrary()->AddEntity());
	int steps = r.range(4, 16);
	for (int q = 0; q < steps && mon::violations() == 0; ++q)
	{
		size_t k = r.below(model.size() + 1);
		if (k == model.size()) { MI x; x.sym = r.pick(syms); x.m = r.pick(mats); x.i = gi->AddMaterialInstance(x.m, x.sym.c_str()); model.push_back(x); }
		else switch (r.below(6))
		{
		case 0: { S a = r.pick(syms), b = r.pick(syms); model[k].i->AddBinding(a.c_str(), b.c_str()); model[k].b.push_back({ a, b }); break; }
		case 1: { S a = r.pick(syms); model[k].i->AddVertexInputBinding(a.c_str(), FUDaeGeometryInput::TEXCOORD, (int) model[k].v.size()); model[k].v.push_back(a); break; }
		case 2: if (!model[k].b.empty()) { size_t w = r.below(model[k].b.size()); model[k].i->RemoveBinding(w); model[k].b.erase(model[k].b.begin() + w); } break;
		case 3: model[k].sym = r.pick(syms); model[k].i->SetSemantic(model[k].sym.c_str()); break;
		case 4: model[k].m = r.pick(mats); model[k].i->SetMaterial(model[k].m); break;
		default: if (r.chance(40)) { model[k].i->Release(); model.erase(model.begin() + k); } break;
		}
		CHECK(gi->GetMaterialInstanceCount() == model.size(), "bindings/count", "%zu material instances, expected %zu", gi->GetMaterialInstanceCount(), model.size());
		for (size_t w = 0; w < model.size() && mon::violations() == 0; ++w)
		{
			MI& x = model[w]; FCDMaterialInstance* i = x.i;
			CHECK(gi->GetMaterialInstance(w) == i && i->GetParent() == gi && x.sym == i->GetSemantic().c_str() && i->GetMaterial() == x.m, "bindings/instance", "material instance %zu is not the one that was added", w);
			FCDGeometryPolygons* want = NULL; for (auto& p : polys) if (want == NULL && p.first == x.sym) want = p.second;
			CHECK(i->GetGeometryTarget() == want, "bindings/target", "the polygons of material symbol \"%s\" are not found (instance of kind %d)", x.sym.c_str(), kind);
			CHECK(i->GetBindingCount() == x.b.size() && i->GetVertexInputBindingCount() == x.v.size(), "bindings/binding-count", "bindings lost or added");
			for (auto& sy : syms)
			{
				int at = -1; for (size_t y = 0; y < x.b.size(); ++y) if (at < 0 && x.b[y].first == sy) at = (int) y;
				const FCDMaterialInstanceBind* b = i->FindBinding(sy.c_str()); CHECK(at < 0 ? b == NULL : b == i->GetBinding(at) && x.b[at].second == b->target->c_str(), "bindings/find", "FindBinding(\"%s\") does not give binding %d", sy.c_str(), at);
				at = -1; for (size_t y = 0; y < x.v.size(); ++y) if (at < 0 && x.v[y] == sy) at = (int) y;
				const FCDMaterialInstanceBindVertexInput* vb = i->FindVertexInputBinding(sy.c_str()); CHECK(at < 0 ? vb == NULL : vb == i->GetVertexInputBinding(at) && vb->inputSet == at, "bindings/find-input", "FindVertexInputBinding(\"%s\") does not give binding %d", sy.c_str(), at);
			}
		}
		for (auto& sy : syms) { FCDMaterialInstance* want = NULL; for (auto& x : model) if (want == NULL && x.sym == sy) want = x.i; CHECK(gi->FindMaterialInstance(sy.c_str()) == want, "bindings/find-instance", "FindMaterialInstance(\"%s\") does not give the first", sy.c_str()); }
	}
	// Shaders.
	FCDEffect* e = d->GetEffectLibrary()->AddEntity(); FCDEffectProfileFX* fx = (FCDEffectProfileFX*) e->AddProfile(FUDaeProfileType::CG); FCDEffectTechnique* t = fx->AddTechnique(); FCDEffectPass* p = t->AddPass();
	FCDEffectPassShader *vs = r.chance(50) ? p->AddVertexShader() : NULL, *fs = p->AddFragmentShader(); if (vs == NULL) vs = p->AddVertexShader();
	CHECK(p->GetVertexShader() == vs && p->GetFragmentShader() == fs && vs->IsVertexShader() && !vs->IsFragmentShader() && fs->IsFragmentShader() && p->GetShaderCount() == 2, "bindings/shaders", "the vertex and fragment shaders of a pass are not those that were added");
	std::vector<std::pair<S, S>> sb; int c = r.range(1, 6);
	for (int k = 0; k < c; ++k) { FCDEffectPassBind* b = vs->AddBinding(); S x = r.pick(syms), y = r.pick(syms); b->reference = x.c_str(); b->symbol = y.c_str(); sb.push_back({ x, y }); }
	for (auto& sy : syms)
	{
		int x = -1, y = -1; for (size_t k = 0; k < sb.size(); ++k) { if (x < 0 && sb[k].first == sy) x = (int) k; if (y < 0 && sb[k].second == sy) y = (int) k; }
		CHECK(vs->FindBindingReference(sy.c_str()) == (x < 0 ? NULL : vs->GetBinding(x)), "bindings/shader-reference", "FindBindingReference(\"%s\") does not give binding %d", sy.c_str(), x);
		CHECK(vs->FindBindingSymbol(sy.c_str()) == (y < 0 ? NULL : vs->GetBinding(y)), "bindings/shader-symbol", "FindBindingSymbol(\"%s\") does not give binding %d", sy.c_str(), y);
	}
	// Codes and profiles.
	std::vector<std::pair<S, FCDEffectCode*>> codes; for (int k = 0; k < 3; ++k) { FCDEffectCode* x = t->AddCode(); S sid = "code" + std::to_string(r.below(3)); x->SetSubId(sid.c_str()); codes.push_back({ x->GetSubId().c_str(), x }); }
	for (int k = 0; k < 4; ++k) { S sid = "code" + std::to_string(k); FCDEffectCode* want = NULL; for (auto& x : codes) if (want == NULL && x.first == sid) want = x.second; CHECK(t->FindCode(sid.c_str()) == want, "bindings/code", "FindCode(\"%s\") does not give the first", sid.c_str()); }
	std::vector<std::pair<std::pair<int, S>, FCDEffectProfile*>> pr; pr.push_back({ { FUDaeProfileType::CG, fx->GetPlatform().c_str() }, fx });
	for (int k = 0; k < 3; ++k) { int ty = r.pick<int>({ FUDaeProfileType::CG, FUDaeProfileType::HLSL, FUDaeProfileType::COMMON }); FCDEffectProfile* x = e->AddProfile((FUDaeProfileType::Type) ty); S pl; if (ty != FUDaeProfileType::COMMON) { pl = r.chance(50) ? "PC" : "PS3"; ((FCDEffectProfileFX*) x)->SetPlatform(pl.c_str()); } pr.push_back({ { ty, pl }, x }); }
	for (int ty : { (int) FUDaeProfileType::CG, (int) FUDaeProfileType::HLSL, (int) FUDaeProfileType::COMMON, (int) FUDaeProfileType::GLSL })
	{
		FCDEffectProfile* want = NULL; for (auto& x : pr) if (want == NULL && x.first.first == ty) want = x.second;
		CHECK(e->FindProfile((FUDaeProfileType::Type) ty) == want && e->HasProfile((FUDaeProfileType::Type) ty) == (want != NULL), "bindings/profile", "FindProfile(%d) does not give the first", ty);
		if (ty != FUDaeProfileType::COMMON) for (const char* pl : { "PC", "PS3", "GC" }) { want = NULL; for (auto& x : pr) if (want == NULL && x.first.first == ty && x.first.second == pl) want = x.second; CHECK(e->FindProfileByTypeAndPlatform((FUDaeProfileType::Type) ty, pl) == want, "bindings/profile-platform", "the profile of type %d for platform %s is not found", ty, pl); }
	}
	mon::sig(kind); mon::sig(model.size()); mon::hit("material instances compared", model.size()); mon::nontrivial();
}
}

PROP(C33, "effect parameters are found and applied by level, standard values computed, bindings resolved")
{
	switch (r.below(10))
	{
	case 0: case 1: lookup(r); break;
	case 2: case 3: case 4: values(r); break;
	case 5: case 6: single(r); break;
	case 7: surface(r); break;
	case 8: standard(r); break;
	default: bindings(r); break;
	}
}
