// C40: passes, shaders, code and render states hold what was put in, in order, with the defaults of the format.
#include "docmon.h"

namespace
{
namespace PS = FUDaePassState;

// The default of every render state in the COLLADA 1.4 schema, in the packed layout that FCDEffectPassState documents.
struct Packed
{
	std::vector<uint8> b;
	Packed& e(uint32 v) { for (int i = 0; i < 4; ++i) b.push_back(((uint8*) &v)[i]); return *this; }
	Packed& f(float v) { for (int i = 0; i < 4; ++i) b.push_back(((uint8*) &v)[i]); return *this; }
	Packed& f4(float x, float y, float z, float w) { return f(x).f(y).f(z).f(w); }
	Packed& u(uint8 v) { b.push_back(v); return *this; }
	Packed& h(uint16 v) { b.push_back(((uint8*) &v)[0]); b.push_back(((uint8*) &v)[1]); return *this; }
};
bool defaults(int s, Packed& p)
{
	switch (s)
	{
	case PS::ALPHA_FUNC: p.e(FUDaePassStateFunction::ALWAYS).f(0); break;
	case PS::BLEND_FUNC: p.e(FUDaePassStateBlendType::ONE).e(FUDaePassStateBlendType::ZERO); break;
	case PS::BLEND_FUNC_SEPARATE: p.e(FUDaePassStateBlendType::ONE).e(FUDaePassStateBlendType::ZERO).e(FUDaePassStateBlendType::ONE).e(FUDaePassStateBlendType::ZERO); break;
	case PS::BLEND_EQUATION: p.e(FUDaePassStateBlendEquation::ADD); break;
	case PS::BLEND_EQUATION_SEPARATE: p.e(FUDaePassStateBlendEquation::ADD).e(FUDaePassStateBlendEquation::ADD); break;
	case PS::COLOR_MATERIAL: p.e(FUDaePassStateFaceType::FRONT_AND_BACK).e(FUDaePassStateMaterialType::AMBIENT_AND_DIFFUSE); break;
	case PS::CULL_FACE: p.e(FUDaePassStateFaceType::BACK); break;
	case PS::DEPTH_FUNC: p.e(FUDaePassStateFunction::ALWAYS); break;
	case PS::FOG_MODE: p.e(FUDaePassStateFogType::EXP); break;
	case PS::FOG_COORD_SRC: p.e(FUDaePassStateFogCoordinateType::FOG_COORDINATE); break;
	case PS::FRONT_FACE: p.e(FUDaePassStateFrontFaceType::COUNTER_CLOCKWISE); break;
	case PS::LIGHT_MODEL_COLOR_CONTROL: p.e(FUDaePassStateLightModelColorControlType::SINGLE_COLOR); break;
	case PS::LOGIC_OP: p.e(FUDaePassStateLogicOperation::COPY); break;
	case PS::POLYGON_MODE: p.e(FUDaePassStateFaceType::FRONT_AND_BACK).e(FUDaePassStatePolygonMode::FILL); break;
	case PS::SHADE_MODEL: p.e(FUDaePassStateShadeModel::SMOOTH); break;
	case PS::STENCIL_FUNC: p.e(FUDaePassStateFunction::ALWAYS).u(0).u(255); break;
	case PS::STENCIL_OP: p.e(FUDaePassStateStencilOperation::KEEP).e(FUDaePassStateStencilOperation::KEEP).e(FUDaePassStateStencilOperation::KEEP); break;
	case PS::STENCIL_FUNC_SEPARATE: p.e(FUDaePassStateFunction::ALWAYS).e(FUDaePassStateFunction::ALWAYS).u(0).u(255); break;
	case PS::STENCIL_OP_SEPARATE: p.e(FUDaePassStateFaceType::FRONT_AND_BACK).e(FUDaePassStateStencilOperation::KEEP).e(FUDaePassStateStencilOperation::KEEP).e(FUDaePassStateStencilOperation::KEEP); break;
	case PS::STENCIL_MASK_SEPARATE: p.e(FUDaePassStateFaceType::FRONT_AND_BACK).u(255); break;
	case PS::LIGHT_AMBIENT: p.u(0).f4(0, 0, 0, 1); break;
	case PS::LIGHT_DIFFUSE: case PS::LIGHT_SPECULAR: case PS::TEXTURE_ENV_COLOR: case PS::CLIP_PLANE: p.u(0).f4(0, 0, 0, 0); break;
	case PS::LIGHT_POSITION: p.u(0).f4(0, 0, 1, 0); break;
	case PS::LIGHT_CONSTANT_ATTENUATION: p.u(0).f(1); break;
	case PS::LIGHT_LINEAR_ATTENUATION: case PS::LIGHT_QUADRATIC_ATTENUATION: case PS::LIGHT_SPOT_EXPONENT: p.u(0).f(0); break;
	case PS::LIGHT_SPOT_CUTOFF: p.u(0).f(180); break;
	case PS::LIGHT_SPOT_DIRECTION: p.u(0).f(0).f(0).f(-1); break;
	case PS::BLEND_COLOR: case PS::CLEAR_COLOR: case PS::FOG_COLOR: p.f4(0, 0, 0, 0); break;
	case PS::LIGHT_MODEL_AMBIENT: case PS::MATERIAL_AMBIENT: p.f4(0.2f, 0.2f, 0.2f, 1); break;
	case PS::MATERIAL_DIFFUSE: p.f4(0.8f, 0.8f, 0.8f, 1); break;
	case PS::MATERIAL_EMISSION: case PS::MATERIAL_SPECULAR: p.f4(0, 0, 0, 1); break;
	case PS::POINT_DISTANCE_ATTENUATION: p.f(1).f(0).f(0); break;
	case PS::DEPTH_BOUNDS: case PS::DEPTH_RANGE: p.f(0).f(1); break;
	case PS::POLYGON_OFFSET: p.f(0).f(0); break;
	case PS::DEPTH_MASK: case PS::COLOR_MATERIAL_ENABLE: p.u(1); break;
	case PS::CLEAR_STENCIL: p.e(0); break;
	case PS::STENCIL_MASK: p.e(0xFFFFFFFFu); break;
	case PS::CLEAR_DEPTH: case PS::FOG_DENSITY: case PS::FOG_END: case PS::LINE_WIDTH: case PS::POINT_FADE_THRESHOLD_SIZE: case PS::POINT_SIZE: case PS::POINT_SIZE_MAX: p.f(1); break;
	case PS::FOG_START: case PS::MATERIAL_SHININESS: case PS::POINT_SIZE_MIN: p.f(0); break;
	case PS::COLOR_MASK: p.u(1).u(1).u(1).u(1); break;
	case PS::LINE_STIPPLE: p.h(1).h(255); break;
	case PS::MODEL_VIEW_MATRIX: case PS::PROJECTION_MATRIX: for (int i = 0; i < 16; ++i) p.f(i % 5 == 0); break;
	case PS::LIGHTING_ENABLE: case PS::ALPHA_TEST_ENABLE: case PS::BLEND_ENABLE: case PS::CULL_FACE_ENABLE: case PS::DEPTH_TEST_ENABLE: case PS::FOG_ENABLE: case PS::SCISSOR_TEST_ENABLE: case PS::STENCIL_TEST_ENABLE:
	case PS::AUTO_NORMAL_ENABLE: case PS::COLOR_LOGIC_OP_ENABLE: case PS::LINE_STIPPLE_ENABLE: case PS::NORMALIZE_ENABLE: case PS::POLYGON_OFFSET_FILL_ENABLE: p.u(0); break;
	case PS::TEXTURE2D_ENABLE: case PS::CLIP_PLANE_ENABLE: case PS::LIGHT_ENABLE: case PS::TEXTURECUBE_ENABLE: p.u(0).u(0); break;
	default: return false;
	}
	return true;
}

struct Code { FCDEffectCode* p; S sid, file, text; int type; };
struct State { FCDEffectPassState* p; int type; std::vector<uint8> bytes; };
struct Shader { FCDEffectPassShader* p; bool fragment; S name, target, options; int level, code; std::vector<std::pair<S, S>> binds; };   // code: level 0 none, 1 technique, 2 profile
struct Pass { FCDEffectPass* p; S name; std::vector<Shader> shaders; std::vector<State> states; };
struct Technique { FCDEffectTechnique* p; S name; std::vector<Code> codes; std::vector<Pass> passes; };
struct Profile { FCDEffectProfileFX* p; int type; S platform; std::vector<Code> codes; std::vector<Technique> techs; };

S word(Rng& r) { static const char* some[] = { "a", "b", "main", "arbvp1", "-O2 -x", "", "ps 2.0", "c<d&e" }; return some[r.below(8)]; }

void compareCodes(const std::vector<Code>& m, size_t n, std::function<FCDEffectCode*(size_t)> get, bool same, const char* who)
{
	CHECK(n == m.size(), "code/count", "%s: %zu, expected %zu", who, n, m.size());
	for (size_t i = 0; i < m.size() && i < n; ++i)
	{
		FCDEffectCode* c = get(i); CHECK(!same || c == m[i].p, "code/identity", "%s: code %zu", who, i);
		CHECK(m[i].sid == c->GetSubId().c_str() && (int) c->GetType() == m[i].type && (m[i].type == FCDEffectCode::CODE ? m[i].text == c->GetCode().c_str() : m[i].file == c->GetFilename().c_str()), "code/content", "%s: code %zu: '%s' '%s' '%s' of kind %d", who, i, c->GetSubId().c_str(), c->GetCode().c_str(), c->GetFilename().c_str(), (int) c->GetType());
	}
}
void comparePass(const Pass& m, FCDEffectPass* p, bool same, FCDEffectTechnique* t, FCDEffectProfileFX* f, const Technique* mt, const Profile* mf, const char* who)
{
	CHECK(p->GetParent() == t && m.name == p->GetPassName().c_str(), "pass/name", "%s: '%s', expected '%s'", who, p->GetPassName().c_str(), m.name.c_str());
	CHECK(p->GetShaderCount() == m.shaders.size() && p->GetRenderStateCount() == m.states.size(), "pass/count", "%s: %zu shaders and %zu states, expected %zu and %zu", who, p->GetShaderCount(), p->GetRenderStateCount(), m.shaders.size(), m.states.size());
	if (p->GetShaderCount() != m.shaders.size() || p->GetRenderStateCount() != m.states.size()) return;
	FCDEffectPassShader *firstV = NULL, *firstF = NULL;
	for (size_t i = 0; i < m.shaders.size(); ++i)
	{
		const Shader& x = m.shaders[i]; FCDEffectPassShader* s = p->GetShader(i);
		if (x.fragment) { if (firstF == NULL) firstF = s; } else if (firstV == NULL) firstV = s;
		CHECK(!same || s == x.p, "shader/identity", "%s: shader %zu", who, i);
		CHECK(s->GetParent() == p && s->IsFragmentShader() == x.fragment && s->IsVertexShader() == !x.fragment, "shader/kind", "%s: shader %zu", who, i);
		CHECK(x.name == s->GetName().c_str() && x.target == s->GetCompilerTarget().c_str() && x.options == s->GetCompilerOptions().c_str(), "shader/text", "%s: shader %zu: '%s' '%s' '%s'", who, i, s->GetName().c_str(), s->GetCompilerTarget().c_str(), s->GetCompilerOptions().c_str());
		const FCDEffectCode* want = x.level == 1 && mt != NULL ? (t->GetCodeCount() > (size_t) x.code ? t->GetCode(x.code) : NULL) : x.level == 2 && mf != NULL && f != NULL ? (f->GetCodeCount() > (size_t) x.code ? f->GetCode(x.code) : NULL) : NULL;
		if (x.level == 0 || want != NULL) CHECK(s->GetCode() == want, "shader/code", "%s: shader %zu: the code is not number %d of the %s", who, i, x.code, x.level == 0 ? "nobody" : x.level == 1 ? "technique" : "profile");
		CHECK(s->GetBindingCount() == x.binds.size(), "shader/bindings", "%s: %zu, expected %zu", who, s->GetBindingCount(), x.binds.size());
		for (size_t b = 0; b < x.binds.size() && b < s->GetBindingCount(); ++b) CHECK(x.binds[b].first == s->GetBinding(b)->reference->c_str() && x.binds[b].second == s->GetBinding(b)->symbol->c_str(), "shader/binding", "%s: %zu", who, b);
	}
	CHECK(p->GetVertexShader() == firstV && p->GetFragmentShader() == firstF, "pass/shaders", "%s: not the first of each kind", who);
	std::map<int, FCDEffectPassState*> first;
	for (size_t i = 0; i < m.states.size(); ++i)
	{
		FCDEffectPassState* s = p->GetRenderState(i); const State& x = m.states[i]; first.insert({ x.type, s });
		CHECK(!same || s == x.p, "state/identity", "%s: state %zu: type %d, expected %d", who, i, (int) s->GetType(), x.type);
		CHECK((int) s->GetType() == x.type && s->GetDataSize() == x.bytes.size(), "state/type", "%s: state %zu: type %d of %zu bytes, expected %d of %zu", who, i, (int) s->GetType(), s->GetDataSize(), x.type, x.bytes.size());
		CHECK(s->GetDataSize() != x.bytes.size() || memcmp(s->GetData(), x.bytes.data(), x.bytes.size()) == 0, "state/data", "%s: state %zu of type %s", who, i, PS::ToString((PS::State) x.type));
	}
	for (int s = 0; s < PS::COUNT; ++s) { auto it = first.find(s); CHECK(p->FindRenderState((PS::State) s) == (it == first.end() ? NULL : it->second), "state/find", "%s: type %d", who, s); }
}
void compareTechnique(const Technique& m, FCDEffectTechnique* t, bool same, FCDEffectProfileFX* f, const Profile* mf, const char* who)
{
	CHECK(t->GetParent() == f && m.name == t->GetName().c_str(), "technique/name", "%s: '%s'", who, t->GetName().c_str());
	compareCodes(m.codes, t->GetCodeCount(), [&](size_t i) { return t->GetCode(i); }, same, who);
	CHECK(t->GetPassCount() == m.passes.size(), "technique/passes", "%s: %zu, expected %zu", who, t->GetPassCount(), m.passes.size());
	for (size_t i = 0; i < m.passes.size() && i < t->GetPassCount(); ++i) { CHECK(!same || t->GetPass(i) == m.passes[i].p, "pass/identity", "%s: pass %zu", who, i); comparePass(m.passes[i], t->GetPass(i), same, t, f, &m, mf, who); }
}
void compareProfile(const Profile& m, FCDEffectProfileFX* f, bool same, const char* who)
{
	CHECK((int) f->GetType() == m.type && m.platform == f->GetPlatform().c_str(), "profile/type", "%s: %d '%s'", who, (int) f->GetType(), f->GetPlatform().c_str());
	compareCodes(m.codes, f->GetCodeCount(), [&](size_t i) { return f->GetCode(i); }, same, who);
	CHECK(f->GetTechniqueCount() == m.techs.size(), "profile/techniques", "%s: %zu, expected %zu", who, f->GetTechniqueCount(), m.techs.size());
	for (size_t i = 0; i < m.techs.size() && i < f->GetTechniqueCount(); ++i) { CHECK(!same || f->GetTechnique(i) == m.techs[i].p, "technique/identity", "%s: %zu", who, i); compareTechnique(m.techs[i], f->GetTechnique(i), same, f, &m, who); }
}
// A shader whose code has gone has none; later codes move down.
void dropCode(Technique& t, int level, int code)
{
	for (auto& p : t.passes) for (auto& s : p.shaders) if (s.level == level) { if (s.code == code) s.level = 0; else if (s.code > code) --s.code; }
}
void fillCode(Rng& r, FCDocument* d, Code& c, std::vector<Code>& others)
{
	c.sid = r.chance(10) ? "" : "code" + std::to_string(r.below(1000)); for (auto& o : others) if (o.sid == c.sid) { c.sid = ""; }
	c.p->SetSubId(c.sid.c_str()); c.type = FCDEffectCode::INCLUDE;
	if (r.chance(50)) { c.text = word(r) + "\n;" + word(r); c.p->SetCode(c.text.c_str()); c.type = FCDEffectCode::CODE; }
	else { S f = "/somewhere/f" + std::to_string(r.below(5)) + ".cg"; c.p->SetFilename(f.c_str()); c.file = f; }
	S got = c.p->GetSubId().c_str(); if (!c.sid.empty()) CHECK(got == c.sid, "code/sid", "'%s' for '%s'", got.c_str(), c.sid.c_str()); c.sid = got;
}
}

PROP(C40, "model of passes, shaders, code and render states")
{
	DocRef d; FCDEffect* e = d->GetEffectLibrary()->AddEntity();
	std::vector<std::unique_ptr<Profile>> profiles;
	int types[] = { FUDaeProfileType::CG, FUDaeProfileType::HLSL, FUDaeProfileType::GLSL, FUDaeProfileType::GLES };
	for (int n = r.range(1, 2); n > 0; --n)
	{
		std::unique_ptr<Profile> f(new Profile); f->type = types[r.below(4)]; f->p = (FCDEffectProfileFX*) e->AddProfile((FUDaeProfileType::Type) f->type); f->platform = word(r); f->p->SetPlatform(f->platform.c_str());
		Technique t; t.p = f->p->AddTechnique(); f->techs.push_back(t); profiles.push_back(std::move(f));
	}
	uint64_t log = 0; int steps = r.range(5, 60), clones = 0, states = 0;
	for (int step = 0; step < steps && mon::violations() == 0; ++step)
	{
		Profile& f = *profiles[r.below(profiles.size())]; if (f.techs.empty() || r.chance(3)) { Technique t; t.p = f.p->AddTechnique(); t.name = word(r); t.p->SetName(t.name.c_str()); f.techs.push_back(t); continue; }
		Technique& t = f.techs[r.below(f.techs.size())]; int op = r.below(22); log = log * 31 + op;
		if (op == 0 || t.passes.empty()) { Pass p; p.p = t.p->AddPass(); p.name = word(r); p.p->SetPassName(p.name.c_str()); t.passes.push_back(p); continue; }
		Pass& p = t.passes[r.below(t.passes.size())];
		switch (op)
		{
		case 1: if (r.chance(25)) { size_t k = &p - &t.passes[0]; p.p->Release(); t.passes.erase(t.passes.begin() + k); } break;
		case 2: { Code c; c.p = t.p->AddCode(); fillCode(r, d, c, t.codes); t.codes.push_back(c); break; }
		case 3: { Code c; c.p = f.p->AddCode(); fillCode(r, d, c, f.codes); f.codes.push_back(c); break; }
		case 4: if (!t.codes.empty() && r.chance(50)) { size_t k = r.below(t.codes.size()); t.codes[k].p->Release(); t.codes.erase(t.codes.begin() + k); dropCode(t, 1, (int) k); } break;
		case 5: if (!f.codes.empty() && r.chance(50)) { size_t k = r.below(f.codes.size()); f.codes[k].p->Release(); f.codes.erase(f.codes.begin() + k); for (auto& x : f.techs) dropCode(x, 2, (int) k); } break;
		case 6: case 7: case 8: // A shader of either kind: adding the vertex or fragment shader replaces those of its kind.
		{
			Shader s; s.level = s.code = 0;
			if (op == 6) { s.p = p.p->AddShader(); s.fragment = r.chance(50); if (s.fragment) s.p->AffectsFragments(); else { s.p->AffectsFragments(); s.p->AffectsVertices(); } }
			else { s.fragment = op == 7; s.p = s.fragment ? p.p->AddFragmentShader() : p.p->AddVertexShader(); for (size_t k = p.shaders.size(); k > 0; --k) if (p.shaders[k - 1].fragment == s.fragment) p.shaders.erase(p.shaders.begin() + (k - 1)); }
			s.name = word(r); s.target = word(r); s.options = word(r); s.p->SetName(s.name.c_str()); s.p->SetCompilerTarget(s.target.c_str()); s.p->SetCompilerOptions(s.options.c_str());
			p.shaders.push_back(s); break;
		}
		case 9: if (!p.shaders.empty() && r.chance(40)) { size_t k = r.below(p.shaders.size()); p.shaders[k].p->Release(); p.shaders.erase(p.shaders.begin() + k); } break;
		case 10: case 11: if (!p.shaders.empty())
		{
			Shader& s = p.shaders[r.below(p.shaders.size())]; s.level = r.below(3);
			if (s.level == 1 && t.codes.empty()) s.level = 2;
			if (s.level == 2 && f.codes.empty()) s.level = 0;
			s.code = s.level == 1 ? (int) r.below(t.codes.size()) : s.level == 2 ? (int) r.below(f.codes.size()) : 0;
			s.p->SetCode(s.level == 1 ? t.codes[s.code].p : s.level == 2 ? f.codes[s.code].p : NULL);
		} break;
		case 12: if (!p.shaders.empty()) { Shader& s = p.shaders[r.below(p.shaders.size())]; S a = word(r), b = word(r); FCDEffectPassBind* x = s.p->AddBinding(); x->reference = a.c_str(); x->symbol = b.c_str(); s.binds.push_back({ a, b }); } break;
		case 13: if (!p.shaders.empty()) { Shader& s = p.shaders[r.below(p.shaders.size())]; if (!s.binds.empty()) { size_t k = r.below(s.binds.size()); s.p->GetBinding(k)->Release(); s.binds.erase(s.binds.begin() + k); } } break;
		case 14: case 15: case 16: // A render state: kept in the order of their types, after those of the same type.
		{
			State s; s.type = r.below(PS::COUNT); s.p = p.p->AddRenderState((PS::State) s.type); ++states;
			Packed want; if (defaults(s.type, want)) CHECK(s.p->GetDataSize() >= want.b.size() && memcmp(s.p->GetData(), want.b.data(), want.b.size()) == 0, "state/default", "%s", PS::ToString((PS::State) s.type));
			s.bytes.assign(s.p->GetData(), s.p->GetData() + s.p->GetDataSize());
			size_t k = 0; while (k < p.states.size() && p.states[k].type <= s.type) ++k;
			p.states.insert(p.states.begin() + k, s); mon::hit("render states added"); break;
		}
		case 17: if (!p.states.empty()) { State& s = p.states[r.below(p.states.size())]; for (auto& b : s.bytes) b = (uint8) r.below(2); memcpy(s.p->GetData(), s.bytes.data(), s.bytes.size()); if (r.chance(20)) { s.p->SetDefaultValue(); Packed want; if (defaults(s.type, want)) CHECK(memcmp(s.p->GetData(), want.b.data(), want.b.size()) == 0, "state/reset", "%s", PS::ToString((PS::State) s.type)); s.bytes.assign(s.p->GetData(), s.p->GetData() + s.p->GetDataSize()); } } break;
		case 18: if (!p.states.empty() && r.chance(50)) { size_t k = r.below(p.states.size()); p.states[k].p->Release(); p.states.erase(p.states.begin() + k); } break;
		case 19: // Clones of the parts, beside the original.
		{
			++clones; mon::hit("parts cloned");
			if (!p.shaders.empty() && r.chance(40))
			{
				Shader& s = p.shaders[r.below(p.shaders.size())]; FCDEffectPassShader* c = s.p->Clone(NULL);
				CHECK(c != NULL && c->GetParent() == p.p && c->IsFragmentShader() == s.fragment && c->GetCode() == s.p->GetCode() && c->GetBindingCount() == s.binds.size() && s.name == c->GetName().c_str(), "shader/clone", "not equal"); c->Release();
			}
			else if (!p.states.empty() && r.chance(30))
			{
				State& s = p.states[r.below(p.states.size())]; FCDEffectPassState* c = s.p->Clone();
				CHECK((int) c->GetType() == s.type && c->GetDataSize() == s.bytes.size() && memcmp(c->GetData(), s.bytes.data(), s.bytes.size()) == 0, "state/clone", "not equal"); c->Release();
			}
			else { FCDEffectPass* c = p.p->Clone(); comparePass(p, c, false, t.p, f.p, &t, &f, "cloned pass"); c->Release(); }
			break;
		}
		case 20: // A technique cloned on its own, or into a profile.
		{
			++clones; mon::hit("techniques cloned");
			if (r.chance(50)) { FCDEffectTechnique* c = t.p->Clone(); compareTechnique(t, c, false, NULL, NULL, "technique cloned alone"); c->Release(); }
			else { FCDEffectTechnique* c = f.p->AddTechnique(); t.p->Clone(c); compareTechnique(t, c, false, f.p, &f, "technique cloned in its profile"); c->Release(); }
			break;
		}
		default: // The profile: on its own or in another effect.
		{
			++clones; mon::hit("profiles cloned");
			if (r.chance(30)) { FCDEffectProfile* c = f.p->Clone(); compareProfile(f, (FCDEffectProfileFX*) c, false, "profile cloned alone"); c->Release(); }
			else { FCDEffect* e2 = d->GetEffectLibrary()->AddEntity(); e->Clone(e2); CHECK(e2->GetProfileCount() == e->GetProfileCount(), "effect/profiles", "%zu", e2->GetProfileCount());
				for (size_t k = 0; k < profiles.size() && k < e2->GetProfileCount(); ++k) compareProfile(*profiles[k], (FCDEffectProfileFX*) e2->GetProfile(k), false, "effect cloned"); e2->Release(); }
			break;
		}
		}
		if (r.chance(30) || step + 1 == steps) for (auto& x : profiles) compareProfile(*x, x->p, true, "profile");
	}
	mon::sig(log); if (states > 0 && steps > 8) mon::nontrivial(); mon::hit("profiles compared", profiles.size());
}
