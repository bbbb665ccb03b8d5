// Random geometry, materials, effects, controllers, physics and animation.
#include "docmon.h"

// ---- Geometry ------------------------------------------------------------------------------------
void DocGen::mesh()
{
	FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); entity(g);
	FCDGeometryMesh* m = g->CreateMesh();
	if (has(SPLINE) && (meshes.empty() ? hulls.empty() && r.chance(12) : r.chance(6)))
	{
		// The hull of another mesh, which may be a later one: holds no data of its own.
		m->SetConvex(true); hulls.push_back(m); mon::hit("hulls");
		return;
	}
	meshes.push_back(g);
	namespace GI = FUDaeGeometryInput;
	auto source = [&](FCDGeometrySource* s, uint32 stride, size_t n) {
		FloatList v; for (size_t k = 0; k < n * stride; ++k) v.push_back(num());
		s->SetData(v, stride); if (r.chance(40)) s->SetName(word(8).c_str());
		if (r.chance(70)) s->SetDaeId(g->GetDaeId() + "-" + word(8).c_str());
		if (has(EXTRA) && r.chance(15)) extra(s->GetExtra(), 2, true);
	};
	size_t nv = (size_t) r.range(3, 12 * scale);
	FCDGeometrySource* p = m->AddVertexSource(GI::POSITION); source(p, r.chance(85) ? 3 : (uint32) r.range(2, 4), nv);
	std::map<FCDGeometrySource*, int> vset;
	if (r.chance(35))
	{
		static const GI::Semantic k[] = { GI::NORMAL, GI::COLOR, GI::TEXCOORD, GI::TEXTANGENT, GI::GEOTANGENT };
		int n = r.range(1, 2);
		for (int q = 0; q < n; ++q) { FCDGeometrySource* s = m->AddVertexSource(k[r.below(5)]); source(s, (uint32) r.range(1, 4), nv); vset[s] = r.chance(50) ? r.range(0, 5) : -1; }
		mon::hit("extra_vertex_sources");
	}
	std::vector<FCDGeometrySource*> others;
	int no = r.range(0, 4);
	static const GI::Semantic kinds[] = { GI::NORMAL, GI::NORMAL, GI::TEXCOORD, GI::TEXCOORD, GI::COLOR, GI::TEXTANGENT, GI::TEXBINORMAL, GI::UV, GI::GEOTANGENT, GI::GEOBINORMAL, GI::EXTRA };
	for (int q = 0; q < no; ++q)
	{
		FCDGeometrySource* s = m->AddSource(kinds[r.below(11)]);
		static const uint32 st[] = { 1, 2, 3, 3, 4, 4, 5, 8, 16 };
		source(s, st[r.below(9)], (size_t) r.range(1, 10 * scale)); others.push_back(s);
	}
	std::set<FCDGeometrySource*> used;
	int sets = r.range(1, 3);
	for (int q = 0; q < sets; ++q)
	{
		FCDGeometryPolygons* s = m->AddPolygons();
		static const FCDGeometryPolygons::PrimitiveType pt[] = { FCDGeometryPolygons::LINES, FCDGeometryPolygons::LINE_STRIPS, FCDGeometryPolygons::TRIANGLE_FANS, FCDGeometryPolygons::TRIANGLE_STRIPS, FCDGeometryPolygons::POINTS };
		FCDGeometryPolygons::PrimitiveType prim = r.chance(75) ? FCDGeometryPolygons::POLYGONS : pt[r.below(5)];
		s->SetPrimitiveType(prim);
		if (r.chance(80)) s->SetMaterialSemantic(fstring((word(8) + std::to_string(q)).c_str()));
		for (auto& v : vset) if (v.second != -1) s->FindInput(v.first)->SetSet(v.second);
		// The faces.
		size_t total = 0;
		auto face = [&](bool canHole, int lo, int hi) {
			uint32 n = (uint32) r.range(std::min(lo, (int) nv), std::min(hi, (int) nv)); s->AddFaceVertexCount(n); total += n;
			if (canHole && r.chance(50)) { int h = r.range(1, 2); for (int w = 0; w < h; ++w) { uint32 k = (uint32) r.range(3, 4); s->AddHole((uint32) s->GetFaceVertexCountCount()); s->AddFaceVertexCount(k); total += k; mon::hit("holes"); } }
		};
		int faces = r.range(prim == FCDGeometryPolygons::POLYGONS && r.chance(5) ? 0 : 1, 6 * scale), style = r.range(0, 3);
		for (int w = 0; w < faces; ++w)
		{
			if (prim == FCDGeometryPolygons::LINES) { uint32 n = 2 * (uint32) r.range(1, 3); s->AddFaceVertexCount(n); total += n; }
			else if (prim == FCDGeometryPolygons::LINE_STRIPS || prim == FCDGeometryPolygons::POINTS) face(false, 2, 6);
			else if (prim != FCDGeometryPolygons::POLYGONS) face(false, 3, 7);
			else if (style == 0) face(false, 3, 3);
			else if (style == 1) face(true, 3, 5);
			else if (style == 2) face(false, 4, 4);
			else face(false, r.chance(10) ? 1 : 3, 8);
		}
		mon::hit(prim == FCDGeometryPolygons::POLYGONS ? "polygon_sets" : "primitive_sets"); mon::hit("faces", faces);
		// The inputs and their indices.
		FCDGeometryPolygonsInput* vi = s->FindInput(p);
		std::map<uint32, size_t> limit; limit[0] = nv;
		uint32 next = 1;
		for (size_t w = 0; w < others.size(); ++w)
		{
			if (q + 1 < sets && r.chance(30)) continue;
			if (q + 1 == sets && used.count(others[w]) && r.chance(30)) continue;
			used.insert(others[w]);
			uint32 off; size_t n = others[w]->GetValueCount();
			if (r.chance(15) && n >= nv) off = 0;
			else if (r.chance(20) && next > 1) { off = (uint32) r.range(1, (int) next - 1); }
			else { off = next; next += r.chance(12) ? 2 : 1; }
			auto f = limit.find(off); limit[off] = f == limit.end() ? n : std::min(f->second, n);
			FCDGeometryPolygonsInput* in = s->AddInput(others[w], off);
			if (r.chance(60)) in->SetSet(r.range(0, 7));
		}
		for (auto& l : limit)
		{
			FCDGeometryPolygonsInput* owner = NULL;
			for (size_t w = 0; w < s->GetInputCount() && owner == NULL; ++w) if (s->GetInput(w)->GetOffset() == l.first) owner = s->GetInput(w);
			if (l.first == 0) owner = vi;
			if (owner == NULL) continue;
			UInt32List ix; for (size_t w = 0; w < total; ++w) ix.push_back((uint32) r.below((uint32) l.second));
			if (r.chance(50)) owner->SetIndices(ix.begin(), ix.size()); else for (size_t w = 0; w < ix.size(); ++w) owner->AddIndex(ix[w]);
		}
		if (has(EXTRA) && r.chance(15)) extra(s->GetExtra(), 2);
	}
	// A source nothing refers to carries no semantic in the file.
	for (auto s : others) if (!used.count(s)) s->Release();
	m->Recalculate();
	mon::hit("meshes");
}

void DocGen::spline()
{
	FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); entity(g); splines.push_back(g);
	FCDGeometrySpline* s = g->CreateSpline();
	static const FUDaeSplineType::Type types[] = { FUDaeSplineType::LINEAR, FUDaeSplineType::BEZIER, FUDaeSplineType::NURBS };
	FUDaeSplineType::Type t = types[r.below(3)]; s->SetType(t);
	int n = r.range(1, 3);
	for (int q = 0; q < n; ++q)
	{
		FCDSpline* x = s->AddSpline(); x->SetClosed(r.chance(40));
		int cvs = r.range(2, 9);
		if (t == FUDaeSplineType::NURBS)
		{
			FCDNURBSSpline* b = (FCDNURBSSpline*) x; int deg = r.range(1, 4); b->SetDegree(deg);
			for (int k = 0; k < cvs; ++k) b->AddCV(vec3(), pos(0.1f, 5));
			float at = 0; for (int k = 0; k < cvs + deg + 1; ++k) { b->AddKnot(at); if (r.chance(60)) at += (float) r.range(1, 3); }
		}
		else for (int k = 0; k < cvs; ++k) { if (t == FUDaeSplineType::LINEAR) ((FCDLinearSpline*) x)->AddCV(vec3()); else ((FCDBezierSpline*) x)->AddCV(vec3()); }
		mon::hit("splines");
	}
}

// ---- Images, materials and effects ---------------------------------------------------------------
void DocGen::image()
{
	FCDImage* x = d->GetImageLibrary()->AddEntity(); entity(x); images.push_back(x);
	static const char* roots[] = { "file:///data/tex/", "file:///", "http://host.example/a/", "file:///data/a%20b/" };
	x->SetFilename(fstring((S(roots[r.below(3)]) + word(8) + ".png").c_str()));
	if (r.chance(40)) { x->SetWidth((uint32) r.range(1, 4096)); x->SetHeight((uint32) r.range(1, 4096)); if (r.chance(50)) x->SetDepth((uint32) r.range(1, 64)); }
	mon::hit("images");
}

FCDEffectParameter* DocGen::effectParam(std::function<FCDEffectParameter*(uint32)> add, bool modifier, int kinds)
{
	std::vector<uint32> types;
	for (uint32 t = 0; t < 10; ++t) if (kinds & (1 << t)) types.push_back(t);
	uint32 type = r.pick(types);
	if (type == FCDEffectParameter::SURFACE && images.empty() && r.chance(70)) type = FCDEffectParameter::FLOAT;
	FCDEffectParameter* p = add(type);
	CHECK(p != NULL && p->GetType() == type, "effect-param-type", "asked %u", type);
	if (modifier) p->SetModifier(); else p->SetGenerator();
	p->SetReference((word(6) + "p" + std::to_string(paramSerial++)).c_str());
	if (!modifier && r.chance(50)) p->SetSemantic(word(10).c_str());
	int n = r.chance(70) ? 0 : r.range(1, 3);
	for (int q = 0; q < n; ++q)
	{
		S name = word(8) + std::to_string(q);
		switch (r.range(0, 3))
		{
		case 0: p->AddAnnotation(fstring(name.c_str()), FCDEffectParameter::STRING, fstring(text(12).c_str())); break;
		case 1: p->AddAnnotation(fstring(name.c_str()), FCDEffectParameter::BOOLEAN, r.chance(50)); break;
		case 2: p->AddAnnotation(fstring(name.c_str()), FCDEffectParameter::INTEGER, (int32) r.range(-1000, 1000)); break;
		default: p->AddAnnotation(fstring(name.c_str()), FCDEffectParameter::FLOAT, num()); break;
		}
	}
	bool half = r.chance(25);
	auto numbers = [&](FMVector4& v) { v = FMVector4(num(), num(), num(), num()); };
	FMVector4 v; numbers(v);
	switch (type)
	{
	case FCDEffectParameter::INTEGER: ((FCDEffectParameterInt*) p)->SetValue(r.range(-100000, 100000)); break;
	case FCDEffectParameter::BOOLEAN: ((FCDEffectParameterBool*) p)->SetValue(r.chance(50)); break;
	case FCDEffectParameter::STRING: ((FCDEffectParameterString*) p)->SetValue(fm::string(text(16).c_str())); break;
	case FCDEffectParameter::FLOAT: { auto* x = (FCDEffectParameterFloat*) p; x->SetValue(v.x); if (half) x->SetFloatType(FCDEffectParameterFloat::HALF); if (!modifier || r.chance(30)) animatable(x->GetValue(), 1); break; }
	case FCDEffectParameter::FLOAT2: { auto* x = (FCDEffectParameterFloat2*) p; x->SetValue(FMVector2(v.x, v.y)); if (half) x->SetFloatType(FCDEffectParameterFloat2::HALF); break; }
	case FCDEffectParameter::FLOAT3: { auto* x = (FCDEffectParameterFloat3*) p; x->SetValue(FMVector3(v.x, v.y, v.z)); if (half) x->SetFloatType(FCDEffectParameterFloat3::HALF); animatable(x->GetValue(), 3); break; }
	case FCDEffectParameter::VECTOR: { auto* x = (FCDEffectParameterVector*) p; x->SetValue(v); if (half) x->SetFloatType(FCDEffectParameterVector::HALF); animatable(x->GetValue(), 4); break; }
	case FCDEffectParameter::MATRIX: { auto* x = (FCDEffectParameterMatrix*) p; x->SetValue(matrix()); if (half) x->SetFloatType(FCDEffectParameterMatrix::HALF); break; }
	case FCDEffectParameter::SAMPLER:
	{
		auto* x = (FCDEffectParameterSampler*) p;
		FCDEffectParameterSampler::SamplerType st = (FCDEffectParameterSampler::SamplerType) r.range(0, 3); x->SetSamplerType(st);
		auto wrap = [&]() { return (FUDaeTextureWrapMode::WrapMode) r.range(0, 4); };
		auto filter = [&]() { return (FUDaeTextureFilterFunction::FilterFunction) r.range(0, 6); };
		x->SetWrapS(wrap()); if (st != FCDEffectParameterSampler::SAMPLER1D) x->SetWrapT(wrap());
		if (st == FCDEffectParameterSampler::SAMPLER3D || st == FCDEffectParameterSampler::SAMPLERCUBE) x->SetWrapP(wrap());
		x->SetMinFilter(filter()); x->SetMagFilter(filter()); x->SetMipFilter(filter());
		if (!scopeSurfaces.empty() && r.chance(85)) x->SetSurface(r.pick(scopeSurfaces));
		scopeSamplers.push_back(x);
		break;
	}
	case FCDEffectParameter::SURFACE:
	{
		auto* x = (FCDEffectParameterSurface*) p;
		typedef FCDEffectParameterSurfaceInitFactory IF;
		static const char* types[] = { "1D", "2D", "3D", "CUBE", "DEPTH", "RECT" };
		x->SetSurfaceType(types[r.below(6)]);
		if (r.chance(40)) x->SetFormat(word(10).c_str());
		if (r.chance(40)) x->SetSize(FMVector3((float) r.range(1, 512), (float) r.range(0, 512), (float) r.range(0, 512))); else if (r.chance(50)) x->SetViewportRatio(pos(0.1f, 4.0f));
		if (r.chance(40)) x->SetMipLevelCount((uint16) r.range(0, 12));
		if (r.chance(40)) x->SetGenerateMipMaps(r.chance(60));
		if (r.chance(30))
		{
			FCDFormatHint* h = x->AddFormatHint();
			h->channels = (FCDFormatHint::channelValues) r.range(1, 7); h->range = (FCDFormatHint::rangeValue) r.range(1, 5); h->precision = (FCDFormatHint::precisionValue) r.range(1, 3);
			int o = r.range(0, 3); for (int q = 0; q < o; ++q) h->options.push_back((FCDFormatHint::optionValue) r.range(0, 3));
			mon::hit("format_hints");
		}
		int init = r.range(-1, 5);
		if (images.empty() && init != IF::AS_NULL && init != IF::AS_TARGET) init = -1;
		auto image = [&]() { x->AddImage(r.pick(images)); };
		FCDEffectParameterSurfaceInit* in = init == -1 ? NULL : IF::Create((IF::InitType) init);
		if (in != NULL) x->SetInitMethod(in);
		switch (init)
		{
		case IF::FROM:
		{
			auto* f = (FCDEffectParameterSurfaceInitFrom*) in; int k = r.chance(60) ? 1 : r.range(2, std::max(2, (int) images.size()));
			// The list of images holds each one once.
			std::vector<FCDImage*> pool(images.begin(), images.end()); for (int q = 0; q < k && !pool.empty(); ++q) { size_t w = r.below(pool.size()); x->AddImage(pool[w]); pool.erase(pool.begin() + w); }
			k = (int) x->GetImageCount();
			static const char* faces[] = { "POSITIVE_X", "NEGATIVE_X", "POSITIVE_Y", "NEGATIVE_Y", "POSITIVE_Z", "NEGATIVE_Z" };
			if (r.chance(50)) { for (int q = 0; q < k; ++q) f->mip.push_back(fm::string(std::to_string(q).c_str())); if (r.chance(50)) for (int q = 0; q < k; ++q) f->face.push_back(faces[r.below(6)]); if (r.chance(30)) for (int q = 0; q < k; ++q) f->slice.push_back(fm::string(std::to_string(r.range(0, 9)).c_str())); mon::hit("surface_mips"); }
			if (k > 1) mon::hit("multi_image_surfaces");
			break;
		}
		case IF::CUBE:
		{
			auto* c = (FCDEffectParameterSurfaceInitCube*) in; c->cubeType = images.size() >= 6 && r.chance(50) ? FCDEffectParameterSurfaceInitCube::FACE : r.chance(50) ? FCDEffectParameterSurfaceInitCube::ALL : FCDEffectParameterSurfaceInitCube::PRIMARY;
			if (c->cubeType == FCDEffectParameterSurfaceInitCube::FACE) for (int q = 0; q < 6; ++q) x->AddImage(images[q]); else image();
			break;
		}
		case IF::VOLUME: ((FCDEffectParameterSurfaceInitVolume*) in)->volumeType = r.chance(50) ? FCDEffectParameterSurfaceInitVolume::ALL : FCDEffectParameterSurfaceInitVolume::PRIMARY; image(); break;
		case IF::PLANAR: image(); break;
		default: break;
		}
		scopeSurfaces.push_back(x);
		break;
	}
	}
	mon::hit("effect_params");
	return p;
}

void DocGen::standardProfile(FCDEffect* e)
{
	FCDEffectStandard* s = (FCDEffectStandard*) e->AddProfile(FUDaeProfileType::COMMON);
	auto keep1 = scopeSurfaces; auto keep2 = scopeSamplers;
	int n = r.range(0, 3);
	for (int q = 0; q < n; ++q) effectParam([&](uint32 t) { return s->AddEffectParameter(t); }, false);
	FCDEffectStandard::LightingType lt = (FCDEffectStandard::LightingType) r.range(0, 3); s->SetLightingType(lt);
	bool spec = lt == FCDEffectStandard::PHONG || lt == FCDEffectStandard::BLINN, amb = lt != FCDEffectStandard::CONSTANT;
	namespace C = FUDaeTextureChannel;
	auto textures = [&](uint32 bucket, int pct) {
		if (!r.chance(pct)) return false;
		int k = r.range(1, 2);
		for (int q = 0; q < k; ++q)
		{
			FCDTexture* t = s->AddTexture(bucket);
			if (!images.empty() && (scopeSamplers.empty() || r.chance(70))) t->SetImage(r.pick(images));
			else if (!scopeSamplers.empty()) t->SetSampler(r.pick(scopeSamplers));
			if (r.chance(60)) { int set = r.range(0, 4); bool numeric = r.chance(40); t->GetSet()->SetSemantic((numeric ? std::to_string(set) : word(6)).c_str()); t->GetSet()->SetValue(numeric ? set : 0); if (!numeric) t->GetSet()->SetValue(FUStringConversion::ToInt32(t->GetSet()->GetSemantic())); }
			if (has(EXTRA) && r.chance(30)) extra(t->GetExtra(), 1);
			mon::hit("textures");
		}
		return true;
	};
	int pct = images.empty() && scopeSamplers.empty() ? 0 : 25;
	auto col = [&](FCDEffectParameterColor4* p, uint32 bucket) {
		// Textures replace the colour.
		if (bucket != C::UNKNOWN && textures(bucket, pct)) { p->SetValue(FMVector4::One); return; }
		if (r.chance(10)) { p->SetReference((word(6) + "r" + std::to_string(paramSerial++)).c_str()); p->SetReferencer(); p->SetValue(p->GetValue()); mon::hit("referencers"); return; }
		p->SetValue(color4()); animatable(p->GetValue(), 4);
	};
	auto flt = [&](FCDEffectParameterFloat* p, uint32 bucket, float lo, float hi) {
		if (bucket != C::UNKNOWN && textures(bucket, pct)) { p->SetValue(1.0f); return; }
		if (r.chance(10)) { p->SetReference((word(6) + "r" + std::to_string(paramSerial++)).c_str()); p->SetReferencer(); mon::hit("referencers"); return; }
		p->SetValue(pos(lo, hi)); animatable(p->GetValue(), 1);
	};
	if (r.chance(25)) { s->SetIsEmissionFactor(true); flt(s->GetEmissionFactorParam(), C::EMISSION, 0, 2); } else col(s->GetEmissionColorParam(), C::EMISSION);
	if (amb) { col(s->GetAmbientColorParam(), C::AMBIENT); col(s->GetDiffuseColorParam(), C::DIFFUSE); }
	if (spec) { col(s->GetSpecularColorParam(), C::SPECULAR); flt(s->GetShininessParam(), C::SHININESS, 0, 100); flt(s->GetSpecularFactorParam(), C::SPECULAR_LEVEL, 0, 4); }
	if (r.chance(50)) s->SetTransparencyMode(r.chance(50) ? FCDEffectStandard::RGB_ZERO : FCDEffectStandard::A_ONE);
	col(s->GetTranslucencyColorParam(), C::TRANSPARENT); flt(s->GetTranslucencyFactorParam(), C::UNKNOWN, 0, 1);
	if (r.chance(40)) { s->SetReflective(true); col(s->GetReflectivityColorParam(), C::REFLECTION); flt(s->GetReflectivityFactorParam(), C::UNKNOWN, 0, 1); }
	if (r.chance(40)) { s->SetRefractive(true); flt(s->GetIndexOfRefractionParam(), C::REFRACTION, 1, 3); }
	textures(C::BUMP, pct); textures(C::DISPLACEMENT, pct); textures(C::FILTER, pct);
	if (has(EXTRA) && r.chance(25)) extra(s->GetExtra(), 2);
	scopeSurfaces = keep1; scopeSamplers = keep2;
	mon::hit("standard_profiles");
}

static const char* enumNames[] = {
	"NEVER", "LESS", "EQUAL", "LEQUAL", "GREATER", "NOTEQUAL", "GEQUAL", "ALWAYS", "KEEP", "ZERO", "REPLACE", "INCR", "DECR", "INVERT", "INCR_WRAP", "DECR_WRAP",
	"ONE", "SRC_COLOR", "ONE_MINUS_SRC_COLOR", "DEST_COLOR", "ONE_MINUS_DEST_COLOR", "SRC_ALPHA", "ONE_MINUS_SRC_ALPHA", "DEST_ALPHA", "ONE_MINUS_DEST_ALPHA",
	"CONSTANT_COLOR", "ONE_MINUS_CONSTANT_COLOR", "CONSTANT_ALPHA", "ONE_MINUS_CONSTANT_ALPHA", "SRC_ALPHA_SATURATE", "FRONT", "BACK", "FRONT_AND_BACK", "FUNC_ADD",
	"FUNC_SUBTRACT", "FUNC_REVERSE_SUBTRACT", "MIN", "MAX", "EMISSION", "AMBIENT", "DIFFUSE", "SPECULAR", "AMBIENT_AND_DIFFUSE", "LINEAR", "EXP", "EXP2",
	"FOG_COORDINATE", "FRAGMENT_DEPTH", "CW", "CCW", "CLEAR", "AND", "AND_REVERSE", "COPY", "AND_INVERTED", "NOOP", "XOR", "OR", "NOR", "EQUIV", "OR_REVERSE",
	"COPY_INVERTED", "NAND", "SET", "POINT", "LINE", "FILL", "FLAT", "SMOOTH", "SINGLE_COLOR", "SEPARATE_SPECULAR_COLOR",
};

// The value layout of each render state, as its bytes are read by the users of FCDEffectPassState::GetData.
void DocGen::passState(FCDEffectPassState* st)
{
	uint8* data = st->GetData();
	auto put = [&](size_t at, const void* v, size_t n) { if (at + n > st->GetDataSize()) { mon::viol("pass-state-size", "state %d holds %zu bytes, needs %zu", (int) st->GetType(), st->GetDataSize(), at + n); return; } memcpy(data + at, v, n); };
	auto flt = [&](size_t at, int n) { for (int q = 0; q < n; ++q) { float f = num(); put(at + 4 * q, &f, 4); } };
	auto byte = [&](size_t at, int hi = 255) { uint8 b = (uint8) r.range(0, hi); put(at, &b, 1); };
	auto u32 = [&](size_t at) { uint32 v = r.chance(30) ? 0xFFFFFFFFu : (uint32) r.below(1000000); put(at, &v, 4); };
#define E(at, ns, type) { static std::vector<uint32> all; if (all.empty()) for (const char* w : enumNames) { auto v = ns::FromString(w); if (v != ns::INVALID) all.push_back((uint32) v); } uint32 v = r.pick(all); put(at, &v, 4); }
	switch (st->GetType())
	{
	case FUDaePassState::ALPHA_FUNC: E(0, FUDaePassStateFunction, Function); flt(4, 1); break;
	case FUDaePassState::BLEND_FUNC: for (int q = 0; q < 2; ++q) E(4 * q, FUDaePassStateBlendType, Type); break;
	case FUDaePassState::BLEND_FUNC_SEPARATE: for (int q = 0; q < 4; ++q) E(4 * q, FUDaePassStateBlendType, Type); break;
	case FUDaePassState::BLEND_EQUATION: E(0, FUDaePassStateBlendEquation, Equation); break;
	case FUDaePassState::BLEND_EQUATION_SEPARATE: E(0, FUDaePassStateBlendEquation, Equation); E(4, FUDaePassStateBlendEquation, Equation); break;
	case FUDaePassState::COLOR_MATERIAL: E(0, FUDaePassStateFaceType, Type); E(4, FUDaePassStateMaterialType, Type); break;
	case FUDaePassState::CULL_FACE: E(0, FUDaePassStateFaceType, Type); break;
	case FUDaePassState::DEPTH_FUNC: E(0, FUDaePassStateFunction, Function); break;
	case FUDaePassState::FOG_MODE: E(0, FUDaePassStateFogType, Type); break;
	case FUDaePassState::FOG_COORD_SRC: E(0, FUDaePassStateFogCoordinateType, Type); break;
	case FUDaePassState::FRONT_FACE: E(0, FUDaePassStateFrontFaceType, Type); break;
	case FUDaePassState::LIGHT_MODEL_COLOR_CONTROL: E(0, FUDaePassStateLightModelColorControlType, Type); break;
	case FUDaePassState::LOGIC_OP: E(0, FUDaePassStateLogicOperation, Operation); break;
	case FUDaePassState::POLYGON_MODE: E(0, FUDaePassStateFaceType, Type); E(4, FUDaePassStatePolygonMode, Mode); break;
	case FUDaePassState::SHADE_MODEL: E(0, FUDaePassStateShadeModel, Model); break;
	case FUDaePassState::STENCIL_FUNC: E(0, FUDaePassStateFunction, Function); byte(4); byte(5); break;
	case FUDaePassState::STENCIL_OP: for (int q = 0; q < 3; ++q) E(4 * q, FUDaePassStateStencilOperation, Operation); break;
	case FUDaePassState::STENCIL_FUNC_SEPARATE: E(0, FUDaePassStateFunction, Function); E(4, FUDaePassStateFunction, Function); byte(8); byte(9); break;
	case FUDaePassState::STENCIL_OP_SEPARATE: E(0, FUDaePassStateFaceType, Type); for (int q = 1; q < 4; ++q) E(4 * q, FUDaePassStateStencilOperation, Operation); break;
	case FUDaePassState::STENCIL_MASK_SEPARATE: E(0, FUDaePassStateFaceType, Type); byte(4); break;
	case FUDaePassState::LIGHT_AMBIENT: case FUDaePassState::LIGHT_DIFFUSE: case FUDaePassState::LIGHT_SPECULAR: case FUDaePassState::LIGHT_POSITION: case FUDaePassState::TEXTURE_ENV_COLOR: case FUDaePassState::CLIP_PLANE: byte(0); flt(1, 4); break;
	case FUDaePassState::LIGHT_CONSTANT_ATTENUATION: case FUDaePassState::LIGHT_LINEAR_ATTENUATION: case FUDaePassState::LIGHT_QUADRATIC_ATTENUATION: case FUDaePassState::LIGHT_SPOT_CUTOFF: case FUDaePassState::LIGHT_SPOT_EXPONENT: byte(0); flt(1, 1); break;
	case FUDaePassState::LIGHT_SPOT_DIRECTION: byte(0); flt(1, 3); break;
	case FUDaePassState::TEXTURE1D: case FUDaePassState::TEXTURE2D: case FUDaePassState::TEXTURE3D: case FUDaePassState::TEXTURECUBE: case FUDaePassState::TEXTURERECT: case FUDaePassState::TEXTUREDEPTH: byte(0); u32(1); break;
	case FUDaePassState::LIGHT_ENABLE: case FUDaePassState::TEXTURE1D_ENABLE: case FUDaePassState::TEXTURE2D_ENABLE: case FUDaePassState::TEXTURE3D_ENABLE: case FUDaePassState::TEXTURECUBE_ENABLE: case FUDaePassState::TEXTURERECT_ENABLE: case FUDaePassState::TEXTUREDEPTH_ENABLE: case FUDaePassState::CLIP_PLANE_ENABLE: byte(0); byte(1, 1); break;
	case FUDaePassState::TEXTURE_ENV_MODE: { byte(0); S w = word(20); put(1, w.c_str(), w.size() + 1); break; }
	case FUDaePassState::BLEND_COLOR: case FUDaePassState::CLEAR_COLOR: case FUDaePassState::FOG_COLOR: case FUDaePassState::LIGHT_MODEL_AMBIENT: case FUDaePassState::MATERIAL_AMBIENT: case FUDaePassState::MATERIAL_DIFFUSE: case FUDaePassState::MATERIAL_EMISSION: case FUDaePassState::MATERIAL_SPECULAR: case FUDaePassState::SCISSOR: flt(0, 4); break;
	case FUDaePassState::POINT_DISTANCE_ATTENUATION: flt(0, 3); break;
	case FUDaePassState::DEPTH_BOUNDS: case FUDaePassState::DEPTH_RANGE: case FUDaePassState::POLYGON_OFFSET: flt(0, 2); break;
	case FUDaePassState::CLEAR_STENCIL: case FUDaePassState::STENCIL_MASK: u32(0); break;
	case FUDaePassState::CLEAR_DEPTH: case FUDaePassState::FOG_DENSITY: case FUDaePassState::FOG_START: case FUDaePassState::FOG_END: case FUDaePassState::LINE_WIDTH: case FUDaePassState::MATERIAL_SHININESS: case FUDaePassState::POINT_FADE_THRESHOLD_SIZE: case FUDaePassState::POINT_SIZE: case FUDaePassState::POINT_SIZE_MIN: case FUDaePassState::POINT_SIZE_MAX: flt(0, 1); break;
	case FUDaePassState::COLOR_MASK: for (int q = 0; q < 4; ++q) byte(q, 1); break;
	case FUDaePassState::LINE_STIPPLE: for (int q = 0; q < 2; ++q) { uint16 v = (uint16) r.below(65536); put(2 * q, &v, 2); } break;
	case FUDaePassState::MODEL_VIEW_MATRIX: case FUDaePassState::PROJECTION_MATRIX: flt(0, 16); break;
	default: byte(0, 1); break;
	}
#undef E
	mon::hit("pass_states");
}

void DocGen::fxProfile(FCDEffect* e)
{
	static const FUDaeProfileType::Type kinds[] = { FUDaeProfileType::CG, FUDaeProfileType::HLSL, FUDaeProfileType::GLSL, FUDaeProfileType::GLES };
	FCDEffectProfileFX* x = (FCDEffectProfileFX*) e->AddProfile(kinds[r.below(4)]);
	auto keep1 = scopeSurfaces; auto keep2 = scopeSamplers;
	if (r.chance(50)) x->SetPlatform(fstring(word(8).c_str()));
	std::vector<FCDEffectCode*> codes;
	auto code = [&](FCDEffectCode* c) {
		c->SetSubId((word(6) + "c" + std::to_string(paramSerial++)).c_str());
		if (r.chance(60)) { c->SetType(FCDEffectCode::CODE); S t = text(40); if (r.chance(50)) t += "\n\tfloat4 x = a < b && c > d;\n" + word(4); c->SetCode(fstring(t.c_str())); }
		else { c->SetType(FCDEffectCode::INCLUDE); c->SetFilename(fstring(("file:///data/" + word(8) + ".cgfx").c_str())); }
		codes.push_back(c); mon::hit("codes");
	};
	for (int n = r.range(0, 2); n > 0; --n) code(x->AddCode());
	for (int n = r.range(0, 3); n > 0; --n) effectParam([&](uint32 t) { return x->AddEffectParameter(t); }, false);
	int nt = r.range(0, 2);
	size_t shared = codes.size();
	for (int k = 0; k < nt; ++k)
	{
		FCDEffectTechnique* t = x->AddTechnique(); t->SetName(fstring((word(6) + std::to_string(k)).c_str()));
		codes.resize(shared);
		for (int n = r.range(0, 2); n > 0; --n) code(t->AddCode());
		auto k1 = scopeSurfaces; auto k2 = scopeSamplers;
		for (int n = r.range(0, 2); n > 0; --n) effectParam([&](uint32 ty) { return t->AddEffectParameter(ty); }, r.chance(40));
		scopeSurfaces = k1; scopeSamplers = k2;
		for (int n = r.range(1, 2); n > 0; --n)
		{
			FCDEffectPass* p = t->AddPass(); if (r.chance(70)) p->SetPassName((word(6) + "s" + std::to_string(n)).c_str());
			for (int m = r.range(0, 4); m > 0; --m) passState(p->AddRenderState((FUDaePassState::State) r.range(0, (int) FUDaePassState::COUNT - 1)));
			for (int m = r.range(0, 2); m > 0; --m)
			{
				FCDEffectPassShader* sh = r.chance(50) ? p->AddVertexShader() : p->AddFragmentShader();
				sh->SetName(word(8).c_str()); if (!codes.empty() && r.chance(70)) sh->SetCode(r.pick(codes));
				if (r.chance(50)) sh->SetCompilerTarget(fstring(word(6).c_str())); if (r.chance(50)) sh->SetCompilerOptions(fstring(text(10).c_str()));
				for (int b = r.range(0, 3); b > 0; --b) { FCDEffectPassBind* q = sh->AddBinding(); q->symbol = word(6).c_str(); q->reference = word(6).c_str(); }
				mon::hit("shaders");
			}
		}
	}
	if (has(EXTRA) && r.chance(25)) extra(x->GetExtra(), 2);
	scopeSurfaces = keep1; scopeSamplers = keep2;
	mon::hit("fx_profiles");
}

void DocGen::effect()
{
	FCDEffect* e = d->GetEffectLibrary()->AddEntity(); entity(e); effects.push_back(e);
	scopeSurfaces.clear(); scopeSamplers.clear();
	for (int n = r.range(0, 2); n > 0; --n) effectParam([&](uint32 t) { return e->AddEffectParameter(t); }, false);
	if (r.chance(75)) standardProfile(e);
	if (has(FX)) for (int n = r.range(0, 2); n > 0; --n) fxProfile(e);
	mon::hit("effects");
}

void DocGen::material()
{
	FCDMaterial* m = d->GetMaterialLibrary()->AddEntity(); entity(m); materials.push_back(m);
	if (effects.empty() || r.chance(5)) return;
	m->SetEffect(r.pick(effects));
	scopeSurfaces.clear(); scopeSamplers.clear();
	for (int n = r.range(0, 2); n > 0; --n) { FCDMaterialTechniqueHint h; h.platform = fstring(word(6).c_str()); h.technique = word(6).c_str(); m->GetTechniqueHints().push_back(h); }
	for (int n = r.chance(50) ? 0 : r.range(1, 3); n > 0; --n) effectParam([&](uint32 t) { return m->AddEffectParameter(t); }, true);
	mon::hit("materials");
}

void DocGen::bindMaterials(FCDGeometryInstance* gi, FCDGeometryMesh* m)
{
	if (materials.empty()) return;
	for (size_t q = 0; q < m->GetPolygonsCount(); ++q)
	{
		if (r.chance(25)) continue;
		FCDMaterial* mat = r.pick(materials);
		FCDMaterialInstance* mi;
		if (r.chance(60) && !m->GetPolygons(q)->GetMaterialSemantic().empty()) mi = gi->AddMaterialInstance(mat, m->GetPolygons(q));
		else mi = gi->AddMaterialInstance(mat, fstring((word(6) + std::to_string(q)).c_str()));
		for (int n = r.chance(60) ? 0 : r.range(1, 2); n > 0; --n) mi->AddBinding((word(6) + std::to_string(n)).c_str(), (word(6) + "/" + word(5)).c_str());
		namespace GI = FUDaeGeometryInput; static const GI::Semantic k[] = { GI::TEXCOORD, GI::NORMAL, GI::COLOR, GI::TEXTANGENT };
		for (int n = r.chance(60) ? 0 : r.range(1, 2); n > 0; --n) mi->AddVertexInputBinding((word(6) + std::to_string(n)).c_str(), k[r.below(4)], r.range(0, 5));
		if (has(EXTRA) && r.chance(20)) extra(mi->GetExtra(), 1);
		mon::hit("material_instances");
	}
	if (gi->GetMaterialInstanceCount() > 0)
		for (int n = r.chance(75) ? 0 : r.range(1, 2); n > 0; --n)
		{
			bool vec = r.chance(50);
			FCDEffectParameter* p = gi->AddEffectParameter(vec ? FCDEffectParameter::VECTOR : FCDEffectParameter::FLOAT);
			p->SetAnimator(); p->SetReference((word(6) + "a" + std::to_string(paramSerial++)).c_str()); p->SetSemantic(word(8).c_str());
			if (vec) animatable(((FCDEffectParameterVector*) p)->GetValue(), 4); else animatable(((FCDEffectParameterFloat*) p)->GetValue(), 1);
			mon::hit("animators");
		}
}

// ---- Controllers ---------------------------------------------------------------------------------
static size_t pointCount(FCDGeometry* g)
{
	if (g->IsMesh()) return g->GetMesh()->GetPositionSource() != NULL ? g->GetMesh()->GetPositionSource()->GetValueCount() : 0;
	return g->IsSpline() ? g->GetSpline()->GetTotalCVCount() : 0;
}
void DocGen::skin()
{
	std::vector<FCDEntity*> cand(meshes.begin(), meshes.end());
	cand.insert(cand.end(), splines.begin(), splines.end());
	for (auto* m : morphs) { cand.push_back(m); cand.push_back(m); }
	if (!skins.empty() && r.chance(20)) cand.push_back(r.pick(skins));
	if (cand.empty()) return;
	FCDController* c = d->GetControllerLibrary()->AddEntity(); entity(c);
	FCDSkinController* s = c->CreateSkinController();
	FCDEntity* target = r.pick(cand);
	s->SetTarget(target);
	CHECK(s->GetTarget() == target, "skin-target", "a geometry or a controller of one is refused as the target of a skin");
	if (r.chance(70)) s->SetBindShapeTransform(affine());
	std::vector<FCDSceneNode*> pool(joints); 
	for (size_t k = pool.size(); k > 1; --k) std::swap(pool[k - 1], pool[r.below((uint32) k)]);
	int n = r.range(0, (int) pool.size());
	if (r.chance(50))
	{
		s->SetJointCount(n);
		for (int k = 0; k < n; ++k) { s->GetJoint(k)->SetId(pool[k]->GetSubId()); s->GetJoint(k)->SetBindPoseInverse(affine()); }
	}
	else for (int k = 0; k < n; ++k) { if (r.chance(80)) s->AddJoint(pool[k]->GetSubId(), affine()); else s->AddJoint(pool[k]->GetSubId()); }
	CHECK(s->GetInfluenceCount() == pointCount(c->GetBaseGeometry()), "skin-influences", "%d influences for %d points", (int) s->GetInfluenceCount(), (int) pointCount(c->GetBaseGeometry()));
	for (size_t v = 0; v < s->GetInfluenceCount(); ++v)
	{
		// The import scales the weights of a vertex to a sum of one; these have it.
		static const int parts[][4] = { { 20, 0, 0, 0 }, { 10, 10, 0, 0 }, { 13, 7, 0, 0 }, { 1, 19, 0, 0 }, { 5, 5, 10, 0 }, { 3, 12, 5, 0 }, { 5, 5, 5, 5 }, { 1, 2, 8, 9 } };
		FCDSkinControllerVertex* x = s->GetVertexInfluence(v);
		const int* p = parts[r.below(8)]; int k = r.chance(12) ? 0 : 1; if (k) while (k < 4 && p[k] != 0) ++k;
		if (r.chance(50)) { x->SetPairCount(k); for (int q = 0; q < k; ++q) { x->GetPair(q)->jointIndex = r.range(-1, n - 1); x->GetPair(q)->weight = p[q] / 20.0f; } }
		else for (int q = 0; q < k; ++q) x->AddPair(r.range(-1, n - 1), p[q] / 20.0f);
		mon::hit("weight_pairs", k);
		if (k == 1 && r.chance(20)) { x->AddPair(r.range(-1, n - 1), 0.0f); }
	}
	skins.push_back(c); mon::hit("skins"); mon::hit("skin_joints", n);
}
void DocGen::morph()
{
	std::vector<FCDEntity*> cand(meshes.begin(), meshes.end());
	cand.insert(cand.end(), splines.begin(), splines.end());
	if (!morphs.empty() && r.chance(30)) cand.push_back(r.pick(morphs));
	FCDController* c = d->GetControllerLibrary()->AddEntity(); entity(c);
	FCDMorphController* m = c->CreateMorphController();
	FCDEntity* base = r.pick(cand);
	bool late = r.chance(20);
	if (!late) m->SetBaseTarget(base);
	m->SetMethod(r.chance(50) ? FUDaeMorphMethod::NORMALIZED : FUDaeMorphMethod::RELATIVE);
	FCDGeometry* bg = base->GetType() == FCDEntity::CONTROLLER ? ((FCDController*) base)->GetBaseGeometry() : (FCDGeometry*) base;
	std::vector<FCDGeometry*> fits, misfits;
	for (auto* g : meshes) (bg->IsMesh() && pointCount(g) == pointCount(bg) ? fits : misfits).push_back(g);
	for (auto* g : splines) (bg->IsSpline() && pointCount(g) == pointCount(bg) ? fits : misfits).push_back(g);
	if (bg->IsMesh() && r.chance(80))
	{
		// A shape of its own.
		FCDGeometry* g = d->GetGeometryLibrary()->AddEntity(); entity(g);
		FCDGeometryMesh* t = g->CreateMesh(); FCDGeometrySource* p = t->AddVertexSource(FUDaeGeometryInput::POSITION);
		uint32 stride = bg->GetMesh()->GetPositionSource()->GetStride();
		FloatList v; for (size_t k = 0; k < pointCount(bg) * stride; ++k) v.push_back(num());
		p->SetData(v, stride); p->SetDaeId(g->GetDaeId() + "-p");
		fits.push_back(g); fits.push_back(g);
	}
	int n = r.range(0, 3 * scale);
	for (int k = 0; k < n && !fits.empty(); ++k)
	{
		FCDMorphTarget* t = m->AddTarget(r.pick(fits), r.chance(20) ? 0.0f : num(2));
		CHECK(t != NULL, "morph-target", "a shape with as many points as the base is refused as a target");
		if (t == NULL) continue;
		animatable(t->GetWeight(), 1); mon::hit("morph_targets");
	}
	if (!late && !misfits.empty() && m->IsSimilar(bg))
		CHECK(m->AddTarget(r.pick(misfits), 0.5f) == NULL, "morph-misfit", "a shape with another number of points is accepted as a target");
	if (late) m->SetBaseTarget(base);
	CHECK(m->GetBaseTarget() == base, "morph-base", "the base of a morph is not the one set");
	morphs.push_back(c); mon::hit("morphs");
}
// ---- Physics -------------------------------------------------------------------------------------
static void physMaterialValues(DocGen& g, FCDPhysicsMaterial* m) { m->SetStaticFriction(g.num()); m->SetDynamicFriction(g.num()); m->SetRestitution(g.num()); }
// Parts of a model are named by their sids.
static void part(DocGen& g, FCDEntity* e)
{
	if (g.r.chance(60)) e->SetName(g.word(8).c_str());
	if (g.has(DocGen::EXTRA) && g.r.chance(25)) g.extra(e->GetExtra(), 2);
}
void DocGen::physShape(FCDPhysicsShape* s)
{
	s->SetHollow(r.chance(50));
	FCDGeometry* solid = NULL;
	if (!meshes.empty() && r.chance(25)) solid = r.pick(meshes);
	// Volumes are measured over the positions.
	if (solid != NULL) for (size_t q = 0; q < solid->GetMesh()->GetPolygonsCount(); ++q) { FCDGeometryPolygonsInput* in = solid->GetMesh()->GetPolygons(q)->FindInput(FUDaeGeometryInput::POSITION); if (in == NULL || in->GetSource() == NULL || in->GetSource()->GetStride() < 3) { solid = NULL; break; } }
	if (solid != NULL) { FCDGeometryInstance* in = s->CreateGeometryInstance(solid); if (r.chance(40)) bindMaterials(in, solid->GetMesh()); mon::hit("mesh_shapes"); }
	else
	{
		FCDPhysicsAnalyticalGeometry* g = s->CreateAnalyticalGeometry((FCDPhysicsAnalyticalGeometry::GeomType) r.range(0, FCDPhysicsAnalyticalGeometry::TAPERED_CAPSULE));
		auto p = [&] { return pos(0.1f, 20); };
		auto p2 = [&] { float x = p(), y = p(); return FMVector2(x, y); };
		switch (g->GetGeomType())
		{
		case FCDPhysicsAnalyticalGeometry::BOX: { float x = p(), y = p(), z = p(); ((FCDPASBox*) g)->halfExtents = FMVector3(x, y, z); break; }
		case FCDPhysicsAnalyticalGeometry::PLANE: ((FCDPASPlane*) g)->normal = axis(); ((FCDPASPlane*) g)->d = num(); break;
		case FCDPhysicsAnalyticalGeometry::SPHERE: ((FCDPASSphere*) g)->radius = p(); break;
		case FCDPhysicsAnalyticalGeometry::TAPERED_CYLINDER: ((FCDPASTaperedCylinder*) g)->radius2 = p2(); // fallthrough
		case FCDPhysicsAnalyticalGeometry::CYLINDER: ((FCDPASCylinder*) g)->height = p(); ((FCDPASCylinder*) g)->radius = p2(); break;
		case FCDPhysicsAnalyticalGeometry::TAPERED_CAPSULE: ((FCDPASTaperedCapsule*) g)->radius2 = p2(); // fallthrough
		case FCDPhysicsAnalyticalGeometry::CAPSULE: ((FCDPASCapsule*) g)->height = p(); ((FCDPASCapsule*) g)->radius = p2(); break;
		}
		mon::hit("analytical_shapes");
	}
	// Exactly one of the two is given: the other follows from the volume.
	if (r.chance(60)) s->SetMass(pos(0.01f, 100)); else { s->SetDensity(pos(0.01f, 100)); s->SetDensityMoreAccurate(true); }
	if (r.chance(25)) { physMaterialValues(*this, s->AddOwnPhysicsMaterial()); mon::hit("shape_materials"); }
	else if (!physMaterials.empty() && r.chance(40)) { s->SetPhysicsMaterial(r.pick(physMaterials)); mon::hit("shape_material_links"); }
	for (int k = count(2); k > 0; --k)
	{
		FCDTransform* t = s->AddTransform(r.chance(50) ? FCDTransform::TRANSLATION : FCDTransform::ROTATION);
		transformValue(t); if (r.chance(30)) t->SetSubId((word(6) + "_" + std::to_string(paramSerial++)).c_str());
	}
	mon::hit("shapes");
}
void DocGen::physParams(FCDPhysicsRigidBodyParameters* p)
{
	p->SetDynamic(r.chance(50)); animatable(p->GetDynamic(), 1);
	p->SetMass(num()); animatable(p->GetMass(), 1);
	if (r.chance(60)) { p->SetInertiaAccurate(true); p->SetInertia(vec3()); animatable(p->GetInertia(), 3); }
	p->SetMassFrameTranslate(vec3()); animatable(p->GetMassFrameTranslate(), 3);
	FMVector3 ax = axis(); p->SetMassFrameOrientation(FMAngleAxis(ax, num(360))); animatable(p->GetMassFrameOrientation(), 4);
	if (r.chance(40)) physMaterialValues(*this, p->AddOwnPhysicsMaterial());
	else if (!physMaterials.empty()) p->SetPhysicsMaterial(r.pick(physMaterials));
	for (int k = r.range(1, 1 + scale); k > 0; --k) physShape(p->AddPhysicsShape());
}
void DocGen::physModelInstance(FCDPhysicsModelInstance* in, FCDPhysicsModel* m)
{
	if (r.chance(30)) in->SetName(word(8).c_str());
	if (r.chance(30)) in->SetWantedSubId((word(6) + "M").c_str());
	if (has(EXTRA) && r.chance(25)) extra(in->GetExtra(), 1);
	// The force fields come last.
	for (size_t q = 0; q < m->GetRigidBodyCount(); ++q)
	{
		if (nodes.empty() || !r.chance(50)) continue;
		FCDPhysicsRigidBodyInstance* b = in->AddRigidBodyInstance(m->GetRigidBody(q));
		b->SetTargetNode(r.pick(nodes));
		b->SetVelocity(vec3()); animatable(b->GetVelocity(), 3); b->SetAngularVelocity(vec3()); animatable(b->GetAngularVelocity(), 3);
		physParams(b->GetParameters());
		if (r.chance(30)) b->SetWantedSubId((word(6) + "B" + std::to_string(q)).c_str());
		if (has(EXTRA) && r.chance(25)) extra(b->GetExtra(), 1);
		mon::hit("body_instances");
	}
	for (size_t q = 0; q < m->GetRigidConstraintCount(); ++q)
	{
		if (!r.chance(50)) continue;
		FCDPhysicsRigidConstraintInstance* b = in->AddRigidConstraintInstance(m->GetRigidConstraint(q));
		if (r.chance(30)) b->SetWantedSubId((word(6) + "C" + std::to_string(q)).c_str());
		if (has(EXTRA) && r.chance(25)) extra(b->GetExtra(), 1);
		mon::hit("constraint_instances");
	}
	if (!forces.empty() && r.chance(40)) { in->AddForceFieldInstance(r.pick(forces)); mon::hit("force_instances"); }
	mon::hit("model_instances");
}
void DocGen::physics()
{
	for (int n = count(2); n > 0; --n) { FCDPhysicsMaterial* m = d->GetPhysicsMaterialLibrary()->AddEntity(); physMaterials.push_back(m); entity(m); physMaterialValues(*this, m); mon::hit("physics_materials"); }
	for (int n = 1 + count(1); n > 0; --n)
	{
		FCDPhysicsModel* m = d->GetPhysicsModelLibrary()->AddEntity(); entity(m);
		for (int k = count(2); k > 0; --k) { FCDPhysicsRigidBody* b = m->AddRigidBody(); part(*this, b); b->SetSubId((word(6) + "b" + std::to_string(k)).c_str()); physParams(b->GetParameters()); mon::hit("bodies"); }
		for (int k = count(2); k > 0; --k)
		{
			FCDPhysicsRigidConstraint* c = m->AddRigidConstraint(); part(*this, c); c->SetSubId((word(6) + "c" + std::to_string(k)).c_str());
			auto side = [&](bool target)
			{
				if (m->GetRigidBodyCount() > 0 && (nodes.empty() || r.chance(60))) { FCDPhysicsRigidBody* b = m->GetRigidBody(r.below(m->GetRigidBodyCount())); target ? c->SetTargetRigidBody(b) : c->SetReferenceRigidBody(b); }
				else if (!nodes.empty()) { target ? c->SetTargetNode(r.pick(nodes)) : c->SetReferenceNode(r.pick(nodes)); mon::hit("constraint_nodes"); }
				for (int q = count(2); q > 0; --q)
				{
					FCDTransform::Type ty = r.chance(50) ? FCDTransform::TRANSLATION : FCDTransform::ROTATION;
					FCDTransform* t = target ? c->AddTransformTar(ty) : c->AddTransformRef(ty);
					transformValue(t); if (r.chance(30)) t->SetSubId((word(6) + "_" + std::to_string(paramSerial++)).c_str());
				}
			};
			side(false); side(true);
			c->SetEnabled(r.chance(50)); animatable(c->GetEnabled(), 1); c->SetInterpenetrate(r.chance(50)); animatable(c->GetInterpenetrate(), 1);
			c->SetLimitsLinearMin(vec3()); c->SetLimitsLinearMax(vec3()); c->SetLimitsSCTMin(vec3()); c->SetLimitsSCTMax(vec3());
			c->SetSpringLinearStiffness(num()); c->SetSpringLinearDamping(num()); c->SetSpringLinearTargetValue(num());
			c->SetSpringAngularStiffness(num()); c->SetSpringAngularDamping(num()); c->SetSpringAngularTargetValue(num());
			mon::hit("constraints");
		}
		// Models instantiate other models.
		for (size_t k = 0; k < physModels.size(); ++k) if (r.chance(30)) physModelInstance(m->AddPhysicsModelInstance(physModels[k]), physModels[k]);
		physModels.push_back(m);
		mon::hit("physics_models");
	}
	for (int n = count(2); n > 0; --n)
	{
		FCDPhysicsScene* s = d->GetPhysicsSceneLibrary()->AddEntity(); physScenes.push_back(s); entity(s);
		s->SetGravity(vec3()); s->SetTimestep(pos(0.001f, 1));
		for (int k = count(2); k > 0; --k) { FCDPhysicsModel* m = r.pick(physModels); physModelInstance(s->AddPhysicsModelInstance(m), m); }
		if (!forces.empty() && r.chance(50)) { FCDPhysicsForceFieldInstance* f = s->AddForceFieldInstance(r.pick(forces)); if (has(EXTRA)) extra(f->GetExtra(), 1); }
		if (r.chance(60)) d->AddPhysicsSceneInstance(s);
		mon::hit("physics_scenes");
	}
}

// Rounds to a value the text form keeps.
static float g5(double v) { char b[40]; snprintf(b, sizeof b, "%.5g", v); return strtof(b, NULL); }

// ---- Animation -----------------------------------------------------------------------------------
void DocGen::keys(FCDAnimationCurve* c, const std::vector<float>* inputs, int interp)
{
	namespace FI = FUDaeInterpolation;
	int n = inputs != NULL ? (int) inputs->size() : r.chance(5) ? 0 : r.range(1, 5 * scale);
	// Interpolations: one for all, or mixed.
	int fixed = interp >= 0 ? interp : r.chance(60) ? r.range(0, 3) : -1;
	float t = num(20);
	for (int k = 0; k < n; ++k)
	{
		FI::Interpolation ip = (FI::Interpolation) (fixed >= 0 ? fixed : r.range(0, 3));
		FCDAnimationKey* key = c->AddKey(ip);
		key->input = inputs != NULL ? (*inputs)[k] : t; t = g5(t + r.flt(0.1f, 9.0f));
		key->output = num();
		if (ip == FI::BEZIER)
		{
			FCDAnimationKeyBezier* b = (FCDAnimationKeyBezier*) key;
			b->inTangent = FMVector2(g5(key->input - r.flt(0.01f, 2)), num());
			b->outTangent = FMVector2(g5(key->input + r.flt(0.01f, 2)), num());
			mon::hit("bezier_keys");
		}
		else if (ip == FI::TCB)
		{
			FCDAnimationKeyTCB* b = (FCDAnimationKeyTCB*) key;
			b->tension = pos(-1, 1); b->continuity = pos(-1, 1); b->bias = pos(-1, 1); b->easeIn = pos(0, 1); b->easeOut = pos(0, 1);
			mon::hit("tcb_keys");
		}
		mon::hit("keys");
	}
	mon::hit("curves");
	if (n == 0) return;                            // without keys, nothing else is read back
	c->SetPreInfinity((FUDaeInfinity::Infinity) r.range(0, FUDaeInfinity::DEFAULT - 1));
	c->SetPostInfinity((FUDaeInfinity::Infinity) r.range(0, FUDaeInfinity::DEFAULT - 1));
}

FCDAnimationCurve* DocGen::curve(FCDAnimationChannel* ch) { FCDAnimationCurve* c = ch->AddCurve(); keys(c); return c; }

void DocGen::animations()
{
	if (animatables.empty()) return;
	still = true;
	std::vector<FCDAnimation*> anims;
	for (int n = 1 + count(2); n > 0; --n) { anims.push_back(d->GetAnimationLibrary()->AddEntity()); entity(anims.back()); }
	for (int n = count(3); n > 0; --n) { FCDAnimation* a = r.pick(anims)->AddChild(); entity(a); anims.push_back(a); }
	// Position in the document: curves of one value are found again in this order.
	std::map<FCDAnimation*, int> pos; std::function<void(FCDAnimation*)> visit = [&](FCDAnimation* a) { int at = (int) pos.size(); pos[a] = at; for (size_t q = 0; q < a->GetChildrenCount(); ++q) visit(a->GetChild(q)); };
	for (size_t q = 0; q < d->GetAnimationLibrary()->GetEntityCount(); ++q) visit(d->GetAnimationLibrary()->GetEntity(q));
	auto order = [&](FCDAnimation* a) { return pos[a]; };
	for (auto& av : animatables)
	{
		FCDAnimated* a = av.first; int n = (int) a->GetValueCount();
		if (n != av.second) mon::viol("value-count", "an animated value reports %d components where its type has %d", n, av.second);
		if (r.chance(10)) continue;
		FCDAnimation* anim = r.pick(anims);
		int form = r.range(0, n == 1 ? 0 : 2);
		if (form == 0)
		{
			// One channel per driven component.
			int keep = n == 1 ? 100 : n > 4 ? 25 : 60; bool one = r.chance(50); FCDAnimationChannel* ch = one ? anim->AddChannel() : NULL; int made = 0;
			for (int k = 0; k < n; ++k)
			{
				if (!r.chance(keep)) continue;
				if (one && made > 0) break;
				FCDAnimationChannel* c = one ? ch : anim->AddChannel(); ++made;
				a->AddCurve(k, curve(c));
			}
			if (one && made == 0) a->AddCurve(0, curve(ch));
			mon::hit("channel_per_component");
		}
		else
		{
			// One channel for every component: alike keys are written as one source, others are not.
			FCDAnimationChannel* ch = anim->AddChannel();
			std::vector<float> in; float t = num(20); for (int k = r.range(1, 4 * scale); k > 0; --k) { in.push_back(t); t = g5(t + r.flt(0.1f, 9.0f)); }
			std::vector<int> ip; int same = r.range(0, 2); for (size_t k = 0; k < in.size(); ++k) ip.push_back(r.chance(60) ? same : r.range(0, 2));
			int pre = r.range(0, FUDaeInfinity::DEFAULT - 1), post = r.range(0, FUDaeInfinity::DEFAULT - 1);
			for (int k = 0; k < n; ++k)
			{
				FCDAnimationCurve* c = ch->AddCurve();
				if (form == 2) { keys(c); if (k == 1 && c->GetKeyCount() == a->GetCurve(0)->GetKeyCount()) { FCDAnimationKey* x = c->AddKey(FUDaeInterpolation::TCB); x->input = c->GetKeyCount() > 1 ? c->GetKey(c->GetKeyCount() - 2)->input + 1 : 0.0f; x->output = 1.0f; FCDAnimationKeyTCB* b = (FCDAnimationKeyTCB*) x; b->tension = b->continuity = b->bias = b->easeIn = b->easeOut = 0.25f; } }
				else
				{
					for (size_t q = 0; q < in.size(); ++q)
					{
						FCDAnimationKey* key = c->AddKey((FUDaeInterpolation::Interpolation) ip[q]); key->input = in[q]; key->output = num();
						if (ip[q] == FUDaeInterpolation::BEZIER)
						{
							FCDAnimationKeyBezier* b = (FCDAnimationKeyBezier*) key;
							b->inTangent = FMVector2(g5(in[q] - r.flt(0.01f, 2)), num()); b->outTangent = FMVector2(g5(in[q] + r.flt(0.01f, 2)), num());
						}
						mon::hit("merged_keys");
					}
					c->SetPreInfinity((FUDaeInfinity::Infinity) pre); c->SetPostInfinity((FUDaeInfinity::Infinity) post);
				}
				a->AddCurve(k, c);
			}
			mon::hit(form == 1 ? "merged_channels" : "shared_channels");
		}
		// A second curve on one of the components, from another animation.
		if (anims.size() > 1 && r.chance(8))
		{
			int k = r.range(0, n - 1);
			if (!a->GetCurves().at(k).empty()) { FCDAnimation* other = r.pick(anims); if (other != anim && order(other) > order(anim)) { a->AddCurve(k, curve(other->AddChannel())); mon::hit("layered_curves"); } }
		}
	}
	// Driven curves.
	for (auto& av : animatables)
		for (size_t k = 0; k < av.first->GetValueCount(); ++k)
			for (FCDAnimationCurve* c : av.first->GetCurves().at(k))
			{
				if (!r.chance(6) || c->GetKeyCount() == 0 || c->GetParent()->GetCurveCount() > 1) continue;
				auto& drv = r.pick(animatables);
				if (drv.first == av.first || drv.first->HasType(FCDAnimatedCustom::GetClassType())) continue;
				c->SetDriver(drv.first, r.range(0, drv.second - 1));
				mon::hit(drv.first->HasCurve() ? "drivers" : "still_drivers");
			}
}

void DocGen::clips()
{
	std::vector<FCDAnimation*> anims;
	for (size_t q = 0; q < d->GetAnimationLibrary()->GetEntityCount(); ++q) anims.push_back(d->GetAnimationLibrary()->GetEntity(q));
	for (int n = count(2); n > 0; --n)
	{
		FCDAnimationClip* c = d->GetAnimationClipLibrary()->AddEntity(); entity(c);
		c->SetStart(num(20)); c->SetEnd(pos(21, 90));
		for (FCDAnimation* a : anims)
		{
			if (r.chance(50)) { c->AddInstanceAnimation(a); if (r.chance(50)) c->SetAnimationName(word().c_str(), c->GetAnimationCount() - 1); mon::hit("clip_instances"); }
			if (r.chance(40)) for (size_t q = 0; q < a->GetChannelCount(); ++q) for (size_t k = 0; k < a->GetChannel(q)->GetCurveCount(); ++k) if (r.chance(50)) { c->AddClipCurve(a->GetChannel(q)->GetCurve(k)); mon::hit("clip_curves"); }
		}
		mon::hit("clips");
	}
}
