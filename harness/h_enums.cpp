// C29: enumerations and their COLLADA names.
#include "mon.h"
#include "FCollada.h"
#include "FUtils/FUDaeEnum.h"

typedef std::string S;
struct Name { int value; const char* name; };
struct Enum { const char* id; std::vector<Name> names; std::function<int(const S&)> from; std::function<S(int)> to; std::set<int> unknown; bool caseless; };

#define F(ns, T) [](const S& s) { return (int) ns::FromString(fm::string(s.c_str())); }
#define TS(ns, T) [](int v) { return S(ns::ToString((ns::T) v)); }
#define N(ns, v, name) { (int) ns::v, name }

static const std::vector<Enum>& table()
{
	static std::vector<Enum> t;
	if (!t.empty()) return t;
	t.push_back({ "interpolation", { N(FUDaeInterpolation, STEP, "STEP"), N(FUDaeInterpolation, LINEAR, "LINEAR"), N(FUDaeInterpolation, BEZIER, "BEZIER"), N(FUDaeInterpolation, TCB, "TCB") },
		F(FUDaeInterpolation, Interpolation), TS(FUDaeInterpolation, Interpolation), { FUDaeInterpolation::UNKNOWN }, false });
	t.push_back({ "spline-type", { N(FUDaeSplineType, LINEAR, "LINEAR"), N(FUDaeSplineType, BEZIER, "BEZIER"), N(FUDaeSplineType, NURBS, "NURBS") },
		F(FUDaeSplineType, Type), TS(FUDaeSplineType, Type), { FUDaeSplineType::UNKNOWN }, false });
	t.push_back({ "spline-form", { N(FUDaeSplineForm, OPEN, "OPEN"), N(FUDaeSplineForm, CLOSED, "CLOSED") },
		F(FUDaeSplineForm, Form), TS(FUDaeSplineForm, Form), { FUDaeSplineForm::UNKNOWN }, false });
	t.push_back({ "wrap", { N(FUDaeTextureWrapMode, NONE, "NONE"), N(FUDaeTextureWrapMode, WRAP, "WRAP"), N(FUDaeTextureWrapMode, MIRROR, "MIRROR"), N(FUDaeTextureWrapMode, CLAMP, "CLAMP"), N(FUDaeTextureWrapMode, BORDER, "BORDER") },
		F(FUDaeTextureWrapMode, WrapMode), TS(FUDaeTextureWrapMode, WrapMode), { FUDaeTextureWrapMode::UNKNOWN }, false });
	t.push_back({ "filter", { N(FUDaeTextureFilterFunction, NONE, "NONE"), N(FUDaeTextureFilterFunction, NEAREST, "NEAREST"), N(FUDaeTextureFilterFunction, LINEAR, "LINEAR"), N(FUDaeTextureFilterFunction, NEAREST_MIPMAP_NEAREST, "NEAREST_MIPMAP_NEAREST"), N(FUDaeTextureFilterFunction, LINEAR_MIPMAP_NEAREST, "LINEAR_MIPMAP_NEAREST"), N(FUDaeTextureFilterFunction, NEAREST_MIPMAP_LINEAR, "NEAREST_MIPMAP_LINEAR"), N(FUDaeTextureFilterFunction, LINEAR_MIPMAP_LINEAR, "LINEAR_MIPMAP_LINEAR") },
		F(FUDaeTextureFilterFunction, FilterFunction), TS(FUDaeTextureFilterFunction, FilterFunction), { FUDaeTextureFilterFunction::UNKNOWN }, false });
	t.push_back({ "morph-method", { N(FUDaeMorphMethod, NORMALIZED, "NORMALIZED"), N(FUDaeMorphMethod, RELATIVE, "RELATIVE") },
		F(FUDaeMorphMethod, Method), TS(FUDaeMorphMethod, Method), { FUDaeMorphMethod::UNKNOWN, FUDaeMorphMethod::DEFAULT }, false });
	t.push_back({ "infinity", { N(FUDaeInfinity, CONSTANT, "CONSTANT"), N(FUDaeInfinity, LINEAR, "LINEAR"), N(FUDaeInfinity, CYCLE, "CYCLE"), N(FUDaeInfinity, CYCLE_RELATIVE, "CYCLE_RELATIVE"), N(FUDaeInfinity, OSCILLATE, "OSCILLATE") },
		F(FUDaeInfinity, Infinity), TS(FUDaeInfinity, Infinity), { FUDaeInfinity::UNKNOWN, FUDaeInfinity::DEFAULT }, false });
	t.push_back({ "blend-mode", { N(FUDaeBlendMode, NONE, "NONE"), N(FUDaeBlendMode, OVER, "OVER"), N(FUDaeBlendMode, IN, "IN"), N(FUDaeBlendMode, OUT, "OUT"), N(FUDaeBlendMode, ADD, "ADD"), N(FUDaeBlendMode, SUBTRACT, "SUBTRACT"), N(FUDaeBlendMode, MULTIPLY, "MULTIPLY"), N(FUDaeBlendMode, DIFFERENCE, "DIFFERENCE"), N(FUDaeBlendMode, LIGHTEN, "LIGHTEN"), N(FUDaeBlendMode, DARKEN, "DARKEN"), N(FUDaeBlendMode, SATURATE, "SATURATE"), N(FUDaeBlendMode, DESATURATE, "DESATURATE"), N(FUDaeBlendMode, ILLUMINATE, "ILLUMINATE") },
		F(FUDaeBlendMode, Mode), TS(FUDaeBlendMode, Mode), { FUDaeBlendMode::UNKNOWN, FUDaeBlendMode::DEFAULT }, false });
	t.push_back({ "input", { N(FUDaeGeometryInput, POSITION, "POSITION"), N(FUDaeGeometryInput, VERTEX, "VERTEX"), N(FUDaeGeometryInput, NORMAL, "NORMAL"), N(FUDaeGeometryInput, GEOTANGENT, "TANGENT"), N(FUDaeGeometryInput, GEOBINORMAL, "BINORMAL"), N(FUDaeGeometryInput, TEXCOORD, "TEXCOORD"), N(FUDaeGeometryInput, TEXTANGENT, "TEXTANGENT"), N(FUDaeGeometryInput, TEXBINORMAL, "TEXBINORMAL"), N(FUDaeGeometryInput, UV, "UV"), N(FUDaeGeometryInput, COLOR, "COLOR"), N(FUDaeGeometryInput, EXTRA, "EXTRA"), N(FUDaeGeometryInput, POINT_SIZE, "POINT_SIZE"), N(FUDaeGeometryInput, POINT_ROTATION, "POINT_ROT") },
		F(FUDaeGeometryInput, Semantic), TS(FUDaeGeometryInput, Semantic), { FUDaeGeometryInput::UNKNOWN }, false });
	t.push_back({ "profile", { N(FUDaeProfileType, CG, "profile_CG"), N(FUDaeProfileType, HLSL, "profile_HLSL"), N(FUDaeProfileType, GLSL, "profile_GLSL"), N(FUDaeProfileType, GLES, "profile_GLES"), N(FUDaeProfileType, COMMON, "profile_COMMON") },
		F(FUDaeProfileType, Type), TS(FUDaeProfileType, Type), { FUDaeProfileType::UNKNOWN }, false });
	t.push_back({ "function", { N(FUDaePassStateFunction, NEVER, "NEVER"), N(FUDaePassStateFunction, LESS, "LESS"), N(FUDaePassStateFunction, EQUAL, "EQUAL"), N(FUDaePassStateFunction, LESS_EQUAL, "LEQUAL"), N(FUDaePassStateFunction, GREATER, "GREATER"), N(FUDaePassStateFunction, NOT_EQUAL, "NOTEQUAL"), N(FUDaePassStateFunction, GREATER_EQUAL, "GEQUAL"), N(FUDaePassStateFunction, ALWAYS, "ALWAYS") },
		F(FUDaePassStateFunction, Function), TS(FUDaePassStateFunction, Function), { FUDaePassStateFunction::INVALID }, false });
	t.push_back({ "stencil", { N(FUDaePassStateStencilOperation, KEEP, "KEEP"), N(FUDaePassStateStencilOperation, ZERO, "ZERO"), N(FUDaePassStateStencilOperation, REPLACE, "REPLACE"), N(FUDaePassStateStencilOperation, INCREMENT, "INCR"), N(FUDaePassStateStencilOperation, DECREMENT, "DECR"), N(FUDaePassStateStencilOperation, INVERT, "INVERT"), N(FUDaePassStateStencilOperation, INCREMENT_WRAP, "INCR_WRAP"), N(FUDaePassStateStencilOperation, DECREMENT_WRAP, "DECR_WRAP") },
		F(FUDaePassStateStencilOperation, Operation), TS(FUDaePassStateStencilOperation, Operation), { FUDaePassStateStencilOperation::INVALID }, false });
	t.push_back({ "blend-type", { N(FUDaePassStateBlendType, ZERO, "ZERO"), N(FUDaePassStateBlendType, ONE, "ONE"), N(FUDaePassStateBlendType, SOURCE_COLOR, "SRC_COLOR"), N(FUDaePassStateBlendType, ONE_MINUS_SOURCE_COLOR, "ONE_MINUS_SRC_COLOR"), N(FUDaePassStateBlendType, DESTINATION_COLOR, "DEST_COLOR"), N(FUDaePassStateBlendType, ONE_MINUS_DESTINATION_COLOR, "ONE_MINUS_DEST_COLOR"), N(FUDaePassStateBlendType, SOURCE_ALPHA, "SRC_ALPHA"), N(FUDaePassStateBlendType, ONE_MINUS_SOURCE_ALPHA, "ONE_MINUS_SRC_ALPHA"), N(FUDaePassStateBlendType, DESTINATION_ALPHA, "DEST_ALPHA"), N(FUDaePassStateBlendType, ONE_MINUS_DESTINATION_ALPHA, "ONE_MINUS_DEST_ALPHA"), N(FUDaePassStateBlendType, CONSTANT_COLOR, "CONSTANT_COLOR"), N(FUDaePassStateBlendType, ONE_MINUS_CONSTANT_COLOR, "ONE_MINUS_CONSTANT_COLOR"), N(FUDaePassStateBlendType, CONSTANT_ALPHA, "CONSTANT_ALPHA"), N(FUDaePassStateBlendType, ONE_MINUS_CONSTANT_ALPHA, "ONE_MINUS_CONSTANT_ALPHA"), N(FUDaePassStateBlendType, SOURCE_ALPHA_SATURATE, "SRC_ALPHA_SATURATE") },
		F(FUDaePassStateBlendType, Type), TS(FUDaePassStateBlendType, Type), { FUDaePassStateBlendType::INVALID }, false });
	t.push_back({ "face", { N(FUDaePassStateFaceType, FRONT, "FRONT"), N(FUDaePassStateFaceType, BACK, "BACK"), N(FUDaePassStateFaceType, FRONT_AND_BACK, "FRONT_AND_BACK") },
		F(FUDaePassStateFaceType, Type), TS(FUDaePassStateFaceType, Type), { FUDaePassStateFaceType::INVALID }, false });
	t.push_back({ "blend-equation", { N(FUDaePassStateBlendEquation, ADD, "FUNC_ADD"), N(FUDaePassStateBlendEquation, SUBTRACT, "FUNC_SUBTRACT"), N(FUDaePassStateBlendEquation, REVERSE_SUBTRACT, "FUNC_REVERSE_SUBTRACT"), N(FUDaePassStateBlendEquation, MIN, "MIN"), N(FUDaePassStateBlendEquation, MAX, "MAX") },
		F(FUDaePassStateBlendEquation, Equation), TS(FUDaePassStateBlendEquation, Equation), { FUDaePassStateBlendEquation::INVALID }, false });
	t.push_back({ "material", { N(FUDaePassStateMaterialType, EMISSION, "EMISSION"), N(FUDaePassStateMaterialType, AMBIENT, "AMBIENT"), N(FUDaePassStateMaterialType, DIFFUSE, "DIFFUSE"), N(FUDaePassStateMaterialType, SPECULAR, "SPECULAR"), N(FUDaePassStateMaterialType, AMBIENT_AND_DIFFUSE, "AMBIENT_AND_DIFFUSE") },
		F(FUDaePassStateMaterialType, Type), TS(FUDaePassStateMaterialType, Type), { FUDaePassStateMaterialType::INVALID }, false });
	t.push_back({ "fog", { N(FUDaePassStateFogType, LINEAR, "LINEAR"), N(FUDaePassStateFogType, EXP, "EXP"), N(FUDaePassStateFogType, EXP2, "EXP2") },
		F(FUDaePassStateFogType, Type), TS(FUDaePassStateFogType, Type), { FUDaePassStateFogType::INVALID }, false });
	t.push_back({ "fog-coordinate", { N(FUDaePassStateFogCoordinateType, FOG_COORDINATE, "FOG_COORDINATE"), N(FUDaePassStateFogCoordinateType, FRAGMENT_DEPTH, "FRAGMENT_DEPTH") },
		F(FUDaePassStateFogCoordinateType, Type), TS(FUDaePassStateFogCoordinateType, Type), { FUDaePassStateFogCoordinateType::INVALID }, false });
	t.push_back({ "front-face", { N(FUDaePassStateFrontFaceType, CLOCKWISE, "CW"), N(FUDaePassStateFrontFaceType, COUNTER_CLOCKWISE, "CCW") },
		F(FUDaePassStateFrontFaceType, Type), TS(FUDaePassStateFrontFaceType, Type), { FUDaePassStateFrontFaceType::INVALID }, false });
	t.push_back({ "logic", { N(FUDaePassStateLogicOperation, CLEAR, "CLEAR"), N(FUDaePassStateLogicOperation, AND, "AND"), N(FUDaePassStateLogicOperation, AND_REVERSE, "AND_REVERSE"), N(FUDaePassStateLogicOperation, COPY, "COPY"), N(FUDaePassStateLogicOperation, AND_INVERTED, "AND_INVERTED"), N(FUDaePassStateLogicOperation, NOOP, "NOOP"), N(FUDaePassStateLogicOperation, XOR, "XOR"), N(FUDaePassStateLogicOperation, OR, "OR"), N(FUDaePassStateLogicOperation, NOR, "NOR"), N(FUDaePassStateLogicOperation, EQUIV, "EQUIV"), N(FUDaePassStateLogicOperation, INVERT, "INVERT"), N(FUDaePassStateLogicOperation, OR_REVERSE, "OR_REVERSE"), N(FUDaePassStateLogicOperation, COPY_INVERTED, "COPY_INVERTED"), N(FUDaePassStateLogicOperation, NAND, "NAND"), N(FUDaePassStateLogicOperation, SET, "SET") },
		F(FUDaePassStateLogicOperation, Operation), TS(FUDaePassStateLogicOperation, Operation), { FUDaePassStateLogicOperation::INVALID }, false });
	t.push_back({ "polygon-mode", { N(FUDaePassStatePolygonMode, POINT, "POINT"), N(FUDaePassStatePolygonMode, LINE, "LINE"), N(FUDaePassStatePolygonMode, FILL, "FILL") },
		F(FUDaePassStatePolygonMode, Mode), TS(FUDaePassStatePolygonMode, Mode), { FUDaePassStatePolygonMode::INVALID }, false });
	t.push_back({ "shade-model", { N(FUDaePassStateShadeModel, FLAT, "FLAT"), N(FUDaePassStateShadeModel, SMOOTH, "SMOOTH") },
		F(FUDaePassStateShadeModel, Model), TS(FUDaePassStateShadeModel, Model), { FUDaePassStateShadeModel::INVALID }, false });
	t.push_back({ "light-model", { N(FUDaePassStateLightModelColorControlType, SINGLE_COLOR, "SINGLE_COLOR"), N(FUDaePassStateLightModelColorControlType, SEPARATE_SPECULAR_COLOR, "SEPARATE_SPECULAR_COLOR") },
		F(FUDaePassStateLightModelColorControlType, Type), TS(FUDaePassStateLightModelColorControlType, Type), { FUDaePassStateLightModelColorControlType::INVALID }, false });
	Enum st = { "pass-state", {}, F(FUDaePassState, State), TS(FUDaePassState, State), { FUDaePassState::INVALID }, false };
	static const char* states[] = { "alpha_func", "blend_func", "blend_func_separate", "blend_equation", "blend_equation_separate", "color_material", "cull_face", "depth_func", "fog_mode", "fog_coord_src", "front_face", "light_model_color_control", "logic_op", "polygon_mode", "shade_model", "stencil_func", "stencil_op", "stencil_func_separate", "stencil_op_separate", "stencil_mask_separate",
		"light_enable", "light_ambient", "light_diffuse", "light_specular", "light_position", "light_constant_attenuation", "light_linear_attenuation", "light_quadratic_attenuation", "light_spot_cutoff", "light_spot_direction", "light_spot_exponent", "texture1D", "texture2D", "texture3D", "textureCUBE", "textureRECT", "textureDEPTH", "texture1D_enable", "texture2D_enable", "texture3D_enable", "textureCUBE_enable", "textureRECT_enable", "textureDEPTH_enable", "texture_env_color", "texture_env_mode",
		"clip_plane", "clip_plane_enable", "blend_color", "clear_color", "clear_stencil", "clear_depth", "color_mask", "depth_bounds", "depth_mask", "depth_range", "fog_density", "fog_start", "fog_end", "fog_color", "light_model_ambient", "lighting_enable", "line_stipple", "line_width", "material_ambient", "material_diffuse", "material_emission", "material_shininess", "material_specular", "model_view_matrix", "point_distance_attenuation", "point_fade_threshold_size", "point_size", "point_size_min", "point_size_max", "polygon_offset", "projection_matrix", "scissor", "stencil_mask",
		"alpha_test_enable", "auto_normal_enable", "blend_enable", "color_logic_op_enable", "color_material_enable", "cull_face_enable", "depth_bounds_enable", "depth_clamp_enable", "depth_test_enable", "dither_enable", "fog_enable", "light_model_local_viewer_enable", "light_model_two_side_enable", "line_smooth_enable", "line_stipple_enable", "logic_op_enable", "multisample_enable", "normalize_enable", "point_smooth_enable", "polygon_offset_fill_enable", "polygon_offset_line_enable", "polygon_offset_point_enable", "polygon_smooth_enable", "polygon_stipple_enable", "rescale_normal_enable", "sample_alpha_to_coverage_enable", "sample_alpha_to_one_enable", "sample_coverage_enable", "scissor_test_enable", "stencil_test_enable" };
	for (int i = 0; i < (int) FUDaePassState::COUNT; ++i) st.names.push_back({ i, i < (int) (sizeof(states) / sizeof(*states)) ? states[i] : "?" });
	t.push_back(st);
	// Channels are only read.
	Enum ch = { "texture-channel", { N(FUDaeTextureChannel, AMBIENT, "AMBIENT"), N(FUDaeTextureChannel, BUMP, "BUMP"), N(FUDaeTextureChannel, DIFFUSE, "DIFFUSE"), N(FUDaeTextureChannel, DISPLACEMENT, "DISPLACEMENT"), N(FUDaeTextureChannel, EMISSION, "GLOW"), N(FUDaeTextureChannel, FILTER, "FILTER"), N(FUDaeTextureChannel, REFLECTION, "REFLECTION"), N(FUDaeTextureChannel, REFRACTION, "REFRACTION"), N(FUDaeTextureChannel, SHININESS, "SHININESS"), N(FUDaeTextureChannel, SPECULAR, "SPECULAR"), N(FUDaeTextureChannel, SPECULAR_LEVEL, "SPECULAR-LEVEL"), N(FUDaeTextureChannel, TRANSPARENT, "TRANSPARENT") },
		F(FUDaeTextureChannel, Channel), nullptr, { FUDaeTextureChannel::UNKNOWN, FUDaeTextureChannel::DEFAULT }, false };
	t.push_back(ch);
	return t;
}

PROP(C29, "the case converted every value of one enumeration both ways and a set of foreign texts")
{
	const std::vector<Enum>& t = table();
	const Enum& e = t[mon::caseIndex % t.size()];
	mon::sig(S(e.id));
	std::set<S> seen;
	for (const Name& n : e.names)
	{
		if (e.to)
		{
			S text = e.to(n.value);
			CHECK(text == n.name, S("enum:") + e.id + ":name", "value %d is written '%s', expected '%s'", n.value, text.c_str(), n.name);
			CHECK(seen.insert(text).second, S("enum:") + e.id + ":distinct", "two values share the name '%s'", text.c_str());
			CHECK(e.from(text) == n.value, S("enum:") + e.id + ":round-trip", "value %d -> '%s' -> %d", n.value, text.c_str(), e.from(text));
		}
		CHECK(e.from(n.name) == n.value, S("enum:") + e.id + ":read", "'%s' is read as %d, expected %d", n.name, e.from(n.name), n.value);
		mon::hit("enum_values");
	}
	// Foreign text.
	for (int k = 0; k < 30; ++k)
	{
		S f = r.pick(e.names).name;
		switch (r.below(5))
		{
		case 0: f += (char) r.range('A', 'Z'); break;
		case 1: f = f.substr(0, f.size() - 1); break;
		case 2: f.insert(r.below(f.size()), 1, (char) r.range('a', 'z')); break;
		case 3: f = r.pick(t[r.below(t.size())].names).name; break;
		default: { f.clear(); for (int i = r.range(1, 12); i > 0; --i) f += (char) r.range(33, 126); }
		}
		if (f.empty()) continue;
		int want = 0; bool known = false;
		for (const Name& n : e.names) if (f == n.name) { known = true; want = n.value; }
		int got = e.from(f);
		mon::sig(f); mon::hit("foreign_texts");
		if (known) CHECK(got == want, S("enum:") + e.id + ":read", "'%s' is read as %d, expected %d", f.c_str(), got, want);
		else if (!e.unknown.count(got))
		{
			// A documented synonym must be stable.
			mon::viol(S("enum:") + e.id + ":foreign", "'%s' is read as %d", f.c_str(), got);
		}
	}
	if (e.to) for (int bad : e.unknown) { S s = e.to(bad); bool real = false; for (const Name& n : e.names) if (n.value == bad) real = true; if (!real && !(e.unknown.size() > 1 && seen.count(s))) { CHECK(!seen.count(s), S("enum:") + e.id + ":unknown-name", "the unknown value is written '%s'", s.c_str()); CHECK(e.unknown.count(e.from(s)), S("enum:") + e.id + ":unknown-name", "the unknown value '%s' is read as %d", s.c_str(), e.from(s)); } }
	mon::nontrivial();
}
