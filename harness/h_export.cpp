// C10: the exported file, read with libxml2 alone and judged against the COLLADA 1.4 rules and the document.
#include "docmon.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <set>
#include <cmath>

typedef xmlNode N;
static S nm(const N* n) { return n ? S((const char*) n->name) : S(); }
static bool is(const N* n, const char* s) { return n && n->type == XML_ELEMENT_NODE && strcmp((const char*) n->name, s) == 0; }
static bool has(const N* n, const char* a) { return xmlHasProp(const_cast<N*>(n), BAD_CAST a) != NULL; }
static S att(const N* n, const char* a) { xmlChar* c = xmlGetNoNsProp(const_cast<N*>(n), BAD_CAST a); S s = c ? (const char*) c : ""; if (c) xmlFree(c); return s; }
static std::vector<N*> kids(const N* n) { std::vector<N*> o; if (n) for (N* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) o.push_back(c); return o; }
static std::vector<N*> kids(const N* n, const char* s) { std::vector<N*> o; for (N* c : kids(n)) if (is(c, s)) o.push_back(c); return o; }
static N* kid(const N* n, const char* s) { for (N* c : kids(n)) if (is(c, s)) return c; return NULL; }
static S text(const N* n) { if (!n) return S(); xmlChar* c = xmlNodeGetContent(const_cast<N*>(n)); S s = c ? (const char*) c : ""; if (c) xmlFree(c); return s; }
static std::vector<S> tokens(const S& s) { std::vector<S> o; size_t i = 0; while (i < s.size()) { while (i < s.size() && strchr(" \t\r\n", s[i])) ++i; size_t b = i; while (i < s.size() && !strchr(" \t\r\n", s[i])) ++i; if (i > b) o.push_back(s.substr(b, i - b)); } return o; }
static std::vector<S> tokens(const N* n) { return tokens(text(n)); }
static bool isUInt(const S& s, unsigned long& v) { if (s.empty() || s.size() > 10) return false; for (char c : s) if (c < '0' || c > '9') return false; v = strtoul(s.c_str(), NULL, 10); return v <= 0xffffffffUL; }
static bool ncName(const S& s)
{
	if (s.empty()) return false;
	for (size_t k = 0; k < s.size(); ++k) { unsigned char c = s[k]; bool first = isalpha(c) || c == '_' || c >= 0x80; if (!first && (k == 0 || !(isdigit(c) || c == '-' || c == '.'))) return false; }
	return true;
}

// What may be inside an element, in order: "x" one, "x?" optional, "x*" any, "x+" some, "(a|b)*" a group in any order.
struct Model { const char* element; const char* content; };
static const Model models[] = {
	{ "COLLADA", "asset (library_animations|library_animation_clips|library_cameras|library_controllers|library_effects|library_force_fields|library_geometries|library_images|library_lights|library_materials|library_nodes|library_physics_materials|library_physics_models|library_physics_scenes|library_visual_scenes)* scene? extra*" },
	{ "asset", "contributor* created keywords? modified revision? subject? title? unit? up_axis?" },
	{ "contributor", "author? authoring_tool? comments? copyright? source_data?" },
	{ "scene", "instance_physics_scene* instance_visual_scene? extra*" },
	{ "library_animations", "asset? animation+ extra*" }, { "library_animation_clips", "asset? animation_clip+ extra*" }, { "library_cameras", "asset? camera+ extra*" },
	{ "library_controllers", "asset? controller+ extra*" }, { "library_effects", "asset? effect* extra*" }, { "library_force_fields", "asset? force_field+ extra*" },
	{ "library_geometries", "asset? geometry+ extra*" }, { "library_images", "asset? image+ extra*" }, { "library_lights", "asset? light+ extra*" },
	{ "library_materials", "asset? material+ extra*" }, { "library_nodes", "asset? node+ extra*" }, { "library_physics_materials", "asset? physics_material+ extra*" },
	{ "library_physics_models", "asset? physics_model+ extra*" }, { "library_physics_scenes", "asset? physics_scene+ extra*" }, { "library_visual_scenes", "asset? visual_scene+ extra*" },
	{ "visual_scene", "asset? node* extra*" },
	{ "node", "asset? (lookat|matrix|rotate|scale|skew|translate)* (instance_camera|instance_controller|instance_geometry|instance_light|instance_node|node)* extra*" },
	{ "camera", "asset? optics extra*" }, { "optics", "technique_common technique* extra*" },
	{ "perspective", "xfov? yfov? aspect_ratio? znear zfar" }, { "orthographic", "xmag? ymag? aspect_ratio? znear zfar" },
	{ "light", "asset? technique_common technique* extra*" }, { "ambient", NULL },
	{ "point", "color constant_attenuation? linear_attenuation? quadratic_attenuation?" },
	{ "spot", "color constant_attenuation? linear_attenuation? quadratic_attenuation? falloff_angle? falloff_exponent?" }, { "directional", "color" },
	{ "geometry", "asset? (convex_mesh|mesh|spline)+ extra*" },
	{ "mesh", "source+ vertices (lines|linestrips|points|polygons|polylist|triangles|trifans|tristrips)* extra*" },
	{ "spline", "source+ control_vertices extra*" }, { "control_vertices", "input+ extra*" }, { "vertices", "input+ extra*" },
	{ "source", "asset? (IDREF_array|Name_array|bool_array|float_array|int_array)? technique_common? technique*" },
	{ "accessor", "param*" },
	{ "polylist", "input* vcount? p? extra*" }, { "triangles", "input* p? extra*" }, { "lines", "input* p* extra*" },
	{ "polygons", "input* (p|ph)* extra*" }, { "linestrips", "input* p* extra*" }, { "trifans", "input* p* extra*" }, { "tristrips", "input* p* extra*" }, { "ph", "p h+" },
	{ "controller", "asset? (skin|morph) extra*" },
	{ "skin", "bind_shape_matrix? source source source+ joints vertex_weights extra*" }, { "joints", "input input+ extra*" }, { "vertex_weights", "input input+ vcount? v? extra*" },
	{ "morph", "source source+ targets extra*" }, { "targets", "input input+ extra*" },
	{ "image", "asset? (data|init_from) extra*" },
	{ "material", "asset? instance_effect extra*" }, { "instance_effect", "technique_hint* setparam* extra*" },
	{ "effect", "asset? annotate* image* newparam* (profile_COMMON|profile_CG|profile_GLSL|profile_GLES|profile_HLSL)* extra*" },
	{ "blinn", "emission? ambient? diffuse? specular? shininess? reflective? reflectivity? transparent? transparency? index_of_refraction?" },
	{ "phong", "emission? ambient? diffuse? specular? shininess? reflective? reflectivity? transparent? transparency? index_of_refraction?" },
	{ "lambert", "emission? ambient? diffuse? reflective? reflectivity? transparent? transparency? index_of_refraction?" },
	{ "constant", "emission? reflective? reflectivity? transparent? transparency? index_of_refraction?" },
	{ "newparam", "annotate* semantic? modifier? (float|float2|float3|float4|float4x4|half|half2|half3|half4|half4x4|int|bool|string|surface|sampler1D|sampler2D|sampler3D|samplerCUBE)" },
	{ "sampler1D", "source wrap_s? minfilter? magfilter? mipfilter?" }, { "sampler2D", "source wrap_s? wrap_t? minfilter? magfilter? mipfilter?" },
	{ "sampler3D", "source wrap_s? wrap_t? wrap_p? minfilter? magfilter? mipfilter?" }, { "samplerCUBE", "source wrap_s? wrap_t? wrap_p? minfilter? magfilter? mipfilter?" },
	{ "animation", "asset? (source|sampler|channel|animation)* extra*" }, { "sampler", "input+" },
	{ "animation_clip", "asset? instance_animation* extra*" },
	{ "physics_material", "asset? technique_common extra*" },
	{ "physics_scene", "asset? instance_force_field* instance_physics_model* technique_common extra*" },
	{ "physics_model", "asset? rigid_body* rigid_constraint* instance_physics_model* extra*" },
	{ "rigid_constraint", "ref_attachment attachment technique_common technique* extra*" },
	{ "ref_attachment", "(translate|rotate|extra)*" }, { "attachment", "(translate|rotate|extra)*" },
	{ "rigid_body", "technique_common technique* extra*" },
	{ "shape", "hollow? mass? density? (instance_physics_material|physics_material)? (instance_geometry|plane|box|sphere|cylinder|tapered_cylinder|capsule|tapered_capsule) (translate|rotate)* extra*" },
	{ "instance_geometry", "bind_material? extra*" }, { "instance_controller", "skeleton* bind_material? extra*" },
	{ "instance_camera", "extra*" }, { "instance_light", "extra*" }, { "instance_node", "extra*" }, { "instance_animation", "extra*" }, { "instance_visual_scene", "extra*" }, { "instance_physics_scene", "extra*" },
	{ "instance_physics_model", "instance_force_field* instance_rigid_body* instance_rigid_constraint* extra*" },
	{ "instance_rigid_body", "technique_common technique* extra*" }, { "instance_rigid_constraint", "extra*" },
	{ "bind_material", "param* technique_common technique* extra*" }, { "instance_material", "bind* bind_vertex_input* extra*" },
	{ "extra", "asset? technique*" },
};
// Matches the element names against the pattern; returns the offending name, or an empty text.
static S matchContent(const std::vector<S>& names, const char* pattern)
{
	size_t at = 0;
	for (const S& item0 : tokens(S(pattern)))
	{
		S item = item0; char q = 0;
		if (strchr("?*+", item.back())) { q = item.back(); item.pop_back(); }
		std::set<S> set;
		if (item[0] == '(') { size_t b = 1; while (b < item.size()) { size_t e = item.find_first_of("|)", b); set.insert(item.substr(b, e - b)); b = e + 1; } } else set.insert(item);
		size_t n = 0;
		while (at < names.size() && set.count(names[at]) && (n == 0 || q == '*' || q == '+')) { ++at; ++n; }
		if (n == 0 && q != '?' && q != '*') return "missing-" + (at < names.size() ? *set.begin() + "-before-" + names[at] : *set.begin());
	}
	return at < names.size() ? names[at] : S();
}

// An id chosen to be one that the exporter derives for a part of an entity: a listed finding of its own.
static bool derivedTaken = false;
#define viol(key, ...) mon::viol(derivedTaken ? S("derived-id-taken") : S(key), __VA_ARGS__)

struct Check
{
	std::map<S, N*> ids;
	xmlDoc* doc = NULL; N* root = NULL;
	size_t refs = 0, counts = 0, values = 0;
	~Check() { if (doc) xmlFreeDoc(doc); }

	void bad(const S& key, const N* n, const S& what)
	{
		S path; for (const N* p = n; p && p->type == XML_ELEMENT_NODE; p = p->parent) path = "/" + nm(p) + (has(p, "id") ? "#" + att(p, "id").substr(0, 40) : S()) + path;
		viol(key, "%s: %s", path.c_str(), mon::esc(what.substr(0, 400)).c_str());
	}
	bool open(const S& file)
	{
		doc = xmlReadFile(file.c_str(), NULL, XML_PARSE_NONET | XML_PARSE_NOERROR | XML_PARSE_NOWARNING | XML_PARSE_HUGE);
		if (!doc) { viol("not-well-formed", "libxml2 refuses the file"); return false; }
		root = xmlDocGetRootElement(doc);
		if (!is(root, "COLLADA")) { viol("root", "%s", nm(root).c_str()); return false; }
		if (att(root, "version").compare(0, 4, "1.4.") != 0) bad("version", root, att(root, "version"));
		if (!root->ns || strcmp((const char*) root->ns->href, "http://www.collada.org/2005/11/COLLADASchema") != 0) bad("namespace", root, "not the COLLADA 1.4 namespace");
		return true;
	}
	// Elements inside the techniques of extra trees (and other tool-specific techniques) hold the user's own content.
	static bool userTree(const N* n) { return is(n, "technique") && has(n, "profile"); }
	void collect(N* n)
	{
		if (has(n, "id"))
		{
			S id = att(n, "id");
			if (!ncName(id)) bad("id-name:" + nm(n), n, id);
			if (!ids.insert({ id, n }).second) bad("id-twice:" + nm(n), n, id);
		}
		for (N* c : kids(n)) collect(c);
	}
	N* ref(const N* n, const S& uri, std::initializer_list<const char*> kinds, const char* what)
	{
		++refs;
		if (uri.size() < 2 || uri[0] != '#') { bad(S("reference-form:") + nm(n) + "@" + what, n, uri); return NULL; }
		return idref(n, uri.substr(1), kinds, what);
	}
	N* idref(const N* n, const S& id, std::initializer_list<const char*> kinds, const char* what)
	{
		++refs;
		auto it = ids.find(id);
		if (it == ids.end()) { bad(S("unresolved:") + nm(n) + "@" + what, n, id); return NULL; }
		bool ok = kinds.size() == 0; for (const char* k : kinds) ok |= is(it->second, k);
		if (!ok) { bad(S("wrong-kind:") + nm(n) + "@" + what, n, id + " is a " + nm(it->second)); return NULL; }
		return it->second;
	}
	// A surface may also be given by overriding one.
	static bool setParam(const N* n, const S& ref) { for (N* k : kids(n)) if ((is(k, "setparam") && att(k, "ref") == ref && kid(k, "surface")) || setParam(k, ref)) return true; return false; }
	N* findSid(N* n, const S& sid) { for (N* c : kids(n)) { if (att(c, "sid") == sid && has(c, "sid")) return c; if (N* f = findSid(c, sid)) return f; } return NULL; }
	size_t countSid(N* n, const S& sid) { size_t q = 0; for (N* c : kids(n)) { if (has(c, "sid") && att(c, "sid") == sid) ++q; q += countSid(c, sid); } return q; }
	unsigned long num(const N* n, const char* a)
	{
		unsigned long v = 0; ++counts;
		if (!has(n, a) || !isUInt(att(n, a), v)) { bad(S("count-form:") + nm(n) + "@" + a, n, att(n, a)); return 0; }
		return v;
	}
	void equal(const N* n, const S& key, unsigned long declared, unsigned long real) { ++counts; if (declared != real) bad("count:" + key, n, std::to_string(declared) + " declared, " + std::to_string(real) + " present"); }

	// Number of elements that an input's source offers.
	long sourceCount(const N* input)
	{
		N* s = ref(input, att(input, "source"), { "source", "vertices" }, "source"); if (!s) return -1;
		if (is(s, "vertices")) { long c = -1; for (N* i : kids(s, "input")) { long v = sourceCount(i); if (c < 0 || v < c) c = v; } return c; }
		N* a = kid(kid(s, "technique_common"), "accessor"); unsigned long v = 0;
		if (!a) return -1;
		isUInt(att(a, "count"), v); return (long) v;
	}
	// The index tokens of primitives and weights: all within the sources they index.
	void indices(const N* set, const std::vector<S>& p)
	{
		std::vector<std::pair<unsigned long, long>> in; unsigned long width = 0;
		for (N* i : kids(set, "input")) { unsigned long o = num(i, "offset"); in.push_back({ o, sourceCount(i) }); width = std::max(width, o + 1); }
		if (width == 0) { if (!p.empty()) bad("indices-without-inputs:" + nm(set), set, ""); return; }
		if (p.size() % width) { bad("index-stride:" + nm(set), set, std::to_string(p.size()) + " tokens, " + std::to_string(width) + " offsets"); return; }
		for (size_t k = 0; k < p.size(); ++k)
			for (auto& i : in) if (k % width == i.first)
			{
				char* e; long v = strtol(p[k].c_str(), &e, 10); ++values;
				if (*e || v < (is(set, "vertex_weights") ? -1 : 0)) { bad("index-form:" + nm(set), set, p[k]); return; }
				if (i.second >= 0 && v >= i.second) { bad("index-range:" + nm(set), set, p[k] + " of " + std::to_string(i.second)); return; }
			}
	}
	unsigned long width(const N* set) { unsigned long w = 0; for (N* i : kids(set, "input")) w = std::max(w, num(i, "offset") + 1); return w; }

	void primitive(const N* n)
	{
		S e = nm(n); unsigned long count = num(n, "count"), w = width(n);
		std::set<S> seen; for (N* i : kids(n, "input")) { S k = att(i, "semantic") + "/" + att(i, "set") + "/" + att(i, "source"); if (!seen.insert(k).second) bad("input-twice:" + e, n, k); }
		std::vector<S> all;
		for (N* p : kids(n)) { if (is(p, "p")) { auto t = tokens(p); all.insert(all.end(), t.begin(), t.end()); } else if (is(p, "ph")) for (N* q : kids(p)) { auto t = tokens(q); all.insert(all.end(), t.begin(), t.end()); } }
		indices(n, all);
		if (w == 0) return;
		unsigned long pts = all.size() / w;
		if (e == "triangles") equal(n, e, count * 3, pts);
		else if (e == "lines") equal(n, e, count * 2, pts);
		else if (e == "polylist")
		{
			auto v = tokens(kid(n, "vcount")); unsigned long sum = 0, x; equal(n, e, count, v.size());
			for (auto& s : v) { if (!isUInt(s, x)) { bad("vcount-form", n, s); return; } sum += x; }
			equal(n, e + "-vcount", sum, pts);
		}
		else if (e == "polygons") equal(n, e, count, kids(n, "p").size() + kids(n, "ph").size());
		else if (e == "linestrips" || e == "trifans" || e == "tristrips") equal(n, e, count, kids(n, "p").size());
		else if (e == "points") {}
		mon::hit("primitive_sets_read");
	}
	void source(const N* n)
	{
		N* arr = NULL; for (const char* k : { "float_array", "Name_array", "IDREF_array", "int_array", "bool_array" }) if (N* a = kid(n, k)) arr = a;
		if (arr) equal(arr, nm(arr), num(arr, "count"), tokens(arr).size());
		if (arr && is(arr, "float_array")) for (auto& s : tokens(arr)) { char* e; strtod(s.c_str(), &e); ++values; if (*e && s != "INF" && s != "-INF" && s != "NaN") { bad("float-form", arr, s); break; } }
		if (arr && is(arr, "IDREF_array")) for (auto& s : tokens(arr)) idref(arr, s, {}, "text");
		N* a = kid(kid(n, "technique_common"), "accessor");
		if (a)
		{
			N* t = ref(a, att(a, "source"), { "float_array", "Name_array", "IDREF_array", "int_array", "bool_array" }, "source");
			if (t && t != arr) bad("accessor-elsewhere", a, att(a, "source"));
			unsigned long c = num(a, "count"), s = has(a, "stride") ? num(a, "stride") : 1;
			if (t) equal(a, "accessor:" + nm(n->parent), c * s, tokens(t).size());
			unsigned long pn = 0; for (N* p : kids(a, "param")) pn += att(p, "type") == "float4x4" ? (att(p, "name") == "X_Y" ? 32 : 16) : 1;
			if (pn != s) bad("accessor-params:" + nm(n->parent), a, std::to_string(pn) + " for a stride of " + std::to_string(s));
		}
	}
	// id/sid/.../sid with .member or (index)
	void target(const N* n, const S& t, const char* what)
	{
		++refs;
		std::vector<S> seg; size_t b = 0; while (true) { size_t e = t.find('/', b); seg.push_back(t.substr(b, e == S::npos ? S::npos : e - b)); if (e == S::npos) break; b = e + 1; }
		S& last = seg.back();
		size_t cut = last.find('('); S member;
		if (cut != S::npos) { member = last.substr(cut); last.erase(cut); }
		else if ((cut = last.rfind('.')) != S::npos && (seg.size() > 1 || !ids.count(last))) { member = last.substr(cut); last.erase(cut); }
		auto it = ids.find(seg[0]);
		if (it == ids.end()) { bad(S("unresolved:") + nm(n) + "@" + what, n, t); return; }
		N* at = it->second;
		for (size_t k = 1; k < seg.size(); ++k)
		{
			N* f = findSid(at, seg[k]);
			if (!f) { bad(S("unresolved:") + nm(n) + "@" + what, n, t + " (no " + seg[k] + " in " + nm(at) + ")"); return; }
			if (countSid(at, seg[k]) > 1) mon::hit("ambiguous_sids");
			at = f;
		}
		if (!member.empty() && member[0] == '(')
		{
			unsigned long v = 0; S d = member.substr(1, member.find(')') - 1);
			if (!isUInt(d, v)) bad("member-form", n, t);
			else if (is(at, "float_array") || (is(at, "source") && (at = kid(at, "float_array")))) { if (v >= tokens(at).size()) bad("member-range", n, t); }
		}
		mon::hit("targets_resolved");
	}

	void walk(N* n)
	{
		if (userTree(n)) { inUser(n); return; }
		for (const Model& m : models)
			if (m.content && is(n, m.element))
			{
				if (is(n, "technique_common") || (is(n, "constant") && !is(n->parent, "technique"))) break;
				if (is(n, "source") && (n->parent && S((const char*) n->parent->name).compare(0, 7, "sampler") == 0)) break;
				if ((is(n, "lines") || is(n, "point")) && !is(n->parent, "mesh") && !is(n->parent, "technique_common")) break;
				std::vector<S> names; for (N* c : kids(n)) names.push_back(nm(c));
				S r = matchContent(names, m.content); ++counts;
				if (!r.empty()) { S all; for (auto& x : names) all += x + " "; bad("content:" + nm(n) + ":" + r, n, all.substr(0, 400)); }
			}
		std::set<S> sids; for (N* c : kids(n)) if (has(c, "sid") && !is(c, "node") && !sids.insert(att(c, "sid")).second) bad("sid-twice:" + nm(c) + "-in-" + nm(n), c, att(c, "sid"));  // FCDSceneNode::SetSubId leaves the nodes' to the user.
		S e = nm(n);
		static const std::map<S, std::pair<const char*, const char*>> urls = {
			{ "instance_geometry", { "url", "geometry" } }, { "instance_controller", { "url", "controller" } }, { "instance_camera", { "url", "camera" } }, { "instance_light", { "url", "light" } },
			{ "instance_node", { "url", "node" } }, { "instance_visual_scene", { "url", "visual_scene" } }, { "instance_physics_scene", { "url", "physics_scene" } }, { "instance_effect", { "url", "effect" } },
			{ "instance_animation", { "url", "animation" } }, { "instance_material", { "target", "material" } }, { "instance_physics_model", { "url", "physics_model" } }, { "instance_physics_material", { "url", "physics_material" } },
			{ "instance_force_field", { "url", "force_field" } }, { "instance_rigid_body", { "target", "node" } }, { "convex_mesh", { "convex_hull_of", "geometry" } }, { "channel", { "source", "sampler" } } };
		auto u = urls.find(e);
		if (e == "instance_effect" && att(n, "url") == "#") mon::hit("materials_without_effect");
		else if (u != urls.end() && (has(n, u->second.first) || e != "convex_mesh")) ref(n, att(n, u->second.first), { u->second.second }, u->second.first);
		if (e == "instance_physics_model" && has(n, "parent")) ref(n, att(n, "parent"), { "node", "visual_scene" }, "parent");
		if (e == "skin") ref(n, att(n, "source"), { "geometry", "controller" }, "source");
		if (e == "morph") ref(n, att(n, "source"), { "geometry", "controller" }, "source");
		if (e == "skeleton") ref(n, text(n), { "node" }, "text");
		if (e == "channel" && att(n, "target").empty()) mon::hit("channels_without_target");
		else if (e == "channel") target(n, att(n, "target"), "target");
		if (e == "source" && is(n->parent, "mesh")) source(n); else if (e == "source" && has(n, "id")) source(n);
		if (e == "input" && is(n->parent, "vertices")) ref(n, att(n, "source"), { "source" }, "source");
		if (e == "input" && att(n, "semantic") == "DRIVER") target(n, att(n, "source").substr(att(n, "source")[0] == '#' ? 1 : 0), "source");
		else if (e == "input" && (is(n->parent, "sampler") || is(n->parent, "joints") || is(n->parent, "targets") || is(n->parent, "control_vertices"))) ref(n, att(n, "source"), { "source" }, "source");
		if (is(n->parent, "mesh") && (e == "polylist" || e == "polygons" || e == "triangles" || e == "lines" || e == "linestrips" || e == "trifans" || e == "tristrips" || e == "points")) primitive(n);
		if (e == "mesh") { bool pos = false; for (N* i : kids(kid(n, "vertices"), "input")) pos |= att(i, "semantic") == "POSITION"; if (!pos && kid(n, "vertices")) bad("vertices-without-position", n, ""); }
		if (e == "vertex_weights")
		{
			unsigned long c = num(n, "count"), w = width(n), sum = 0, x; auto v = tokens(kid(n, "vcount")), ix = tokens(kid(n, "v"));
			equal(n, e, c, v.size()); for (auto& s : v) { if (!isUInt(s, x)) { bad("vcount-form", n, s); break; } sum += x; }
			equal(n, e + "-v", sum * w, ix.size()); indices(n, ix);
		}
		if (e == "joints") sameCounts(n);
		if (e == "targets") sameCounts(n);
		if (e == "sampler" && has(n, "id")) sampler(n);
		if (e == "init_from" && is(n->parent, "surface")) for (auto& t : tokens(n)) idref(n, t, { "image" }, "text");
		if ((e == "all" || e == "primary") && has(n, "ref")) idref(n, att(n, "ref"), { "image" }, "ref");
		if (e == "texture" && has(n, "texture")) { N* p = n; while (p && !is(p, "effect")) p = p->parent; if (p && !att(n, "texture").empty()) { N* s = findSid(p, att(n, "texture")); ++refs; if (!s || !is(s, "newparam") || !(kid(s, "sampler1D") || kid(s, "sampler2D") || kid(s, "sampler3D") || kid(s, "samplerCUBE"))) bad("unresolved:texture", n, att(n, "texture")); } }
		if (e == "source" && n->parent && S((const char*) n->parent->name).compare(0, 7, "sampler") == 0)
		{
			// A sampler names a surface of its own profile, technique or effect; in a material, of the effect.
			++refs; N* s = NULL; bool inMaterial = false;
			for (N* p = n->parent; p && p->type == XML_ELEMENT_NODE; p = p->parent) if (is(p, "setparam")) inMaterial = true;
			if (!inMaterial && !text(n).empty()) { N* p = n; while (p && !is(p, "effect")) p = p->parent; s = p ? findSid(p, text(n)) : NULL; if ((!s || !kid(s, "surface")) && !setParam(p, text(n))) bad("unresolved:sampler-source", n, text(n)); }
		}
		if (e == "instance_rigid_body") { N* m = ids.count(att(n->parent, "url").substr(att(n->parent, "url").empty() ? 0 : 1)) ? ids[att(n->parent, "url").substr(1)] : NULL; ++refs; N* b = m ? findSid(m, att(n, "body")) : NULL; if (m && !is(b, "rigid_body")) bad("unresolved:instance_rigid_body@body", n, att(n, "body")); }
		if (e == "instance_rigid_constraint") { N* m = ids.count(att(n->parent, "url").substr(att(n->parent, "url").empty() ? 0 : 1)) ? ids[att(n->parent, "url").substr(1)] : NULL; ++refs; N* b = m ? findSid(m, att(n, "constraint")) : NULL; if (m && !is(b, "rigid_constraint")) bad("unresolved:instance_rigid_constraint@constraint", n, att(n, "constraint")); }
		if (e == "instance_geometry" || e == "instance_controller")
		{
			std::set<S> sym; for (N* m : kids(kid(kid(n, "bind_material"), "technique_common"), "instance_material")) if (!sym.insert(att(m, "symbol")).second) mon::hit("symbols_bound_twice");
		}
		for (N* c : kids(n)) walk(c);
	}
	// Inside a tool-specific technique: instances that the library itself keeps there still have to resolve.
	void inUser(N* n)
	{
		for (N* c : kids(n)) inUser(c);
	}
	void sameCounts(const N* n)
	{
		long c = -1; for (N* i : kids(n, "input")) { long v = sourceCount(i); if (c >= 0 && v != c) bad("input-counts:" + nm(n), n, std::to_string(c) + " and " + std::to_string(v)); c = v; }
	}
	void sampler(const N* n)
	{
		long c = -1; std::set<S> sem;
		for (N* i : kids(n, "input")) { if (att(i, "semantic") == "DRIVER") continue; long v = sourceCount(i); if (!sem.insert(att(i, "semantic")).second) bad("sampler-semantic-twice", i, att(i, "semantic")); if (c >= 0 && v != c) bad("input-counts:sampler", n, att(i, "semantic") + ": " + std::to_string(c) + " and " + std::to_string(v)); c = v; }
		for (const char* s : { "INPUT", "OUTPUT", "INTERPOLATION" }) if (!sem.count(s)) bad(S("sampler-without:") + s, n, "");
		N* in = NULL; for (N* i : kids(n, "input")) if (att(i, "semantic") == "INTERPOLATION") in = ref(i, att(i, "source"), { "source" }, "source");
		if (in) for (auto& t : tokens(kid(in, "Name_array"))) { ++values; if (t != "LINEAR" && t != "BEZIER" && t != "STEP" && t != "HERMITE" && t != "BSPLINE" && t != "CARDINAL" && t != "TCB") { bad("interpolation-name", in, t); break; } if (t == "BEZIER" && (!sem.count("IN_TANGENT") || !sem.count("OUT_TANGENT"))) { bad("bezier-without-tangents", n, ""); break; } }
		mon::hit("samplers_read");
	}

	// ---- The file against the document -----------------------------------------------------------
	bool near(const S& t, double v)
	{
		char* e; double x = t == "INF" ? INFINITY : t == "-INF" ? -INFINITY : strtod(t.c_str(), &e); ++values;
		return x == v || fabs(x - v) <= 2e-5 * fabs(v) + 2e-6;
	}
	void floats(const S& key, const N* n, const std::vector<double>& want)
	{
		if (!n) { viol("absent:" + key, "no element"); return; }
		auto t = tokens(n);
		if (t.size() != want.size()) { bad("value-count:" + key, n, std::to_string(t.size()) + " for " + std::to_string(want.size())); return; }
		for (size_t k = 0; k < t.size(); ++k) if (!near(t[k], want[k])) { bad("value:" + key, n, "[" + std::to_string(k) + "] " + t[k] + " for " + std::to_string(want[k])); return; }
	}
	void optFloat(const S& key, const N* parent, const char* name, bool present, float v)
	{
		N* k = kid(parent, name);
		if (!present) { if (k) bad("unset-written:" + key, k, text(k)); return; }
		if (!k) { bad("absent:" + key, parent, name); return; }
		floats(key, k, { v });
	}
	static std::vector<double> mat(const FMMatrix44& m) { std::vector<double> o; for (int r = 0; r < 4; ++r) for (int c = 0; c < 4; ++c) o.push_back(m.m[c][r]); return o; }
	N* entity(const FCDEntity* e, const char* element)
	{
		auto it = ids.find(S(const_cast<FCDEntity*>(e)->GetDaeId().c_str()));
		if (it == ids.end()) { viol(S("entity-absent:") + element, "%s", e->GetDaeId().c_str()); return NULL; }
		if (!is(it->second, element)) { bad(S("entity-element:") + element, it->second, nm(it->second)); return NULL; }
		if (att(it->second, "name") != S(e->GetName().c_str())) bad(S("entity-name:") + element, it->second, att(it->second, "name") + " for " + e->GetName().c_str());
		++values; mon::hit("entities_read");
		return it->second;
	}
	void sceneNode(const FCDSceneNode* n, std::set<const FCDSceneNode*>& seen, bool root)
	{
		if (!seen.insert(n).second) return;
		N* x = entity(n, root ? "visual_scene" : "node");
		if (x && !root)
		{
			if ((att(x, "type") == "JOINT") != n->GetJointFlag()) bad("node-type", x, att(x, "type"));
			std::vector<N*> tr; for (N* c : kids(x)) for (const char* k : { "translate", "rotate", "scale", "matrix", "lookat", "skew" }) if (is(c, k)) tr.push_back(c);
			if (tr.size() != n->GetTransformCount()) bad("transform-count", x, std::to_string(tr.size()) + " for " + std::to_string(n->GetTransformCount()));
			else for (size_t k = 0; k < tr.size(); ++k) transform(tr[k], n->GetTransform(k));
		}
		for (size_t k = 0; k < n->GetChildrenCount(); ++k) sceneNode(n->GetChild(k), seen, false);
	}
	void transform(const N* x, const FCDTransform* t)
	{
		auto v3 = [](const FMVector3& v) { return std::vector<double> { v.x, v.y, v.z }; };
		static const char* names[] = { "translate", "rotate", "scale", "matrix", "lookat", "skew" };
		if (t->GetType() > FCDTransform::SKEW || !is(x, names[t->GetType()])) { bad("transform-kind", x, std::to_string(t->GetType())); return; }
		std::vector<double> v;
		auto add = [&](const FMVector3& a) { for (double d : v3(a)) v.push_back(d); };
		switch (t->GetType())
		{
		case FCDTransform::TRANSLATION: add(*((const FCDTTranslation*) t)->GetTranslation()); break;
		case FCDTransform::SCALE: add(*((const FCDTScale*) t)->GetScale()); break;
		case FCDTransform::ROTATION: { FMAngleAxis a = *((const FCDTRotation*) t)->GetAngleAxis(); add(a.axis); v.push_back(a.angle); break; }
		case FCDTransform::MATRIX: v = mat(*((const FCDTMatrix*) t)->GetTransform()); break;
		case FCDTransform::LOOKAT: { FMLookAt l = *((const FCDTLookAt*) t)->GetLookAt(); add(l.position); add(l.target); add(l.up); break; }
		default: { FMSkew s = *((const FCDTSkew*) t)->GetSkew(); v.push_back(s.angle); add(s.rotateAxis); add(s.aroundAxis); break; }
		}
		floats(S("transform-") + names[t->GetType()], x, v);
		mon::hit("transforms_read");
	}
	void mesh(const N* g, const FCDGeometryMesh* m)
	{
		N* x = kid(g, "mesh"); if (!m->GetConvexHullOf().empty()) return;
		if (!x) x = kid(g, "convex_mesh");
		if (!x) { bad("absent:mesh", g, ""); return; }
		for (size_t q = 0; q < m->GetSourceCount(); ++q)
		{
			const FCDGeometrySource* s = m->GetSource(q);
			auto it = ids.find(S(const_cast<FCDGeometrySource*>(s)->GetDaeId().c_str()));
			if (it == ids.end()) { bad("absent:mesh-source", x, const_cast<FCDGeometrySource*>(s)->GetDaeId().c_str()); continue; }
			N* a = kid(it->second, "float_array"); std::vector<double> v; for (size_t k = 0; k < s->GetDataCount(); ++k) v.push_back(s->GetData()[k]);
			floats("mesh-source", a, v);
			N* acc = kid(kid(it->second, "technique_common"), "accessor");
			if (acc) { equal(acc, "source-stride", num(acc, "stride"), s->GetStride()); equal(acc, "source-values", num(acc, "count"), s->GetValueCount()); }
		}
		std::vector<N*> sets; for (N* c : kids(x)) for (const char* k : { "polylist", "polygons", "triangles", "lines", "linestrips", "trifans", "tristrips", "points" }) if (is(c, k)) sets.push_back(c);
		if (sets.size() != m->GetPolygonsCount()) { bad("set-count", x, std::to_string(sets.size()) + " for " + std::to_string(m->GetPolygonsCount())); return; }
		for (size_t q = 0; q < sets.size(); ++q)
		{
			const FCDGeometryPolygons* p = m->GetPolygons(q); N* n = sets[q];
			static const char* prim[] = { "lines", "linestrips", "", "trifans", "tristrips", "points" };
			int t = p->GetPrimitiveType(); bool ok = t == FCDGeometryPolygons::POLYGONS ? (is(n, "polylist") || is(n, "polygons") || is(n, "triangles")) : is(n, prim[t]);
			if (!ok) bad("set-kind", n, std::to_string(t));
			if (att(n, "material") != S(p->GetMaterialSemantic().c_str())) bad("set-material", n, att(n, "material"));
			// The corner counts, in order, holes included.
			std::vector<unsigned long> cnt; std::vector<S> flat; unsigned long w = width(n); if (w == 0) continue; 
			std::set<unsigned long> holes; for (size_t k = 0; k < p->GetHoleFaceCount(); ++k) holes.insert(p->GetHoleFaces()[k]);
			std::set<unsigned long> holesRead;
			for (N* c : kids(n))
			{
				if (is(c, "p")) { auto k = tokens(c); flat.insert(flat.end(), k.begin(), k.end()); cnt.push_back(k.size() / w); }
				else if (is(c, "ph")) for (N* h : kids(c)) { auto k = tokens(h); flat.insert(flat.end(), k.begin(), k.end()); if (is(h, "h")) holesRead.insert(cnt.size()); cnt.push_back(k.size() / w); }
			}
			std::vector<unsigned long> want; for (size_t k = 0; k < p->GetFaceVertexCountCount(); ++k) want.push_back(p->GetFaceVertexCounts()[k]);
			if (is(n, "polylist")) { cnt.clear(); for (auto& s : tokens(kid(n, "vcount"))) cnt.push_back(strtoul(s.c_str(), NULL, 10)); }
			else if (is(n, "triangles")) { size_t k = flat.size() / w / 3; cnt.assign(k, 3); }
			else if (is(n, "lines") || is(n, "points")) { unsigned long a = 0, b = 0; for (auto k : cnt) a += k; for (auto k : want) b += k; cnt.assign(1, a); want.assign(1, b); }
			if (is(n, "polygons") && holes != holesRead) bad("set-holes", n, "");
			if (cnt != want) { S a, b; for (auto k : cnt) a += std::to_string(k) + " "; for (auto k : want) b += std::to_string(k) + " "; bad("set-counts:" + nm(n), n, a.substr(0, 200) + "for " + b.substr(0, 200)); }
			size_t vertexInputs = 0;
			for (size_t i = 0; i < p->GetInputCount(); ++i)
			{
				const FCDGeometryPolygonsInput* in = p->GetInput(i); if (!in->GetSource()) continue;
				bool vs = m->IsVertexSource(in->GetSource()); if (vs) ++vertexInputs;
				// The written input that refers to this source.
				N* found = NULL; S sid = S(const_cast<FCDGeometrySource*>(in->GetSource())->GetDaeId().c_str());
				for (N* c : kids(n, "input"))
				{
					if (vs) { if (att(c, "semantic") == "VERTEX") { N* v = ids[att(c, "source").substr(1)]; for (N* k : kids(v, "input")) if (att(k, "source") == "#" + sid) found = c; } }
					else if (att(c, "source") == "#" + sid && (in->GetSet() < 0 || !has(c, "set") || att(c, "set") == std::to_string(in->GetSet()))) found = c;
				}
				if (!found) { bad("absent:set-input", n, sid); continue; }
				unsigned long o = num(found, "offset"); bool same = in->GetIndexCount() * w == flat.size();
				for (size_t k = 0; same && k < in->GetIndexCount(); ++k) { ++values; same = std::to_string(in->GetIndices()[k]) == flat[k * w + o]; }
				if (!same) bad("set-indices:" + nm(n), n, sid);
			}
			mon::hit("primitive_sets_compared");
		}
	}
	void skin(const N* c, FCDSkinController* s)
	{
		N* x = kid(c, "skin"); if (!x) { bad("absent:skin", c, ""); return; }
		if (s->GetTarget() && att(x, "source") != "#" + S(s->GetTarget()->GetDaeId().c_str())) bad("skin-target", x, att(x, "source"));
		if (kid(x, "bind_shape_matrix")) floats("bind-shape", kid(x, "bind_shape_matrix"), mat(s->GetBindShapeTransform())); else if (!(s->GetBindShapeTransform() == FMMatrix44::Identity)) bad("absent:bind-shape", x, "");
		N* j = NULL, *b = NULL; for (N* i : kids(kid(x, "joints"), "input")) { N* k = ids[att(i, "source").substr(1)]; if (att(i, "semantic") == "JOINT") j = k; if (att(i, "semantic") == "INV_BIND_MATRIX") b = k; }
		N* names = kid(j, "Name_array") ? kid(j, "Name_array") : kid(j, "IDREF_array"); auto t = tokens(names);
		if (t.size() != s->GetJointCount()) { bad("skin-joints", x, std::to_string(t.size())); return; }
		std::vector<double> inv;
		for (size_t k = 0; k < t.size(); ++k) { if (t[k] != S(s->GetJoint(k)->GetId().c_str())) bad("skin-joint-name", x, t[k]); for (double d : mat(s->GetJoint(k)->GetBindPoseInverse())) inv.push_back(d); }
		floats("inverse-bind-poses", kid(b, "float_array"), inv);
		N* vw = kid(x, "vertex_weights"); unsigned long w = width(vw), jo = 0, wo = 0; N* ws = NULL;
		for (N* i : kids(vw, "input")) { if (att(i, "semantic") == "JOINT") jo = num(i, "offset"); if (att(i, "semantic") == "WEIGHT") { wo = num(i, "offset"); ws = ids[att(i, "source").substr(1)]; } }
		auto vc = tokens(kid(vw, "vcount")), v = tokens(kid(vw, "v")), wt = tokens(kid(ws, "float_array"));
		if (vc.size() != s->GetInfluenceCount()) { bad("skin-influences", vw, std::to_string(vc.size())); return; }
		size_t at = 0;
		for (size_t k = 0; k < vc.size(); ++k)
		{
			FCDSkinControllerVertex* iv = s->GetVertexInfluence(k);
			if (strtoul(vc[k].c_str(), NULL, 10) != iv->GetPairCount()) { bad("skin-pairs", vw, vc[k]); return; }
			for (size_t p = 0; p < iv->GetPairCount(); ++p, ++at)
			{
				if ((at + 1) * w > v.size()) { bad("skin-pairs", vw, "short"); return; }
				long ji = strtol(v[at * w + jo].c_str(), NULL, 10); size_t wi = strtoul(v[at * w + wo].c_str(), NULL, 10); ++values;
				if (ji != iv->GetPair(p)->jointIndex || wi >= wt.size() || !near(wt[wi], iv->GetPair(p)->weight)) { bad("skin-weight", vw, v[at * w + jo] + " " + v[at * w + wo]); return; }
			}
		}
		for (auto& j : t) { ++refs; if (!joint(root, j)) bad("unresolved:joint-name", x, j); }
		mon::hit("skins_compared");
	}
	N* joint(N* n, const S& sid) { for (N* c : kids(n)) { if (is(c, "node") && (att(c, "sid") == sid || att(c, "id") == sid)) return c; if (is(c, "visual_scene") || is(c, "node") || is(c, "library_visual_scenes")) if (N* f = joint(c, sid)) return f; } return NULL; }
	void morph(const N* c, FCDMorphController* m)
	{
		N* x = kid(c, "morph"); if (!x) { bad("absent:morph", c, ""); return; }
		if (m->GetBaseTarget() && att(x, "source") != "#" + S(m->GetBaseTarget()->GetDaeId().c_str())) bad("morph-target", x, att(x, "source"));
		N* t = NULL, *w = NULL; for (N* i : kids(kid(x, "targets"), "input")) { N* k = ids[att(i, "source").substr(1)]; if (att(i, "semantic") == "MORPH_TARGET") t = k; if (att(i, "semantic") == "MORPH_WEIGHT") w = k; }
		auto n = tokens(kid(t, "IDREF_array")); std::vector<double> v;
		if (n.size() != m->GetTargetCount()) { bad("morph-targets", x, std::to_string(n.size())); return; }
		for (size_t k = 0; k < n.size(); ++k) { if (m->GetTarget(k)->GetGeometry() && n[k] != S(m->GetTarget(k)->GetGeometry()->GetDaeId().c_str())) bad("morph-target-id", x, n[k]); v.push_back(*m->GetTarget(k)->GetWeight()); }
		floats("morph-weights", kid(w, "float_array"), v);
		mon::hit("morphs_compared");
	}
	void camera(const N* x, FCDCamera* c)
	{
		N* t = kid(kid(x, "optics"), "technique_common"); bool persp = c->GetProjectionType() == FCDCamera::PERSPECTIVE;
		N* p = kid(t, persp ? "perspective" : "orthographic"); if (!p) { bad("absent:projection", x, ""); return; }
		optFloat("camera-x", p, persp ? "xfov" : "xmag", persp ? c->HasHorizontalFov() : c->HasHorizontalMag(), persp ? *c->GetFovX() : *c->GetMagX());
		optFloat("camera-y", p, persp ? "yfov" : "ymag", persp ? c->HasVerticalFov() : c->HasVerticalMag(), persp ? *c->GetFovY() : *c->GetMagY());
		if (kid(p, "aspect_ratio")) optFloat("camera-aspect", p, "aspect_ratio", true, *c->GetAspectRatio());
		optFloat("camera-near", p, "znear", true, *c->GetNearZ()); optFloat("camera-far", p, "zfar", true, *c->GetFarZ());
	}
	void light(const N* x, FCDLight* l)
	{
		static const char* names[] = { "point", "spot", "ambient", "directional" };
		N* p = kid(kid(x, "technique_common"), names[l->GetLightType()]); if (!p) { bad("light-kind", x, names[l->GetLightType()]); return; }
		FMVector3 c = *l->GetColor();
		floats("light-color", kid(p, "color"), { c.x, c.y, c.z });
	}
	void effectParam(const N* profile, const char* name, const FMVector4* color, float f)
	{
		N* t = kid(profile, "technique"); N* mat = NULL; for (const char* k : { "phong", "blinn", "lambert", "constant" }) if (N* m = kid(t, k)) mat = m;
		N* e = kid(mat, name); if (!e) return;
		if (color && kid(e, "color")) floats(S("effect-") + name, kid(e, "color"), { color->x, color->y, color->z, color->w });
		if (!color && kid(e, "float")) floats(S("effect-") + name, kid(e, "float"), { f });
	}
	void against(FCDocument* d)
	{
		std::set<const FCDSceneNode*> seen; FCDVisualSceneNodeLibrary* vl = d->GetVisualSceneLibrary();
		for (size_t k = 0; k < vl->GetEntityCount(); ++k) sceneNode(vl->GetEntity(k), seen, true);
		for (size_t k = 0; k < d->GetGeometryLibrary()->GetEntityCount(); ++k) { FCDGeometry* g = d->GetGeometryLibrary()->GetEntity(k); if (N* x = entity(g, "geometry")) if (g->IsMesh()) mesh(x, g->GetMesh()); }
		for (size_t k = 0; k < d->GetControllerLibrary()->GetEntityCount(); ++k) { FCDController* c = d->GetControllerLibrary()->GetEntity(k); if (N* x = entity(c, "controller")) { if (c->IsSkin()) skin(x, c->GetSkinController()); else if (c->IsMorph()) morph(x, c->GetMorphController()); } }
		for (size_t k = 0; k < d->GetCameraLibrary()->GetEntityCount(); ++k) { FCDCamera* c = d->GetCameraLibrary()->GetEntity(k); if (N* x = entity(c, "camera")) camera(x, c); }
		for (size_t k = 0; k < d->GetLightLibrary()->GetEntityCount(); ++k) { FCDLight* c = d->GetLightLibrary()->GetEntity(k); if (N* x = entity(c, "light")) light(x, c); }
		for (size_t k = 0; k < d->GetMaterialLibrary()->GetEntityCount(); ++k) { FCDMaterial* c = d->GetMaterialLibrary()->GetEntity(k); if (N* x = entity(c, "material")) if (c->GetEffect() && att(kid(x, "instance_effect"), "url") != "#" + S(c->GetEffect()->GetDaeId().c_str())) bad("material-effect", x, att(kid(x, "instance_effect"), "url")); }
		for (size_t k = 0; k < d->GetEffectLibrary()->GetEntityCount(); ++k)
		{
			FCDEffect* c = d->GetEffectLibrary()->GetEntity(k); N* x = entity(c, "effect"); if (!x) continue;
			FCDEffectStandard* s = (FCDEffectStandard*) c->FindProfile(FUDaeProfileType::COMMON); if (!s) continue;
			N* p = kid(x, "profile_COMMON"); if (!p) { bad("absent:profile_COMMON", x, ""); continue; }
			static const char* types[] = { "constant", "lambert", "phong", "blinn" }; int lt = s->GetLightingType();
			if (lt >= 0 && lt < 4 && !kid(kid(p, "technique"), types[lt])) bad("lighting-type", p, types[lt]);
			auto plain = [](FCDEffectParameter* q) { return q->IsConstant(); };
			struct { const char* n; FCDEffectParameterColor4* q; } cs[] = { { "emission", s->GetEmissionColorParam() }, { "ambient", s->GetAmbientColorParam() }, { "diffuse", s->GetDiffuseColorParam() }, { "specular", s->GetSpecularColorParam() }, { "reflective", s->GetReflectivityColorParam() }, { "transparent", s->GetTranslucencyColorParam() } };
			for (auto& e : cs) if (plain(e.q)) { FMVector4 v = *e.q->GetValue(); if (S(e.n) == "emission" || S(e.n) == "specular") { } else effectParam(p, e.n, &v, 0); }
			if (plain(s->GetShininessParam())) effectParam(p, "shininess", NULL, *s->GetShininessParam()->GetValue());
			if (plain(s->GetIndexOfRefractionParam())) effectParam(p, "index_of_refraction", NULL, *s->GetIndexOfRefractionParam()->GetValue());
		}
		for (size_t k = 0; k < d->GetImageLibrary()->GetEntityCount(); ++k) entity(d->GetImageLibrary()->GetEntity(k), "image");
		for (size_t k = 0; k < d->GetAnimationLibrary()->GetEntityCount(); ++k) entity(d->GetAnimationLibrary()->GetEntity(k), "animation");
		for (size_t k = 0; k < d->GetPhysicsModelLibrary()->GetEntityCount(); ++k) entity(d->GetPhysicsModelLibrary()->GetEntity(k), "physics_model");
		for (size_t k = 0; k < d->GetPhysicsMaterialLibrary()->GetEntityCount(); ++k) entity(d->GetPhysicsMaterialLibrary()->GetEntity(k), "physics_material");
		for (size_t k = 0; k < d->GetPhysicsSceneLibrary()->GetEntityCount(); ++k) entity(d->GetPhysicsSceneLibrary()->GetEntity(k), "physics_scene");
		for (size_t k = 0; k < d->GetForceFieldLibrary()->GetEntityCount(); ++k) entity(d->GetForceFieldLibrary()->GetEntity(k), "force_field");
		// The order of the polygon sets' faces and the scene's own URL.
		N* iv = kid(kid(root, "scene"), "instance_visual_scene");
		if (FCDSceneNode* main = d->GetVisualSceneInstance()) { if (!iv || att(iv, "url") != "#" + S(main->GetDaeId().c_str())) bad("scene-instance", root, iv ? att(iv, "url") : "none"); }
	}
};

PROP(C10, "a random document, with colliding and unusual ids and names, is saved and the file read with libxml2 alone; a case counts when over ten references resolved and over fifty counts and values were compared")
{
	int f = 0; for (int b = 1; b < DocGen::ALL; b <<= 1) if (r.chance(45)) f |= b;
	if (r.chance(15)) f = DocGen::ALL;
	if (f == 0) f = DocGen::SCENE | DocGen::MESH;
	DocRef a; DocGen g(r, a, f, r.chance(15) ? 2 : 1);
	g.build();
	// Awkward ids and names on top: taken ones, long ones, ones with characters that ids do not allow.
	derivedTaken = false;
	int odd = g.entities.empty() || r.chance(40) ? 0 : r.range(1, 6);
	for (int k = 0; k < odd; ++k)
	{
		FCDEntity* e = g.entities[r.below(g.entities.size())], *o = g.entities[r.below(g.entities.size())];
		S id; bool d8 = false; switch (r.below(6)) { case 0: id = S(o->GetDaeId().c_str()); break; case 1: id = g.text(12); break; case 2: id = "9" + g.word(4); break; case 3: derivedTaken = derivedTaken || (d8 = r.chance(8)); id = S(o->GetDaeId().c_str()) + r.pick(d8 ? std::vector<S> { "-vertices", "-weights", "-joints", "-sampler" } : std::vector<S> { "-positions", "-lib", "_", ".0" }); break; case 4: id = S(r.range(1, 700), 'x'); break; default: id = "."; break; }
		// Joints and convex hulls are referred to by text: the user has to keep those ids.
		if (r.chance(70) && e->GetType() != FCDEntity::GEOMETRY && e->GetType() != FCDEntity::SCENE_NODE) e->SetDaeId(fm::string(id.c_str())); else e->SetName(fstring(g.text(16).c_str()));
	}
	ErrorTap errs; S file = tmpFile("x.dae");
	if (!saveDoc(a, file)) { viol("save-failed", "%s", errs.all().c_str()); return; }
	Check c; if (!c.open(file)) return;
	c.collect(c.root); c.walk(c.root); c.against(a);
	mon::sig(mon::hash(&c.values, sizeof c.values) ^ mon::hash(&c.refs, sizeof c.refs) ^ c.ids.size());
	mon::hit("ids_checked", c.ids.size()); mon::hit("references_resolved", c.refs); mon::hit("counts_checked", c.counts); mon::hit("values_compared", c.values);
	if (c.refs > 10 && c.counts + c.values > 50) mon::nontrivial();
}
