// C34: the same COLLADA content, spelled differently, is read to the same document.
#include "docmon.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <algorithm>

namespace
{
#define X(s) ((const xmlChar*) (s))
typedef std::vector<xmlNode*> Nodes;

struct Editor
{
	Rng& r;
	xmlDoc* doc;
	S pre;
	Editor(Rng& r_, xmlDoc* d) : r(r_), doc(d) {}

	static S name(const xmlNode* n) { return S((const char*) n->name); }
	static S attr(xmlNode* n, const char* a) { xmlChar* v = xmlGetProp(n, X(a)); S s = v == NULL ? S() : S((const char*) v); if (v) xmlFree(v); return s; }
	static bool has(xmlNode* n, const char* a) { return xmlHasProp(n, X(a)) != NULL; }
	static S textOf(xmlNode* n) { xmlChar* v = xmlNodeGetContent(n); S s = v == NULL ? S() : S((const char*) v); if (v) xmlFree(v); return s; }
	static void setText(xmlNode* n, const S& t)
	{
		while (n->children) { xmlNode* c = n->children; xmlUnlinkNode(c); xmlFreeNode(c); }
		if (!t.empty()) xmlAddChild(n, xmlNewDocText(n->doc, X(t.c_str())));
	}
	static bool leaf(xmlNode* n) { for (xmlNode* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) return false; return true; }
	static bool foreign(xmlNode* n) { for (n = n->parent; n && n->type == XML_ELEMENT_NODE; n = n->parent) if (name(n) == "extra" || (name(n) == "technique" && has(n, "profile"))) return true; return false; }
	static bool under(xmlNode* n, const char* what) { for (n = n->parent; n && n->type == XML_ELEMENT_NODE; n = n->parent) if (name(n) == what) return true; return false; }
	void walk(xmlNode* n, Nodes& out) { if (n->type != XML_ELEMENT_NODE) return; out.push_back(n); for (xmlNode* c = n->children; c; c = c->next) walk(c, out); }
	Nodes all() { Nodes v; walk(xmlDocGetRootElement(doc), v); return v; }
	static Nodes children(xmlNode* n, const char* what = NULL) { Nodes v; for (xmlNode* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE && (!what || name(c) == what)) v.push_back(c); return v; }
	static std::vector<S> tokens(const S& t) { std::vector<S> v; S w; for (char c : t) { if (c == ' ' || c == '\n' || c == '\r' || c == '\t') { if (!w.empty()) v.push_back(w); w.clear(); } else w += c; } if (!w.empty()) v.push_back(w); return v; }
	S space(bool some) { S s; int n = r.range(some ? 1 : 0, 3); for (int i = 0; i < n; ++i) s += " \t\n\n "[r.below(5)]; return s; }
	S join(const std::vector<S>& v, bool fancy) { S s = fancy ? space(false) : S(); for (size_t i = 0; i < v.size(); ++i) { if (i) s += fancy ? space(true) : S(" "); s += v[i]; } if (fancy) s += space(false); return s; }

	static bool floats(xmlNode* n)
	{
		static const std::set<S> k = { "float_array", "matrix", "translate", "rotate", "scale", "lookat", "skew", "float", "float2", "float3", "float4", "color", "bind_shape_matrix", "znear", "zfar", "xfov", "yfov",
			"xmag", "ymag", "aspect_ratio", "constant_attenuation", "linear_attenuation", "quadratic_attenuation", "falloff_angle", "falloff_exponent", "mass", "inertia", "velocity", "angular_velocity", "gravity", "time_step",
			"half_extents", "radius", "height", "radius1", "radius2", "dynamic_friction", "static_friction", "restitution", "min", "max", "stiffness", "damping", "target_value", "float4x4", "float3x3", "float2x2", "hollow_density", "density", "equation" };
		return k.count(name(n)) && !foreign(n) && !under(n, "annotate");
	}
	static bool ints(xmlNode* n)
	{
		static const std::set<S> k = { "int_array", "p", "h", "v", "vcount", "int", "int2", "int3", "int4" };
		return k.count(name(n)) && !foreign(n) && !under(n, "annotate");
	}
	static bool bools(xmlNode* n)
	{
		static const std::set<S> k = { "bool_array", "bool", "dynamic", "hollow", "enabled", "interpenetrate" };
		return k.count(name(n)) && !foreign(n) && !under(n, "annotate");
	}
	static bool number(const S& t) { if (t.empty()) return false; for (char c : t) if (!strchr("0123456789+-.e", c)) return false; return strchr("0123456789", t.back()) != NULL; }

	// ---- The edits. Each returns how much it changed.
	size_t blanks()
	{
		size_t n = 0;
		for (xmlNode* e : all()) for (xmlNode* c : children(e)) if (r.chance(15)) { ++n; xmlAddPrevSibling(c, xmlNewDocText(doc, X(space(true).c_str()))); }
		return n;
	}
	xmlNode* remark()
	{
		if (r.chance(25)) return xmlNewPI(X("tool"), X("keep=\"<this/>\""));
		return xmlNewComment(X(r.pick(std::vector<const char*> { " a remark ", "<node id=\"x\"/>", "1 2 3", "", " # ' \" & % " })));
	}
	size_t comments()
	{
		size_t n = 0;
		for (xmlNode* e : all())
		{
			Nodes k = children(e);
			if (k.empty()) continue;
			for (xmlNode* c : k) if (r.chance(8)) { ++n; xmlAddPrevSibling(c, remark()); }
			if (r.chance(8)) { ++n; xmlAddChild(e, remark()); }
		}
		if (r.chance(30)) xmlAddPrevSibling(xmlDocGetRootElement(doc), remark());
		if (r.chance(30)) xmlAddNextSibling(xmlDocGetRootElement(doc), remark());
		return n;
	}
	size_t attributes()
	{
		size_t n = 0;
		for (xmlNode* e : all())
		{
			if (foreign(e)) continue;
			std::vector<xmlAttr*> v; for (xmlAttr* a = e->properties; a; a = a->next) v.push_back(a);
			if (v.size() < 2 || !r.chance(60)) continue;
			for (size_t i = v.size(); i > 1; --i) std::swap(v[i - 1], v[r.below(i)]);
			for (size_t i = 0; i < v.size(); ++i) { v[i]->prev = i ? v[i - 1] : NULL; v[i]->next = i + 1 < v.size() ? v[i + 1] : NULL; }
			e->properties = v[0]; ++n;
		}
		return n;
	}
	size_t lists()
	{
		size_t n = 0;
		for (xmlNode* e : all())
		{
			bool names = (name(e) == "Name_array" || name(e) == "IDREF_array") && !foreign(e);
			if (!(floats(e) || ints(e) || bools(e) || names) || !leaf(e) || !r.chance(40)) continue;
			setText(e, join(tokens(textOf(e)), true)); ++n;
		}
		return n;
	}
	S respell(const S& t)
	{
		if (!number(t)) return t;
		bool neg = t[0] == '-'; S u = t[0] == '-' || t[0] == '+' ? t.substr(1) : t;
		if (u.empty() || u.find_first_of("+-") == 0) return t;
		size_t e = u.find('e'); S m = u.substr(0, e), x = e == S::npos ? S() : u.substr(e + 1);
		if (m.empty()) return t;
		switch (r.below(6))
		{
		case 0: if (m.find('.') == S::npos) m += "."; m += S(r.below(3) + 1, '0'); break;
		case 1: m = S(r.below(3) + 1, '0') + m; break;
		case 2: if (x.empty()) x = r.pick(std::vector<const char*> { "0", "+0", "-0", "+00" }); break;
		case 3: if (m.size() > 1 && m[0] == '0' && m[1] == '.' && m.size() > 2) m = m.substr(1); break;
		case 4: if (!neg) return "+" + u; break;
		case 5: if (x.empty() && m.find('.') == S::npos && m.size() > 1 && m.back() == '0') { m.pop_back(); x = "1"; } break;
		}
		return (neg ? "-" : "") + m + (x.empty() ? S() : (r.chance(50) ? "e" : "E") + x);
	}
	size_t numbers()
	{
		size_t n = 0;
		for (xmlNode* e : all())
		{
			if (!floats(e) || !leaf(e) || !r.chance(50)) continue;
			std::vector<S> v = tokens(textOf(e));
			for (S& t : v) if (r.chance(50)) { S u = respell(t); n += u != t; t = u; }
			setText(e, join(v, false));
		}
		return n;
	}
	size_t booleans()
	{
		size_t n = 0;
		for (xmlNode* e : all())
		{
			if (!bools(e) || !leaf(e)) continue;
			std::vector<S> v = tokens(textOf(e));
			for (S& t : v) if (r.chance(60)) { S u = t == "true" ? "1" : t == "false" ? "0" : t == "1" ? "true" : t == "0" ? "false" : t; n += u != t; t = u; }
			setText(e, join(v, false));
		}
		return n;
	}
	// Comments, CDATA and character references within text.
	size_t text()
	{
		size_t n = 0;
		for (xmlNode* e : all())
		{
			if (!leaf(e) || !e->children || !r.chance(25)) continue;
			S t = textOf(e);
			if (t.find_first_not_of(" \t\r\n") == S::npos) continue;
			setText(e, "");
			std::vector<S> parts; parts.push_back(t);
			while (r.chance(60) && parts.size() < 4) { S& p = parts.back(); size_t at = r.below(p.size() + 1); while (at < p.size() && (p[at] & 0xC0) == 0x80) ++at; S q = p.substr(at); p.resize(at); parts.push_back(q); }
			bool comment = r.chance(50);
			for (size_t i = 0; i < parts.size(); ++i)
			{
				if (comment && (i > 0 || r.chance(30))) xmlAddChild(e, remark());
				if (parts[i].empty()) continue;
				bool cd = (!comment || r.chance(40)) && parts[i].find("]]>") == S::npos;
				if (cd) xmlAddChild(e, xmlNewCDataBlock(doc, X(parts[i].c_str()), (int) parts[i].size())); else xmlAddChild(e, xmlNewDocText(doc, X(parts[i].c_str())));
			}
			if (comment && r.chance(30)) xmlAddChild(e, remark());
			++n;
		}
		return n;
	}
	size_t libraries()
	{
		xmlNode* root = xmlDocGetRootElement(doc);
		Nodes libs; for (xmlNode* c : children(root)) if (name(c).compare(0, 8, "library_") == 0) libs.push_back(c);
		if (libs.empty()) return 0;
		xmlNode* anchor = xmlNewComment(X("libraries")); xmlAddPrevSibling(libs[0], anchor);
		for (xmlNode* l : libs) xmlUnlinkNode(l);
		std::vector<Nodes> groups;
		for (xmlNode* l : libs)
		{
			Nodes g { l }, k;
			for (xmlNode* c : children(l)) if (name(c) != "asset" && name(c) != "extra") k.push_back(c);
			if (r.chance(40) && k.size() > 1)
			{
				xmlNode* m = xmlNewDocNode(doc, l->ns, l->name, NULL);
				for (size_t i = k.size() - 1 - r.below(k.size() - 1), j = i; j < k.size(); ++j) { xmlUnlinkNode(k[j]); xmlAddChild(m, k[j]); }
				g.push_back(m);
			}
			groups.push_back(g);
		}
		// Only the order of different kinds changes.
		std::vector<std::pair<size_t, xmlNode*>> order;
		std::vector<size_t> next(groups.size(), 0), left;
		for (size_t i = 0; i < groups.size(); ++i) for (size_t j = 0; j < groups[i].size(); ++j) left.push_back(i);
		for (size_t i = left.size(); i > 1; --i) std::swap(left[i - 1], left[r.below(i)]);
		for (size_t g : left) xmlAddPrevSibling(anchor, groups[g][next[g]++]);
		return left.size() > 1;
	}
	size_t defaults()
	{
		size_t n = 0;
		for (xmlNode* e : all())
		{
			if (foreign(e)) continue;
			static const char* k[][3] = { { "accessor", "stride", "1" }, { "accessor", "offset", "0" }, { "node", "type", "NODE" }, { "unit", "meter", "1" }, { "unit", "meter", "1.0" }, { "unit", "name", "meter" } };
			for (auto& d : k) if (name(e) == d[0])
			{
				if (attr(e, d[1]) == d[2] && r.chance(60)) { xmlUnsetProp(e, X(d[1])); ++n; }
				else if (!has(e, d[1]) && S(d[0]) != "unit" && r.chance(60)) { xmlSetProp(e, X(d[1]), X(d[2])); ++n; }
			}
		}
		return n;
	}
	// Known parameters may be kept under the profile of another exporter.
	size_t profiles()
	{
		size_t n = 0;
		for (xmlNode* e : all())
		{
			if (name(e) != "technique" || attr(e, "profile") != "FCOLLADA" || !e->parent || name(e->parent) != "extra" || !e->parent->parent) continue;
			S owner = name(e->parent->parent);
			if (owner != "light" && owner != "camera") continue;
			if (children(e->parent).size() != 1 || has(e->parent, "type")) continue;
			bool known = true; for (xmlNode* c : children(e)) known &= leaf(c) && std::set<S> { "outer_cone", "dropoff", "intensity", "falloff_angle", "falloff_exponent", "linear_attenuation", "quadratic_attenuation", "constant_attenuation" }.count(name(c));
			if (!known || !r.chance(70)) continue;
			xmlSetProp(e, X("profile"), X(r.pick(std::vector<const char*> { "MAYA", "MAX3D", "OTHER" }))); ++n;
		}
		return n;
	}
	size_t counts()
	{
		size_t n = 0;
		for (xmlNode* e : all()) if (!foreign(e) && name(e).size() > 6 && name(e).substr(name(e).size() - 6) == "_array" && has(e, "count") && r.chance(60)) { xmlUnsetProp(e, X("count")); ++n; }
		return n;
	}
	// <polylist> and <triangles> against <polygons>.
	size_t polygons()
	{
		size_t n = 0;
		Nodes sets; for (xmlNode* e : all()) if (name(e) == "polylist" || name(e) == "triangles" || name(e) == "polygons") sets.push_back(e);
		for (xmlNode* e : sets)
		{
			bool list = name(e) == "polylist", tri = name(e) == "triangles";
			if ((!list && !tri && name(e) != "polygons") || !r.chance(70)) continue;
			size_t stride = 0; for (xmlNode* in : children(e, "input")) stride = std::max(stride, (size_t) atoi(attr(in, "offset").c_str()) + 1);
			Nodes p = children(e, "p"), vc = children(e, "vcount");
			if (list || tri)
			{
				if (p.size() != 1 || (list && vc.size() != 1) || stride == 0) continue;
				std::vector<S> idx = tokens(textOf(p[0])), counts = list ? tokens(textOf(vc[0])) : std::vector<S>(idx.size() / stride / 3, "3");
				size_t total = 0; for (S& c : counts) total += atoi(c.c_str()) * stride;
				if (total != idx.size() || counts.empty()) continue;
				if (tri && r.chance(40)) { xmlNodeSetName(e, X("polylist")); xmlNode* v = xmlNewDocNode(doc, e->ns, X("vcount"), NULL); setText(v, join(counts, false)); xmlAddPrevSibling(p[0], v); ++n; continue; }
				bool three = true; for (S& c : counts) three &= c == "3";
				if (list && three && r.chance(50)) { xmlNodeSetName(e, X("triangles")); xmlUnlinkNode(vc[0]); xmlFreeNode(vc[0]); ++n; continue; }
				bool zero = false; for (S& c : counts) zero |= c == "0";
				if (zero) continue;
				xmlNodeSetName(e, X("polygons"));
				size_t at = 0;
				for (S& c : counts)
				{
					size_t w = atoi(c.c_str()) * stride; xmlNode* q = xmlNewDocNode(doc, e->ns, X("p"), NULL);
					setText(q, join(std::vector<S>(idx.begin() + at, idx.begin() + at + w), false)); at += w; xmlAddPrevSibling(p[0], q);
				}
				xmlUnlinkNode(p[0]); xmlFreeNode(p[0]); if (list) { xmlUnlinkNode(vc[0]); xmlFreeNode(vc[0]); }
				++n;
			}
			else
			{
				if (!children(e, "ph").empty() || p.empty() || stride == 0) continue;
				std::vector<S> counts, idx; bool ok = true;
				for (xmlNode* q : p) { std::vector<S> t = tokens(textOf(q)); ok &= t.size() % stride == 0 && !t.empty(); counts.push_back(std::to_string(t.size() / stride)); idx.insert(idx.end(), t.begin(), t.end()); }
				if (!ok) continue;
				xmlNodeSetName(e, X("polylist")); xmlNode* v = xmlNewDocNode(doc, e->ns, X("vcount"), NULL); setText(v, join(counts, false)); xmlAddPrevSibling(p[0], v);
				setText(p[0], join(idx, false)); for (size_t i = 1; i < p.size(); ++i) { xmlUnlinkNode(p[i]); xmlFreeNode(p[i]); }
				++n;
			}
		}
		return n;
	}
	// Animation sources are copied for one more use of them, or equal ones are used twice.
	size_t sources()
	{
		size_t n = 0, made = 0;
		for (xmlNode* a : all())
		{
			if (name(a) != "animation" || under(a, "extra")) continue;
			for (xmlNode* s : children(a, "sampler")) for (xmlNode* in : children(s, "input"))
			{
				if (!r.chance(40)) continue;
				S id = attr(in, "source"); if (id.empty() || id[0] != '#') continue;
				xmlNode* src = NULL; for (xmlNode* c : children(a, "source")) if ("#" + attr(c, "id") == id) src = c;
				if (!src) continue;
				xmlNode* c = xmlDocCopyNode(src, doc, 1); S nid = "copied-source-" + std::to_string(made++);
				xmlSetProp(c, X("id"), X(nid.c_str())); xmlAddNextSibling(src, c); xmlSetProp(in, X("source"), X(("#" + nid).c_str())); ++n;
			}
		}
		return n;
	}
	size_t prefix()
	{
		xmlNode* root = xmlDocGetRootElement(doc);
		if (!root->ns) return 0;
		for (xmlNs* d = root->nsDef; d; d = d->next) if (d->prefix && S((const char*) d->prefix) == "c") return 0;
		root->ns->prefix = xmlStrdup(X("c"));
		return 1;
	}
	size_t ids()
	{
		std::set<S> known, bodies; Nodes v = all();
		for (xmlNode* e : v) if (name(e) == "rigid_body") bodies.insert(attr(e, "sid"));
		for (xmlNode* e : v) if (has(e, "id")) { bool foreign = false; for (xmlNode* u = e->parent; u && u->type == XML_ELEMENT_NODE; u = u->parent) foreign |= name(u) == "technique" && has(u, "profile"); if (foreign) continue; S i = attr(e, "id"); if (i.size() > 400 || i.find_first_of(" \t\n") != S::npos) return 0; known.insert(i); }
		pre = r.pick(std::vector<const char*> { "zqz-", "Zqz_", "zqz.9-" });
		auto frag = [&](const S& t, S& out) -> bool { if (t.size() < 2 || t[0] != '#') return false; size_t e = t.find_first_of("/("); S i = t.substr(1, e == S::npos ? S::npos : e - 1); if (!known.count(i)) return false; out = "#" + pre + t.substr(1); return true; };
		for (xmlNode* e : v)
		{
			S nm = name(e);
			if (under(e, "extra") && !under(e, "technique")) continue;
			bool foreign = false; for (xmlNode* u = e->parent; u && u->type == XML_ELEMENT_NODE; u = u->parent) foreign |= name(u) == "technique" && has(u, "profile");
			if (has(e, "id") && known.count(attr(e, "id")) && !foreign)
			{
				// Unnamed entities are named after their ids.
				if (!has(e, "name") && nm != "source" && nm.find("_array") == S::npos && nm != "vertices" && nm != "sampler") xmlSetProp(e, X("name"), X(attr(e, "id").c_str()));
				xmlSetProp(e, X("id"), X((pre + attr(e, "id")).c_str()));
			}
			for (const char* a : { "url", "source", "target", "convex_hull_of", "parent", "material", "constraint", "rigid_body", "ref" })
			{
				if (!has(e, a)) continue;
				S t = attr(e, a), out;
				if (frag(t, out)) xmlSetProp(e, X(a), X(out.c_str()));
				else if (nm == "channel" && S(a) == "target" && known.count(t.substr(0, t.find_first_of("/(")))) xmlSetProp(e, X(a), X((pre + t).c_str()));
				else if (S(a) == "rigid_body" && nm.find("attachment") != S::npos && known.count(t) && !bodies.count(t)) xmlSetProp(e, X(a), X((pre + t).c_str()));
				else if (S(a) == "ref" && under(e, "surface") && known.count(t)) xmlSetProp(e, X(a), X((pre + t).c_str()));
				else if (nm == "bind" && S(a) == "target" && known.count(t.substr(0, t.find_first_of("/(")))) xmlSetProp(e, X(a), X((pre + t).c_str()));
			}
			if (!leaf(e)) continue;
			S t = textOf(e), out;
			if (frag(t, out)) { if (nm != "init_from" || !under(e, "image")) setText(e, out); }
			else if (nm == "IDREF_array" || (nm == "init_from" && !under(e, "image"))) { std::vector<S> w = tokens(t); for (S& x : w) if (known.count(x)) x = pre + x; setText(e, join(w, false)); }
		}
		return known.size();
	}
};

S serialise(Rng& r, xmlDoc* doc, bool plain, S& how)
{
	static const char* const enc[] = { "UTF-8", "UTF-16", "UTF-16LE", "UTF-16BE", "US-ASCII", "ISO-8859-1", "HTML" };
	int k = plain ? 0 : (int) r.below(6);
	xmlChar* mem = NULL; int len = 0;
	xmlDocDumpMemoryEnc(doc, &mem, &len, enc[k]);
	S s = mem ? S((const char*) mem, len) : S();
	if (mem) xmlFree(mem);
	how = enc[k];
	if (!plain && k == 0)
	{
		if (r.chance(50)) { s = "\xEF\xBB\xBF" + s; how += "+mark"; }
		if (r.chance(50)) { S t; for (char c : s) { if (c == '\n') t += '\r'; t += c; } s = t; how += "+crlf"; }
		if (r.chance(30)) { size_t e = s.find("?>"); s = s.substr(e == S::npos ? 0 : e + 2); while (!s.empty() && (s[0] == '\r' || s[0] == '\n')) s.erase(0, 1); how += "+bare"; }
	}
	return s;
}
}

PROP(C34, "the file of a random document is edited without changing its meaning (white space, comments, CDATA, attribute order, number and boolean spelling, encoding, library order, defaults, primitives, sources, ids) and read again; a case counts when an edit changed something and over forty observations were compared")
{
	static const int parts[] = { DocGen::SCENE | DocGen::CAMERA | DocGen::LIGHT, DocGen::MESH | DocGen::SPLINE, DocGen::MATERIAL | DocGen::FX, DocGen::MESH | DocGen::SKIN | DocGen::MORPH | DocGen::SCENE,
		DocGen::SCENE | DocGen::LIGHT | DocGen::CAMERA | DocGen::ANIM | DocGen::CLIP, DocGen::MESH | DocGen::SCENE | DocGen::PHYSICS, DocGen::SCENE | DocGen::EXTRA | DocGen::LAYER | DocGen::ASSET | DocGen::FORCE | DocGen::EMITTER, DocGen::ALL };
	int flags = parts[r.below(8)];
	DocRef a, b;
	DocGen g(r, a, flags, 1);
	g.build();
	S file = tmpFile("sp.dae");
	ErrorTap errs;
	if (!saveDoc(a, file)) { mon::viol("spelling:save-failed", "%s", errs.all().c_str()); return; }
	S text = readFile(file);
	if (!loadDoc(b, file)) { mon::viol("spelling:load-failed", "%s", errs.all().c_str()); return; }
	Dump want = dumpDoc(b);
	size_t loadErrors = errs.errors.size();

	xmlDoc* doc = xmlReadMemory(text.data(), (int) text.size(), "sp.dae", NULL, XML_PARSE_NONET | XML_PARSE_HUGE);
	if (!doc) { mon::viol("spelling:not-xml", "libxml2 refuses the file"); return; }
	Editor ed(r, doc);
	struct Op { const char* name; size_t (Editor::*f)(); };
	static const Op ops[] = { { "blanks", &Editor::blanks }, { "comments", &Editor::comments }, { "attributes", &Editor::attributes }, { "lists", &Editor::lists }, { "numbers", &Editor::numbers }, { "booleans", &Editor::booleans },
		{ "libraries", &Editor::libraries }, { "defaults", &Editor::defaults }, { "polygons", &Editor::polygons }, { "sources", &Editor::sources }, { "ids", &Editor::ids }, { "prefix", &Editor::prefix }, { "text", &Editor::text }, { "profiles", &Editor::profiles }, { "counts", &Editor::counts } };
	const size_t n = sizeof ops / sizeof *ops;
	bool chosen[n]; size_t changed = 0; S what; bool renamed = false, encode;
	if (r.chance(50)) { for (bool& c : chosen) c = false; size_t k = r.below(n + 1); encode = k == n; if (k < n) chosen[k] = true; }
	else { for (bool& c : chosen) c = r.chance(30); encode = r.chance(40); }
	for (size_t i = 0; i < n; ++i) if (chosen[i])
	{
		size_t k = (ed.*ops[i].f)();
		if (k == 0) continue;
		mon::hit((S("edits_") + ops[i].name).c_str(), k); changed += k; what += S(what.empty() ? "" : "+") + ops[i].name;
		renamed |= S(ops[i].name) == "ids";
	}
	S how; S spelled = serialise(r, doc, !encode, how);
	if (encode) { what += S(what.empty() ? "" : "+") + how; mon::hit(("encoding_" + how).c_str()); ++changed; }
	xmlFreeDoc(doc);
	if (spelled.empty()) return;
	mon::sig(mon::hash(spelled.data(), spelled.size()));

	errs.errors.clear();
	DocRef c;
	writeFile(file, spelled);
	if (mon::verbose) { printf("edits: %s\n", what.c_str()); writeFile(tmpFile("sp-a.dae"), text); writeFile(tmpFile("sp-b.dae"), spelled); }
	bool ok = r.chance(30) ? loadDocMem(c, file, spelled) : loadDoc(c, file);
	if (!ok) { mon::viol("spelling:load-failed:" + what, "the document spelled with %s is refused: %s", what.c_str(), errs.all().c_str()); return; }
	if (errs.errors.size() != loadErrors) mon::viol("spelling:load-errors:" + what, "the document spelled with %s: %s", what.c_str(), errs.all().c_str());
	Dump got = dumpDoc(c);
	if (renamed) for (auto& l : got.lines) for (S* t : { &l.first, &l.second }) for (size_t at; (at = t->find(ed.pre)) != S::npos;) t->erase(at, ed.pre.size());
	S tag = "spelling"; if (what.find('+') == S::npos) tag += "-" + what;
	size_t bad = reportDiff(tag, want, got);
	if (bad && mon::verbose) { writeFile(tmpFile("sp-a.txt"), want.text()); writeFile(tmpFile("sp-b.txt"), got.text()); }
	mon::hit("documents"); mon::hit("observations", want.lines.size());
	if (changed > 0 && want.lines.size() > 40) mon::nontrivial();
}
