// C01: hostile files. Exported documents are damaged - elements and attributes removed, repeated, moved, renamed, given each
// other's or extreme values, text cut short, bytes changed - and loaded; what is left is observed, saved and destroyed.
#include "docmon.h"
#include "gen/dae_names.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <memory>
#include <unistd.h>

namespace
{
template <class T, size_t N> constexpr size_t sizeOf(T (&)[N]) { return N; }
const char* const numbers[] = { "0", "1", "-1", "2", "3", "4", "16", "32", "255", "65536", "2147483647", "2147483648", "-2147483648", "4294967295", "4294967296", "1e38", "-1e38", "1e-40", "NaN", "INF", "", " ", "0x10", "1.5", "9999999999999999999999", "true", "#", "-" };
xmlChar* X(const S& s) { return (xmlChar*) s.c_str(); }
S contentOf(xmlNode* n) { xmlChar* c = xmlNodeGetContent(n); S s = c ? (const char*) c : ""; xmlFree(c); return s; }

struct Hurt
{
	Rng& r; xmlDoc* doc; std::vector<xmlNode*> nodes; std::vector<xmlAttr*> attrs;
	Hurt(Rng& r_, xmlDoc* d) : r(r_), doc(d) {}
	void collect(xmlNode* n) { nodes.push_back(n); for (xmlAttr* a = n->properties; a; a = a->next) attrs.push_back(a); for (xmlNode* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) collect(c); }
	void again() { nodes.clear(); attrs.clear(); xmlNode* root = xmlDocGetRootElement(doc); if (root) collect(root); }
	xmlNode* node() { return nodes.size() < 2 ? NULL : nodes[1 + r.below(nodes.size() - 1)]; }
	static bool inside(xmlNode* n, xmlNode* of) { for (; n; n = n->parent) if (n == of) return true; return false; }
	S value(xmlAttr* a) { return contentOf((xmlNode*) a); }
	void set(xmlAttr* a, const S& v) { xmlSetProp(a->parent, a->name, X(v)); }
	S anyNumber() { return numbers[r.below(sizeOf(numbers))]; }
	S words(S s)
	{
		std::vector<S> w; size_t i = 0; while (i < s.size()) { size_t j = s.find_first_of(" \n\t", i); if (j == S::npos) j = s.size(); if (j > i) w.push_back(s.substr(i, j - i)); i = j + 1; }
		switch (r.below(6))
		{
		case 0: w.resize(w.size() / 2); break;
		case 1: if (!w.empty()) w.pop_back(); break;
		case 2: if (!w.empty()) w[r.below(w.size())] = anyNumber(); break;
		case 3: if (!w.empty()) w.push_back(w[r.below(w.size())]); break;
		case 4: { size_t n = w.size(); for (size_t k = 0; k < n && k < 1000; ++k) w.push_back(w[k]); break; }
		default: if (!w.empty()) w.erase(w.begin() + r.below(w.size())); break;
		}
		S o; for (auto& x : w) { if (!o.empty()) o += ' '; o += x; } return o;
	}
	bool one()
	{
		again(); if (nodes.size() < 3) return false;
		xmlNode* n = node(); xmlNode* m = node(); xmlAttr* a = attrs.empty() ? NULL : attrs[r.below(attrs.size())]; xmlAttr* b = attrs.empty() ? NULL : attrs[r.below(attrs.size())];
		switch (r.below(18))
		{
		case 0: case 1: mon::hit("elements_removed"); xmlUnlinkNode(n); xmlFreeNode(n); return true;
		case 2: { mon::hit("elements_repeated"); xmlNode* c = xmlCopyNode(n, 1); if (r.chance(60)) xmlAddNextSibling(n, c); else xmlAddChild(inside(m, n) ? n->parent : m, c); return true; }
		case 3: if (inside(m, n)) return false; mon::hit("elements_moved"); xmlUnlinkNode(n); xmlAddChild(m, n); return true;
		case 4: { mon::hit("elements_renamed"); S name = r.chance(50) ? S((const char*) m->name) : S(daeElements[r.below(sizeOf(daeElements))]); if (name.empty() || name.find_first_of(" <>&\"/") != S::npos) return false; xmlNodeSetName(n, X(name)); return true; }
		case 5: if (n->children) { mon::hit("elements_emptied"); while (n->children) { xmlNode* c = n->children; xmlUnlinkNode(c); xmlFreeNode(c); } return true; } return false;
		case 6: case 7: if (!a) return false; mon::hit("attributes_removed"); xmlRemoveProp(a); return true;
		case 8: if (!a) return false; mon::hit("attributes_exchanged"); { xmlAttr* c = b; for (int k = 0; k < 20 && strcmp((const char*) a->name, (const char*) c->name); ++k) c = attrs[r.below(attrs.size())]; set(a, value(r.chance(70) ? c : b)); } return true;
		case 9: if (!a) return false; mon::hit("attributes_referring"); { S v = value(b); set(a, r.chance(60) ? "#" + v : v); } return true;
		case 10: if (!a) return false; mon::hit("attributes_numeric"); { std::vector<xmlAttr*> c; for (xmlAttr* x : attrs) for (const char* k : { "count", "stride", "offset", "set", "idx", "input_set" }) if (!strcmp((const char*) x->name, k)) c.push_back(x); set(c.empty() ? a : r.pick(c), anyNumber()); } return true;
		case 11: if (!a) return false; mon::hit("attributes_emptied"); set(a, r.chance(50) ? "" : words(value(a))); return true;
		case 12: { S name = daeAttributes[r.below(sizeOf(daeAttributes))]; if (name.empty()) return false; mon::hit("attributes_added"); xmlSetProp(n, X(name), X(b ? value(b) : anyNumber())); return true; }
		case 13: case 14: { if (n->children && n->children->type == XML_TEXT_NODE && !n->children->next) { mon::hit("texts_changed"); S t = words(contentOf(n)); xmlNodeSetContent(n, NULL); xmlNodeAddContent(n, X(t)); return true; } return false; }
		case 15: if (n->children && n->children->type == XML_TEXT_NODE && !n->children->next) { mon::hit("texts_replaced"); S t = r.chance(40) ? anyNumber() : r.chance(50) ? S(daeWords[r.below(sizeOf(daeWords))]) : contentOf(m); xmlNodeSetContent(n, NULL); xmlNodeAddContent(n, X(t)); return true; } return false;
		case 16: { mon::hit("elements_added"); S name = daeElements[r.below(sizeOf(daeElements))]; if (name.empty() || name.find_first_of(" <>&\"/") != S::npos) return false; xmlNode* c = xmlNewNode(NULL, X(name)); if (r.chance(50)) xmlNodeAddContent(c, X(anyNumber())); if (r.chance(50) && n->children) xmlAddPrevSibling(n->children, c); else xmlAddChild(n, c); return true; }
		default: // the whole of an element's content comes from elsewhere
			if (inside(m, n) || inside(n, m) || n == m) return false; mon::hit("elements_exchanged"); { xmlNode* c = xmlCopyNode(m, 1); xmlReplaceNode(n, c); xmlFreeNode(n); } return true;
		}
	}
};
S bytes(Rng& r, S t)
{
	for (int k = r.range(1, 6); k > 0 && !t.empty(); --k) switch (r.below(6))
	{
	case 0: t[r.below(t.size())] = (char) r.below(256); break;
	case 1: t[r.below(t.size())] ^= (char) (1 << r.below(8)); break;
	case 2: t.erase(r.below(t.size()), r.range(1, 30)); break;
	case 3: t.insert(r.below(t.size()), S(1, "<>&\"'/# \0=[]-"[r.below(13)])); break;
	case 4: if (r.chance(30)) t.resize(r.below(t.size())); break;
	default: { size_t a = r.below(t.size()), n = r.range(1, 200); t.insert(r.below(t.size()), t.substr(a, n)); break; }
	}
	return t;
}
}

PROP(C01, "the exported file of a random document is damaged in one to thirty places and loaded from memory or a file; a case counts when the damaged file was loaded")
{
	S file = tmpFile("in.dae"), text;
	{
		static const int parts[] = { DocGen::SCENE | DocGen::CAMERA | DocGen::LIGHT, DocGen::MESH, DocGen::MESH | DocGen::SKIN | DocGen::SCENE, DocGen::MESH | DocGen::MORPH, DocGen::MATERIAL, DocGen::MATERIAL | DocGen::FX, DocGen::PHYSICS | DocGen::MESH, DocGen::ANIM | DocGen::CLIP | DocGen::CAMERA | DocGen::SCENE, DocGen::EXTRA, DocGen::FORCE | DocGen::EMITTER | DocGen::SCENE, DocGen::ASSET, DocGen::SPLINE };
		int f = 0; if (r.chance(6)) f = DocGen::ALL; else for (int k = r.range(1, 4); k > 0; --k) f |= parts[r.below(12)];
		DocRef a; DocGen g(r, a, f, 1); g.build(); saveDoc(a, file); text = readFile(file);
	}
	bool did = false;
	if (!r.chance(6))
	{
		xmlDoc* doc = xmlReadMemory(text.data(), (int) text.size(), "in.dae", NULL, XML_PARSE_NOERROR | XML_PARSE_NOWARNING);
		if (doc == NULL) { mon::viol("harness-parse", "the exported file could not be parsed"); return; }
		Hurt h(r, doc); for (int k = r.chance(50) ? r.range(1, 3) : r.range(1, 30); k > 0; --k) did |= h.one();
		xmlChar* out = NULL; int size = 0; xmlDocDumpMemory(doc, &out, &size); text.assign((const char*) out, size); xmlFree(out); xmlFreeDoc(doc);
	}
	if (r.chance(12)) { text = bytes(r, text); did = true; mon::hit("bytes_changed"); }
	mon::sig(mon::hash(text.data(), text.size()));
	if (mon::verbose) writeFile(tmpFile("hostile.dae"), text);
	if (did) mon::nontrivial();
	mon::AllowAsserts allow; ErrorTap errs;
	DocRef d; bool ok;
	if (r.chance(70)) { std::unique_ptr<char[]> exact(new char[text.size()]); memcpy(exact.get(), text.data(), text.size()); ok = FCollada::LoadDocumentFromMemory(file.c_str(), d, exact.get(), text.size()); }
	else { writeFile(file, text); ok = loadDoc(d, file); }
	mon::hit(ok ? "loads_ok" : "loads_failed"); mon::hit("reports", errs.errors.size() + errs.warnings.size());
	Dump seen = dumpDoc(d); mon::hit("observations", seen.lines.size());
	saveDoc(d, tmpFile("out.dae")); mon::hit("saves");
	if (r.chance(30)) { DocRef again; loadDoc(again, tmpFile("out.dae")); mon::hit("reloads"); }
}
