// C09: repeated saves and load/save cycles over whole documents.
#include "docmon.h"
#include <unistd.h>

// The written file without its modification time stamps.
static S stable(const S& text)
{
	S out; size_t at = 0;
	while (true)
	{
		size_t b = text.find("<modified>", at); if (b == S::npos) break;
		size_t e = text.find("</modified>", b); if (e == S::npos) break;
		out.append(text, at, b - at); at = e;
	}
	out.append(text, at, S::npos);
	return out;
}
static bool sameText(const S& a, const S& b, const char* key)
{
	S x = stable(a), y = stable(b);
	if (x == y) return true;
	size_t k = 0; while (k < x.size() && k < y.size() && x[k] == y[k]) ++k;
	// The innermost element that starts before the difference names the kind of difference.
	S el = "?"; size_t p = x.rfind('<', k ? k - 1 : 0); 
	if (p != S::npos) { size_t q = p + 1; while (q < x.size() && x[q] != ' ' && x[q] != '>' && x[q] != '/' && x[q] != '\n') ++q; el = x.substr(p + 1, q - p - 1); if (el.empty()) el = "/" ; }
	size_t from = k > 120 ? k - 120 : 0;
	mon::viol(S(key) + ":" + el, "sizes %zu and %zu, first difference at %zu:\n  1: %s\n  2: %s", x.size(), y.size(), k, mon::esc(x.substr(from, 240)).c_str(), mon::esc(y.substr(from, 240)).c_str());
	return false;
}

// The modification times are the time of the save.
static Dump observe(FCDocument* d)
{
	Dump o = dumpDoc(d);
	for (size_t k = 0; k < o.lines.size();)
	{
		const S& p = o.lines[k].first;
		if (p.size() >= 14 && p.compare(p.size() - 14, 14, "asset/modified") == 0) o.lines.erase(o.lines.begin() + k); else ++k;
	}
	return o;
}

static int anyFlags(Rng& r)
{
	int f = 0;
	for (int b = 1; b < DocGen::ALL; b <<= 1) if (r.chance(45)) f |= b;
	if (r.chance(15)) f = DocGen::ALL;
	if (f == 0) f = DocGen::SCENE | DocGen::MESH;
	return f;
}

PROP(C09, "a random document of any content is saved twice, loaded, saved, loaded and saved again; a case counts when over forty observations were compared")
{
	DocRef a, b, c;
	DocGen g(r, a, anyFlags(r), r.chance(15) ? 2 : 1);
	g.build();
	ErrorTap errs;
	S f0 = tmpFile("c0.dae"), f1 = tmpFile("c1.dae"), f2 = tmpFile("c2.dae"), f3 = tmpFile("c3.dae");
	Dump d0; bool early = r.chance(60); if (early) d0 = observe(a);
	if (!saveDoc(a, f0) || !saveDoc(a, f1)) { mon::viol("save-failed", "%s", errs.all().c_str()); return; }
	S t0 = readFile(f0), t1 = readFile(f1);
	mon::sig(mon::hash(t0.data(), t0.size())); mon::hit("documents"); mon::hit("document_bytes", t0.size());
	sameText(t0, t1, "second-save");
	Dump d1 = observe(a);
	mon::hit("observations", d1.lines.size()); if (d1.lines.size() > 40) mon::nontrivial();
	if (early) reportDiff("changed-by-saving", d0, d1);
	// The first cycle settles what the format normalises; from then on nothing may change.
	if (!loadDoc(b, f0) || !saveDoc(b, f2)) { mon::viol("cycle-failed", "%s", errs.all().c_str()); return; }
	Dump d2 = observe(b);
	if (!loadDoc(c, f2) || !saveDoc(c, f3)) { mon::viol("cycle-failed", "%s", errs.all().c_str()); return; }
	Dump d3 = observe(c);
	sameText(readFile(f2), readFile(f3), "next-cycle");
	reportDiff("cycle", d2, d3);
	mon::hit("cycles", 2);
	if (mon::verbose && mon::violations()) printf("kept %s\n", f0.c_str());
}
