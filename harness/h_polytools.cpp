// C24: polygon tools. Oracle: the corners of every face, each with the values of every attribute, recorded before and compared after.
#include "mon.h"
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometryPolygonsTools.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDLibrary.h"
#include <cmath>
#include <map>
#include <set>
#include <vector>
using std::vector; using std::map;
typedef std::string S;

namespace {
typedef vector<float> Val;
typedef std::multimap<std::pair<int, int>, Val> Corner;           // (semantic, set) -> value
struct Face { bool hole; vector<Corner> c; };
struct SetView { int type; S material; vector<Face> f; };
typedef FCDGeometryPolygons Pg;

// What a reader of the mesh sees. False after reporting an index out of its source.
bool view(const Pg* p, SetView& v, const char* when)
{
	v.type = p->GetPrimitiveType(); v.material = S(p->GetMaterialSemantic().c_str()); v.f.clear(); size_t at = 0;
	std::set<uint32> holes(p->GetHoleFaces(), p->GetHoleFaces() + p->GetHoleFaceCount());
	for (uint32 h : holes) if (h >= p->GetFaceVertexCountCount()) { mon::viol(S("hole-out-of-range:") + when, "%u of %zu", h, p->GetFaceVertexCountCount()); return false; }
	for (size_t f = 0; f < p->GetFaceVertexCountCount(); ++f)
	{
		Face face; face.hole = holes.count((uint32) f) > 0; uint32 n = p->GetFaceVertexCounts()[f];
		for (uint32 k = 0; k < n; ++k, ++at)
		{
			Corner c;
			for (size_t i = 0; i < p->GetInputCount(); ++i)
			{
				const FCDGeometryPolygonsInput* in = p->GetInput(i); const FCDGeometrySource* s = in->GetSource(); if (s == NULL) continue;
				if (at >= in->GetIndexCount()) { mon::viol(S("indices-missing:") + when, "corner %zu of input %zu, which has %zu", at, i, in->GetIndexCount()); return false; }
				uint32 x = in->GetIndices()[at];
				if (x >= s->GetValueCount()) { mon::viol(S("index-out-of-range:") + when, "%u of %zu", x, s->GetValueCount()); return false; }
				c.insert({ std::make_pair((int) in->GetSemantic(), in->GetSet()), Val(s->GetData() + x * s->GetStride(), s->GetData() + (x + 1) * s->GetStride()) });
			}
			face.c.push_back(c); mon::hit("corners_compared");
		}
		v.f.push_back(face);
	}
	for (size_t i = 0; i < p->GetInputCount(); ++i) if (p->GetInput(i)->GetSource() != NULL && p->GetInput(i)->GetIndexCount() != at) { mon::viol(S("indices-left:") + when, "input %zu has %zu for %zu corners", i, p->GetInput(i)->GetIndexCount(), at); return false; }
	return true;
}
// Every attribute that the corner had is still there with its value; new ones only where the tool adds some.
bool same(const Corner& a, const Corner& b, bool mayGrow)
{
	if (!mayGrow && a.size() != b.size()) return false;
	for (auto& k : a) { bool found = false; for (auto it = b.find(k.first); it != b.end() && it->first == k.first && !found; ++it) found = it->second == k.second; if (!found) return false; }
	return true;
}
bool sameFaces(const vector<Face>& a, const vector<Face>& b, const char* tool, bool mayGrow = false)
{
	if (a.size() != b.size()) { mon::viol(S("face-count:") + tool, "%zu for %zu", b.size(), a.size()); return false; }
	for (size_t f = 0; f < a.size(); ++f)
	{
		if (a[f].hole != b[f].hole) { mon::viol(S("hole:") + tool, "face %zu of %zu is %d for %d", f, a.size(), b[f].hole, a[f].hole); return false; }
		if (a[f].c.size() != b[f].c.size()) { mon::viol(S("corner-count:") + tool, "face %zu has %zu for %zu", f, b[f].c.size(), a[f].c.size()); return false; }
		for (size_t k = 0; k < a[f].c.size(); ++k) if (!same(a[f].c[k], b[f].c[k], mayGrow)) { S d; for (auto& x : a[f].c[k]) { auto it = b[f].c[k].find(x.first); if (it == b[f].c[k].end() || it->second != x.second) { d = " (" + std::to_string(x.first.first) + "," + std::to_string(x.first.second) + ")"; for (float v : x.second) d += " " + std::to_string(v); d += " is"; if (it == b[f].c[k].end()) d += " gone"; else for (float v : it->second) d += " " + std::to_string(v); break; } } mon::viol(S("corner:") + tool, "face %zu of %zu, corner %zu: %zu attributes for %zu%s", f, a.size(), k, b[f].c[k].size(), a[f].c[k].size(), d.c_str()); return false; }
	}
	return true;
}
bool sameSet(const SetView& a, const SetView& b, const char* tool, bool mayGrow = false)
{
	if (a.type != b.type) { mon::viol(S("primitive-type:") + tool, "%d for %d", b.type, a.type); return false; }
	if (a.material != b.material) { mon::viol(S("material:") + tool, "%s for %s", mon::esc(b.material).c_str(), mon::esc(a.material).c_str()); return false; }
	return sameFaces(a.f, b.f, tool, mayGrow);
}
bool sameStats(const FCDGeometryMesh* m, const char* tool)
{
	size_t faces = 0, holes = 0, corners = 0;
	for (size_t p = 0; p < m->GetPolygonsCount(); ++p)
	{
		const Pg* g = m->GetPolygons(p); size_t n = 0; for (size_t f = 0; f < g->GetFaceVertexCountCount(); ++f) n += g->GetFaceVertexCounts()[f];
		if (g->GetFaceOffset() != faces || g->GetHoleOffset() != holes || g->GetFaceVertexOffset() != corners || g->GetFaceVertexCount() != n) { mon::viol(S("offsets:") + tool, "set %zu", p); return false; }
		faces += g->GetFaceVertexCountCount() - g->GetHoleFaceCount(); holes += g->GetHoleFaceCount(); corners += n;
	}
	if (m->GetFaceCount() != faces || m->GetHoleCount() != holes || m->GetFaceVertexCount() != corners) { mon::viol(S("statistics:") + tool, "%zu %zu %zu for %zu %zu %zu", m->GetFaceCount(), m->GetHoleCount(), m->GetFaceVertexCount(), faces, holes, corners); return false; }
	return true;
}

struct Gen
{
	Rng& r; FCDGeometryMesh* m; vector<FCDGeometrySource*> vertex, loose;
	Gen(Rng& _r, FCDocument* d) : r(_r) { m = d->GetGeometryLibrary()->AddEntity()->CreateMesh(); }
	FCDGeometrySource* fill(FCDGeometrySource* s, uint32 stride, size_t n)
	{
		FloatList l; for (size_t k = 0; k < n * stride; ++k) l.push_back(r.chance(30) ? (float) r.range(-2, 2) : r.flt(-9, 9));
		s->SetData(l, stride); return s;
	}
	static uint32 strideOf(FUDaeGeometryInput::Semantic t, Rng& r) { switch (t) { case FUDaeGeometryInput::TEXCOORD: return (uint32) r.range(2, 3); case FUDaeGeometryInput::COLOR: return (uint32) r.range(3, 4); default: return 3; } }
	FUDaeGeometryInput::Semantic kind() { return r.pick(std::vector<FUDaeGeometryInput::Semantic> { FUDaeGeometryInput::NORMAL, FUDaeGeometryInput::TEXCOORD, FUDaeGeometryInput::TEXCOORD, FUDaeGeometryInput::COLOR, FUDaeGeometryInput::TEXTANGENT, FUDaeGeometryInput::GEOBINORMAL }); }
	void sources(bool posVertex)
	{
		size_t n = (size_t) r.range(3, 14);
		FCDGeometrySource* pos = posVertex ? m->AddVertexSource(FUDaeGeometryInput::POSITION) : m->AddSource(FUDaeGeometryInput::POSITION); fill(pos, 3, n); pos->SetDaeId("pos");
		(posVertex ? vertex : loose).push_back(pos);
		// The attributes of vertices come one per semantic, so that a corner's attributes have distinct names.
		std::set<int> seen;
		for (int k = r.range(0, 3); k > 0; --k)
		{
			auto t = kind(); bool v = posVertex && r.chance(20) && seen.insert(t).second && t != FUDaeGeometryInput::TEXCOORD;
			auto s = v ? m->AddVertexSource(t) : m->AddSource(t); fill(s, strideOf(t, r), v ? n : (size_t) r.range(1, 12)); s->SetDaeId(fm::string("s") + FUStringConversion::ToString((uint32) k)); (v ? vertex : loose).push_back(s);
		}
	}
	// A polygon set. Inputs of one offset share one list of indices.
	Pg* set(int type, int faces, int maxDegree, bool holes, bool lowDegrees)
	{
		Pg* p = m->AddPolygons(); p->SetPrimitiveType((Pg::PrimitiveType) type); p->SetMaterialSemantic(fstring(r.chance(20) ? "" : r.chance(50) ? "matA" : "matB"));
		bool zeroTaken = !vertex.empty(); uint32 next = zeroTaken ? 1 : 0; std::set<std::pair<int, int>> names; for (auto s : vertex) names.insert(std::make_pair((int) s->GetType(), -1));
		uint32 voff = 0;
		if (zeroTaken && r.chance(30)) { voff = (uint32) r.range(1, 3); next = 0; for (size_t i = 0; i < p->GetInputCount(); ++i) p->GetInput(i)->SetOffset(voff); }
		vector<FCDGeometrySource*> order = loose; for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[r.below(i)]);
		for (auto s : order)
		{
			bool pos = s->GetType() == FUDaeGeometryInput::POSITION; if (!pos && r.chance(20)) continue;
			int setNo = r.chance(60) ? -1 : r.range(0, 3); if (!names.insert(std::make_pair((int) s->GetType(), setNo)).second) { setNo = (int) names.size() + 10; names.insert(std::make_pair((int) s->GetType(), setNo)); }
			uint32 off; bool fits = false;
			if (p->GetInputCount() > 0 && r.chance(25)) { off = p->GetInput(r.below(p->GetInputCount()))->GetOffset(); fits = true; for (size_t i = 0; i < p->GetInputCount(); ++i) if (p->GetInput(i)->GetOffset() == off && p->GetInput(i)->GetSource()->GetValueCount() > s->GetValueCount()) fits = false; }
			if (!fits) { while (zeroTaken && next == voff) ++next; off = next++; }
			auto in = p->AddInput(s, off); if (setNo >= 0) in->SetSet(setNo);
		}
		size_t corners = 0;
		for (int f = 0; f < faces; ++f)
		{
			int lo = type == Pg::LINES || lowDegrees ? 1 : type == Pg::LINE_STRIPS ? 2 : 3; uint32 n = type == Pg::LINES ? 2 : type == Pg::POINTS ? 1 : (uint32) r.range(lo, std::max(lo, maxDegree));
			if (type == Pg::POLYGONS && holes && f > 0 && r.chance(25)) p->AddHole((uint32) p->GetFaceVertexCountCount());
			p->AddFaceVertexCount(n); corners += n;
		}
		std::map<uint32, uint32> limit; for (size_t i = 0; i < p->GetInputCount(); ++i) { auto in = p->GetInput(i); uint32 c = (uint32) in->GetSource()->GetValueCount(); auto it = limit.find(in->GetOffset()); if (it == limit.end()) limit[in->GetOffset()] = c; else it->second = std::min(it->second, c); }
		std::set<uint32> done;
		for (size_t i = 0; i < p->GetInputCount(); ++i)
		{
			auto in = p->GetInput(i); if (!done.insert(in->GetOffset()).second) continue; uint32 lim = limit[in->GetOffset()];
			UInt32List x; for (size_t k = 0; k < corners; ++k) x.push_back((uint32) r.below(lim)); if (corners) in->SetIndices(&x.front(), x.size());
		}
		return p;
	}
};

void look(const FCDGeometryMesh* m, vector<SetView>& v, const char* when) { v.clear(); for (size_t p = 0; p < m->GetPolygonsCount(); ++p) { v.push_back(SetView()); if (!view(m->GetPolygons(p), v.back(), when)) { v.clear(); return; } } }

void area(const Face& f, double a[3])
{
	for (size_t k = 0; k < f.c.size(); ++k)
	{
		auto at = [&](size_t i) -> const Val& { for (auto& p : f.c[i]) if (p.first.first == FUDaeGeometryInput::POSITION) return p.second; static Val none(3, 0.0f); return none; };
		const Val& p = at(k), & q = at((k + 1) % f.c.size());
		a[0] += ((double) p[1] * q[2] - (double) p[2] * q[1]) / 2; a[1] += ((double) p[2] * q[0] - (double) p[0] * q[2]) / 2; a[2] += ((double) p[0] * q[1] - (double) p[1] * q[0]) / 2;
	}
}

void triangulate(Rng& r, Gen& g)
{
	vector<SetView> before, after; look(g.m, before, "generated"); if (before.size() != g.m->GetPolygonsCount()) return;
	bool whole = r.chance(60); size_t only = r.below(before.size());
	if (whole) FCDGeometryPolygonsTools::Triangulate(g.m); else { FCDGeometryPolygonsTools::Triangulate(g.m->GetPolygons(only)); }
	look(g.m, after, "triangulate"); if (after.size() != before.size()) { if (!mon::violations()) mon::viol("set-count:triangulate", "%zu", after.size()); return; }
	if (whole) sameStats(g.m, "triangulate");
	for (size_t p = 0; p < before.size(); ++p)
	{
		const SetView& b = before[p]; if (!whole && p != only) { sameSet(b, after[p], "triangulate-other"); continue; }
		if (b.type == Pg::LINES || b.type == Pg::LINE_STRIPS || b.type == Pg::POINTS) { sameSet(b, after[p], "triangulate-lines"); continue; }
		SetView want; want.type = Pg::POLYGONS; want.material = b.material;
		for (auto& f : b.f)
		{
			if (f.hole) continue; double a[3] = { 0, 0, 0 }, t[3] = { 0, 0, 0 }; area(f, a);
			for (size_t k = 0; k + 2 < f.c.size(); ++k) { Face x; x.hole = false; bool strip = b.type == Pg::TRIANGLE_STRIPS; x.c.push_back(f.c[strip ? k : 0]); bool flip = strip && (k & 1); x.c.push_back(f.c[k + (flip ? 2 : 1)]); x.c.push_back(f.c[k + (flip ? 1 : 2)]); want.f.push_back(x); area(x, t); mon::hit("triangles"); }
			if (b.type == Pg::POLYGONS && f.c.size() >= 3) for (int k = 0; k < 3; ++k) CHECK(fabs(a[k] - t[k]) < 1e-3, "model", "area");
		}
		sameSet(want, after[p], "triangulate");
	}
	mon::nontrivial();
}

void unique(Rng& r, Gen& g)
{
	vector<SetView> before, after; look(g.m, before, "generated"); if (before.size() != g.m->GetPolygonsCount()) return;
	bool points = false; for (auto& b : before) points = points || b.type == Pg::POINTS;
	bool whole = r.chance(60), withMap = r.chance(60); size_t only = r.below(before.size()); FCDGeometryIndexTranslationMap tm;
	FCDGeometrySource* pos = g.m->FindSourceByType(FUDaeGeometryInput::POSITION); vector<vector<uint32>> oldPos; vector<std::set<vector<uint32>>> tuples; vector<vector<vector<uint32>>> corner;
	Val oldData(pos->GetData(), pos->GetData() + pos->GetDataCount());
	for (size_t p = 0; p < before.size(); ++p)
	{
		auto in = g.m->GetPolygons(p)->FindInput(pos); oldPos.push_back(vector<uint32>(in->GetIndices(), in->GetIndices() + in->GetIndexCount())); tuples.push_back(std::set<vector<uint32>>()); corner.push_back({});
		for (size_t k = 0; k < oldPos.back().size(); ++k) { vector<uint32> t; for (size_t i = 0; i < g.m->GetPolygons(p)->GetInputCount(); ++i) t.push_back(g.m->GetPolygons(p)->GetInput(i)->GetIndices()[k]); tuples.back().insert(t); corner.back().push_back(t); }
	}
	FCDGeometryPolygonsTools::GenerateUniqueIndices(g.m, whole ? NULL : g.m->GetPolygons(only), withMap ? &tm : NULL);
	look(g.m, after, "unique"); if (after.size() != before.size()) { if (!mon::violations()) mon::viol("set-count:unique", "%zu", after.size()); return; }
	for (size_t p = 0; p < before.size(); ++p)
	{
		if (points || (!whole && p != only)) { if (!sameSet(before[p], after[p], "unique-other")) return; continue; }
		if (!sameSet(before[p], after[p], "unique", true)) return;
		Pg* q = g.m->GetPolygons(p); if (corner[p].empty()) continue; const uint32* x = q->GetInput(0)->GetIndices();
		for (size_t i = 1; i < q->GetInputCount(); ++i) for (size_t k = 0; k < corner[p].size(); ++k) if (q->GetInput(i)->GetIndices()[k] != x[k]) { mon::viol("not-one-index:unique", "input %zu of set %zu, corner %zu", i, p, k); return; }
		map<vector<uint32>, uint32> to; std::set<uint32> used;
		for (size_t k = 0; k < corner[p].size(); ++k) { auto it = to.find(corner[p][k]); if (it == to.end()) { CHECK(used.insert(x[k]).second, "shared-index:unique", "%u stands for two corners", x[k]); to[corner[p][k]] = x[k]; } else CHECK(it->second == x[k], "split-index:unique", "%u and %u for one corner", it->second, x[k]); }
		if (withMap)
		{
			for (size_t k = 0; k < oldPos[p].size(); ++k) { auto it = tm.find(oldPos[p][k]); bool ok = it != tm.end() && it->second.find(x[k]) != it->second.end(); CHECK(ok, "translation-map:unique", "%u to %u is missing", oldPos[p][k], x[k]); if (!ok) return; }
			mon::hit("maps_checked");
		}
	}
	if (withMap && !points) for (auto it = tm.begin(); it != tm.end(); ++it) for (uint32 n : it->second)
	{
		FCDGeometrySource* ns = g.m->GetPolygons(whole ? 0 : only)->FindInput(FUDaeGeometryInput::POSITION)->GetSource();
		bool ok = it->first * 3 + 2 < oldData.size() && n < ns->GetValueCount(); for (int s = 0; ok && s < 3; ++s) ok = ns->GetData()[3 * n + s] == oldData[3 * it->first + s];
		CHECK(ok, "translation-map-value:unique", "%u to %u", it->first, n);
	}
	if (!points) mon::nontrivial();
}

// The variant that leaves the mesh alone, and the application of its maps.
void uniqueApart(Rng& r, Gen& g)
{
	vector<SetView> before, after; look(g.m, before, "generated"); if (before.size() != g.m->GetPolygonsCount()) return;
	for (auto& b : before) if (b.type == Pg::POINTS) return;
	bool whole = r.chance(70); size_t only = r.below(before.size()); FCDNewIndicesList idx; FCDGeometryIndexTranslationMapList maps;
	FCDGeometryPolygonsTools::GenerateUniqueIndices(g.m, whole ? NULL : g.m->GetPolygons(only), idx, maps);
	look(g.m, after, "unique-apart"); for (size_t p = 0; p < before.size(); ++p) if (!sameSet(before[p], after[p], "unique-apart")) return;
	CHECK(maps.size() == g.m->GetSourceCount(), "map-count:unique-apart", "%zu", maps.size());
	UInt32List all; uint32 top = 0; bool covered = true;
	for (size_t p = 0; p < before.size(); ++p)
	{
		if (!whole && p != only) continue; const UInt32List& x = idx[whole ? p : 0]; Pg* q = g.m->GetPolygons(p); all.insert(all.end(), x.begin(), x.end());
		CHECK(x.size() == q->GetInput(0)->GetIndexCount(), "index-count:unique-apart", "%zu", x.size()); if (x.size() != q->GetInput(0)->GetIndexCount()) return;
		for (size_t d = 0; d < g.m->GetSourceCount() && d < maps.size(); ++d)
		{
			auto in = q->FindInput(g.m->GetSource(d)); if (in == NULL) continue;
			for (size_t k = 0; k < x.size(); ++k) { top = std::max(top, x[k]); auto it = maps[d]->find(in->GetIndices()[k]); bool ok = it != maps[d]->end() && it->second.find(x[k]) != it->second.end(); CHECK(ok, "translation-map:unique-apart", "%u to %u is missing", in->GetIndices()[k], x[k]); if (!ok) return; }
		}
	}
	uint32 most = 0; for (size_t d = 0; d < maps.size(); ++d) { uint32 l = FCDGeometryPolygonsTools::FindLargestUniqueIndex(*maps[d]), w = 0; for (auto it = maps[d]->begin(); it != maps[d]->end(); ++it) for (uint32 n : it->second) w = std::max(w, n); CHECK(l == w, "largest", "%u for %u", l, w); most = std::max(most, l); covered = covered && maps[d]->size() == g.m->GetSource(d)->GetValueCount(); }
	// By hand, on a bare buffer.
	for (size_t d = 0; d < maps.size(); ++d)
	{
		FCDGeometrySource* s = g.m->GetSource(d); uint32 st = s->GetStride(); vector<float> out((most + 1) * st, 777.0f);
		FCDGeometryPolygonsTools::ApplyUniqueIndices(out.data(), s->GetData(), st, maps[d]); size_t set = 0;
		for (auto it = maps[d]->begin(); it != maps[d]->end(); ++it) for (uint32 n : it->second) { ++set; for (uint32 k = 0; k < st; ++k) CHECK(out[n * st + k] == s->GetData()[it->first * st + k], "applied-value", "%u to %u", it->first, n); }
		size_t left = 0; for (uint32 n = 0; n <= most; ++n) left += out[n * st] == 777.0f; CHECK(left == most + 1 - set, "applied-extra", "%zu of %u", left, most + 1);
	}
	// Packed vertex buffers: the packing map keeps the order of first use.
	if (!all.empty())
	{
		size_t maxI = r.chance(50) ? all.size() : (size_t) r.range(1, (int) all.size()), maxV = r.chance(50) ? 1000 : (size_t) r.range(1, 12); vector<uint16> out(all.size() + 1, 0xABCD); UInt16List pack; uint16 nv = 0;
		uint16 n = FCDGeometryPolygonsTools::GenerateVertexPackingMap(most, maxI, maxV, &all.front(), out.data(), &pack, &nv);
		map<uint32, uint16> first; size_t want = 0; for (; want < maxI; ++want) { if (!first.count(all[want])) { uint16 k = (uint16) first.size(); first[all[want]] = k; } CHECK(want >= n || out[want] == first[all[want]], "packed-index", "%u at %zu", out[want], want); if (first.size() >= maxV) { ++want; break; } }
		CHECK(n == want && nv == first.size() && out[n] == 0xABCD, "packed-count", "%u of %zu indices, %u of %zu vertices", n, want, nv, first.size());
		CHECK(pack.size() == most + 1, "packed-map", "%zu", pack.size());
		for (uint32 k = 0; k <= most && k < pack.size(); ++k) CHECK(first.count(k) ? pack[k] == first[k] : pack[k] == 0xFFFF, "packed-map", "%u to %u", k, pack[k]);
		for (size_t d = 0; d < maps.size(); ++d)
		{
			FCDGeometrySource* s = g.m->GetSource(d); uint32 st = s->GetStride(); bool color = s->GetType() == FUDaeGeometryInput::COLOR; uint32 cnt = color ? 4 : std::min(st, s->GetType() == FUDaeGeometryInput::TEXCOORD ? 2u : 3u);
			uint32 size = color ? 4 : cnt * 4, bs = size + 4u * (uint32) r.below(3) + 4; vector<uint8> buf(bs * (nv + 1), 0x5A);
			vector<float> keep; if (color) { keep.assign(s->GetData(), s->GetData() + s->GetDataCount()); for (size_t k = 0; k < s->GetDataCount(); ++k) s->GetData()[k] = (float) fabs(fmod(s->GetData()[k], 1.0)); }
			if (color) FCDGeometryPolygonsTools::PackVertexBufferColor(buf.data(), bs, s, 4, &pack.front(), *maps[d]);
			else if (cnt == 2) FCDGeometryPolygonsTools::PackVertexBufferV2(buf.data(), bs, s, 2, &pack.front(), *maps[d]);
			else FCDGeometryPolygonsTools::PackVertexBufferV3(buf.data(), bs, s, 3, &pack.front(), *maps[d]);
			vector<bool> set(nv, false);
			for (auto it = maps[d]->begin(); it != maps[d]->end(); ++it) for (uint32 u : it->second) if (pack[u] != 0xFFFF)
			{
				set[pack[u]] = true; const uint8* at = &buf[pack[u] * bs];
				for (uint32 k = 0; k < cnt; ++k) { if (color) { int w = k < st ? (int) (s->GetData()[it->first * st + k] * 255) : 255; CHECK(at[k] == w, "packed-color", "%u for %d, component %u of %u", at[k], w, k, st); } else { float v; memcpy(&v, at + k * 4, 4); CHECK(v == s->GetData()[it->first * st + k], "packed-value", "%g", v); } }
			}
			for (uint32 v = 0; v <= nv; ++v) for (uint32 k = v < nv && set[v] ? size : 0; k < bs; ++k) if (buf[v * bs + k] != 0x5A) { mon::viol("packed-beyond", "byte %u of vertex %u of %u", k, v, nv); v = nv; break; }
			if (color) memcpy(s->GetData(), keep.data(), keep.size() * 4);
		}
		mon::hit("packed_buffers", maps.size());
	}
	// On the mesh itself: as documented, every value must be used, and there is one source per semantic.
	std::set<int> kinds; bool dist = true; for (size_t d = 0; d < g.m->GetSourceCount(); ++d) dist = dist && kinds.insert(g.m->GetSource(d)->GetType()).second;
	for (size_t p = 0; p < before.size(); ++p) dist = dist && g.m->GetPolygons(p)->GetInputCount() == g.m->GetSourceCount();
	bool equal = true; for (size_t d = 0; d < maps.size(); ++d) equal = equal && FCDGeometryPolygonsTools::FindLargestUniqueIndex(*maps[d]) == most; bool novert = g.m->GetVertexSourceCount() == 0;
	if (whole && covered && dist && equal && novert && !all.empty())
	{
		FCDGeometryPolygonsTools::ApplyUniqueIndices(g.m, g.m, all, maps);
		look(g.m, after, "apply"); for (size_t p = 0; p < after.size(); ++p) if (!sameSet(before[p], after[p], "apply")) break;
		mon::hit("applied_to_mesh");
	}
	for (auto m : maps) delete m;
	mon::nontrivial();
}

size_t groups(const SetView& v) { size_t n = 0; for (size_t f = 0; f < v.f.size(); ++f) n += f == 0 || !v.f[f].hole; return n; }
void fit(Rng& r, Gen& g)
{
	vector<SetView> before, after; look(g.m, before, "generated"); if (before.size() != g.m->GetPolygonsCount()) return;
	size_t limit = (size_t) r.range(3, 24);
	FCDGeometryPolygonsTools::FitIndexBuffers(g.m, limit);
	look(g.m, after, "fit"); if (after.empty()) { if (!mon::violations()) mon::viol("set-count:fit", "none"); return; }
	sameStats(g.m, "fit");
	// Each set is followed, behind the original ones, by its own continuations.
	size_t next = before.size(); bool split = false;
	for (size_t p = 0; p < before.size(); ++p)
	{
		SetView all = after[p]; size_t corners = 0; for (auto& f : all.f) corners += f.c.size();
		if (before[p].type == Pg::POINTS) { sameSet(before[p], after[p], "fit-points"); continue; }
		CHECK(corners <= limit || groups(all) <= 1, "too-long:fit", "%zu for %zu", corners, limit);
		while (all.f.size() < before[p].f.size() && next < after.size())
		{
			CHECK(after[next].type == before[p].type, "primitive-type:fit", "%d for %d", after[next].type, before[p].type); CHECK(after[next].material == before[p].material, "material:fit", "differs");
			corners = 0; for (auto& f : after[next].f) corners += f.c.size(); CHECK(corners <= limit || groups(after[next]) <= 1, "too-long:fit", "%zu for %zu", corners, limit); CHECK(!after[next].f.empty(), "empty:fit", "set %zu", next);
			if (after[next].f.empty()) return;
			all.f.insert(all.f.end(), after[next].f.begin(), after[next].f.end()); ++next; split = true;
		}
		if (!sameSet(before[p], all, "fit")) return;
	}
	CHECK(next == after.size(), "set-count:fit", "%zu for %zu", after.size(), next);
	if (split) mon::nontrivial();
}

void reverse(Rng& r, Gen& g)
{
	(void) r; vector<SetView> before, after; look(g.m, before, "generated"); if (before.size() != g.m->GetPolygonsCount()) return;
	FCDGeometryPolygonsTools::ReverseNormals(g.m); look(g.m, after, "reverse");
	for (auto& b : before) for (auto& f : b.f) for (auto& c : f.c) for (auto& v : c) { int t = v.first.first; if (t == FUDaeGeometryInput::NORMAL || t == FUDaeGeometryInput::GEOTANGENT || t == FUDaeGeometryInput::GEOBINORMAL || t == FUDaeGeometryInput::TEXTANGENT || t == FUDaeGeometryInput::TEXBINORMAL) { for (float& x : v.second) x = -x; mon::nontrivial(); } }
	for (size_t p = 0; p < before.size() && p < after.size(); ++p) if (!sameSet(before[p], after[p], "reverse")) return;
}

// The set's own face operations against a list of faces.
void faces(Rng& r, Gen& g)
{
	Pg* p = g.m->GetPolygons(0); if (p->GetPrimitiveType() == Pg::POINTS) return; SetView v; if (!view(p, v, "generated")) return; bool more = p->GetFaceVertexCountCount() > 0;
	for (int o = r.range(1, 10); o > 0; --o)
	{
		struct Poly { size_t at, rings; }; vector<Poly> polys; size_t off = 0;
		for (size_t f = 0; f < v.f.size(); ++f) if (!v.f[f].hole) polys.push_back(Poly { f, 1 }); else if (!polys.empty()) ++polys.back().rings;
		if (p->GetFaceCount() != polys.size()) { mon::viol("face-api:count", "%zu for %zu", p->GetFaceCount(), polys.size()); return; }
		for (size_t i = 0; i < polys.size(); ++i)
		{
			size_t n = 0; off = 0; for (size_t f = 0; f < polys[i].at; ++f) off += v.f[f].c.size(); for (size_t f = polys[i].at; f < polys[i].at + polys[i].rings; ++f) n += v.f[f].c.size();
			CHECK(p->GetHoleCount(i) == polys[i].rings - 1, "face-api:holes", "face %zu: %zu for %zu", i, p->GetHoleCount(i), polys[i].rings - 1);
			CHECK(p->GetHoleCountBefore(i) == polys[i].at - i, "face-api:holes-before", "face %zu: %zu for %zu", i, p->GetHoleCountBefore(i), polys[i].at - i);
			CHECK(p->GetFaceVertexCount(i) == n, "face-api:corners", "face %zu: %zu for %zu", i, p->GetFaceVertexCount(i), n);
			CHECK(p->GetFaceVertexOffset(i) == off, "face-api:offset", "face %zu: %zu for %zu", i, p->GetFaceVertexOffset(i), off);
		}
		for (size_t f = 0; f < v.f.size(); ++f) CHECK(p->IsHoleFaceHole(f) == v.f[f].hole, "face-api:is-hole", "%zu", f);
		int32 poly = v.f.empty() ? -1 : (int32) v.f[0].c.size(); for (auto& f : v.f) if ((int32) f.c.size() != poly) poly = -1; CHECK(p->TestPolyType() == poly, "face-api:poly-type", "%d for %d", p->TestPolyType(), poly);
		mon::hit("face_operations");
		if (polys.empty() || !more) return;
		if (r.chance(55))
		{
			size_t i = r.below(polys.size()); p->RemoveFace(i); v.f.erase(v.f.begin() + polys[i].at, v.f.begin() + polys[i].at + polys[i].rings); if (v.f.empty()) more = false;
		}
		else
		{
			uint32 n = (uint32) r.range(3, 6); size_t at = 0; for (auto& f : v.f) at += f.c.size(); p->AddFace(n);
			for (size_t i = 0; i < p->GetInputCount(); ++i) { auto in = p->GetInput(i); if (in->GetIndexCount() != at + n) { mon::viol("face-api:added", "input %zu has %zu for %zu", i, in->GetIndexCount(), at + n); return; } if (in->OwnsIndices()) for (uint32 k = 0; k < n; ++k) in->GetIndices()[at + k] = 0; }
			Face f; f.hole = false; f.c.resize(n); for (auto& c : f.c) for (size_t i = 0; i < p->GetInputCount(); ++i) { auto in = p->GetInput(i); c.insert({ std::make_pair((int) in->GetSemantic(), in->GetSet()), Val(in->GetSource()->GetData(), in->GetSource()->GetData() + in->GetSource()->GetStride()) }); } v.f.push_back(f);
		}
		SetView now; if (!view(p, now, "face-api")) return; if (!sameFaces(v.f, now.f, "face-api")) return; sameStats(g.m, "face-api");
		mon::nontrivial();
	}
}

// Sources becoming per-vertex or going away: the other attributes stay where they are.
void sources(Rng& r, Gen& g)
{
	vector<SetView> before, after; look(g.m, before, "generated"); if (before.size() != g.m->GetPolygonsCount() || g.loose.empty()) return;
	size_t i = r.below(g.loose.size()); FCDGeometrySource* s = g.loose[i];
	if (r.chance(50))
	{
		for (size_t p = 0; p < g.m->GetPolygonsCount(); ++p) for (size_t k = 0; k < g.m->GetPolygons(p)->GetInputCount(); ++k)
			if (g.m->GetPolygons(p)->GetInput(k)->GetSource() == s) for (auto& f : before[p].f) for (auto& c : f.c) c.erase(std::make_pair((int) s->GetType(), g.m->GetPolygons(p)->GetInput(k)->GetSet()));
		s->Release(); look(g.m, after, "source-release"); mon::hit("sources_released");
		for (size_t p = 0; p < before.size() && p < after.size(); ++p) if (!sameSet(before[p], after[p], "source-release")) return;
	}
	else
	{
		// Per-vertex data goes with the indices at offset 0: only where nothing else is there, or the same list.
		for (size_t p = 0; p < g.m->GetPolygonsCount(); ++p) { auto in = g.m->GetPolygons(p)->FindInput(s); if (in == NULL) return; if (in->GetOffset() != 0) for (size_t k = 0; k < g.m->GetPolygons(p)->GetInputCount(); ++k) if (g.m->GetPolygons(p)->GetInput(k)->GetOffset() == 0) return; }
		if (g.m->IsVertexSource(s)) return;
		for (size_t p = 0; p < g.m->GetPolygonsCount(); ++p) for (size_t k = 0; k < g.m->GetPolygons(p)->GetInputCount(); ++k) if (g.m->IsVertexSource(g.m->GetPolygons(p)->GetInput(k)->GetSource()) && g.m->GetPolygons(p)->GetInput(k)->GetOffset() != 0) return;
		g.m->AddVertexSource(s); look(g.m, after, "vertex-source"); mon::hit("sources_made_vertex");
		for (size_t p = 0; p < before.size() && p < after.size(); ++p) if (!sameSet(before[p], after[p], "vertex-source")) return;
	}
	mon::nontrivial();
}

struct V3 { double x, y, z; };
V3 sub(V3 a, V3 b) { return { a.x - b.x, a.y - b.y, a.z - b.z }; }
double dot(V3 a, V3 b) { return a.x * b.x + a.y * b.y + a.z * b.z; }
V3 cross(V3 a, V3 b) { return { a.y * b.z - a.z * b.y, a.z * b.x - a.x * b.z, a.x * b.y - a.y * b.x }; }
V3 unit(V3 a) { double l = sqrt(dot(a, a)); return l > 0 ? V3 { a.x / l, a.y / l, a.z / l } : V3 { 0, 0, 1 }; }

// Tangents by the formula that the source quotes, in double precision, averaged over the corners that share position, normal and coordinate.
void tangents(Rng& r, Gen& g)
{
	vector<FCDGeometrySource*> tex; for (size_t d = 0; d < g.m->GetSourceCount(); ++d) { auto s = g.m->GetSource(d); if (s->GetType() == FUDaeGeometryInput::TEXCOORD) tex.push_back(s); if (s->GetType() == FUDaeGeometryInput::NORMAL) for (size_t k = 0; k < s->GetValueCount(); ++k) { float* f = s->GetData() + 3 * k; V3 u = unit({ f[0], f[1], f[2] }); f[0] = (float) u.x; f[1] = (float) u.y; f[2] = (float) u.z; } }
	if (tex.empty()) return; FCDGeometrySource* t = r.pick(tex); bool bi = r.chance(70); size_t sourcesBefore = g.m->GetSourceCount();
	vector<SetView> before, after; look(g.m, before, "generated"); if (before.size() != g.m->GetPolygonsCount()) return;
	typedef std::tuple<uint32, const float*, uint32> Id; struct Acc { V3 sum = { 0, 0, 0 }; int n = 0; bool shaky = false; V3 nor; }; map<Id, Acc> acc; vector<vector<Id>> ids(before.size()); vector<bool> used(before.size(), false); bool any = false; FCDGeometrySource* posSource = g.m->FindSourceByType(FUDaeGeometryInput::POSITION); (void) posSource;
	auto v3 = [](const FCDGeometryPolygonsInput* in, size_t k) { const float* f = in->GetSource()->GetData() + in->GetIndices()[k] * in->GetSource()->GetStride(); return V3 { f[0], f[1], in->GetSource()->GetStride() > 2 ? f[2] : 0 }; };
	for (size_t p = 0; p < before.size(); ++p)
	{
		Pg* q = g.m->GetPolygons(p); auto ti = q->FindInput(t), pi = q->FindInput(FUDaeGeometryInput::POSITION), ni = q->FindInput(FUDaeGeometryInput::NORMAL);
		if (!ti || !pi || !ni || pi->GetIndexCount() == 0) continue; used[p] = any = true; size_t off = 0;
		for (size_t f = 0; f < q->GetFaceVertexCountCount(); ++f) { size_t n = q->GetFaceVertexCounts()[f]; for (size_t k = 0; k < n; ++k)
		{
			size_t c = off + k, b = off + (k + n - 1) % n, a = off + (k + 1) % n; V3 P = v3(pi, c), Pb = v3(pi, b), Pa = v3(pi, a), T = v3(ti, c), Tb = v3(ti, b), Ta = v3(ti, a), N = v3(ni, c); bool shaky = false; double out[3];
			V3 dp = sub(Pb, P), dn = sub(Pa, P); double pp[3] = { dp.x, dp.y, dp.z }, nn[3] = { dn.x, dn.y, dn.z };
			for (int k3 = 0; k3 < 3; ++k3) { V3 pe = { pp[k3], Tb.x - T.x, Tb.y - T.y }, ne = { nn[k3], Ta.x - T.x, Ta.y - T.y }, x = cross(ne, pe); if (fabs(x.x) < 1e-2) shaky = true; out[k3] = x.y / (fabs(x.x) < 1e-2 ? 1 : x.x); }
			V3 tan = { out[0], out[1], out[2] }; double d = dot(tan, N), full = sqrt(dot(tan, tan)); tan = sub(tan, { N.x * d, N.y * d, N.z * d }); if (sqrt(dot(tan, tan)) < 1e-2 * (full + 1e-9) || full < 1e-4) shaky = true; tan = unit(tan);
			Id id((uint32) pi->GetIndices()[c], ni->GetSource()->GetData() + ni->GetIndices()[c] * ni->GetSource()->GetStride(), ti->GetIndices()[c]); Acc& e = acc[id]; e.sum = { e.sum.x + tan.x, e.sum.y + tan.y, e.sum.z + tan.z }; e.n++; e.shaky = e.shaky || shaky; e.nor = N; ids[p].push_back(id);
		} off += n; }
	}
	FCDGeometryPolygonsTools::GenerateTextureTangentBasis(g.m, t, bi);
	if (!any) { CHECK(g.m->GetSourceCount() == sourcesBefore, "sources:tangents", "%zu", g.m->GetSourceCount()); return; }
	CHECK(g.m->GetSourceCount() == sourcesBefore + (bi ? 2 : 1), "sources:tangents", "%zu for %zu", g.m->GetSourceCount(), sourcesBefore + (bi ? 2 : 1)); if (g.m->GetSourceCount() <= sourcesBefore) return;
	const FCDGeometrySource* ts = g.m->GetSource(sourcesBefore), * bs = bi ? g.m->GetSource(sourcesBefore + 1) : NULL; CHECK(ts->GetType() == FUDaeGeometryInput::TEXTANGENT && (!bs || bs->GetType() == FUDaeGeometryInput::TEXBINORMAL), "source-type:tangents", "%d", ts->GetType());
	look(g.m, after, "tangents"); if (after.size() != before.size()) return;
	for (size_t p = 0; p < before.size(); ++p)
	{
		if (!sameSet(before[p], after[p], "tangents", true)) return; Pg* q = g.m->GetPolygons(p); auto ti = q->FindInput(ts); auto bn = bs ? q->FindInput(bs) : NULL;
		if (!used[p]) { CHECK(ti == NULL && bn == NULL, "input:tangents", "on a set without texture coordinates or normals"); continue; }
		if (!ti || (bi && !bn)) { mon::viol("input:tangents", "missing on set %zu", p); return; }
		CHECK(ti->GetSet() == q->FindInput(t)->GetSet() && (!bn || bn->GetSet() == ti->GetSet()), "set:tangents", "%d", ti->GetSet());
		for (size_t k = 0; k < ids[p].size(); ++k)
		{
			const Acc& e = acc[ids[p][k]]; V3 got = v3(ti, k); double len = sqrt(dot(got, got)); CHECK(fabs(len - 1) < 1e-3, "length:tangents", "%g", len);
			if (sqrt(dot(e.sum, e.sum)) < 0.05 * e.n || e.shaky) { mon::hit("tangents_degenerate"); continue; }
			V3 w = unit(e.sum), d = sub(got, w); CHECK(dot(d, d) < 4e-4, "value:tangents", "%g %g %g for %g %g %g", got.x, got.y, got.z, w.x, w.y, w.z); mon::hit("tangents_checked");
			if (bn) { V3 b = v3(bn, k), x = unit(cross(e.nor, w)), d2 = sub(b, x); CHECK(dot(d2, d2) < 1e-3, "value:binormals", "%g %g %g for %g %g %g", b.x, b.y, b.z, x.x, x.y, x.z); }
		}
	}
	mon::nontrivial();
}
}

PROP(C24, "random meshes of one to three polygon sets of every primitive type, with shared and own offsets, holes and several texture sets, before and after each tool; a case counts when the tool had something to do")
{
	FUObjectRef<FCDocument> doc = new FCDocument(); Gen g(r, doc); int tool = (int) r.below(8);
	g.sources(!r.chance(35));
	for (int s = r.range(1, 3); s > 0; --s)
	{
		int type = r.chance(60) ? Pg::POLYGONS : r.pick(std::vector<int> { Pg::LINES, Pg::LINE_STRIPS, Pg::TRIANGLE_FANS, Pg::TRIANGLE_STRIPS, Pg::POINTS });
		if (tool == 7 && r.chance(80)) type = Pg::POLYGONS;
		g.set(type, r.chance(10) ? 0 : r.range(1, 9), r.range(3, 7), r.chance(50), r.chance(15) && tool != 7);
	}
	g.m->Recalculate();
	switch (tool)
	{
	case 0: triangulate(r, g); break; case 1: unique(r, g); break; case 2: uniqueApart(r, g); break; case 3: fit(r, g); break;
	case 4: reverse(r, g); break; case 5: faces(r, g); break; case 6: sources(r, g); break; default: tangents(r, g); break;
	}
	mon::sig(r.next());
}
