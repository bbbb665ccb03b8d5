// C41: whatever the editing history of a mesh, its faces, holes, inputs, index lists and sources are those put in.
#include "docmon.h"

namespace
{
typedef FUDaeGeometryInput::Semantic Sem;
struct Source { FCDGeometrySource* p; S name; int type; uint32 stride; std::vector<float> data; bool vertex; };
struct Input { FCDGeometryPolygonsInput* p; int source; uint32 offset; int32 set; };        // source: the serial of a source, -1 once it is gone
struct Ring { uint32 count; bool hole; };
struct Set { FCDGeometryPolygons* p; S material; std::vector<Ring> rings; std::vector<Input> inputs; std::map<uint32, std::vector<uint32>> lists; };
struct Model { std::map<int, Source> sources; std::vector<int> order, vertex; std::vector<Set> sets; int serial = 0; };

size_t total(const Set& s) { size_t n = 0; for (auto& x : s.rings) n += x.count; return n; }
struct Face { size_t ring, rings, offset, count, before; };
std::vector<Face> facesOf(const Set& s)
{
	std::vector<Face> f; size_t at = 0, holes = 0;
	for (size_t k = 0; k < s.rings.size(); ++k)
	{
		if (!s.rings[k].hole) { Face x = { k, 1, at, s.rings[k].count, holes }; f.push_back(x); }
		else { ++holes; ++f.back().rings; f.back().count += s.rings[k].count; }
		at += s.rings[k].count;
	}
	return f;
}
void compareSource(const Source& m, FCDGeometrySource* s, const char* who)
{
	CHECK(m.name == s->GetName().c_str() && (int) s->GetType() == m.type && s->GetStride() == m.stride, "source/kind", "%s: '%s' of type %d and stride %u", who, s->GetName().c_str(), (int) s->GetType(), s->GetStride());
	CHECK(s->GetDataCount() == m.data.size() && s->GetValueCount() == (m.stride > 0 ? m.data.size() / m.stride : 0), "source/count", "%s: %zu numbers, %zu values; expected %zu of stride %u", who, s->GetDataCount(), s->GetValueCount(), m.data.size(), m.stride);
	if (s->GetDataCount() == m.data.size() && !m.data.empty()) CHECK(memcmp(s->GetData(), m.data.data(), m.data.size() * 4) == 0, "source/data", "%s: the numbers differ", who);
}
// In a clone, the inputs of vertex sources come first in each set and vertex sources are in the order of all sources.
void compare(const Model& m, FCDGeometryMesh* mesh, bool same, const char* who)
{
	CHECK(mesh->GetSourceCount() == m.order.size(), "mesh/sources", "%s: %zu, expected %zu", who, mesh->GetSourceCount(), m.order.size()); if (mesh->GetSourceCount() != m.order.size()) return;
	std::map<int, FCDGeometrySource*> at; size_t nv = 0;
	for (size_t k = 0; k < m.order.size(); ++k)
	{
		const Source& s = m.sources.at(m.order[k]); FCDGeometrySource* p = mesh->GetSource(k); at[m.order[k]] = p; nv += s.vertex;
		CHECK(!same || p == s.p, "source/identity", "%s: source %zu", who, k); compareSource(s, p, who);
		CHECK(mesh->IsVertexSource(p) == s.vertex, "source/vertex", "%s: source %zu is%s a vertex source", who, k, s.vertex ? " not" : "");
		bool firstOfName = true, firstOfType = true; for (size_t q = 0; q < k; ++q) { firstOfName &= m.sources.at(m.order[q]).name != s.name; firstOfType &= m.sources.at(m.order[q]).type != s.type; }
		if (firstOfName) CHECK(mesh->FindSourceByName(s.name.c_str()) == p, "find/source-name", "%s: '%s'", who, s.name.c_str());
		if (firstOfType) CHECK(mesh->FindSourceByType((Sem) s.type) == p, "find/source-type", "%s: type %d", who, s.type);
		CHECK(mesh->FindSourceById(p->GetDaeId()) == p && mesh->FindSourceById("#" + p->GetDaeId()) == p, "find/source-id", "%s: '%s'", who, p->GetDaeId().c_str());
	}
	CHECK(mesh->GetVertexSourceCount() == nv, "mesh/vertex-sources", "%s: %zu, expected %zu", who, mesh->GetVertexSourceCount(), nv);
	if (same) for (size_t k = 0; k < m.vertex.size() && k < mesh->GetVertexSourceCount(); ++k) CHECK(mesh->GetVertexSource(k) == m.sources.at(m.vertex[k]).p, "mesh/vertex-order", "%s: %zu", who, k);
	for (int t = FUDaeGeometryInput::POSITION; t <= FUDaeGeometryInput::TEXCOORD; ++t)
	{
		FCDGeometrySourceList l; mesh->FindSourcesByType((Sem) t, l); std::vector<FCDGeometrySource*> want; for (int k : m.order) if (m.sources.at(k).type == t) want.push_back(at[k]);
		CHECK(l.size() == want.size() && std::equal(want.begin(), want.end(), l.begin()), "find/sources", "%s: %zu of type %d, expected %zu", who, l.size(), t, want.size());
		if (want.empty()) CHECK(mesh->FindSourceByType((Sem) t) == NULL, "find/source-type", "%s: type %d", who, t);
	}
	CHECK(mesh->GetPolygonsCount() == m.sets.size(), "mesh/sets", "%s: %zu, expected %zu", who, mesh->GetPolygonsCount(), m.sets.size()); if (mesh->GetPolygonsCount() != m.sets.size()) return;
	size_t faces = 0, holes = 0, vertices = 0; bool triangles = true;
	for (size_t k = 0; k < m.sets.size(); ++k)
	{
		const Set& s = m.sets[k]; FCDGeometryPolygons* p = mesh->GetPolygons(k); std::vector<Face> f = facesOf(s); size_t nh = s.rings.size() - f.size(), n = total(s);
		CHECK(!same || p == s.p, "set/identity", "%s: set %zu", who, k); CHECK(s.material == p->GetMaterialSemantic().c_str() && p->GetParent() == mesh, "set/material", "%s: '%s'", who, p->GetMaterialSemantic().c_str());
		CHECK(p->GetFaceVertexCountCount() == s.rings.size() && p->GetFaceCount() == f.size() && p->GetHoleCount() == nh && p->GetHoleFaceCount() == nh, "set/faces", "%s: set %zu: %zu counts, %zu faces, %zu holes; expected %zu, %zu, %zu", who, k, p->GetFaceVertexCountCount(), p->GetFaceCount(), p->GetHoleCount(), s.rings.size(), f.size(), nh);
		if (p->GetFaceVertexCountCount() != s.rings.size() || p->GetHoleFaceCount() != nh) return;
		int poly = s.rings.empty() ? -1 : (int) s.rings[0].count; size_t h = 0;
		for (size_t q = 0; q < s.rings.size(); ++q)
		{
			CHECK(p->GetFaceVertexCounts()[q] == s.rings[q].count && p->IsHoleFaceHole(q) == s.rings[q].hole, "set/ring", "%s: set %zu: ring %zu of %u", who, k, q, p->GetFaceVertexCounts()[q]);
			if (s.rings[q].hole) { CHECK(p->GetHoleFaces()[h] == q, "set/holes", "%s: set %zu: hole %zu is ring %u, expected %zu", who, k, h, p->GetHoleFaces()[h], q); ++h; }
			if ((int) s.rings[q].count != poly) poly = -1;
		}
		CHECK(p->TestPolyType() == poly, "set/type", "%s: set %zu: %d, expected %d", who, k, p->TestPolyType(), poly); triangles &= poly == 3;
		CHECK(p->GetFaceVertexCount() == n, "set/face-vertices", "%s: set %zu: %zu, expected %zu", who, k, p->GetFaceVertexCount(), n);
		CHECK(p->GetFaceOffset() == faces && p->GetHoleOffset() == holes && p->GetFaceVertexOffset() == vertices, "set/offsets", "%s: set %zu: %zu, %zu, %zu; expected %zu, %zu, %zu", who, k, p->GetFaceOffset(), p->GetHoleOffset(), p->GetFaceVertexOffset(), faces, holes, vertices);
		faces += f.size(); holes += nh; vertices += n;
		for (size_t q = 0; q < f.size(); ++q)
			CHECK(p->GetFaceVertexCount(q) == f[q].count && p->GetFaceVertexOffset(q) == f[q].offset && p->GetHoleCount(q) == f[q].rings - 1 && p->GetHoleCountBefore(q) == f[q].before, "face",
				"%s: set %zu: face %zu has %zu vertices at %zu, %zu holes after %zu; expected %zu at %zu, %zu after %zu", who, k, q, p->GetFaceVertexCount(q), p->GetFaceVertexOffset(q), p->GetHoleCount(q), p->GetHoleCountBefore(q), f[q].count, f[q].offset, f[q].rings - 1, f[q].before);
		CHECK(p->GetFaceVertexCount(f.size() + 3) == 0, "face/outside", "%s: set %zu", who, k);
		// The inputs.
		std::vector<const Input*> want; for (auto& i : s.inputs) want.push_back(&i);
		CHECK(p->GetInputCount() == want.size(), "set/inputs", "%s: set %zu: %zu, expected %zu", who, k, p->GetInputCount(), want.size()); if (p->GetInputCount() != want.size()) continue;
		std::vector<bool> found(want.size()); std::map<uint32, int> owners; bool lost = false;
		for (size_t q = 0; q < want.size(); ++q)
		{
			FCDGeometryPolygonsInput* i = p->GetInput(q); lost |= i->GetSource() == NULL; owners[i->GetOffset()] += i->OwnsIndices(); bool ok = false;
			for (size_t w = same ? q : 0; w < (same ? q + 1 : want.size()) && !ok; ++w)
			{
				const Input& x = *want[w]; FCDGeometrySource* src = x.source < 0 ? NULL : at[x.source];
				if (found[w] || (same && i != x.p) || i->GetSource() != src || i->GetOffset() != x.offset || i->GetSet() != x.set) continue;
				found[w] = ok = true;
			}
			CHECK(ok, "input", "%s: set %zu: input %zu at offset %u of set %d %s", who, k, q, i->GetOffset(), i->GetSet(), same ? "is not as it was made" : "is in no input of the original");
			auto l = s.lists.find(i->GetOffset()); size_t len = l == s.lists.end() ? 0 : l->second.size();
			if (i->GetSource() == NULL) continue;
			CHECK(i->GetIndexCount() == len, "input/index-count", "%s: set %zu: input %zu at offset %u: %zu, expected %zu", who, k, q, i->GetOffset(), i->GetIndexCount(), len);
			if (i->GetIndexCount() == len && len > 0) CHECK(memcmp(i->GetIndices(), l->second.data(), len * 4) == 0, "input/indices", "%s: set %zu: input %zu at offset %u: the indices differ", who, k, q, i->GetOffset());
			CHECK(i->GetSemantic() == i->GetSource()->GetType(), "input/semantic", "%s: set %zu: input %zu", who, k, q);
		}
		for (auto& o : owners) CHECK(o.second <= 1, "input/owners", "%s: set %zu: %d inputs own the indices at offset %u", who, k, o.second, o.first);
		if (!lost) for (int t = FUDaeGeometryInput::POSITION; t <= FUDaeGeometryInput::TEXCOORD; ++t)
		{
			FCDGeometryPolygonsInputList l; p->FindInputs((Sem) t, l); std::vector<FCDGeometryPolygonsInput*> w; for (size_t q = 0; q < p->GetInputCount(); ++q) if (p->GetInput(q)->GetSource()->GetType() == t) w.push_back(p->GetInput(q));
			CHECK(l.size() == w.size() && std::equal(w.begin(), w.end(), l.begin()) && p->FindInput((Sem) t) == (w.empty() ? NULL : w[0]), "find/inputs", "%s: set %zu: %zu inputs of type %d, expected %zu", who, k, l.size(), t, w.size());
		}
		if (!lost) for (auto& a : at)
		{
			FCDGeometryPolygonsInput* first = NULL; for (size_t q = p->GetInputCount(); q > 0; --q) if (p->GetInput(q - 1)->GetSource() == a.second) first = p->GetInput(q - 1);
			CHECK(p->FindInput(a.second) == first && p->FindInput(a.second->GetDaeId()) == first, "find/input", "%s: set %zu", who, k);
		}
		FCDGeometryPolygonsList l; mesh->FindPolygonsByMaterial(s.material.c_str(), l); size_t c = 0; bool in = false; for (auto& o : m.sets) c += o.material == s.material; for (auto* o : l) in |= o == p;
		CHECK(l.size() == c && in, "find/sets", "%s: %zu of '%s', expected %zu", who, l.size(), s.material.c_str(), c);
	}
	CHECK(mesh->GetFaceCount() == faces && mesh->GetHoleCount() == holes && mesh->GetFaceVertexCount() == vertices, "mesh/counts", "%s: %zu faces, %zu holes, %zu face-vertices; expected %zu, %zu, %zu", who, mesh->GetFaceCount(), mesh->GetHoleCount(), mesh->GetFaceVertexCount(), faces, holes, vertices);
	CHECK(mesh->IsTriangles() == triangles, "mesh/triangles", "%s: %d", who, (int) mesh->IsTriangles());
}
}

PROP(C41, "histories of sources, vertex sources, polygon sets, faces, holes, inputs, index lists, releases and clones against a model; a case counts with three faces, two inputs and a removal")
{
	DocRef d; FCDGeometryMesh* mesh = d->GetGeometryLibrary()->AddEntity()->CreateMesh(); Model m;
	static const int types[] = { FUDaeGeometryInput::POSITION, FUDaeGeometryInput::NORMAL, FUDaeGeometryInput::TEXCOORD, FUDaeGeometryInput::COLOR };
	static const char* names[] = { "", "a", "b", "map 1" }; static const char* mats[] = { "", "m", "n" };
	size_t removals = 0, mostFaces = 0, mostInputs = 0; int steps = r.range(5, 50);
	auto newSource = [&](FCDGeometrySource* p, int type, bool vertex)
	{
		Source s; s.p = p; s.type = type; s.name = names[r.below(4)]; s.stride = r.range(1, 4); s.vertex = vertex; p->SetName(s.name.c_str()); p->SetStride(s.stride); p->SetDaeId(("src" + std::to_string(m.serial)).c_str());
		s.data.resize(s.stride * r.below(5)); for (auto& x : s.data) x = r.flt(-9, 9); FloatList l; for (float x : s.data) l.push_back(x); p->SetData(l, s.stride);
		m.sources[m.serial] = s; m.order.push_back(m.serial); if (vertex) m.vertex.push_back(m.serial); return m.serial++;
	};
	auto pickSource = [&]() { return m.order[r.below(m.order.size())]; };
	auto fill = [&](Set& s, Input& i, size_t n)
	{
		std::vector<uint32> l(n); for (auto& x : l) x = r.below(9);
		if (r.chance(50)) i.p->SetIndices(l.data(), n); else { UInt32List u; for (auto x : l) u.push_back(x); i.p->SetIndexCount(0); if (r.chance(50)) i.p->ReserveIndexCount(n); if (n > 0 && r.chance(50)) for (auto x : l) i.p->AddIndex(x); else i.p->AddIndices(u); }
		s.lists[i.offset] = l;
	};
	auto dropOrphans = [&]() // Inputs left without a source are released before anything else happens to the set.
	{
		for (auto& x : m.sets) for (size_t q = x.inputs.size(); q > 0; --q) if (x.inputs[q - 1].source < 0)
		{
			uint32 o = x.inputs[q - 1].offset; x.inputs[q - 1].p->Release(); x.inputs.erase(x.inputs.begin() + (q - 1)); bool used = false; for (auto& i : x.inputs) used |= i.offset == o; if (!used) x.lists.erase(o);
		}
	};
	for (int step = 0; step < steps && mon::violations() == 0; ++step)
	{
		int op = r.below(20); S what = "op " + std::to_string(op); mon::sig(op);
		if (op < 3 && m.order.size() >= 6) op = 10;
		if (m.sets.empty() && op > 6) op = 3;
		dropOrphans();
		Set* s = m.sets.empty() ? NULL : &m.sets[r.below(m.sets.size())];
		switch (op)
		{
		case 0: { int t = types[r.below(4)]; newSource(mesh->AddSource((Sem) t), t, false); break; }
		case 1: case 2:
		{
			int t = types[r.below(4)]; FCDGeometrySource* p = mesh->AddVertexSource((Sem) t); int id = newSource(p, t, true);
			for (auto& x : m.sets) { CHECK(x.p->GetInputCount() == x.inputs.size() + 1, "vertex-source/input", "an input was not made"); Input i = { x.p->GetInput(x.inputs.size()), id, 0, -1 }; x.inputs.push_back(i); }
			break;
		}
		case 3:
		{
			if (m.sets.size() >= 4) break;
			Set x; x.p = mesh->AddPolygons(); x.material = mats[r.below(3)]; x.p->SetMaterialSemantic(x.material.c_str());
			for (size_t k = 0; k < m.vertex.size(); ++k) { CHECK(x.p->GetInputCount() == m.vertex.size(), "set/vertex-inputs", "%zu, expected %zu", x.p->GetInputCount(), m.vertex.size()); Input i = { x.p->GetInput(k), m.vertex[k], 0, -1 }; x.inputs.push_back(i); }
			m.sets.push_back(x); mesh->Recalculate(); break;
		}
		case 4: // A source becomes a vertex source: its inputs move to offset 0.
		{
			if (m.order.empty()) break;
			int id = pickSource(); Source& src = m.sources[id]; if (src.vertex) break;
			bool twice = false; for (auto& x : m.sets) { int n = 0; for (auto& i : x.inputs) n += i.source == id; twice |= n > 1; } if (twice) break;
			mesh->AddVertexSource(src.p); src.vertex = true; m.vertex.push_back(id);
			for (auto& x : m.sets)
			{
				size_t k = 0; while (k < x.inputs.size() && x.inputs[k].source != id) ++k;
				int32 set = -1; std::vector<uint32> l;
				if (k < x.inputs.size())
				{
					if (x.inputs[k].offset == 0) continue;
					set = x.inputs[k].set; uint32 o = x.inputs[k].offset; l = x.lists[o]; x.inputs.erase(x.inputs.begin() + k);
					bool used = false; for (auto& i : x.inputs) used |= i.offset == o && i.source >= 0; if (!used) x.lists.erase(o);
				}
				CHECK(x.p->GetInputCount() == x.inputs.size() + 1, "vertex-source/input", "%zu inputs, expected %zu", x.p->GetInputCount(), x.inputs.size() + 1); if (mon::violations()) return;
				Input i = { x.p->GetInput(x.inputs.size()), id, 0, set }; x.inputs.push_back(i); if (x.lists[0].empty()) x.lists[0] = l;
			}
			mon::hit("sources promoted"); break;
		}
		case 5: if (!m.vertex.empty() && r.chance(40)) { size_t k = r.below(m.vertex.size()); Source& src = m.sources[m.vertex[k]]; mesh->RemoveVertexSource(src.p); src.vertex = false; m.vertex.erase(m.vertex.begin() + k); } break;
		case 6: // A source is released: its inputs have none.
		{
			if (m.order.empty() || r.chance(70)) break;
			size_t k = r.below(m.order.size()); int id = m.order[k]; m.sources[id].p->Release(); m.order.erase(m.order.begin() + k); m.vertex.erase(std::remove(m.vertex.begin(), m.vertex.end(), id), m.vertex.end()); m.sources.erase(id);
			for (auto& x : m.sets) for (auto& i : x.inputs) if (i.source == id) i.source = -1;
			if (r.chance(50)) dropOrphans();
			++removals; mon::hit("sources released"); break;
		}
		case 7: if (r.chance(30)) { size_t k = s - &m.sets[0]; s->p->Release(); m.sets.erase(m.sets.begin() + k); mesh->Recalculate(); ++removals; } break;
		case 8: case 9: case 10: case 11: // A face with new indices.
		{
			uint32 n = r.range(1, 7); s->p->AddFace(n); bool first = s->rings.empty(); Ring x = { n, false }; s->rings.push_back(x);
			std::set<uint32> done;
			for (auto& i : s->inputs) if (i.source >= 0 && done.insert(i.offset).second) { auto& l = s->lists[i.offset]; if (first ? l.empty() : !l.empty()) { size_t at = l.size(); l.resize(at + n, 0);
				CHECK(i.p->GetIndexCount() == l.size(), "face/index-count", "%zu, expected %zu", i.p->GetIndexCount(), l.size()); if (i.p->GetIndexCount() != l.size()) return;
				for (size_t q = at; q < l.size(); ++q) CHECK(i.p->GetIndices()[q] == 0, "face/new-index", "%u instead of 0", i.p->GetIndices()[q]); } }
			if (r.chance(60)) for (auto& l : s->lists) { for (auto& x : l.second) x = r.below(9); for (auto& i : s->inputs) if (i.source >= 0 && i.offset == l.first) { i.p->SetIndices(l.second.data(), l.second.size()); break; } }
			break;
		}
		case 12: // A hole in the last face, with its indices.
		{
			if (s->rings.empty()) break;
			uint32 n = r.range(1, 5); size_t before = total(*s); s->p->AddFaceVertexCount(n); s->p->AddHole((uint32) s->rings.size()); Ring x = { n, true }; s->rings.push_back(x);
			std::set<uint32> done; for (auto& i : s->inputs) if (i.source >= 0 && !s->lists[i.offset].empty() && s->lists[i.offset].size() == before && done.insert(i.offset).second) { UInt32List u; for (uint32 k = 0; k < n; ++k) { u.push_back(r.below(9)); s->lists[i.offset].push_back(u.back()); } i.p->AddIndices(u); }
			mesh->Recalculate(); mon::hit("holes"); break;
		}
		case 13: case 14: // A face goes, with its holes and indices.
		{
			std::vector<Face> f = facesOf(*s); if (f.empty()) break;
			size_t k = r.below(f.size()); s->p->RemoveFace(k); s->rings.erase(s->rings.begin() + f[k].ring, s->rings.begin() + f[k].ring + f[k].rings);
			for (auto& l : s->lists) if (f[k].offset < l.second.size()) l.second.erase(l.second.begin() + f[k].offset, l.second.begin() + std::min(l.second.size(), f[k].offset + f[k].count));
			++removals; mon::hit("faces removed"); break;
		}
		case 15: case 16: // An input.
		{
			if (m.order.empty() || s->inputs.size() >= 7) break;
			Input i; i.source = pickSource(); i.offset = r.below(4); i.set = r.chance(50) ? -1 : r.range(0, 3);
			bool again = false; for (auto& x : s->inputs) again |= x.source == i.source && x.offset == i.offset; if (again || (i.offset == 0 && !m.sources[i.source].vertex)) break;
			i.p = s->p->AddInput(m.sources[i.source].p, i.offset); i.p->SetSet(i.set); s->inputs.push_back(i);
			if (s->lists[i.offset].empty() && total(*s) > 0 && r.chance(80)) fill(*s, s->inputs.back(), total(*s));
			break;
		}
		case 17: if (!s->inputs.empty() && r.chance(60))
		{
			size_t k = r.below(s->inputs.size()); Input i = s->inputs[k]; if (i.source >= 0 && m.sources[i.source].vertex && i.offset == 0) break;
			i.p->Release(); s->inputs.erase(s->inputs.begin() + k); bool used = false; for (auto& x : s->inputs) used |= x.offset == i.offset && x.source >= 0; if (!used) s->lists.erase(i.offset); ++removals; mon::hit("inputs released");
		} break;
		case 18: if (!s->inputs.empty()) { Input& i = s->inputs[r.below(s->inputs.size())]; if (i.source < 0) break; size_t n = s->rings.empty() ? 0 : r.chance(85) ? total(*s) : r.below(total(*s)); if (n > 0) fill(*s, i, n); i.set = r.range(-1, 3); i.p->SetSet(i.set); } break;
		default: // The data of a source.
		{
			if (m.order.empty()) break;
			Source& x = m.sources[pickSource()];
			switch (r.below(4))
			{
			case 0: { FloatList l; for (int n = r.below(20); n > 0; --n) l.push_back(r.flt(-9, 9)); x.stride = r.range(1, 4); size_t o = r.below(l.size() + 3), n = r.chance(30) ? 0 : r.below(l.size() + 3); x.p->SetData(l, x.stride, o, n);
				x.data.clear(); for (size_t k = o; k < l.size() && (n == 0 || k < o + n); ++k) x.data.push_back(l[k]); break; }
			case 1: { size_t n = r.below(6), was = x.data.size(); x.p->SetValueCount(n); x.data.resize(n * x.stride); for (size_t k = was; k < x.data.size(); ++k) { x.data[k] = r.flt(-9, 9); x.p->GetSourceData().set(k, x.data[k]); } break; }
			case 2: if (x.data.size() / x.stride > 0) { size_t k = r.below(x.data.size() / x.stride); float v[4]; for (auto& y : v) y = r.flt(-9, 9); x.p->SetValue(k, v); for (uint32 c = 0; c < x.stride; ++c) x.data[k * x.stride + c] = v[c]; CHECK(memcmp(x.p->GetValue(k), v, x.stride * 4) == 0, "source/value", "value %zu", k); } break;
			default: x.type = types[r.below(4)]; x.p->SetType((Sem) x.type); break;
			}
		}
		}
		compare(m, mesh, true, what.c_str());
		for (auto& x : m.sets) { mostFaces = std::max(mostFaces, x.rings.size()); mostInputs = std::max(mostInputs, x.inputs.size()); }
		if (r.chance(6) && mon::violations() == 0)
		{
			FCDGeometryMesh* c = d->GetGeometryLibrary()->AddEntity()->CreateMesh(); Model n = m; // Inputs without a source have nothing to be cloned.
			for (auto& x : n.sets) x.inputs.erase(std::remove_if(x.inputs.begin(), x.inputs.end(), [](const Input& i) { return i.source < 0; }), x.inputs.end());
			for (auto& x : n.sets) for (auto l = x.lists.begin(); l != x.lists.end();) { bool used = false; for (auto& i : x.inputs) used |= i.offset == l->first; if (used) ++l; else l = x.lists.erase(l); }
			for (auto& x : n.sets) for (int v : n.vertex) { bool has = false; for (auto& i : x.inputs) has |= i.source == v; if (!has) { Input i = { NULL, v, 0, -1 }; x.inputs.push_back(i); } }
			mesh->Clone(c); compare(n, c, false, "clone"); c->GetParent()->Release(); compare(m, mesh, true, "after cloning"); mon::hit("clones");
		}
	}
	if (mostFaces >= 3 && mostInputs >= 2 && removals > 0) mon::nontrivial();
}
