// C32: animatable parameters and lists against a model of their values and of what is animated.
#include "docmon.h"
#include "FCDocument/FCDParameterAnimatable.h"
#include "FCDocument/FCDAnimationMultiCurve.h"
#include "FCDocument/FCDParameterAnimatable.hpp"

namespace
{
struct Death : FUTracker
{
	std::set<FUTrackable*> live; size_t died = 0;
	void add(FUTrackable* o) { if (live.insert(o).second) TrackObject(o); }
	void OnObjectReleased(FUTrackable* o) override { live.erase(o); ++died; }
	~Death() { for (auto* o : live) UntrackObject(o); }
};
bool any(const FUParameterizable* o, uint32 f) { return const_cast<FUParameterizable*>(o)->TestFlag(f) != 0; }

template <class T> struct Parts;
template <> struct Parts<float> { enum { N = 1 }; static float* at(float& v, int) { return &v; } };
template <> struct Parts<FMVector2> { enum { N = 2 }; static float* at(FMVector2& v, int k) { return k == 0 ? &v.x : &v.y; } };
template <> struct Parts<FMVector3> { enum { N = 3 }; static float* at(FMVector3& v, int k) { return k == 0 ? &v.x : k == 1 ? &v.y : &v.z; } };
template <> struct Parts<FMVector4> { enum { N = 4 }; static float* at(FMVector4& v, int k) { return k == 0 ? &v.x : k == 1 ? &v.y : k == 2 ? &v.z : &v.w; } };
template <> struct Parts<FMMatrix44> { enum { N = 16 }; static float* at(FMMatrix44& v, int k) { return &v[k % 4][k / 4]; } };
template <> struct Parts<FMAngleAxis> { enum { N = 4 }; static float* at(FMAngleAxis& v, int k) { return k == 0 ? &v.axis.x : k == 1 ? &v.axis.y : k == 2 ? &v.axis.z : &v.angle; } };
template <> struct Parts<FMLookAt> { enum { N = 9 }; static float* at(FMLookAt& v, int k) { FMVector3& p = k < 3 ? v.position : k < 6 ? v.target : v.up; return Parts<FMVector3>::at(p, k % 3); } };
template <> struct Parts<FMSkew> { enum { N = 7 }; static float* at(FMSkew& v, int k) { return k == 6 ? &v.angle : Parts<FMVector3>::at(k < 3 ? v.rotateAxis : v.aroundAxis, k % 3); } };

struct World
{
	Rng& r; DocRef d; FCDAnimation* a; FCDAnimationChannel* ch; float serial = 1;
	World(Rng& r_) : r(r_) { a = d->GetAnimationLibrary()->AddEntity(); ch = a->AddChannel(); }
	// A curve that is a straight line: its value is known anywhere.
	FCDAnimationCurve* line(float v0, float slope)
	{
		FCDAnimationCurve* c = ch->AddCurve();
		for (int k = 0; k < 2; ++k) { FCDAnimationKey* key = c->AddKey(FUDaeInterpolation::LINEAR); key->input = (float) k * 8; key->output = v0 + slope * k * 8; }
		c->SetPreInfinity(FUDaeInfinity::LINEAR); c->SetPostInfinity(FUDaeInfinity::LINEAR); return c;
	}
	template <class T> T value() { T v; for (int k = 0; k < Parts<T>::N; ++k) *Parts<T>::at(v, k) = (float) r.range(-4, 4) + (r.chance(50) ? serial++ : 0); return v; }
};
template <class T> bool same(T a, T b) { for (int k = 0; k < Parts<T>::N; ++k) if (*Parts<T>::at(a, k) != *Parts<T>::at(b, k)) return false; return true; }

template <class T, int Q> void list(Rng& r, const char* type)
{
	typedef Parts<T> P; typedef FCDParameterListAnimatableT<T, Q> List;
	World w(r); FCDCamera* owner = w.d->GetCameraLibrary()->AddEntity(); Death death;
	struct Item { T v; FCDAnimated* a = NULL; FCDAnimationCurve* curve[16] = {}; float v0[16], slope[16]; };
	std::vector<Item> m;
	{
		List l(owner); mon::sig(type); size_t moved = 0;
		int steps = r.range(5, mon::thorough ? 80 : 40);
		for (int q = 0; q < steps && mon::violations() == 0; ++q)
		{
			S what; bool stores = true, changes = true; size_t n = m.size(), i = r.below(n + 1); owner->ResetDirtyFlag(); owner->ResetValueChangedFlag(); owner->ResetStructureChangedFlag();
			size_t gone = death.died, expect = 0;
			auto drop = [&](size_t from, size_t to) { for (size_t k = from; k < to; ++k) expect += m[k].a != NULL; for (size_t k = to; k < n; ++k) moved += m[k].a != NULL; m.erase(m.begin() + from, m.begin() + to); };
			auto put = [&](size_t at, size_t count, const std::vector<T>& v) { for (size_t k = at; k < n; ++k) moved += m[k].a != NULL; for (size_t k = 0; k < count; ++k) { Item x; x.v = v[k]; m.insert(m.begin() + at + k, x); } };
			switch (r.below(20))
			{
			case 0: { T v = w.value<T>(); what = "insert"; l.insert(i, v); put(i, 1, { v }); break; }
			case 1: { size_t c = r.below(5); T v = w.value<T>(); what = "insert copies"; l.insert(i, c, v); put(i, c, std::vector<T>(c, v)); break; }
			case 2: { std::vector<T> v; for (size_t c = r.below(6); c > 0; --c) v.push_back(w.value<T>()); what = "insert values"; if (v.empty()) v.push_back(w.value<T>()); l.insert(i, &v[0], v.size()); put(i, v.size(), v); break; }
			case 3: if (i == n) continue; what = "erase"; l.erase(i); drop(i, i + 1); break;
			case 4: { if (i == n) continue; T v = m[i].v; size_t at = 0; while (!same(m[at].v, v)) ++at; what = "erase value"; CHECK(l.find(v) == at && l.contains(v), "find", "%s: found at %zu instead of %zu", type, l.find(v), at); l.erase(v); drop(at, at + 1); break; }
			case 5: { if (i == n) continue; size_t e = i + 1 + r.below(n - i); what = "erase range"; l.erase(i, e); drop(i, e); break; }
			case 6: if (!r.chance(25)) continue; what = "clear"; l.clear(); drop(0, n); break;
			case 7: case 8: { T v = w.value<T>(); what = "push_back"; l.push_back(v); put(n, 1, { v }); break; }
			case 9: { T v = w.value<T>(); what = "push_front"; l.push_front(v); put(0, 1, { v }); break; }
			case 10: if (n == 0) continue; what = "pop_back"; l.pop_back(); drop(n - 1, n); break;
			case 11: if (n == 0) continue; what = "pop_front"; l.pop_front(); drop(0, 1); break;
			case 12: { size_t c = r.chance(60) ? r.below(n + 1) : n + r.below(9); T v = w.value<T>(); what = "resize " + std::to_string(n) + " to " + std::to_string(c); changes = c != n; l.resize(c, v); if (c < n) drop(c, n); else put(n, c - n, std::vector<T>(c - n, v)); break; }
			case 13: { size_t c = r.chance(70) ? r.below(n + 1) : n + r.below(9); what = "resize " + std::to_string(n) + " to " + std::to_string(c) + " without a value"; changes = c != n; l.resize(c); if (c < n) drop(c, n); else { size_t from = n; put(n, c - n, std::vector<T>(c - n)); for (size_t k = from; k < c; ++k) { m[k].v = w.value<T>(); l.set(k, m[k].v); } } break; }
			case 14: { if (i == n) continue; T v = w.value<T>(); what = "set"; l.set(i, v); m[i].v = v; break; }
			case 15: case 16: case 17:
			{
				if (i == n) continue; stores = false; what = "animate"; Item& x = m[i]; FCDAnimated* a = l.GetAnimated(i); CHECK(a != NULL && (x.a == NULL || x.a == a), "animated-other", "%s: element %zu", type, i); if (a == NULL) return;
				x.a = a; death.add(a); CHECK(a->GetValueCount() == (size_t) P::N, "animated-values", "%s: %zu values", type, a->GetValueCount());
				int k = (int) r.below(P::N); if (x.curve[k] != NULL) { CHECK(a->RemoveCurve(k), "remove-curve", "%s: nothing removed", type); x.curve[k] = NULL; if (r.chance(40)) break; }
				x.v0[k] = (float) r.range(-9, 9); x.slope[k] = (float) r.range(-3, 3); x.curve[k] = w.line(x.v0[k], x.slope[k]); CHECK(a->AddCurve(k, x.curve[k]), "add-curve", "%s", type);
				break;
			}
			default:
			{
				// Everything animated takes the values of its curves, and nothing else changes.
				stores = false; what = "evaluate"; float t = (float) r.range(-8, 16);
				for (auto& x : m) if (x.a != NULL) for (int k = 0; k < P::N; ++k) if (x.curve[k] != NULL) *P::at(x.v, k) = x.v0[k] + x.slope[k] * t;
				if (r.chance(50)) w.d->SetCurrentTime(t); else for (auto& x : m) if (x.a != NULL) x.a->Evaluate(t);
				bool curves = false; for (auto& x : m) for (int k = 0; k < P::N; ++k) curves |= x.curve[k] != NULL;
				CHECK(!curves || any(owner, FCDObject::FLAG_ValueChanged), "evaluate-unmarked", "%s: the object is not marked after its values were evaluated", type); mon::hit("evaluations"); break;
			}
			}
			if (mon::verbose) fprintf(stderr, "%s: %s\n", type, what.c_str());
			mon::sig(what); mon::hit("list operations");
			CHECK(death.died - gone == expect, "animated-released", "%s: %zu animated elements went instead of %zu after %s", type, death.died - gone, expect, what.c_str());
			if (stores && changes) CHECK(any(owner, FCDObject::FLAG_Dirty | FCDObject::FLAG_ValueChanged | FCDObject::FLAG_StructureChanged), "unmarked", "%s: the object is not marked after %s", type, what.c_str());
			CHECK(l.size() == m.size() && l.empty() == m.empty(), "size", "%s: %zu values instead of %zu after %s", type, l.size(), m.size(), what.c_str()); if (l.size() != m.size()) break;
			bool anyCurve = false; size_t animated = 0;
			for (size_t k = 0; k < m.size(); ++k)
			{
				Item& x = m[k]; bool curve = false; for (int p = 0; p < P::N; ++p) curve |= x.curve[p] != NULL; anyCurve |= curve;
				CHECK(same<T>(l[k], x.v), "value", "%s: value %zu after %s", type, k, what.c_str());
				CHECK(l.IsAnimated(k) == curve, "animated-flag", "%s: element %zu %s animated after %s", type, k, curve ? "is not" : "is", what.c_str());
				if (x.a == NULL) continue;
				++animated; if (!death.live.count(x.a)) { mon::viol("animated-lost", "%s: element %zu after %s", type, k, what.c_str()); break; }
				CHECK(l.GetAnimated(k) == x.a, "animated-strayed", "%s: element %zu has another animated value after %s", type, k, what.c_str());
				CHECK(x.a->GetArrayElement() == (int32) k, "animated-element", "%s: element %zu is said to be %d after %s", type, k, (int) x.a->GetArrayElement(), what.c_str());
				for (int p = 0; p < P::N; ++p)
				{
					CHECK(x.a->GetValue(p) == P::at(const_cast<T&>(l[k]), p), "animated-pointer", "%s: the animation of element %zu writes elsewhere after %s", type, k, what.c_str());
					CHECK(x.a->GetCurveCount(p) == (x.curve[p] != NULL ? 1u : 0u) && x.a->GetCurve(p) == x.curve[p], "animated-curve", "%s: the curve of element %zu after %s", type, k, what.c_str());
				}
				mon::hit("animated elements looked at");
			}
			CHECK(l.IsAnimated() == anyCurve, "list-animated-flag", "%s after %s", type, what.c_str());
			CHECK(l.GetAnimatedValues().size() == animated, "animated-count", "%s: %zu animated values instead of %zu after %s", type, l.GetAnimatedValues().size(), animated, what.c_str());
		}
		if (moved >= 3) mon::nontrivial();
	}
	if (mon::violations() == 0) CHECK(death.live.empty(), "animated-left", "%s: %zu animated values outlive their list", type, death.live.size());
}

template <class T, int Q> void single(Rng& r, const char* type, const std::vector<S>& qualifiers)
{
	typedef Parts<T> P; typedef FCDParameterAnimatableT<T, Q> Param;
	World w(r); FCDCamera* owner = w.d->GetCameraLibrary()->AddEntity(); mon::sig(type);
	T now = w.value<T>(); Param p(owner, now); CHECK(same<T>(p, now), "default", "%s", type); CHECK(!p.HasAnimated() && !p.IsAnimated(), "animated-early", "%s", type);
	std::vector<std::vector<int>> on(P::N); struct C { FCDAnimationCurve* c; float v0, slope; }; std::vector<C> curves; bool made = false;
	int steps = r.range(5, 30); size_t evaluated = 0;
	for (int q = 0; q < steps && mon::violations() == 0; ++q)
	{
		owner->ResetDirtyFlag(); owner->ResetValueChangedFlag(); int k = (int) r.below(P::N); S what;
		switch (r.below(7))
		{
		case 0: what = "assign"; now = w.value<T>(); p = now; CHECK(any(owner, FCDObject::FLAG_Dirty | FCDObject::FLAG_ValueChanged), "unmarked", "%s: the object is not marked after a value was stored", type); break;
		case 1: what = "write"; *P::at(now, k) = w.serial++; *P::at(*p, k) = *P::at(now, k); break;
		case 2: { what = "remove curve"; bool had = !on[k].empty(); made = true; CHECK(p.GetAnimated()->RemoveCurve(k) == had, "remove-curve", "%s", type); on[k].clear(); break; }
		case 3: { what = "release curve"; if (on[k].empty()) continue; size_t z = r.below(on[k].size()); curves[on[k][z]].c->Release(); on[k].erase(on[k].begin() + z); break; }
		case 4:
		{
			what = "evaluate"; float t = (float) r.range(-8, 16); bool has = false;
			for (int x = 0; x < P::N; ++x) if (!on[x].empty()) { has = true; *P::at(now, x) = curves[on[x][0]].v0 + curves[on[x][0]].slope * t; }
			if (r.chance(50)) w.d->SetCurrentTime(t); else p.GetAnimated()->Evaluate(t), made = true;
			if (has) { ++evaluated; CHECK(any(owner, FCDObject::FLAG_ValueChanged), "evaluate-unmarked", "%s", type); }
			mon::hit("evaluations"); break;
		}
		default: { what = "add curve"; C c; c.v0 = (float) r.range(-9, 9); c.slope = (float) r.range(-3, 3); c.c = w.line(c.v0, c.slope); made = true; CHECK(p.GetAnimated()->AddCurve(k, c.c), "add-curve", "%s", type); on[k].push_back((int) curves.size()); curves.push_back(c); break; }
		}
		mon::sig(what); mon::hit("parameter operations");
		CHECK(same<T>(p, now), "value", "%s after %s", type, what.c_str());
		bool has = false; for (auto& x : on) has |= !x.empty();
		CHECK(p.HasAnimated() == made && p.IsAnimated() == has, "animated-flag", "%s: animated %d (%d), expected %d (%d) after %s", type, (int) p.IsAnimated(), (int) p.HasAnimated(), (int) has, (int) made, what.c_str());
		if (!made) continue;
		FCDAnimated* a = p.GetAnimated(); CHECK(a->GetValueCount() == (size_t) P::N && a->GetArrayElement() == -1 && a->GetTargetObject() == owner && a->HasCurve() == has, "animated", "%s after %s", type, what.c_str()); if (a->GetValueCount() != (size_t) P::N) return;
		for (int x = 0; x < P::N; ++x)
		{
			CHECK(a->GetValue(x) == P::at(*p, x), "animated-pointer", "%s: component %d", type, x); CHECK(a->GetQualifier(x) == qualifiers[x].c_str(), "qualifier", "%s: component %d is %s instead of %s", type, x, a->GetQualifier(x).c_str(), qualifiers[x].c_str());
			CHECK(a->FindQualifier(qualifiers[x].c_str()) == (size_t) x && a->FindValue(P::at(*p, x)) == (size_t) x && a->FindValue(fm::string(qualifiers[x].c_str())) == P::at(*p, x), "find", "%s: component %d", type, x);
			bool ok = a->GetCurveCount(x) == on[x].size(); for (size_t z = 0; ok && z < on[x].size(); ++z) ok = a->GetCurve(x, z) == curves[on[x][z]].c;
			CHECK(ok, "animated-curve", "%s: the curves of component %d after %s", type, x, what.c_str());
			CHECK(a->FindCurve(fm::string(qualifiers[x].c_str())) == (on[x].empty() ? NULL : curves[on[x][0]].c), "find-curve", "%s: component %d after %s", type, x, what.c_str());
		}
	}
	if (evaluated != 0) mon::nontrivial();
}

// Animated values over somebody's own floats.
void standalone(Rng& r)
{
	World w(r); Death death; float store[3][6]; struct Line { FCDAnimationCurve* c; float v0, slope; };
	struct One { FCDAnimated* a; size_t n; std::vector<std::vector<Line>> on; FCDObject* target; std::vector<S> names; };
	std::vector<FCDObject*> owners; for (int k = 0; k < 3; ++k) { owners.push_back(w.d->GetCameraLibrary()->AddEntity()); death.add(owners.back()); }
	std::vector<One> all; int count = r.range(1, 3); size_t seen = 0;
	static const char* pool[] = { ".X", ".Y", ".Z", ".ANGLE", ".TIME", "", ".FOV" };
	for (int k = 0; k < count; ++k)
	{
		One o; o.n = (size_t) r.range(1, 6); o.on.resize(o.n); const char* names[6]; float* values[6]; int first = r.range(0, 6);
		for (size_t i = 0; i < o.n; ++i) { names[i] = pool[(first + i) % 7]; o.names.push_back(names[i]); store[k][i] = (float) r.range(-50, 50); values[i] = &store[k][i]; }
		o.target = r.pick(owners); o.a = new FCDAnimated(o.target, o.n, names, values); death.add(o.a); all.push_back(o);
	}
	auto at = [](const Line& l, float t) { return l.v0 + l.slope * t; };
	for (int step = r.range(5, 40); step > 0 && mon::violations() == 0; --step)
	{
		int k = r.range(0, count - 1); One& o = all[k]; size_t i = r.below(o.n); FCDAnimated* a = o.a;
		switch (r.below(9))
		{
		case 0: case 1: { Line l; l.v0 = (float) r.range(-9, 9); l.slope = (float) r.range(-3, 3); l.c = w.line(l.v0, l.slope); CHECK(a->AddCurve(i, l.c), "own-add", "refused"); o.on[i].push_back(l); break; }
		case 2: { FCDAnimationCurveList list; for (int q = r.range(1, 3); q > 0; --q) { Line l; l.v0 = (float) r.range(-9, 9); l.slope = (float) r.range(-3, 3); l.c = w.line(l.v0, l.slope); list.push_back(l.c); o.on[i].push_back(l); } CHECK(a->AddCurve(i, list), "own-add-list", "refused"); break; }
		case 3: { bool had = !o.on[i].empty(); CHECK(a->RemoveCurve(i) == had, "own-remove", "%d", (int) had); o.on[i].clear(); break; }
		case 4: if (!o.on[i].empty()) { size_t q = r.below(o.on[i].size()); o.on[i][q].c->Release(); o.on[i].erase(o.on[i].begin() + q); mon::hit("curves released below animated values"); } break;
		case 5:
		{ // Evaluation writes what is animated, and nothing else.
			float t = (float) r.range(-8, 16); float want[6]; bool any_ = false; for (size_t q = 0; q < o.n; ++q) { want[q] = o.on[q].empty() ? store[k][q] : at(o.on[q][0], t); any_ |= !o.on[q].empty(); }
			for (auto* x : owners) x->ResetValueChangedFlag();
			a->Evaluate(t); for (size_t q = 0; q < o.n; ++q) CHECK(fabs(store[k][q] - want[q]) < 1e-3f, "own-evaluate", "value %zu is %g at %g, expected %g", q, store[k][q], t, want[q]);
			for (auto* x : owners) CHECK(any(x, FUParameterizable::FLAG_ValueChanged) == (any_ && x == o.target), "own-flag", "%d", (int) any_); ++seen; break;
		}
		case 6: { o.target = r.pick(owners); a->SetTargetObject(o.target); CHECK(a->GetTargetObject() == o.target, "own-target", "another"); break; }
		case 7:
		{ // One curve for all of them.
			FCDAnimatedList list; std::vector<int> which; for (int q = r.range(1, 3); q > 0; --q) { which.push_back(r.range(0, count - 1)); list.push_back(all[which.back()].a); }
			bool alone = which.size() == 1 && r.chance(50); size_t n = 0; bool some = false; for (int q : which) { n += all[q].n; for (auto& l : all[q].on) some |= !l.empty(); } if (!some) break;
			FCDAnimationMultiCurve* m = alone ? all[which[0]].a->CreateMultiCurve() : FCDAnimated::CreateMultiCurve(list);
			CHECK(m != NULL && m->GetDimension() == n, "own-merge", "%u dimensions for %zu values", m ? m->GetDimension() : 0, n); if (m == NULL || m->GetDimension() != n) { SAFE_RELEASE(m); break; }
			for (int q = 0; q < 3; ++q) { float t = r.flt(0, 8), got[20]; m->Evaluate(t, got); size_t d = 0; for (int x : which) for (size_t z = 0; z < all[x].n; ++z, ++d) { float want = all[x].on[z].empty() ? store[x][z] : at(all[x].on[z][0], t); CHECK(fabs(got[d] - want) < 1e-3f * (1 + fabs(want)), "own-merge-value", "dimension %zu is %g at %g, expected %g", d, got[d], t, want); } }
			m->Release(); ++seen; mon::hit("curves merged from animated values"); break;
		}
		default:
		{ // A copy has the same names, values and curves of its own; another one only takes part.
			if (r.chance(50))
			{
				FCDAnimated* c = a->Clone((FCDocument*) w.d); bool ok = c != NULL && c->GetValueCount() == o.n && c->GetArrayElement() == a->GetArrayElement(); CHECK(ok, "own-clone", "%zu", o.n); if (!ok) break;
				for (size_t q = 0; q < o.n; ++q) { CHECK(S(c->GetQualifier(q).c_str()) == o.names[q] && c->GetValue(q) == &store[k][q] && c->GetCurveCount(q) == o.on[q].size(), "own-clone-value", "%zu", q);
					for (size_t z = 0; z < o.on[q].size() && z < c->GetCurveCount(q); ++z) { float t = r.flt(-8, 16), want = at(o.on[q][z], t); FCDAnimationCurve* cc = c->GetCurve(q, z); CHECK(cc != o.on[q][z].c, "own-clone-shared", "%zu", q); CHECK(fabs(cc->Evaluate(t) - want) < 1e-3f * (1 + fabs(want)), "own-clone-curve", "%zu", q); } }
				c->Release();
			}
			else
			{
				FCDAnimatedCustom* c = new FCDAnimatedCustom(owners[0]); death.add(c); a->SetArrayElement(r.range(-1, 5)); c->Copy(a);
				CHECK(c->GetValueCount() == o.n && c->GetArrayElement() == a->GetArrayElement(), "own-custom", "%zu", c->GetValueCount());
				for (size_t q = 0; q < o.n && q < c->GetValueCount(); ++q) CHECK(S(c->GetQualifier(q).c_str()) == o.names[q] && c->GetValue(q) == &c->GetDummy() && c->GetCurveCount(q) == o.on[q].size(), "own-custom-value", "%zu", q);
				size_t more = o.n + r.below(3); std::vector<S> names; StringList list; const char* ptrs[10] = {}; for (size_t q = 0; q < more; ++q) { names.push_back("N" + std::to_string(q)); list.push_back(names.back().c_str()); }
				for (size_t q = 0; q < more; ++q) ptrs[q] = names[q].c_str(); bool dot = r.chance(50); if (r.chance(50)) c->Resize(list, dot); else c->Resize(more, ptrs, dot);
				CHECK(c->GetValueCount() == more, "own-resize", "%zu, expected %zu", c->GetValueCount(), more);
				for (size_t q = 0; q < more && q < c->GetValueCount(); ++q) { CHECK(S(c->GetQualifier(q).c_str()) == (dot ? "." : "") + names[q], "own-resize-name", "'%s'", c->GetQualifier(q).c_str()); CHECK(c->GetCurveCount(q) == (q < o.n ? o.on[q].size() : 0), "own-resize-curves", "%zu", q); CHECK(c->GetValue(q) == &c->GetDummy(), "own-resize-value", "%zu", q); }
				c->Release();
			}
			++seen; mon::hit("animated values copied");
		}
		}
		// What is where.
		for (int x = 0; x < count; ++x)
		{
			One& v = all[x]; bool curved = false; CHECK(v.a->GetValueCount() == v.n, "own-count", "%zu", v.a->GetValueCount());
			for (size_t q = 0; q < v.n; ++q)
			{
				curved |= !v.on[q].empty(); CHECK(v.a->GetCurveCount(q) == v.on[q].size(), "own-curves", "%zu, expected %zu", v.a->GetCurveCount(q), v.on[q].size());
				for (size_t z = 0; z < v.on[q].size(); ++z) CHECK(v.a->GetCurve(q, z) == v.on[q][z].c, "own-curve", "%zu %zu", q, z); CHECK(v.a->GetCurve(q, v.on[q].size()) == NULL, "own-curve-beyond", "%zu", q);
				size_t first = std::find(v.names.begin(), v.names.end(), v.names[q]) - v.names.begin();
				CHECK(v.a->FindQualifier(v.names[q].c_str()) == first && v.a->FindValue(fm::string(v.names[q].c_str())) == &store[x][first] && v.a->FindValue(&store[x][q]) == q, "own-find", "%s", v.names[q].c_str());
				FCDAnimationCurve* want = v.on[q].empty() ? NULL : v.on[q][0].c; CHECK(v.a->FindCurve(&store[x][q]) == want && (first != q || v.a->FindCurve(v.names[q].c_str()) == want), "own-find-curve", "%zu", q);
			}
			CHECK(v.a->FindQualifier(".NONE") == ~(size_t) 0 && v.a->FindValue(fm::string(".NONE")) == NULL && v.a->FindValue(&store[(x + 1) % 3][0]) == ~(size_t) 0 && v.a->FindCurve(".NONE") == NULL, "own-find-none", "found");
			char e[16]; size_t i2 = r.below(8); snprintf(e, sizeof e, r.chance(50) ? "(%zu)" : "[%zu]", i2); CHECK(v.a->FindQualifier(e) == (i2 < v.n ? i2 : ~(size_t) 0), "own-element", "%s of %zu: %zu", e, v.n, v.a->FindQualifier(e));
			CHECK(v.a->HasCurve() == curved, "own-has", "%d", (int) curved);
		}
	}
	// The end of what is animated is the end of its animation.
	size_t k = r.below(3); std::set<FCDAnimated*> gone; for (auto& o : all) if (o.target == owners[k]) gone.insert(o.a);
	size_t before = death.live.size(); owners[k]->Release(); CHECK(death.live.size() == before - 1 - gone.size(), "own-end", "%zu objects went, expected %zu", before - death.live.size(), 1 + gone.size());
	for (auto& o : all) CHECK((death.live.count(o.a) == 0) == (gone.count(o.a) != 0), "own-end", "the wrong one went");
	w.d->SetCurrentTime(3); for (auto& o : all) if (!gone.count(o.a)) { if (r.chance(50)) o.a->Release(); }
	mon::hit("own animated values", count); mon::sig(seen * 8 + count); for (auto& o : all) mon::sig(o.n); if (seen > 0) mon::nontrivial();
}

std::vector<S> q(const char* list) { std::vector<S> o; S t = list; size_t p = 0; while (p < t.size()) { size_t e = t.find(' ', p); if (e == S::npos) e = t.size(); o.push_back(t.substr(p, e - p)); p = e + 1; } return o; }

// All the animated values of a document at a time.
void whole(Rng& r)
{
	DocRef d; { DocGen g(r, d, DocGen::ANIM | DocGen::CAMERA | DocGen::LIGHT | DocGen::SCENE | (r.chance(50) ? (int) DocGen::MATERIAL : (int) DocGen::MESH)); g.build(); }
	float t = r.flt(-5, 30); std::map<const float*, float> expected; size_t curves = 0;
	std::set<const FCDAnimated*> all; std::vector<const FCDAnimated*> order;
	auto see = [&](const FCDAnimated* a) { if (a != NULL && all.insert(a).second) order.push_back(a); };
	auto see1 = [&](const FCDParameterAnimatable& p) { if (p.HasAnimated()) see(p.GetAnimated()); };
	for (size_t k = 0; k < d->GetLightLibrary()->GetEntityCount(); ++k) { FCDLight* l = d->GetLightLibrary()->GetEntity(k); see1(l->GetColor()); see1(l->GetIntensity()); }
	for (size_t k = 0; k < d->GetCameraLibrary()->GetEntityCount(); ++k) { FCDCamera* c = d->GetCameraLibrary()->GetEntity(k); see1(c->GetFovX()); see1(c->GetNearZ()); see1(c->GetFarZ()); }
	std::function<void(FCDSceneNode*)> node = [&](FCDSceneNode* n) { for (size_t k = 0; k < n->GetTransformCount(); ++k) if (n->GetTransform(k)->IsAnimated()) see(n->GetTransform(k)->GetAnimated()); for (size_t k = 0; k < n->GetChildrenCount(); ++k) node(n->GetChild(k)); };
	for (size_t k = 0; k < d->GetVisualSceneLibrary()->GetEntityCount(); ++k) node(d->GetVisualSceneLibrary()->GetEntity(k));
	for (auto* a : order) for (size_t k = 0; k < a->GetValueCount(); ++k) if (a->GetCurveCount(k) != 0) { expected[a->GetValue(k)] = a->GetCurve(k)->Evaluate(t); ++curves; }
	d->SetCurrentTime(t);
	for (auto* a : order) for (size_t k = 0; k < a->GetValueCount(); ++k)
	{
		float v = *a->GetValue(k); auto e = expected.find(a->GetValue(k)); if (e == expected.end()) continue;
		CHECK(v == e->second || (v != v && e->second != e->second), "document-time", "a value is %g instead of %g at %g", v, e->second, t);
	}
	mon::hit("document values evaluated", curves); mon::sig(curves); if (curves > 2) mon::nontrivial();
}
}

PROP(C32, "animatable parameters of every type, alone and in lists, go through random stores, insertions, removals, animations and evaluations; a case counts when animated elements moved or values were evaluated")
{
	switch (r.below(19))
	{
	case 17: case 18: standalone(r); break;
	case 0: case 1: list<float, 0>(r, "float list"); break;
	case 2: list<FMVector2, 0>(r, "vector2 list"); break;
	case 3: list<FMVector3, 0>(r, "vector3 list"); break;
	case 4: list<FMVector3, 1>(r, "color3 list"); break;
	case 5: list<FMVector4, 0>(r, "vector4 list"); break;
	case 6: list<FMVector4, 1>(r, "color4 list"); break;
	case 7: single<float, 0>(r, "float", { "" }); break;
	case 8: single<FMVector2, 0>(r, "vector2", q(".X .Y")); break;
	case 9: single<FMVector3, 0>(r, "vector3", q(".X .Y .Z")); break;
	case 10: single<FMVector3, 1>(r, "color3", q(".R .G .B")); break;
	case 11: if (r.chance(50)) single<FMVector4, 0>(r, "vector4", q(".X .Y .Z .W")); else single<FMVector4, 1>(r, "color4", q(".R .G .B .A")); break;
	case 12: single<FMMatrix44, 0>(r, "matrix", q("(0)(0) (1)(0) (2)(0) (3)(0) (0)(1) (1)(1) (2)(1) (3)(1) (0)(2) (1)(2) (2)(2) (3)(2) (0)(3) (1)(3) (2)(3) (3)(3)")); break;
	case 13: single<FMAngleAxis, 0>(r, "angle-axis", q(".X .Y .Z .ANGLE")); break;
	case 14: single<FMLookAt, 0>(r, "look-at", q(".POSITIONX .POSITIONY .POSITIONZ .TARGETX .TARGETY .TARGETZ .UPX .UPY .UPZ")); break;
	case 15: single<FMSkew, 0>(r, "skew", q(".ROTATEX .ROTATEY .ROTATEZ .AROUNDX .AROUNDY .AROUNDZ .ANGLE")); break;
	default: whole(r); break;
	}
}
