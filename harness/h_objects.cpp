// C12: object ownership and tracking histories.  C31: events, error callbacks and error logs.
#include "mon.h"
#include "FCollada.h"
#include "FUtils/FUObject.h"
#include "FUtils/FUTracker.h"
#include "FUtils/FUEvent.h"
#include "FUtils/FUError.h"
#include "FUtils/FUErrorLog.h"
#include "FUtils/FULogFile.h"
#include "FUtils/FUFile.h"
#include <memory>

typedef std::string S;

namespace
{
	std::map<int, int> g_alive;     // id -> number of live instances
	std::map<int, int> g_died;
	int g_next = 0;

	class Obj : public FUTrackable
	{
	private:
		DeclareObjectType(FUTrackable, Obj);
	public:
		int id;
		FUObjectContainer<Obj> children;
		FUObjectRef<Obj> single;
		FUTrackedPtr<Obj> friendPtr;
		Obj() : id(g_next++) { g_alive[id]++; }
		Obj(int i) : id(i) { g_alive[id]++; g_next = std::max(g_next, i + 1); }
		virtual ~Obj() { g_alive[id]--; g_died[id]++; }
	};
	ImplementObjectType(Obj);

	struct Probe : public FUTracker
	{
		std::map<const FUTrackable*, int> seen;
		std::set<const FUTrackable*> tracked;
		void track(FUTrackable* o) { TrackObject(o); tracked.insert(o); }
		void untrack(FUTrackable* o) { UntrackObject(o); tracked.erase(o); }
		virtual void OnObjectReleased(FUTrackable* o) { seen[o]++; if (!tracked.erase(o)) mon::viol("tracker:foreign-notice", "a tracker was told about an object it does not track"); }
		~Probe() { for (const FUTrackable* o : std::set<const FUTrackable*>(tracked)) UntrackObject(const_cast<FUTrackable*>(o)); }
	};

	// The reference model.
	struct World
	{
		enum { NREF = 4, NPTR = 6, NLIST = 4, NCONT = 3 };
		struct O { Obj* p; int owner; };           // owner: -1 none, 0.. refs, 100.. containers, 1000+id child list, 100000+id single
		std::map<int, O> live;
		std::unique_ptr<FUObjectRef<Obj>> refs[NREF]; int mref[NREF];
		std::unique_ptr<FUTrackedPtr<Obj>> ptrs[NPTR]; int mptr[NPTR];
		std::unique_ptr<FUTrackedList<Obj>> lists[NLIST]; std::vector<int> mlist[NLIST];
		std::unique_ptr<FUObjectContainer<Obj>> conts[NCONT]; std::vector<int> mcont[NCONT];
		std::map<int, std::vector<int>> mchild; std::map<int, int> msingle; std::map<int, int> mfriend;
		Probe probe; std::set<int> mprobe;
		World()
		{
			for (int i = 0; i < NREF; ++i) { refs[i].reset(new FUObjectRef<Obj>()); mref[i] = -1; }
			for (int i = 0; i < NPTR; ++i) { ptrs[i].reset(new FUTrackedPtr<Obj>()); mptr[i] = -1; }
			for (int i = 0; i < NLIST; ++i) lists[i].reset(new FUTrackedList<Obj>());
			for (int i = 0; i < NCONT; ++i) conts[i].reset(new FUObjectContainer<Obj>());
		}
		static void drop(std::vector<int>& v, int id) { v.erase(std::remove(v.begin(), v.end(), id), v.end()); }
		void disown(int id)
		{
			int o = live[id].owner;
			if (o < 0) return;
			if (o < 100) mref[o] = -1;
			else if (o < 1000) drop(mcont[o - 100], id);
			else if (o < 100000) drop(mchild[o - 1000], id);
			else msingle[o - 100000] = -1;
			live[id].owner = -1;
		}
		// The model's view of an object's death, with everything it owns.
		void dies(int id)
		{
			if (!live.count(id)) return;
			disown(id);
			std::vector<int> kids = mchild[id];
			if (msingle.count(id) && msingle[id] >= 0) kids.push_back(msingle[id]);
			for (int k : kids) live[k].owner = -1;
			mchild.erase(id); msingle.erase(id); mfriend.erase(id);
			for (int k : kids) dies(k);
			live.erase(id);
			for (int& m : mptr) if (m == id) m = -1;
			for (auto& l : mlist) drop(l, id);
			for (auto& f : mfriend) if (f.second == id) f.second = -1;
			mprobe.erase(id);
		}
		Obj* make(int* id) { Obj* o = new Obj(); *id = o->id; live[o->id] = { o, -1 }; msingle[o->id] = -1; mfriend[o->id] = -1; return o; }
		int anyId(Rng& r) { if (live.empty()) return -1; auto it = live.begin(); std::advance(it, r.below(live.size())); return it->first; }
		int freeId(Rng& r) { std::vector<int> v; for (auto& p : live) if (p.second.owner < 0) v.push_back(p.first); return v.empty() ? -1 : r.pick(v); }
		bool under(int id, int root) { for (;;) { if (id == root) return true; int o = live[id].owner; if (o < 1000) return false; id = o >= 100000 ? o - 100000 : o - 1000; } }
		Obj* at(int id) { return id < 0 ? NULL : live[id].p; }
		void compare(const char* op)
		{
			for (auto& p : live) CHECK(g_alive[p.first] == 1, "lifetime:early", "after %s: object %d has been destroyed while still owned", op, p.first);
			for (auto& p : g_alive) if (!live.count(p.first)) CHECK(p.second == 0, "lifetime:late", "after %s: object %d should have been destroyed", op, p.first);
			for (auto& p : g_died) CHECK(p.second <= 1, "lifetime:twice", "after %s: object %d was destroyed %d times", op, p.first, p.second);
			if (mon::violations()) return;
			for (int i = 0; i < NREF; ++i) { Obj* o = *refs[i]; CHECK(o == at(mref[i]), "ref", "after %s: reference %d holds the wrong object (model %d)", op, i, mref[i]); }
			for (int i = 0; i < NPTR; ++i) { Obj* o = *ptrs[i]; CHECK(o == at(mptr[i]), "ptr", "after %s: tracked pointer %d is %p, expected object %d", op, i, (void*) o, mptr[i]); CHECK(o == NULL || ptrs[i]->TracksObject(o), "ptr:tracks", "after %s: TracksObject denies its target", op); }
			for (int i = 0; i < NLIST; ++i)
			{
				const FUTrackedList<Obj>& l = *lists[i]; bool same = l.size() == mlist[i].size() && l.empty() == mlist[i].empty();
				for (size_t k = 0; same && k < l.size(); ++k) if (l.at(k) != at(mlist[i][k])) same = false;
				CHECK(same, "list", "after %s: tracked list %d differs from the objects added to it and still alive (%zu vs %zu)", op, i, l.size(), mlist[i].size());
				if (!same) continue;
				for (auto& p : live) { bool in = std::find(mlist[i].begin(), mlist[i].end(), p.first) != mlist[i].end(); CHECK(l.contains(p.second.p) == in && l.TracksObject(p.second.p) == in && ((lists[i]->find(p.second.p) != lists[i]->end()) == in), "list:contains", "after %s: contains/find of a tracked list is wrong", op); }
			}
			for (int i = 0; i < NCONT; ++i)
			{
				const FUObjectContainer<Obj>& l = *conts[i]; bool same = l.size() == mcont[i].size() && l.empty() == mcont[i].empty();
				for (size_t k = 0; same && k < l.size(); ++k) if (l.at(k) != at(mcont[i][k])) same = false;
				CHECK(same, "container", "after %s: container %d differs from the objects it owns (%zu vs %zu)", op, i, l.size(), mcont[i].size());
			}
			for (auto& p : live)
			{
				Obj* o = p.second.p; auto& ch = mchild[p.first]; bool same = o->children.size() == ch.size();
				for (size_t k = 0; same && k < ch.size(); ++k) if (o->children.at(k) != at(ch[k])) same = false;
				CHECK(same, "container", "after %s: the children of object %d differ (%zu vs %zu)", op, p.first, o->children.size(), ch.size());
				CHECK((Obj*) o->single == at(msingle[p.first]), "ref", "after %s: object %d's reference is wrong", op, p.first);
				CHECK((Obj*) o->friendPtr == at(mfriend[p.first]), "ptr", "after %s: object %d's tracked pointer is wrong", op, p.first);
				size_t n = mprobe.count(p.first);
				for (int m : mptr) n += m == p.first;
				for (auto& l : mlist) n += std::count(l.begin(), l.end(), p.first);
				for (auto& f : mfriend) n += f.second == p.first;
				CHECK(o->GetTrackerCount() == n, "tracker-count", "after %s: object %d reports %zu trackers, it has %zu", op, p.first, o->GetTrackerCount(), n);
				CHECK(mprobe.count(p.first) == probe.tracked.count(o), "probe", "after %s: a tracker was told wrongly about object %d", op, p.first);
			}
		}
	};
}

PROP(C12, "an object with at least two observers died, or an owner or observer was copied or moved")
{
	g_alive.clear(); g_died.clear(); g_next = 0;
	{
		World w;
		int steps = r.range(5, mon::thorough ? 120 : 60);
		for (int s = 0; s < steps && !mon::violations(); ++s)
		{
			int what = (int) r.below(30); const char* op = "?";
			mon::sig(what);
			int a = r.range(0, 100), i, id;
			switch (what)
			{
			case 0: case 1: case 2: op = "new"; w.make(&id); break;
			case 3: { op = "Release"; id = w.anyId(r); if (id < 0) break; Obj* o = w.at(id); size_t n = o->GetTrackerCount(); w.dies(id); o->Release(); if (n >= 2) mon::nontrivial(); break; }
			case 4: case 5: { op = "ref = object"; i = a % World::NREF; id = w.freeId(r); if (r.chance(20)) id = w.mref[i]; if (id == w.mref[i]) { *w.refs[i] = w.at(id); break; }
				if (w.mref[i] >= 0) w.dies(w.mref[i]); if (id >= 0 && !w.live.count(id)) id = -1; w.mref[i] = id; if (id >= 0) w.live[id].owner = i; *w.refs[i] = w.at(id); break; }
			case 6: { op = "ref = ref"; i = a % World::NREF; int j = (int) r.below(World::NREF); mon::nontrivial(); if (i != j) { if (w.mref[i] >= 0) w.dies(w.mref[i]); w.mref[i] = w.mref[j]; w.mref[j] = -1; if (w.mref[i] >= 0) w.live[w.mref[i]].owner = i; } *w.refs[i] = *w.refs[j]; break; }
			case 7: { op = "~ref"; i = a % World::NREF; if (w.mref[i] >= 0) w.dies(w.mref[i]); w.refs[i].reset(); id = r.chance(50) ? w.freeId(r) : -1; w.refs[i].reset(new FUObjectRef<Obj>(w.at(id))); w.mref[i] = id; if (id >= 0) w.live[id].owner = i; break; }
			case 8: case 9: op = "ptr = object"; i = a % World::NPTR; id = r.chance(15) ? -1 : w.anyId(r); *w.ptrs[i] = w.at(id); w.mptr[i] = id; break;
			case 10: { op = "ptr = ptr"; i = a % World::NPTR; int j = (int) r.below(World::NPTR); *w.ptrs[i] = *w.ptrs[j]; w.mptr[i] = w.mptr[j]; mon::nontrivial(); break; }
			case 11: { op = "ptr(ptr)"; i = a % World::NPTR; int j = (int) r.below(World::NPTR); auto* n = new FUTrackedPtr<Obj>(*w.ptrs[j]); w.ptrs[i].reset(n); w.mptr[i] = i == j ? w.mptr[i] : w.mptr[j]; mon::nontrivial(); break; }
			case 12: op = "ptr(object)"; i = a % World::NPTR; id = w.anyId(r); w.ptrs[i].reset(new FUTrackedPtr<Obj>(w.at(id))); w.mptr[i] = id; break;
			case 13: case 14: { op = "list.push_back/insert"; i = a % World::NLIST; id = w.anyId(r); if (id < 0 || w.lists[i]->contains(w.at(id))) break; size_t at = r.below(w.mlist[i].size() + 1);
				if (r.chance(50)) { w.lists[i]->push_back(w.at(id)); w.mlist[i].push_back(id); } else { if (r.chance(50)) w.lists[i]->insert(at, w.at(id)); else w.lists[i]->insert(w.lists[i]->begin() + at, w.at(id)); w.mlist[i].insert(w.mlist[i].begin() + at, id); } break; }
			case 15: { op = "list.erase"; i = a % World::NLIST; auto& m = w.mlist[i]; if (m.empty()) break; size_t at = r.below(m.size());
				switch (r.below(4)) { case 0: { bool ok = w.lists[i]->erase(w.at(m[at])); CHECK(ok, "list:erase", "erase of a member says no"); break; } case 1: w.lists[i]->erase(at); break; case 2: w.lists[i]->erase(w.lists[i]->begin() + at); break; default: w.lists[i]->erase(w.lists[i]->find(w.at(m[at]))); } m.erase(m.begin() + at); break; }
			case 16: { op = "list.erase(range)"; i = a % World::NLIST; auto& m = w.mlist[i]; size_t x = r.below(m.size() + 1), y = x + r.below(m.size() - x + 1); if (x == y) break; if (r.chance(50)) w.lists[i]->erase(x, y); else w.lists[i]->erase(w.lists[i]->begin() + x, w.lists[i]->begin() + y); m.erase(m.begin() + x, m.begin() + y); break; }
			case 17: { op = "list.pop/clear/erase-absent"; i = a % World::NLIST; auto& m = w.mlist[i];
				switch (r.below(4)) { case 0: w.lists[i]->pop_back(); if (!m.empty()) m.pop_back(); break; case 1: w.lists[i]->pop_front(); if (!m.empty()) m.erase(m.begin()); break; case 2: if (r.chance(30)) { w.lists[i]->clear(); m.clear(); } break;
				default: id = w.anyId(r); if (id >= 0 && std::find(m.begin(), m.end(), id) == m.end()) CHECK(!w.lists[i]->erase(w.at(id)), "list:erase", "erase of an absent object says yes"); } break; }
			case 18: { op = "list = list"; i = a % World::NLIST; int j = (int) r.below(World::NLIST); *w.lists[i] = *w.lists[j]; w.mlist[i] = w.mlist[j]; mon::nontrivial(); break; }
			case 19: { op = "list(list)"; i = a % World::NLIST; int j = (int) r.below(World::NLIST); auto* n = new FUTrackedList<Obj>(*w.lists[j]); w.lists[i].reset(n); if (i != j) w.mlist[i] = w.mlist[j]; mon::nontrivial(); break; }
			case 20: { op = "list.insert(range)"; i = a % World::NLIST; int j = (int) r.below(World::NLIST); if (i == j) break; bool clash = false; for (int x : w.mlist[j]) if (std::find(w.mlist[i].begin(), w.mlist[i].end(), x) != w.mlist[i].end()) clash = true; if (clash) break;
				size_t at = r.below(w.mlist[i].size() + 1); w.lists[i]->insert(w.lists[i]->begin() + at, w.lists[j]->begin(), w.lists[j]->end()); w.mlist[i].insert(w.mlist[i].begin() + at, w.mlist[j].begin(), w.mlist[j].end()); break; }
			case 21: { op = "list.release"; i = a % World::NLIST; auto& m = w.mlist[i]; if (m.empty()) break; id = r.pick(m); Obj* o = w.at(id); w.dies(id); CHECK(w.lists[i]->release(o), "list:release", "release of a member says no"); mon::nontrivial(); break; }
			case 22: case 23: { op = "container add"; i = a % World::NCONT; size_t at = r.below(w.mcont[i].size() + 1);
				if (r.chance(40)) { Obj* o = w.conts[i]->Add(); w.live[o->id] = { o, 100 + i }; w.msingle[o->id] = w.mfriend[o->id] = -1; w.mcont[i].push_back(o->id); break; }
				id = w.freeId(r); if (id < 0) break; w.live[id].owner = 100 + i;
				if (r.chance(50)) { w.conts[i]->push_back(w.at(id)); w.mcont[i].push_back(id); } else { w.conts[i]->insert(at, w.at(id)); w.mcont[i].insert(w.mcont[i].begin() + at, id); } break; }
			case 24: { op = "container erase/pop"; i = a % World::NCONT; auto& m = w.mcont[i]; if (m.empty()) break; size_t at = r.below(m.size()); int how = (int) r.below(6); if (how == 3) at = m.size() - 1; if (how == 4) at = 0; id = m[at]; Obj* o = w.at(id); if (o->GetTrackerCount() >= 2) mon::nontrivial();
				if (how == 5) { w.live[id].owner = -1; m.erase(m.begin() + at); switch (r.below(3)) { case 0: w.conts[i]->Detach(o); break; case 1: w.conts[i]->Detach(w.conts[i]->begin() + at); break; default: w.conts[i]->Detach(at, at + 1); } break; }
				w.dies(id); switch (how) { case 0: w.conts[i]->erase(o); break; case 1: w.conts[i]->erase(at); break; case 2: w.conts[i]->erase(w.conts[i]->begin() + at); break; case 3: w.conts[i]->pop_back(); break; default: w.conts[i]->pop_front(); } break; }
			case 25: { op = "container range/clear"; i = a % World::NCONT; auto& m = w.mcont[i]; size_t x = r.below(m.size() + 1), y = x + r.below(m.size() - x + 1);
				if (r.chance(30)) { std::vector<int> all = m; for (int k : all) w.dies(k); if (r.chance(50)) w.conts[i]->clear(); else w.conts[i].reset(new FUObjectContainer<Obj>()); break; }
				if (x == y) break;
				std::vector<int> part(m.begin() + x, m.begin() + y);
				if (r.chance(50)) { for (int k : part) w.dies(k); w.conts[i]->erase(x, y); } else { for (int k : part) w.live[k].owner = -1; m.erase(m.begin() + x, m.begin() + y); w.conts[i]->Detach(w.conts[i]->begin() + x, w.conts[i]->begin() + y); } break; }
			case 26: { op = "child add"; int p = w.anyId(r); id = w.freeId(r); if (p < 0 || id < 0 || w.under(p, id)) break; w.live[id].owner = 1000 + p; w.mchild[p].push_back(id); w.at(p)->children.push_back(w.at(id)); break; }
			case 27: { op = "single = object"; int p = w.anyId(r); id = w.freeId(r); if (p < 0 || id < 0 || w.under(p, id)) break; if (w.msingle[p] >= 0) w.dies(w.msingle[p]); w.msingle[p] = id; w.live[id].owner = 100000 + p; w.at(p)->single = w.at(id); break; }
			case 28: { op = "friend = object"; int p = w.anyId(r); id = w.anyId(r); if (p < 0) break; w.mfriend[p] = id; w.at(p)->friendPtr = w.at(id); break; }
			default: { op = "tracker"; id = w.anyId(r); if (id < 0) break; Obj* o = w.at(id); if (w.mprobe.count(id)) { w.probe.untrack(o); w.mprobe.erase(id); } else { w.probe.track(o); w.mprobe.insert(id); } }
			}
			mon::hit("operations");
			w.compare(op);
		}
		if (!mon::violations())
		{
			// A vector of tracked pointers keeps tracking while it grows.
			fm::vector<FUTrackedPtr<Obj>> v;
			std::vector<Obj*> own; int n = r.range(1, 20);
			for (int i = 0; i < n; ++i) { int id; own.push_back(w.make(&id)); v.push_back(FUTrackedPtr<Obj>(own.back())); }
			for (int i = 0; i < n; ++i) CHECK((Obj*) v[i] == own[i], "vector-of-ptr", "entry %d is lost", i);
			size_t k = r.below(n); w.dies(own[k]->id); own[k]->Release();
			CHECK((Obj*) v[k] == NULL, "vector-of-ptr", "a tracked pointer in a vector dangles");
			v.clear(); w.compare("vector of tracked pointers");
		}
		// Everything without an owner is released by hand; the rest by its owner.
		std::vector<int> roots; for (auto& p : w.live) if (p.second.owner < 0) roots.push_back(p.first);
		for (int id : roots) { Obj* o = w.at(id); w.dies(id); o->Release(); if (!mon::violations()) w.compare("final Release"); }
		mon::hit("objects", g_died.size());
	}
	for (auto& p : g_alive) CHECK(p.second == 0, "lifetime:leak", "object %d outlives its owners", p.first);
	for (auto& p : g_died) CHECK(p.second == 1, "lifetime:twice", "object %d was destroyed %d times", p.first, p.second);
}

// ------------------------------------------------------------------------------------------ C31
namespace
{
	struct EventWorld
	{
		FUEvent<int, const char*> ev;
		struct H { int obj; int tag; long reg; };
		std::vector<H> model; long nextReg = 0;
		std::vector<std::pair<int, int>> calls;   // tag, argument
		Rng* r; int depth = 0;
		char objs[8];
		std::function<void(int)> inner;
		void insert(int obj, int tag)
		{
			model.push_back({ obj, tag, nextReg++ });
			ev.InsertHandler(&objs[obj], [this, tag](int a, const char* s) {
				calls.push_back({ tag, a });
				if (strcmp(s, "payload") != 0) mon::viol("event:arguments", "handler got '%s'", s);
				if (inner) inner(tag);
			});
		}
		void release(int obj)
		{
			ev.ReleaseHandler(&objs[obj]);
			for (size_t i = 0; i < model.size(); ++i) if (model[i].obj == obj) { model.erase(model.begin() + i); break; }
		}
	};
}

static void errorLevels(Rng& r)
{
	// Callbacks per level.
	struct Rec { int level; uint32 code, line; };
	std::vector<Rec> got[5]; int tokens[5];
	std::map<int, std::multiset<int>> reg;   // level -> tokens
	FUError::Level old = FUError::GetFatalityLevel();
	FUErrorSimpleHandler simple(FUError::WARNING_LEVEL);
	S log; std::string wantSimple; bool wantFail = false;
	std::string logName = mon::tmpDir + "/log.txt"; S wantLog;
	remove(logName.c_str());
	{
		int minLevel = (int) r.below(3); uint32 counts[3] = { 0, 0, 0 };
		FUErrorLog* elog = new FUErrorLog(logName.c_str(), (FUError::Level) minLevel);
		int n = r.range(3, 25);
		std::vector<int> want[5]; std::vector<Rec> sent;
		for (int i = 0; i < n; ++i)
		{
			int lv = (int) r.below(3), t = (int) r.below(5);
			switch (r.below(5))
			{
			case 0: FUError::AddErrorCallback((FUError::Level) lv, &tokens[t], [&got, t](FUError::Level l, uint32 c, uint32 ln) { got[t].push_back({ (int) l, c, ln }); }); reg[lv].insert(t); break;
			case 1: FUError::RemoveErrorCallback((FUError::Level) lv, &tokens[t]); { auto f = reg[lv].find(t); if (f != reg[lv].end()) reg[lv].erase(f); } break;
			case 2: { FUError::Level fl = (FUError::Level) r.below(3); FUError::SetFatalityLevel(fl); break; }
			default:
				{
					static const uint32 codes[] = { FUError::ERROR_DEFAULT_ERROR, FUError::ERROR_MALFORMED_XML, FUError::WARNING_UNKNOWN_ELEMENT, FUError::DEBUG_LOAD_SUCCESSFUL, FUError::ERROR_CUSTOM_STRING, 4999, FUError::ERROR_INVALID_URI };
					uint32 code = codes[r.below(7)], line = r.chance(20) ? 0xFFFFFFFFu : (uint32) r.below(5000);
					S custom;
					if (code == FUError::ERROR_CUSTOM_STRING) { int len = r.range(0, r.chance(10) ? 3000 : 40); for (int k = 0; k < len; ++k) custom += (char) r.range(32, 126); FUError::SetCustomErrorString(custom.c_str()); }
					size_t before[5]; for (int k = 0; k < 5; ++k) before[k] = got[k].size();
					bool fatal = FUError::Error((FUError::Level) lv, code, line);
					CHECK(fatal == (lv >= FUError::GetFatalityLevel()), "error:fatality", "Error(level %d) returned %d with fatality level %d", lv, fatal, FUError::GetFatalityLevel());
					for (int k = 0; k < 5; ++k)
					{
						size_t c = reg[lv].count(k);
						CHECK(got[k].size() - before[k] == c, "error:calls", "a callback registered %zu times for level %d was called %zu times", c, lv, got[k].size() - before[k]);
						for (size_t z = before[k]; z < got[k].size(); ++z) CHECK(got[k][z].level == lv && got[k][z].code == code && got[k][z].line == line, "error:arguments", "a callback got (%d,%u,%u), reported (%d,%u,%u)", got[k][z].level, got[k][z].code, got[k][z].line, lv, code, line);
					}
					const char* text = FUError::GetErrorString((FUError::Code) code);
					if (code == FUError::ERROR_CUSTOM_STRING) CHECK(text != NULL && custom == text, "error:custom", "the custom error text reads back differently");
					S l = "[" + std::to_string(line) + "] " + (lv == 1 ? "Warning: " : lv == 2 ? "ERROR: " : "") + (text ? S(text) : "Unknown error code: " + std::to_string(code));
					wantSimple += (wantSimple.empty() ? "" : "\n") + l; if (lv >= minLevel) { wantLog += l + "\n\n\r"; ++counts[lv]; }
					if (lv >= FUError::WARNING_LEVEL) wantFail = true;
					if (r.chance(20))
					{
						uint32 d = 9, wn = 9, er = 9; elog->QueryNewMessages(d, wn, er);
						CHECK(d == counts[0] && wn == counts[1] && er == counts[2], "error:log-counts", "the log counts %u/%u/%u new reports, there were %u/%u/%u", d, wn, er, counts[0], counts[1], counts[2]);
						counts[0] = counts[1] = counts[2] = 0;
					}
					mon::hit("reports"); mon::sig(l);
				}
			}
		}
		S gotSimple(simple.GetErrorString());
		CHECK(gotSimple == wantSimple, "error:simple-handler", "the simple handler collected '%s', reported '%s'", mon::esc(gotSimple).c_str(), mon::esc(wantSimple).c_str());
		CHECK(simple.IsSuccessful() == !wantFail, "error:simple-handler-verdict", "IsSuccessful is %d", simple.IsSuccessful());
		delete elog;
	}
	for (auto& l : reg) for (int t : l.second) FUError::RemoveErrorCallback((FUError::Level) l.first, &tokens[t]);
	size_t total = 0; for (auto& g : got) total += g.size();
	FUError::Error(FUError::ERROR_LEVEL, FUError::ERROR_DEFAULT_ERROR, 1); FUError::Error(FUError::DEBUG_LEVEL, FUError::ERROR_DEFAULT_ERROR, 1); FUError::Error(FUError::WARNING_LEVEL, FUError::ERROR_DEFAULT_ERROR, 1);
	for (auto& g : got) total -= g.size();
	CHECK(total == 0, "error:after-removal", "a removed callback was called");
	FUError::SetFatalityLevel(old);
	FILE* f = fopen(logName.c_str(), "rb"); S have;
	if (f) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof(b), f)) > 0) have.append(b, k); fclose(f); }
	CHECK(have == wantLog, "error:log-file", "the log holds '%s', reported '%s'", mon::esc(have).substr(0, 300).c_str(), mon::esc(wantLog).substr(0, 300).c_str());
	remove(logName.c_str());
}

static void logFile(Rng& r)
{
	std::string name = mon::tmpDir + "/plain.txt"; S want;
	remove(name.c_str());
	{
		FULogFile log(name.c_str());
		for (int i = r.range(1, 6); i > 0; --i)
		{
			S text; for (int k = r.range(0, r.chance(20) ? 2000 : 30); k > 0; --k) text += (char) r.range(32, 126);
			int v = r.range(-1000000, 1000000); double d = r.flt(-10, 10);
			char num[64];
			switch (r.below(3))
			{
			case 0: log.WriteLine("%s", text.c_str()); want += text + "\n\r"; break;
			case 1: log.WriteLine("%s/%d/%.3f", text.c_str(), v, d); snprintf(num, sizeof(num), "/%d/%.3f", v, d); want += text + num + "\n\r"; break;
			default: log.WriteLine("file.cpp", (uint32) (v < 0 ? -v : v), "<%s>", text.c_str()); want += "[file.cpp:" + std::to_string(v < 0 ? -v : v) + "]\n\r<" + text + ">\n\r";
			}
		}
	}
	FILE* f = fopen(name.c_str(), "rb"); S have;
	if (f) { char b[4096]; size_t k; while ((k = fread(b, 1, sizeof(b), f)) > 0) have.append(b, k); fclose(f); }
	CHECK(have == want, "log-file", "the log holds '%s', written '%s'", mon::esc(have).substr(0, 300).c_str(), mon::esc(want).substr(0, 300).c_str());
	mon::sig(want); mon::nontrivial(); mon::hit("log_files");
	remove(name.c_str());
}

PROP(C31, "an event with two or more registrations was raised, or reports reached at least one callback and log")
{
	if (r.chance(25)) { mon::AllowAsserts none; errorLevels(r); mon::nontrivial(); return; }
	if (r.chance(15)) { logFile(r); return; }
	EventWorld w; w.r = &r;
	int tag = 0, steps = r.range(4, 40);
	for (int s = 0; s < steps && !mon::violations(); ++s)
	{
		int what = (int) r.below(8); mon::sig(what);
		if (what < 3) w.insert((int) r.below(8), tag++);
		else if (what == 3) w.release((int) r.below(8));
		else if (what < 6)
		{
			w.calls.clear(); int arg = r.range(-5, 5);
			std::vector<std::pair<int, int>> want;
			for (auto it = w.model.rbegin(); it != w.model.rend(); ++it) want.push_back({ it->tag, arg });
			if (want.size() >= 2) mon::nontrivial();
			w.ev(arg, "payload"); mon::hit("raises"); mon::hit("calls", w.calls.size());
			CHECK(w.calls == want, "event:calls", "%zu registrations, %zu calls, or in the wrong order", want.size(), w.calls.size());
			CHECK(w.ev.GetHandlerCount() == w.model.size(), "event:count", "GetHandlerCount is %zu, %zu registered", w.ev.GetHandlerCount(), w.model.size());
		}
		else
		{
			// Handlers that register and release while the event is being raised: each registration that stays is
			// called exactly once, none that was released before its turn, none added meanwhile.
			std::vector<EventWorld::H> start = w.model; w.calls.clear();
			std::map<int, int> releasedAt; int budget = r.range(1, 4); int seenCalls = 0;
			w.inner = [&](int) {
				++seenCalls;
				if (budget <= 0 || !r.chance(60)) return;
				--budget;
				if (r.chance(60)) w.release((int) r.below(8)); else w.insert((int) r.below(8), tag++);
			};
			w.ev(7, "payload"); w.inner = nullptr; mon::hit("nested_raises");
			std::set<int> startTags, endTags; for (auto& h : start) startTags.insert(h.tag); for (auto& h : w.model) endTags.insert(h.tag);
			std::map<int, int> n; for (auto& c : w.calls) n[c.first]++;
			for (auto& c : n) { CHECK(c.second == 1, "event:nested-twice", "a handler was called %d times by one event", c.second); CHECK(startTags.count(c.first), "event:nested-new", "a handler registered during the event was called by it"); }
			for (int t : startTags) if (endTags.count(t)) CHECK(n.count(t), "event:nested-missed", "a handler that stayed registered was not called");
			if (start.size() >= 2) mon::nontrivial();
			CHECK(w.ev.GetHandlerCount() == w.model.size(), "event:count", "GetHandlerCount is %zu, %zu registered", w.ev.GetHandlerCount(), w.model.size());
		}
	}
}
