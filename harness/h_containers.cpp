// C14: the array, pointer-array, tree/map/set and sort containers against reference models.
#include "mon.h"
#include "FCollada.h"
#include "FMath/FMSort.h"
#include "FMath/FMTree.h"

namespace
{
	// An element that owns memory and counts its live instances: a lost or doubled
	// construction/destruction shows as a wrong count, a leak or a sanitizer report.
	struct Tr
	{
		static long live;
		int* p;
		Tr() : p(new int(0)) { ++live; }
		Tr(int v) : p(new int(v)) { ++live; }
		Tr(const Tr& o) : p(new int(*o.p)) { ++live; }
		~Tr() { delete p; p = nullptr; --live; }
		Tr& operator=(const Tr& o) { *p = *o.p; return *this; }
		bool operator==(const Tr& o) const { return *p == *o.p; }
		bool operator!=(const Tr& o) const { return *p != *o.p; }
		bool operator<(const Tr& o) const { return *p < *o.p; }
	};
	long Tr::live = 0;

	int toInt(int v) { return v; }
	int toInt(const Tr& t) { return *t.p; }

	template <class T> std::string show(const fm::vector<T>& v) { std::string s; for (size_t i = 0; i < v.size() && i < 40; ++i) s += std::to_string(toInt(v[i])) + " "; return s; }

	template <class T> void vecCase(Rng& r, const char* tn)
	{
		std::string K = std::string("vector<") + tn + ">";
		fm::vector<T> v;
		std::vector<int> m;
		std::string log;
		int span = r.chance(50) ? 4 : 1000;
		int ops = r.range(5, 120);
		auto val = [&]() { return r.range(0, span); };
		for (int i = 0; i < ops; ++i)
		{
			int op = r.range(0, 21);
			size_t n = m.size();
			size_t at = r.below(n + 1);
			char b[64]; b[0] = 0;
			switch (op)
			{
			case 0: case 1: { int x = val(); v.push_back(T(x)); m.push_back(x); snprintf(b, 64, "push_back(%d)", x); break; }
			case 2: { int x = val(); v.push_front(T(x)); m.insert(m.begin(), x); snprintf(b, 64, "push_front(%d)", x); break; }
			case 3: { int x = val(); typename fm::vector<T>::iterator it = v.insert(v.begin() + at, T(x)); m.insert(m.begin() + at, x); snprintf(b, 64, "insert(%zu,%d)", at, x);
				CHECK(it == v.begin() + at, K + ":insert-returns", "insert at %zu returned another position; ops %s", at, log.c_str()); break; }
			case 4: { int x = val(); size_t c = r.below(40); v.insert(at, c, T(x)); m.insert(m.begin() + at, c, x); snprintf(b, 64, "insert(%zu,%zux%d)", at, c, x); break; }
			case 5: { size_t c = r.below(45); std::vector<int> src; for (size_t k = 0; k < c; ++k) src.push_back(val());
				std::vector<T> ts(src.begin(), src.end()); v.insert(v.begin() + at, ts.data(), c); m.insert(m.begin() + at, src.begin(), src.end()); snprintf(b, 64, "insertN(%zu,%zu)", at, c); break; }
			case 6: { size_t c = r.below(10); fm::vector<T> o; for (size_t k = 0; k < c; ++k) o.push_back(T(val()));
				v.insert(v.begin() + at, o.begin(), o.end()); for (size_t k = 0; k < c; ++k) m.insert(m.begin() + at + k, toInt(o[k])); snprintf(b, 64, "insertRange(%zu,%zu)", at, c); break; }
			case 7: if (n) { size_t k = r.below(n); typename fm::vector<T>::iterator it = v.erase(v.begin() + k); m.erase(m.begin() + k); snprintf(b, 64, "erase@%zu", k);
				CHECK(it == v.begin() + k, K + ":erase-returns", "erase at %zu returned another position", k); } break;
			case 8: if (n) { size_t f = r.below(n), l = f + 1 + r.below(n - f); if (r.chance(50)) v.erase(v.begin() + f, v.begin() + l); else v.erase(f, l); m.erase(m.begin() + f, m.begin() + l); snprintf(b, 64, "eraseRange(%zu,%zu)", f, l); } break;
			case 9: { int x = val(); T tx(x); auto it = std::find(m.begin(), m.end(), x); bool was = it != m.end(); if (was) m.erase(it); bool got; if constexpr (std::is_same_v<T, Tr>) got = v.erase(tx); else got = [&]{ auto q = v.find(tx); if (q != v.end()) { v.erase(q); return true; } return false; }();
				snprintf(b, 64, "eraseValue(%d)", x); CHECK(got == was, K + ":erase-value", "erase(value) said %d, the value was%s there", got, was ? "" : " not"); break; }
			case 10: if (n) { v.pop_back(); m.pop_back(); snprintf(b, 64, "pop_back"); } break;
			case 11: if (n) { v.pop_front(); m.erase(m.begin()); snprintf(b, 64, "pop_front"); } break;
			case 12: { size_t c = r.below(60); int x = val(); v.resize(c, T(x)); m.resize(c, x); snprintf(b, 64, "resize(%zu,%d)", c, x); break; }
			case 13: { size_t c = r.below(60); v.resize(c); snprintf(b, 64, "resize(%zu)", c);
				CHECK(v.size() == c, K + ":resize", "resize(%zu) gave size %zu", c, v.size());
				if constexpr (std::is_same_v<T, Tr>) m.resize(c, 0); else { size_t o = m.size(); m.resize(c, 7); for (size_t k = o; k < c; ++k) v[k] = 7; } break; }
			case 14: { size_t c = r.below(80); v.reserve(c); if (m.size() > c) m.resize(c); snprintf(b, 64, "reserve(%zu)", c);
				CHECK(v.capacity() == c, K + ":reserve", "reserve(%zu) gave capacity %zu", c, v.capacity()); break; }
			case 15: if (r.chance(30)) { v.clear(); m.clear(); snprintf(b, 64, "clear"); } break;
			case 16: { fm::vector<T> c(v); CHECK(c == v, K + ":copy", "the copy differs from the original after %s", log.c_str());
				if (n) { c[0] = T(toInt(c[0]) + 1); CHECK(toInt(v[0]) == m[0], K + ":copy-shares", "changing the copy changed the original"); }
				c.push_back(T(1)); CHECK(!(c == v), K + ":equality", "vectors of different sizes compare equal"); break; }
			case 17: { fm::vector<T> c; for (size_t k = r.below(70); k > 0; --k) c.push_back(T(val())); c = v; CHECK(c == v && c.size() == m.size(), K + ":assign", "assignment differs after %s", log.c_str());
				if (r.chance(50)) { fm::vector<T>& self = v; v = self; } break; }
			case 18: { int x = val(), y = val(); v.replace(T(x), T(y)); std::replace(m.begin(), m.end(), x, y); snprintf(b, 64, "replace(%d,%d)", x, y); break; }
			case 19: { int x = val(); bool was = std::find(m.begin(), m.end(), x) != m.end(); CHECK(v.contains(T(x)) == was, K + ":contains", "contains(%d) wrong after %s", x, log.c_str());
				size_t idx = (size_t) (v.find(T(x)) - v.begin()); size_t want = (size_t) (std::find(m.begin(), m.end(), x) - m.begin()); CHECK(idx == want, K + ":find", "find(%d) gave %zu not %zu", x, idx, want); break; }
			case 20: { v.sort(); std::sort(m.begin(), m.end()); snprintf(b, 64, "sort"); break; }
			case 21: if (n) { size_t k = r.below(n); if (r.chance(50)) { v.push_back(v[k]); m.push_back(m[k]); } else { v.insert(v.begin() + at, v[k]); int x = m[k]; m.insert(m.begin() + at, x); } snprintf(b, 64, "own(%zu)", k); mon::hit("vector_own_element_inserted"); } break;
			}
			if (b[0]) { log += b; log += ' '; if (log.size() > 900) log.erase(0, log.size() - 900); }
			mon::hit("vector_ops");
			bool same = v.size() == m.size() && v.empty() == m.empty() && (size_t) (v.end() - v.begin()) == m.size() && v.capacity() >= v.size();
			for (size_t k = 0; same && k < m.size(); ++k) same = toInt(v[k]) == m[k] && toInt(v.at(k)) == m[k];
			if (same && !m.empty()) same = toInt(v.front()) == m.front() && toInt(v.back()) == m.back();
			if (!same) { mon::viol(K + ":contents", "array differs from its reference after: %s; has %s", log.c_str(), show(v).c_str()); return; }
			if (m.size() > 33) mon::nontrivial();
		}
		mon::sig(log);
		mon::sample("%s: %s", K.c_str(), log.substr(0, 200).c_str());
	}

	struct Obj { int id; Obj(int i) : id(i) { ++live; } ~Obj() { --live; } static long live; };
	long Obj::live = 0;

	void pvecCase(Rng& r)
	{
		std::vector<Obj*> pool;
		for (int i = 0; i < 12; ++i) pool.push_back(new Obj(i));
		fm::pvector<Obj> v; std::vector<Obj*> m;
		std::string log;
		int ops = r.range(5, 80);
		for (int i = 0; i < ops; ++i)
		{
			size_t n = m.size(), at = r.below(n + 1);
			Obj* o = r.pick(pool);
			char b[64]; b[0] = 0;
			switch (r.range(0, 11))
			{
			case 0: case 1: v.push_back(o); m.push_back(o); snprintf(b, 64, "push(%d)", o->id); break;
			case 2: { auto it = v.insert(v.begin() + at, o); m.insert(m.begin() + at, o); CHECK(it == v.begin() + at && *it == o, "pvector:insert-returns", "insert(%zu)", at); snprintf(b, 64, "insert(%zu,%d)", at, o->id); break; }
			case 3: { size_t c = r.below(5); v.insert(v.begin() + at, c); m.insert(m.begin() + at, c, nullptr); snprintf(b, 64, "insertNull(%zu,%zu)", at, c); break; }
			case 4: { fm::pvector<Obj> w; for (size_t k = r.below(40); k > 0; --k) w.push_back(r.pick(pool)); v.insert(v.begin() + at, w.begin(), w.end()); m.insert(m.begin() + at, w.begin(), w.end()); snprintf(b, 64, "insertRange(%zu,%zu)", at, w.size()); break; }
			case 5: if (n) { size_t k = r.below(n); if (r.chance(50)) v.erase(v.begin() + k); else v.erase(k); m.erase(m.begin() + k); snprintf(b, 64, "erase(%zu)", k); } break;
			case 6: { auto it = std::find(m.begin(), m.end(), o); bool was = it != m.end(); if (was) m.erase(it); bool got = v.erase(o); CHECK(got == was, "pvector:erase-value", "erase(pointer) said %d", got); snprintf(b, 64, "eraseValue(%d)", o->id); break; }
			case 7: if (n) { size_t f = r.below(n), l = f + 1 + r.below(n - f); v.erase(v.begin() + f, v.begin() + l); m.erase(m.begin() + f, m.begin() + l); snprintf(b, 64, "eraseRange(%zu,%zu)", f, l); } break;
			case 8: { size_t c = r.below(50); v.resize(c); m.resize(c, nullptr); snprintf(b, 64, "resize(%zu)", c); break; }
			case 9: { fm::pvector<Obj> c(v), d; d = v; bool eq = c.size() == m.size() && d.size() == m.size(); for (size_t k = 0; eq && k < m.size(); ++k) eq = c[k] == m[k] && d[k] == m[k]; CHECK(eq, "pvector:copy", "copies differ after %s", log.c_str());
				if (r.chance(40)) { fm::pvector<Obj>& self = v; v = self; } break; }
			case 10: { size_t idx = (size_t) (v.find(o) - v.begin()), want = (size_t) (std::find(m.begin(), m.end(), o) - m.begin()); CHECK(idx == want, "pvector:find", "find gave %zu not %zu", idx, want); CHECK(v.contains(o) == (want < m.size()), "pvector:contains", "contains wrong"); break; }
			case 11: // release: takes it out and deletes it
				if (std::count(m.begin(), m.end(), o) <= 1) { auto it = std::find(m.begin(), m.end(), o); bool was = it != m.end(); if (was) m.erase(it); long before = Obj::live; bool got = v.release(o); CHECK(got == was && Obj::live == before - (was ? 1 : 0), "pvector:release", "release of a %s pointer", was ? "held" : "foreign");
					if (was) { std::replace(pool.begin(), pool.end(), o, new Obj(o == nullptr ? 0 : 100 + i)); } snprintf(b, 64, "release"); } break;
			}
			if (b[0]) { log += b; log += ' '; }
			mon::hit("pvector_ops");
			bool same = v.size() == m.size();
			for (size_t k = 0; same && k < m.size(); ++k) same = v[k] == m[k] && v.at(k) == m[k] && *(v.begin() + k) == m[k];
			if (same && !m.empty()) same = v.front() == m.front() && v.back() == m.back() && (size_t) (v.end() - v.begin()) == m.size();
			if (!same) { mon::viol("pvector:contents", "differs after: %s", log.substr(log.size() > 900 ? log.size() - 900 : 0).c_str()); break; }
			if (m.size() > 10) mon::nontrivial();
		}
		mon::sig(log);
		for (Obj* o : pool) delete o;
	}

	// Keys that count comparisons, to observe that the tree keeps itself balanced.
	struct CK
	{
		static uint64_t cmp; int v;
		CK(int x = 0) : v(x) {}
		bool operator<(const CK& o) const { ++cmp; return v < o.v; }
		bool operator==(const CK& o) const { ++cmp; return v == o.v; }
	};
	uint64_t CK::cmp = 0;

	template <class M> bool sameTree(const M& t, const std::map<int, int>& m)
	{
		if (t.size() != m.size() || t.empty() != m.empty()) return false;
		typename M::const_iterator it = t.begin();
		size_t steps = 0;
		for (auto& e : m) { if (it == t.end() || steps++ > m.size()) return false; if ((*it).first.v != e.first || toInt((*it).second) != e.second) return false; ++it; }
		return it == t.end();
	}

	void treeCase(Rng& r)
	{
		typedef fm::map<CK, Tr> Map;
		Map t; std::map<int, int> m;
		std::string log;
		int mode = r.range(0, 3);
		int span = r.chance(30) ? 8 : (r.chance(50) ? 60 : 5000);
		int ops = r.range(10, 300), next = 0;
		int eraseBias = r.range(0, 60);
		for (int i = 0; i < ops; ++i)
		{
			int k = mode == 1 ? next++ : mode == 2 ? -(next++) : r.range(0, span);
			if (!m.empty() && r.chance(30)) { auto it = m.begin(); std::advance(it, r.below(m.size())); k = it->first; }
			int x = r.range(0, 1000);
			char b[48]; b[0] = 0;
			if (r.chance(eraseBias))
			{
				bool was = m.count(k) > 0;
				if (r.chance(50) || !was) t.erase(CK(k)); else t.erase(t.find(CK(k)));
				m.erase(k); snprintf(b, 48, "-%d", k); mon::hit("tree_erase_hits", was);
			}
			else switch (r.range(0, 8))
			{
			case 0: case 1: case 2: case 3: { auto it = t.insert(CK(k), Tr(x)); m[k] = x; snprintf(b, 48, "+%d=%d", k, x); CHECK((*it).first.v == k && *it->second.p == x, "tree:insert-returns", "insert(%d) returned another element", k); break; }
			case 4: { t[CK(k)] = Tr(x); m[k] = x; snprintf(b, 48, "[%d]=%d", k, x); break; }
			case 5: { int got = *t[CK(k)].p; int want = m[k]; CHECK(got == want, "tree:index", "[%d] is %d, not %d", k, got, want); snprintf(b, 48, "[%d]", k); break; }
			case 6: { Map c(t); CHECK(sameTree(c, m), "tree:copy", "copy-constructed tree differs after %s", log.c_str()); c.insert(CK(99999), Tr(1)); c.erase(CK(k)); CHECK(sameTree(t, m), "tree:copy-shares", "changing a copy changed the original"); break; }
			case 7: { Map c; for (int q = r.range(0, 20); q > 0; --q) c.insert(CK(r.range(0, 30)), Tr(q)); c = t; CHECK(sameTree(c, m), "tree:assign", "assigned tree differs after %s", log.c_str());
				// the clone must go on working as a tree
				std::map<int, int> cm = m; for (int q = 0; q < 12; ++q) { int kk = r.range(0, span); if (r.chance(50)) { c.insert(CK(kk), Tr(q)); cm[kk] = q; } else { c.erase(CK(kk)); cm.erase(kk); } }
				CHECK(sameTree(c, cm), "tree:assign-then-use", "an assigned tree went wrong when used, after %s", log.c_str());
				if (r.chance(40)) { Map& self = t; t = self; snprintf(b, 48, "self="); } break; }
			case 8: if (r.chance(10)) { t.clear(); m.clear(); snprintf(b, 48, "clear"); } break;
			}
			if (b[0]) { log += b; log += ' '; if (log.size() > 1200) log.erase(0, log.size() - 1200); }
			mon::hit("tree_ops");
			if (!sameTree(t, m)) { mon::viol("tree:contents", "tree differs from its reference after: %s", log.c_str()); return; }
			if (!m.empty())
			{
				// backwards from last()
				Map::iterator it = t.last(); auto mi = m.rbegin(); size_t s = 0; bool ok = true;
				for (; mi != m.rend() && ok; ++mi, ++s) { ok = (*it).first.v == mi->first; if (s + 1 < m.size()) --it; }
				CHECK(ok && it == t.begin(), "tree:reverse", "walking back from the last element disagrees after: %s", log.c_str());
			}
			int probe = r.range(0, span);
			CK::cmp = 0;
			bool found = t.find(CK(probe)) != t.end();
			// an AVL tree is at most 1.45*log2(n+2) deep; two comparisons per level
			double bound = 2 * (1.45 * log2((double) m.size() + 2) + 2);
			CHECK((double) CK::cmp <= bound, "tree:balance", "a look-up among %zu keys took %llu comparisons (balanced bound %.0f), after: %s", m.size(), (unsigned long long) CK::cmp, bound, log.c_str());
			CHECK(found == (m.count(probe) > 0), "tree:find", "find(%d) wrong after: %s", probe, log.c_str());
			if (m.size() > 12) mon::nontrivial();
		}
		mon::sig(log);
		mon::sample("tree: %s", log.substr(0, 200).c_str());
	}

	void setCase(Rng& r)
	{
		fm::set<fm::string> s; std::set<std::string> m;
		std::string log;
		for (int i = r.range(5, 80); i > 0; --i)
		{
			std::string k(1 + r.below(3), (char) ('a' + r.below(4)));
			if (r.chance(60)) { s.insert(k.c_str(), k.c_str()); m.insert(k); log += "+" + k; } else { s.erase(fm::string(k.c_str())); m.erase(k); log += "-" + k; }
			std::vector<std::string> got;
			for (fm::set<fm::string>::iterator it = s.begin(); it != s.end() && got.size() < 1000; ++it) got.push_back((*it).first.c_str());
			if (got != std::vector<std::string>(m.begin(), m.end())) { mon::viol("set:contents", "string set differs after %s", log.c_str()); return; }
			mon::hit("set_ops");
		}
		mon::nontrivial(); mon::sig(log);
	}

	struct ModCmp : public fm::comparator<int> { virtual bool compare(const int& a, const int& b) { return a % 10 < b % 10; } };
	struct PCmp : public fm::pcomparator<Obj> { virtual bool compare(const Obj* a, const Obj* b) { return a->id < b->id; } using fm::pcomparator<Obj>::compare; };

	void sortCase(Rng& r)
	{
		size_t n = r.below(r.chance(10) ? 600 : 40);
		int span = r.pick(std::vector<int>{ 1, 3, 50, 100000 });
		std::vector<int> a; for (size_t i = 0; i < n; ++i) a.push_back(r.range(-span, span));
		if (r.chance(20)) std::sort(a.begin(), a.end());
		if (r.chance(10)) std::reverse(a.begin(), a.end());
		fm::vector<int> v(a.data(), a.size());
		std::vector<int> want = a;
		int kind = r.range(0, 3);
		if (kind == 0) { v.sort(); std::sort(want.begin(), want.end()); }
		else if (kind == 1) { fm::icomparator<int> c; v.sort(c); std::sort(want.begin(), want.end(), std::greater<int>()); }
		else if (kind == 2)
		{
			ModCmp c; v.sort(c);
			for (size_t i = 1; i < v.size(); ++i) CHECK(!c.compare(v[i], v[i - 1]), "sort:custom-order", "element %zu is out of order under the given comparator", i);
			std::vector<int> got(v.begin(), v.end()); std::sort(got.begin(), got.end()); std::sort(want.begin(), want.end());
			CHECK(got == want, "sort:permutation", "sorting lost or duplicated an element");
		}
		else
		{
			std::vector<Obj*> os; fm::pvector<Obj> pv; for (int x : a) { os.push_back(new Obj(x)); pv.push_back(os.back()); }
			PCmp c; if (!pv.empty()) c.sort((const void**) &pv.front(), pv.size());
			for (size_t i = 1; i < pv.size(); ++i) CHECK(pv[i - 1]->id <= pv[i]->id, "sort:pointer-order", "element %zu out of order", i);
			std::set<Obj*> uniq(pv.begin(), pv.end()); CHECK(uniq.size() == os.size(), "sort:pointer-permutation", "sorting lost a pointer");
			for (Obj* o : os) delete o;
		}
		if (kind < 2) { std::vector<int> got(v.begin(), v.end()); CHECK(got == want, "sort:result", "sorting %zu values gave a wrong sequence", n); }
		mon::hit("sorts"); if (n > 3) mon::nontrivial();
		mon::sig(mon::hash(a.data(), a.size() * 4, 77 + kind));
	}
}

PROP(C14, "random operation histories on fm::vector (plain and owning elements), fm::pvector, fm::map/tree, fm::set and the sorters; after every operation the whole container is compared with a std:: reference, live elements are counted and look-up depth is bounded. Non-trivial: the container grew past its first re-allocations (vector >33, pvector >10, tree >12 elements), or a set/sort case with more than 3 elements.")
{
	long t0 = Tr::live, o0 = Obj::live;
	int k = r.range(0, 9);
	mon::sig((uint64_t) k);
	if (k < 2) vecCase<int>(r, "int");
	else if (k < 4) vecCase<Tr>(r, "owning");
	else if (k < 5) pvecCase(r);
	else if (k < 8) treeCase(r);
	else if (k < 9) setCase(r);
	else sortCase(r);
	CHECK(Tr::live == t0, "elements-balance", "%ld elements constructed but never destroyed (or destroyed twice)", Tr::live - t0);
	CHECK(Obj::live == o0, "pointers-balance", "%ld objects not accounted for", Obj::live - o0);
}
