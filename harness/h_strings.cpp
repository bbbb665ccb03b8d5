// C15: strings and builders against std::string.  C16: text conversions against the C library.
#include "mon.h"
#include "FCollada.h"
#include "FUtils/FUDateTime.h"
#include <limits>
#include <cfloat>

typedef std::string S;

static S rndText(Rng& r, int maxLen, bool plain)
{
	int n = r.chance(10) ? r.range(0, maxLen * 8) : r.range(0, maxLen);
	int alpha = r.range(1, 3);
	S s;
	for (int i = 0; i < n; ++i)
	{
		if (alpha == 1) s += (char) ('a' + r.below(3));           // many matches
		else if (alpha == 2 || plain) s += (char) r.range(32, 126);
		else s += (char) r.range(1, 255);
	}
	return s;
}

static bool sameStr(const fm::string& a, const S& m, const char* op)
{
	bool ok = a.length() == m.size() && a.size() == m.size() && a.empty() == m.empty() &&
		strlen(a.c_str()) == m.size() && memcmp(a.c_str(), m.data(), m.size()) == 0;
	if (!ok) mon::viol(S("string:") + op, "after %s: length %zu, text '%s', expected '%s'", op, a.length(), mon::esc(a.c_str()).c_str(), mon::esc(m).c_str());
	return ok;
}

static size_t pos(size_t p) { return p == fm::string::npos ? S::npos : p; }

static void stringOps(Rng& r)
{
	std::vector<fm::string> a(3); std::vector<S> m(3);
	int n = r.range(5, 60);
	for (int k = 0; k < n; ++k)
	{
		size_t i = r.below(3), j = r.below(3);
		fm::string& x = a[i]; S& y = m[i];
		S t = rndText(r, 12, false);
		int op = r.range(0, 24);
		mon::sig((uint64_t) op);
		char c = (char) (r.chance(70) ? 'a' + r.below(3) : r.range(1, 255));
		size_t off = r.below(y.size() + 3);
		switch (op)
		{
		case 0: x = fm::string(t.c_str()); y = t; break;
		case 1: x = fm::string(t.c_str(), off); y = t.substr(0, off); break;
		case 2: { size_t cnt = r.below(40); x = fm::string(cnt, c); y = S(cnt, c); break; }
		case 3: { fm::string z(a[j]); x = z; y = m[j]; break; }
		case 4: x.append(t.c_str()); y += t; break;
		case 5: if (i != j || y.empty()) { x.append(a[j]); y += m[j]; } break;
		case 6: x.append(c); y += c; break;
		case 7: { size_t cnt = r.below(t.size() + 4); x.append(t.c_str(), cnt); y += t.substr(0, cnt); break; }
		case 8: x.insert(off, t.c_str()); y.insert(std::min(off, y.size()), t); break;
		case 9: if (i != j) { x.insert(off, a[j]); y.insert(std::min(off, y.size()), m[j]); } break;
		case 10: { size_t cnt = r.below(t.size() + 4); x.insert(off, t.c_str(), cnt); y.insert(std::min(off, y.size()), t.substr(0, cnt)); break; }
		case 11: { size_t e = r.chance(20) ? fm::string::npos : r.below(y.size() + 4); x.erase(off, e); if (off < y.size() && off < e) y.erase(off, e == fm::string::npos ? S::npos : e - off); break; }
		case 12: x.pop_back(); if (!y.empty()) y.pop_back(); break;
		case 13: { size_t cnt = r.below(60); x.resize(cnt, c); y.resize(cnt, c); break; }
		case 14: { size_t cnt = r.below(y.size() + 1); x.resize(cnt); y.resize(cnt); break; }
		case 15: { size_t cnt = r.chance(30) ? fm::string::npos : r.below(20); fm::string z = x.substr(off, cnt); S w = off >= y.size() ? S() : y.substr(off, cnt == fm::string::npos ? S::npos : cnt); sameStr(z, w, "substr"); break; }
		case 16: CHECK(pos(x.find(c, off)) == y.find(c, off), "string:find-char", "find char in '%s' from %zu", mon::esc(y).c_str(), off); break;
		case 17: if (!t.empty()) {
			S q = r.chance(60) && y.size() > 2 ? y.substr(r.below(y.size()), r.range(1, 4)) : t;
			CHECK(pos(x.find(q.c_str(), off)) == y.find(q, off), "string:find-ptr", "find '%s' in '%s' from %zu: %zu", mon::esc(q).c_str(), mon::esc(y).c_str(), off, x.find(q.c_str(), off));
			CHECK(pos(x.find(fm::string(q.c_str()), off)) == y.find(q, off), "string:find-str", "find '%s' in '%s' from %zu", mon::esc(q).c_str(), mon::esc(y).c_str(), off);
			size_t e = S::npos; for (size_t p = y.find(q, off); p != S::npos; p = y.find(q, p + 1)) e = p;
			CHECK(pos(x.rfind(q.c_str(), off)) == e, "string:rfind-ptr", "rfind '%s' in '%s' from %zu", mon::esc(q).c_str(), mon::esc(y).c_str(), off);
			CHECK(pos(x.rfind(fm::string(q.c_str()), off)) == e, "string:rfind-str", "rfind '%s' in '%s' from %zu", mon::esc(q).c_str(), mon::esc(y).c_str(), off);
			if (e != S::npos) mon::hit("string.found");
			} break;
		case 18: { size_t e = y.rfind(c); if (e != S::npos && e < off) e = S::npos; CHECK(pos(x.rfind(c, off)) == e, "string:rfind-char", "rfind in '%s' from %zu", mon::esc(y).c_str(), off); break; }
		case 19: { S set = rndText(r, 3, true).substr(0, 5); CHECK(pos(x.find_first_of(set.c_str(), off)) == y.find_first_of(set, off), "string:find_first_of", "'%s' of '%s' from %zu", mon::esc(y).c_str(), mon::esc(set).c_str(), off);
			S z = off < y.size() ? y.substr(0, y.size() - off) : S();
			size_t e = off >= y.size() ? S::npos : z.find_last_of(set);
			CHECK(pos(x.find_last_of(set.c_str(), off)) == e, "string:find_last_of", "'%s' of '%s' from end %zu", mon::esc(y).c_str(), mon::esc(set).c_str(), off); break; }
		case 20: {
			bool eq = y == m[j];
			CHECK((x == a[j]) == eq && (x != a[j]) == !eq && (x == a[j].c_str()) == eq && (x != a[j].c_str()) == !eq && IsEquivalent(x, a[j]) == eq, "string:equality", "'%s' vs '%s'", mon::esc(y).c_str(), mon::esc(m[j]).c_str());
			bool lt = x < a[j], gt = a[j] < x;
			CHECK(eq ? (!lt && !gt) : lt != gt, "string:order", "'%s' vs '%s'", mon::esc(y).c_str(), mon::esc(m[j]).c_str());
			bool ascii = true; for (char q : y + m[j]) if (q < 0) ascii = false;
			if (ascii) CHECK(lt == (y < m[j]), "string:less", "'%s' vs '%s'", mon::esc(y).c_str(), mon::esc(m[j]).c_str());
			CHECK(IsEquivalentI(x, a[j]) == (strcasecmp(y.c_str(), m[j].c_str()) == 0), "string:equality-i", "'%s' vs '%s'", mon::esc(y).c_str(), mon::esc(m[j]).c_str());
			break; }
		case 21: { fm::string z = x + a[j]; sameStr(z, y + m[j], "operator+"); z = x + t.c_str(); sameStr(z, y + t, "operator+ptr"); z = t.c_str() + x; sameStr(z, t + y, "ptr+string"); break; }
		case 22: x += t.c_str(); y += t; if (i != j) { x += a[j]; y += m[j]; } x += c; y += c; break;
		case 23: if (!y.empty()) { size_t p = r.below(y.size()); x[p] = c; y[p] = c; CHECK(x.back() == y.back() && x.at(p) == c, "string:element", "element access"); } break;
		case 24: if (r.chance(30)) { x.clear(); y.clear(); if (!(strlen(x.c_str()) == 0 && x.length() == 0 && x.empty())) mon::viol("string:clear", "not empty after clear"); x = fm::string(); } break;
		}
		mon::hit("string.ops");
		if (y.size() > 4000) { x = fm::string(); y.clear(); }
		for (size_t q = 0; q < 3; ++q) if (!sameStr(a[q], m[q], q == i ? ("op" + std::to_string(op)).c_str() : "untouched string")) return;
	}
	if (m[0].size() + m[1].size() + m[2].size() > 4) mon::nontrivial();
}

static double rndDouble(Rng& r)
{
	switch (r.range(0, 9))
	{
	case 0: return (double) r.range(-1000, 1000);
	case 1: return r.flt(-1.0f, 1.0f);
	case 2: return r.flt(-1e6f, 1e6f);
	case 3: return (r.chance(50) ? -1.0 : 1.0) * pow(10.0, r.unit() * 76.0 - 38.0);
	case 4: return r.range(-99999, 99999) / 100.0;
	case 5: return r.range(-99999, 99999) * pow(10.0, r.range(-5, 12));
	case 6: { static const double k[] = { 0.0, -0.0, 1.0, -1.0, 0.1, 1e6, 999999.5, 9999995, 1e-4, 9.9999995e-5, 123456, 1234567, FLT_MAX, -FLT_MAX, FLT_MIN, 3.0517578125e-05, 16777216, 0.5, 1e10, 1e-7, 2.5e-7 }; return k[r.below(sizeof(k) / sizeof(*k))]; }
	case 7: { uint32_t u = (uint32_t) r.next(); float f; memcpy(&f, &u, 4); return f; }
	case 8: return r.range(-10, 10) + r.range(-5, 5) * 1e-6;
	default: return ldexp(1.0, r.range(-30, 60));
	}
}

// What the text of a float must denote: six significant digits; magnitudes under the type's epsilon are zero.
static bool textDenotes(const S& t, double f, double eps, bool isFloat)
{
	if (f != f) return t == "NaN";
	double inf = std::numeric_limits<double>::infinity();
	if (isFloat && (f > FLT_MAX)) f = inf;
	if (isFloat && (f < -FLT_MAX)) f = -inf;
	if (f == inf) return t == "INF";
	if (f == -inf) return t == "-INF";
	if (t.empty() || t.find_first_not_of("0123456789.-+eE") != S::npos) return false;
	char* e; double v = strtod(t.c_str(), &e);
	if (*e) return false;
	if (fabs(f) < eps) return v == 0.0;
	if (fabs(f) < eps * 1.0001 && v == 0.0) return true;
	char b[64]; snprintf(b, 64, "%.6g", f);
	return v == strtod(b, nullptr);
}

static void builderOps(Rng& r)
{
	FUSStringBuilder* b; S m;
	switch (r.range(0, 4))
	{
	case 0: b = new FUSStringBuilder(); break;
	case 1: b = new FUSStringBuilder((size_t) r.range(0, 40)); break;
	case 2: m = rndText(r, 20, false); b = new FUSStringBuilder(m.c_str()); break;
	case 3: m = rndText(r, 20, false); b = new FUSStringBuilder(fm::string(m.c_str())); break;
	default: { size_t n = r.below(50); m = S(n, 'q'); b = new FUSStringBuilder('q', n); }
	}
	int n = r.range(4, 60);
	for (int k = 0; k < n; ++k)
	{
		S t = rndText(r, 15, false);
		int op = r.range(0, 20); mon::sig((uint64_t) op + 100);
		S before = m;
		double d = 0; int kind = 0; // 1 float 2 double: expected text checked by value
		switch (op)
		{
		case 0: b->append(t.c_str()); m += t; break;
		case 1: b->append(fm::string(t.c_str())); m += t; break;
		case 2: { char c = (char) r.range(1, 255); b->append(c); m += c; break; }
		case 3: { size_t l = r.below(t.size() + 1); b->append(t.c_str(), l); m += t.substr(0, l); break; }
		case 4: { FUSStringBuilder o(t.c_str()); b->append(o); m += t; break; }
		case 5: { int32 i = r.chance(20) ? (r.chance(50) ? INT32_MIN : INT32_MAX) : (int32) (r.next() >> r.below(33)); b->append(i); m += std::to_string(i); break; }
		case 6: { uint32 i = (uint32) (r.next() >> r.below(33)); b->append(i); m += std::to_string(i); break; }
		case 7: { uint64 i = (uint64) (r.next() >> r.below(65 - 1)); b->append((uint64) i); m += std::to_string((unsigned long long) i); break; }
		case 8: { long i = r.chance(10) ? (r.chance(50) ? LONG_MIN : LONG_MAX) : (long) r.next() >> r.below(60); b->append(i); m += std::to_string(i); break; }
		case 9: d = (float) rndDouble(r); if (r.chance(5)) d = r.chance(50) ? INFINITY : (r.chance(50) ? -INFINITY : NAN); b->append((float) d); kind = 1; break;
		case 10: d = rndDouble(r) * (r.chance(20) ? 1e50 : 1); if (r.chance(5)) d = r.chance(50) ? INFINITY : (r.chance(50) ? -INFINITY : NAN); b->append(d); kind = 2; break;
		case 11: { uint32 i = (uint32) r.next(); b->appendHex(i); char x[16]; for (int q = 0; q < 4; ++q) { snprintf(x, 16, "%02X", (i >> (8 * q)) & 255); m += x; } break; }
		case 12: { uint8 i = (uint8) r.next(); b->appendHex(i); char x[16]; snprintf(x, 16, "%02X", i); m += x; break; }
		case 13: b->appendLine(t.c_str()); m += t + "\n"; break;
		case 14: { int s = r.range(-1, (int) m.size() + 1); b->remove(s); if (s >= 0 && s < (int) m.size()) m.erase(s); break; }
		case 15: { int s = r.range(-1, (int) m.size() + 1), e = r.range(-1, (int) m.size() + 1); b->remove(s, e); if (s >= 0 && e <= (int) m.size() && e > s) m.erase(s, e - s); break; }
		case 16: b->pop_back(); if (!m.empty()) m.pop_back(); break;
		case 17: if (r.chance(30)) { b->set(t.c_str()); m = t; } else if (r.chance(20)) { b->clear(); m.clear(); } break;
		case 18: { size_t l = r.below(m.size() * 2 + 40); b->reserve(l); if (l < m.size()) m.resize(l); break; }
		case 19: { char c = (char) (r.chance(50) && !m.empty() ? m[r.below(m.size())] : r.range(1, 255));
			size_t p = m.find(c), q = m.rfind(c);
			CHECK(b->index(c) == (p == S::npos ? -1 : (int) p) && b->rindex(c) == (q == S::npos ? -1 : (int) q), "builder:index", "index/rindex of %d in '%s': %d %d", (int) c, mon::esc(m).c_str(), b->index(c), b->rindex(c));
			if (!m.empty()) CHECK(b->back() == m.back(), "builder:back", "back()"); break; }
		default: { S v = rndText(r, 6, true); *b += v.c_str(); *b += 'x'; *b += (int32) 42; m += v + "x42"; break; }
		}
		mon::hit("builder.ops");
		if (kind)
		{
			S all = b->ToCharPtr();
			if (all.size() < before.size() || all.compare(0, before.size(), before) != 0) { mon::viol("builder:float-prefix", "appending a float changed what was there"); break; }
			S txt = all.substr(before.size());
			CHECK(textDenotes(txt, d, kind == 1 ? FLT_EPSILON : DBL_EPSILON, kind == 1), kind == 1 ? "builder:float" : "builder:double", "%.17g written as '%s'", d, txt.c_str());
			m = all;
		}
		bool ok = b->length() == m.size() && b->empty() == m.empty() && strlen(b->ToCharPtr()) == m.size() && memcmp(b->ToCharPtr(), m.data(), m.size()) == 0;
		if (!ok) { mon::viol("builder:op" + std::to_string(op), "content '%s' expected '%s'", mon::esc(b->ToCharPtr()).c_str(), mon::esc(m).c_str()); break; }
		if (r.chance(10)) sameStr(b->ToString(), m, "ToString");
		if (m.size() > 6000) { b->clear(); m.clear(); }
	}
	if (!m.empty()) mon::nontrivial();
	delete b;
}

PROP(C15, "a case is a history of 5-60 string or builder operations; it is non-trivial when text is left at its end; signatures hash the operation sequence")
{
	if (r.chance(55)) stringOps(r); else builderOps(r);
}

// ---------------------------------------------------------------- C16

static S ws(Rng& r, bool atLeastOne)
{
	static const char* k[] = { " ", "\t", "\n", "\r\n", "  ", " \n\t " };
	if (!atLeastOne && r.chance(70)) return "";
	if (r.chance(75)) return " ";
	return k[r.below(6)];
}

// a decimal literal and the value a standard parser gives it
static S numTok(Rng& r, double& v)
{
	char b[160];
	switch (r.range(0, 8))
	{
	case 0: snprintf(b, 160, "%d", r.range(-100000, 100000)); break;
	case 1: snprintf(b, 160, "%.*f", r.range(0, 12), r.flt(-1000, 1000)); break;
	case 2: snprintf(b, 160, "%.*e", r.range(0, 10), r.flt(-10, 10) * pow(10.0, r.range(-30, 30))); break;
	case 3: snprintf(b, 160, "%.*E", r.range(0, 10), r.flt(-10, 10) * pow(10.0, r.range(-30, 30))); break;
	case 4: snprintf(b, 160, "%s.%d", r.chance(50) ? "-" : "", r.range(0, 99999)); break;
	case 5: snprintf(b, 160, "%s%d.", r.chance(30) ? "+" : "", r.range(0, 99999)); break;
	case 6: snprintf(b, 160, "%s%d.%05de%s%d", r.chance(30) ? "-" : "", r.range(0, 99), r.range(0, 99999), r.chance(50) ? "+" : "-", r.range(0, 12)); break;
	case 7: snprintf(b, 160, "%.17g", rndDouble(r)); break;
	default:
		if (r.chance(30)) snprintf(b, 160, "%s", r.chance(50) ? "INF" : "-INF");
		else if (r.chance(30)) snprintf(b, 160, "%se%s%d", r.chance(50) ? "0.0000000001" : "1000000000000", r.chance(50) ? "-" : "", r.range(20, 45));
		else snprintf(b, 160, "%.*f", r.range(10, 60), r.unit() * pow(10.0, r.range(-10, 2)));
	}
	S t = b;
	if (t.find("nan") != S::npos || t.find("inf") != S::npos) t = "0";
	if (t == "INF") v = INFINITY; else if (t == "-INF") v = -INFINITY; else v = strtod(t.c_str(), nullptr);
	return t;
}

static bool closeTo(float got, double v)
{
	float f = (float) v;
	if (f == got) return true;
	if (f != f || got != got) return f != f && got != got;
	if (fabs(v) > 3.402e38 && fabs(v) < 3.404e38) return true;
	return fabs((double) got - v) <= 3e-7 * fabs(v) + 1.5e-45;
}

static S join(Rng& r, const std::vector<S>& t)
{
	S s = ws(r, false);
	for (size_t i = 0; i < t.size(); ++i) { if (i) s += ws(r, true); s += t[i]; }
	return s + ws(r, false);
}

template <class T> static void prefill(Rng& r, fm::vector<T>& l) { size_t n = r.chance(50) ? 0 : r.below(8); for (size_t i = 0; i < n; ++i) l.push_back(T()); }

PROP(C16, "a case converts lists of random literals (all spellings and separators) and random values through text; non-trivial when at least one list has two or more values")
{
	int n = r.chance(10) ? r.range(0, 400) : r.range(0, 12);
	if (n >= 2) mon::nontrivial();
	// floats
	{
		std::vector<S> t; std::vector<double> v;
		for (int i = 0; i < n; ++i) { double d; t.push_back(numTok(r, d)); v.push_back(d); }
		S s = join(r, t); mon::sig(s);
		FloatList l; prefill(r, l);
		FUStringConversion::ToFloatList(s.c_str(), l);
		mon::hit("tokens.float", n);
		CHECK(l.size() == v.size(), "floatlist:count", "'%s' gives %zu values", mon::esc(s.substr(0, 200)).c_str(), l.size());
		for (size_t i = 0; i < v.size() && i < l.size(); ++i) CHECK(closeTo(l[i], v[i]), "floatlist:value", "token '%s' parsed as %.9g", t[i].c_str(), l[i]);
		CHECK(FUStringConversion::CountValues(s.c_str()) == v.size(), "count", "CountValues of '%s'", mon::esc(s.substr(0, 200)).c_str());
		const char* p = s.c_str();
		for (size_t i = 0; i < v.size(); ++i)
		{
			float f = FUStringConversion::ToFloat(&p);
			CHECK(closeTo(f, v[i]), "float:value", "token '%s' parsed as %.9g", t[i].c_str(), f);
		}
		if (v.size()) CHECK(*p == 0, "float:consumed", "%zu characters left", strlen(p));
		// vectors out of the same text
		size_t c2 = (v.size() + 1) / 2, c3 = (v.size() + 2) / 3, c4 = (v.size() + 3) / 4, cm = (v.size() + 15) / 16;
		FMVector2List l2; prefill(r, l2); FUStringConversion::ToVector2List(s.c_str(), l2);
		FMVector3List l3; prefill(r, l3); FUStringConversion::ToVector3List(s.c_str(), l3);
		FMVector4List l4; prefill(r, l4); FUStringConversion::ToVector4List(s.c_str(), l4);
		FMMatrix44List lm; FUStringConversion::ToMatrixList(s.c_str(), lm);
		CHECK(l2.size() == c2 && l3.size() == c3 && l4.size() == c4 && lm.size() == cm, "vectorlist:count", "%zu values give %zu/%zu/%zu/%zu vectors and matrices", v.size(), l2.size(), l3.size(), l4.size(), lm.size());
		for (size_t i = 0; i < v.size(); ++i)
		{
			if (i / 2 < l2.size()) CHECK(closeTo((&l2[i / 2].x)[i % 2], v[i]), "vector2list:value", "element %zu", i);
			if (i / 3 < l3.size()) CHECK(closeTo((&l3[i / 3].x)[i % 3], v[i]), "vector3list:value", "element %zu", i);
			if (i / 4 < l4.size()) CHECK(closeTo((&l4[i / 4].x)[i % 4], v[i]), "vector4list:value", "element %zu", i);
			// text is row by row; the matrix is stored by columns
			if (i / 16 < lm.size()) CHECK(closeTo(lm[i / 16][(i % 16) % 4][(i % 16) / 4], v[i]), "matrixlist:value", "element %zu", i);
		}
		// interleaved
		size_t stride = (size_t) r.range(1, 5);
		fm::pvector<FloatList> arr; std::vector<FloatList*> own; std::vector<size_t> keep;
		for (size_t i = 0; i < stride; ++i) { FloatList* q = r.chance(15) ? nullptr : new FloatList(); if (q) prefill(r, *q); own.push_back(q); arr.push_back(q); }
		FUStringConversion::ToInterleavedFloatList(s.c_str(), arr);
		for (size_t i = 0; i < stride; ++i) if (own[i])
		{
			CHECK(own[i]->size() == v.size() / stride, "interleaved-float:count", "%zu values, stride %zu: %zu", v.size(), stride, own[i]->size());
			for (size_t k = 0; k < own[i]->size() && k * stride + i < v.size(); ++k) CHECK(closeTo((*own[i])[k], v[k * stride + i]), "interleaved-float:value", "element %zu of list %zu", k, i);
		}
		for (auto q : own) delete q;
	}
	// integers
	{
		std::vector<S> t, tu; std::vector<int32> v; std::vector<uint32> u;
		for (int i = 0; i < n; ++i)
		{
			int32 x = (int32) (r.next() >> r.below(33)); if (r.chance(5)) x = r.chance(50) ? INT32_MIN : INT32_MAX;
			if (r.chance(40)) x %= 100;
			v.push_back(x); t.push_back((x >= 0 && r.chance(10) ? "+" : "") + S(r.chance(10) && x >= 0 ? "00" : "") + std::to_string(x));
			uint32 y = (uint32) (r.next() >> r.below(33)); if (r.chance(5)) y = 0xFFFFFFFFu;
			u.push_back(y); tu.push_back(std::to_string(y));
		}
		S s = join(r, t), su = join(r, tu);
		Int32List l; prefill(r, l); FUStringConversion::ToInt32List(s.c_str(), l);
		UInt32List lu; prefill(r, lu); FUStringConversion::ToUInt32List(su.c_str(), lu);
		mon::hit("tokens.int", 2 * n);
		CHECK(l.size() == v.size(), "intlist:count", "'%s' gives %zu", mon::esc(s.substr(0, 100)).c_str(), l.size());
		CHECK(lu.size() == u.size(), "uintlist:count", "'%s' gives %zu", mon::esc(su.substr(0, 100)).c_str(), lu.size());
		for (size_t i = 0; i < v.size() && i < l.size(); ++i) CHECK(l[i] == v[i], "intlist:value", "'%s' parsed as %d", t[i].c_str(), l[i]);
		for (size_t i = 0; i < u.size() && i < lu.size(); ++i) CHECK(lu[i] == u[i], "uintlist:value", "'%s' parsed as %u", tu[i].c_str(), lu[i]);
		size_t stride = (size_t) r.range(1, 5);
		fm::pvector<UInt32List> arr; std::vector<UInt32List*> own;
		for (size_t i = 0; i < stride; ++i) { UInt32List* q = r.chance(15) ? nullptr : new UInt32List(); if (q) prefill(r, *q); own.push_back(q); arr.push_back(q); }
		FUStringConversion::ToInterleavedUInt32List(su.c_str(), arr);
		for (size_t i = 0; i < stride; ++i) if (own[i])
		{
			CHECK(own[i]->size() == u.size() / stride, "interleaved-uint:count", "%zu values, stride %zu: %zu", u.size(), stride, own[i]->size());
			for (size_t k = 0; k < own[i]->size() && k * stride + i < u.size(); ++k) CHECK((*own[i])[k] == u[k * stride + i], "interleaved-uint:value", "element %zu of list %zu", k, i);
		}
		for (auto q : own) delete q;
		// writing lists
		FUSStringBuilder b, bu, bu2; bool pre = r.chance(30);
		if (pre) { b.append("x"); bu.append("x"); }
		Int32List wl; for (auto x : v) wl.push_back(x);
		UInt32List wu; for (auto x : u) wu.push_back(x);
		FUStringConversion::ToString(b, wl); FUStringConversion::ToString(bu, wu);
		S e = pre ? "x" : "", eu = e;
		for (auto x : v) e += (e.empty() ? "" : " ") + std::to_string(x);
		for (auto x : u) eu += (eu.empty() ? "" : " ") + std::to_string(x);
		CHECK(e == b.ToCharPtr(), "intlist:text", "'%s' instead of '%s'", b.ToCharPtr(), e.c_str());
		CHECK(eu == bu.ToCharPtr(), "uintlist:text", "'%s' instead of '%s'", bu.ToCharPtr(), eu.c_str());
	}
	// booleans and words
	{
		std::vector<S> t, w; std::vector<bool> v;
		for (int i = 0; i < n; ++i)
		{
			bool x = r.chance(50); v.push_back(x); t.push_back(x ? (r.chance(50) ? "true" : "1") : (r.chance(50) ? "false" : "0"));
			S q; int l = r.range(1, 9); for (int k = 0; k < l; ++k) q += (char) r.range(33, r.chance(10) ? 255 : 126);
			w.push_back(q);
		}
		S s = join(r, t), sw = join(r, w);
		BooleanList l; prefill(r, l); FUStringConversion::ToBooleanList(s.c_str(), l);
		CHECK(l.size() == v.size(), "boollist:count", "'%s' gives %zu", mon::esc(s.substr(0, 100)).c_str(), l.size());
		for (size_t i = 0; i < v.size() && i < l.size(); ++i) CHECK(l[i] == v[i], "boollist:value", "'%s'", t[i].c_str());
		if (n) CHECK(FUStringConversion::ToBoolean((ws(r, false) + t[0] + ws(r, false)).c_str()) == v[0], "bool:value", "'%s'", t[0].c_str());
		StringList sl; FStringList fl; if (r.chance(40)) { sl.push_back("old"); sl.push_back("older"); fl.push_back(FC("old")); }
		FUStringConversion::ToStringList(sw.c_str(), sl); FUStringConversion::ToFStringList(fstring(sw.c_str()), fl);
		CHECK(sl.size() == w.size() && fl.size() == w.size(), "stringlist:count", "%zu words give %zu and %zu", w.size(), sl.size(), fl.size());
		for (size_t i = 0; i < w.size() && i < sl.size() && i < fl.size(); ++i) CHECK(w[i] == sl[i].c_str() && w[i] == fl[i].c_str(), "stringlist:value", "word '%s'", mon::esc(w[i]).c_str());
		mon::hit("tokens.word", n);
	}
	// values through text and back
	{
		float f[16]; for (auto& x : f) { do x = (float) rndDouble(r); while (x != x); }
		auto back = [&](float a, float b) { if (fabsf(a) <= FLT_EPSILON * 1.001f && b == 0) return true; if (a == b) return true; return fabs((double) a - b) <= 5.1e-6 * fabs((double) a) || (fabs(a) > 3.4028e38 && fabs(b) > 3.4028e38); };
		FMVector2 a2(f[0], f[1]); FMVector3 a3(f[2], f[3], f[4]); FMVector4 a4(f[5], f[6], f[7], f[8]); FMMatrix44 am; for (int i = 0; i < 16; ++i) am[i / 4][i % 4] = f[i];
		FMVector2 b2 = FUStringConversion::ToVector2(FUStringConversion::ToString(a2));
		FMVector3 b3 = FUStringConversion::ToVector3(FUStringConversion::ToString(a3));
		FMVector4 b4 = FUStringConversion::ToVector4(FUStringConversion::ToString(a4));
		FMMatrix44 bm = FUStringConversion::ToMatrix(FUStringConversion::ToString(am));
		CHECK(back(a2.x, b2.x) && back(a2.y, b2.y), "vector2:roundtrip", "%s", FUStringConversion::ToString(a2).c_str());
		CHECK(back(a3.x, b3.x) && back(a3.y, b3.y) && back(a3.z, b3.z), "vector3:roundtrip", "%s", FUStringConversion::ToString(a3).c_str());
		CHECK(back(a4.x, b4.x) && back(a4.y, b4.y) && back(a4.z, b4.z) && back(a4.w, b4.w), "vector4:roundtrip", "%s", FUStringConversion::ToString(a4).c_str());
		for (int i = 0; i < 16; ++i) CHECK(back(am[i / 4][i % 4], bm[i / 4][i % 4]), "matrix:roundtrip", "element %d: %.9g read back as %.9g", i, am[i / 4][i % 4], bm[i / 4][i % 4]);
		// written order of a matrix is row by row, so that other readers agree
		{ S t = FUStringConversion::ToString(am).c_str(); const char* p = t.c_str(); for (int i = 0; i < 16; ++i) { while (*p == ' ') ++p; S k; while (*p && *p != ' ') k += *p++; CHECK(textDenotes(k, am[i % 4][i / 4], FLT_EPSILON, true), "matrix:text", "text element %d is %s", i, k.c_str()); } }
		CHECK(back(f[9], FUStringConversion::ToFloat(FUStringConversion::ToString(f[9]))), "float:roundtrip", "%.9g -> %s", f[9], FUStringConversion::ToString(f[9]).c_str());
		int32 i = (int32) r.next(); uint32 u = (uint32) r.next(); bool bo = r.chance(50);
		CHECK(FUStringConversion::ToInt32(FUStringConversion::ToString(i)) == i && FUStringConversion::ToUInt32(FUStringConversion::ToString(u)) == u, "int:roundtrip", "%d %u", i, u);
		CHECK(FUStringConversion::ToBoolean(FUStringConversion::ToString(bo)) == bo, "bool:roundtrip", "%d", bo);
		FloatList fl; for (auto x : f) fl.push_back(x);
		FUSStringBuilder sb; if (r.chance(30)) sb.append("7"); bool pre = !sb.empty();
		FUStringConversion::ToString(sb, fl);
		FloatList fb; FUStringConversion::ToFloatList(sb.ToCharPtr(), fb);
		CHECK(fb.size() == 16 + (pre ? 1 : 0), "floatlist:text-count", "'%s'", sb.ToCharPtr());
		for (size_t k = 0; k < 16 && k + pre < fb.size(); ++k) CHECK(back(f[k], fb[k + pre]), "floatlist:roundtrip", "%.9g as %.9g", f[k], fb[k + pre]);
		// hexadecimal
		char hx[16]; uint32 cnt = (uint32) r.range(1, 8); snprintf(hx, 16, r.chance(50) ? "%08x" : "%08X", u); S h = r.chance(30) ? S("0x") + hx : S(hx);
		uint32 want = cnt >= 8 ? u : u >> (4 * (8 - cnt));
		const char* hp = h.c_str();
		CHECK(FUStringConversion::HexToUInt32(&hp, cnt) == want && hp == h.c_str() + (h.size() - 8) + cnt, "hex:value", "%u digits of %s", cnt, h.c_str());
		CHECK(FUStringConversion::HexToUInt32(h.c_str()) == u, "hex:value", "%s", h.c_str());
		// dates
		FUDateTime dt; dt.SetYear(r.range(0, 9999)); dt.SetMonth(r.range(1, 12)); dt.SetDay(r.range(1, 31)); dt.SetHour(r.range(0, 23)); dt.SetMinutes(r.range(0, 59)); dt.SetSeconds(r.range(0, 59));
		FUDateTime d2; S ds = FUStringConversion::ToString(dt).c_str(); FUStringConversion::ToDateTime(ds.c_str(), d2);
		char want2[32]; snprintf(want2, 32, "%04u-%02u-%02uT%02u:%02u:%02uZ", dt.GetYear(), dt.GetMonth(), dt.GetDay(), dt.GetHour(), dt.GetMinutes(), dt.GetSeconds());
		CHECK(ds == want2, "date:text", "%s instead of %s", ds.c_str(), want2);
		CHECK(d2.GetYear() == dt.GetYear() && d2.GetMonth() == dt.GetMonth() && d2.GetDay() == dt.GetDay() && d2.GetHour() == dt.GetHour() && d2.GetMinutes() == dt.GetMinutes() && d2.GetSeconds() == dt.GetSeconds(), "date:roundtrip", "%s", ds.c_str());
		// animation targets
		S pt = rndText(r, 8, true), q; pt.erase(std::remove_if(pt.begin(), pt.end(), [](char c) { return c == '(' || c == '[' || c == '.'; }), pt.end());
		int32 idx = r.range(0, 9999); bool par = r.chance(50);
		q = (par ? "(" : "[") + std::to_string(idx) + (par ? ")" : "]"); if (r.chance(30)) q += ".x";
		fm::string sp, sq; FUStringConversion::SplitTarget((pt + q).c_str(), sp, sq);
		CHECK(pt == sp.c_str() && q == sq.c_str(), "target:split", "'%s' split into '%s' and '%s'", (pt + q).c_str(), sp.c_str(), sq.c_str());
		CHECK(FUStringConversion::ParseQualifier(q.c_str()) == idx, "target:qualifier", "'%s' gives %d", q.c_str(), FUStringConversion::ParseQualifier(q.c_str()));
		CHECK(FUStringConversion::ParseQualifier(".X") == -1, "target:qualifier", ".X");
	}
	// hostile text: consumed within its bounds (the sanitizers watch), counts agree
	{
		S s = rndText(r, 30, r.chance(50));
		mon::AllowAsserts aa;
		FloatList l; FUStringConversion::ToFloatList(s.c_str(), l);
		Int32List il; FUStringConversion::ToInt32List(s.c_str(), il);
		UInt32List ul; FUStringConversion::ToUInt32List(s.c_str(), ul);
		size_t c = FUStringConversion::CountValues(s.c_str()), e = 0; bool in = false;
		for (char k : s) { bool sp = k == ' ' || k == '\t' || k == '\n' || k == '\r'; if (!sp && !in) ++e; in = !sp; }
		CHECK(c == e && l.size() == e && il.size() == e && ul.size() == e, "garbage:count", "%zu tokens in '%s', counted %zu, parsed %zu/%zu/%zu", e, mon::esc(s).c_str(), c, l.size(), il.size(), ul.size());
		FUStringConversion::ToVector3(s.c_str()); FUStringConversion::ToBoolean(s.c_str()); FUStringConversion::HexToUInt32(s.c_str()); FUDateTime d; FUStringConversion::ToDateTime(s.c_str(), d); FUStringConversion::ParseQualifier(s.c_str());
		mon::hit("garbage.texts");
	}
}
