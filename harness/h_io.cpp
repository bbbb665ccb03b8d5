// C30: file system failures while saving and loading.
#include "docmon.h"
#include <errno.h>
#include <fcntl.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/stat.h>
#include <unistd.h>

// The device stops giving data after some bytes.
static long readBudget = -1;
extern "C" size_t __real_fread(void*, size_t, size_t, FILE*);
extern "C" size_t __wrap_fread(void* p, size_t size, size_t n, FILE* f)
{
	if (readBudget < 0 || size == 0) return __real_fread(p, size, n, f);
	size_t can = (size_t) readBudget / size; size_t got = __real_fread(p, size, n < can ? n : can, f); readBudget -= (long) (got * size);
	if (got < n) { mon::hit("reads cut short"); errno = EIO; }
	return got;
}

// No handle is left to open files. (A limit of the process would stop the sanitizers from looking at the memory.)
static int openFails = 0;
extern "C" FILE* __real_fopen(const char*, const char*);
extern "C" FILE* __wrap_fopen(const char* name, const char* mode)
{
	if (openFails == 0) return __real_fopen(name, mode);
	openFails = 2; errno = EMFILE; return NULL;
}

namespace
{
struct Limit
{
	int what; struct rlimit old; bool on = false;
	Limit(int w, rlim_t v) : what(w) { if (getrlimit(what, &old) == 0) { struct rlimit n = old; n.rlim_cur = v; on = setrlimit(what, &n) == 0; } }
	~Limit() { if (on) setrlimit(what, &old); }
};
// An unprivileged user, for the calls made while alive.
struct Nobody { bool on; Nobody() : on(geteuid() == 0 && seteuid(65534) == 0) {} ~Nobody() { if (on && seteuid(0) != 0) abort(); } };

S dumped(FCDocument* d) { S t; Dump o = dumpDoc(d); for (auto& l : o.lines) { if (l.first.find("modified") != S::npos) continue; t += l.first; t += "="; t += l.second; t += "\n"; } return t; }
// Without the time of saving.
S timeless(S t) { for (size_t p = 0; (p = t.find("<modified>", p)) != S::npos;) { size_t e = t.find("</modified>", p); if (e == S::npos) break; t.erase(p, e - p); } return t; }
size_t lastClose(const S& text) { size_t p = text.rfind("</COLLADA>"); return p == S::npos ? text.size() : p + 10; }
}

PROP(C30, "random documents are saved and loaded while the file system fails at a chosen point: a case counts when a failure was injected and the same document was saved or loaded properly afterwards")
{
	static const int parts[] = { DocGen::SCENE | DocGen::CAMERA | DocGen::LIGHT, DocGen::MESH, DocGen::MATERIAL, DocGen::ANIM | DocGen::CAMERA, DocGen::EXTRA, DocGen::ASSET };
	int f = 0; for (int k = r.range(1, 3); k > 0; --k) f |= parts[r.below(6)];
	DocRef d; { DocGen g(r, d, f, r.chance(20) ? 3 : 1); g.build(); }
	S good = mon::tmpDir + "/good.dae", bad = mon::tmpDir + "/bad.dae", dir = mon::tmpDir + "/dir.dae", ro = mon::tmpDir + "/closed";
	signal(SIGXFSZ, SIG_IGN); mkdir(dir.c_str(), 0755); unlink(bad.c_str());
	{ ErrorTap tap; bool ok = saveDoc(d, good); CHECK(ok && tap.errors.empty(), "save", "%s", tap.all().c_str()); }
	const S text = readFile(good); CHECK(text.size() > 100, "saved-nothing", "%zu bytes", text.size()); if (text.size() <= 100) return;
	mon::hit("saved bytes", text.size());

	auto anywhere = [&](size_t n) -> size_t       // a place in a file of n bytes, often an interesting one
	{
		switch (r.below(6)) { case 0: return 0; case 1: return n - 1; case 2: return n - 1 - r.below(n < 64 ? n : 64); case 3: { size_t p = 4096 * r.below(n / 4096 + 1) + r.below(3); return p > 0 ? (p - 1 < n ? p - 1 : n - 1) : 0; } default: return r.below(n); }
	};
	S what; bool injected = true;
	if (r.chance(55))
	{
		// Saving
		S before = dumped(d); bool ok = true, want = false; ErrorTap tap; S path = bad;
		switch (r.below(10))
		{
		case 0: what = "missing folder"; path = mon::tmpDir + "/none/bad.dae"; ok = saveDoc(d, path); break;
		case 1: what = "a folder"; path = dir; ok = saveDoc(d, path); break;
		case 2: what = "a file taken for a folder"; path = good + "/bad.dae"; ok = saveDoc(d, path); break;
		case 3: what = "full device"; path = mon::tmpDir + "/full.dae"; unlink(path.c_str()); injected = symlink("/dev/full", path.c_str()) == 0; ok = injected ? saveDoc(d, path) : false; unlink(path.c_str()); break;
		case 4: { what = "a link to itself"; path = mon::tmpDir + "/loop.dae"; unlink(path.c_str()); injected = symlink("loop.dae", path.c_str()) == 0; ok = injected ? saveDoc(d, path) : false; unlink(path.c_str()); break; }
		case 5: { what = "no permission"; mkdir(ro.c_str(), 0755); path = ro + "/bad.dae"; Nobody n; injected = n.on && access(ro.c_str(), X_OK) == 0; ok = n.on ? saveDoc(d, path) : false; break; }
		case 6: { what = "name too long"; path = mon::tmpDir + "/" + S(300, 'n') + ".dae"; ok = saveDoc(d, path); break; }
		default:
		{
			size_t at = r.chance(15) ? text.size() + r.below(3) : anywhere(text.size());
			want = at >= text.size(); what = "no room beyond " + std::to_string(at) + " of " + std::to_string(text.size()) + " bytes";
			Limit l(RLIMIT_FSIZE, (rlim_t) at); injected = l.on; ok = l.on ? saveDoc(d, path) : want; break;
		}
		}
		if (injected)
		{
			mon::sig(what); mon::hit("save: " + what.substr(0, what.find(" beyond")));
			if (!want) { CHECK(!ok, "save-claimed", "saving succeeds with %s; the file has %zu of %zu bytes", what.c_str(), readFile(path).size(), text.size()); CHECK(!tap.errors.empty(), "save-silent", "saving with %s raises no error", what.c_str()); }
			else { CHECK(ok && tap.errors.empty(), "save-refused", "saving fails with %s: %s", what.c_str(), tap.all().c_str()); CHECK(timeless(readFile(path)) == timeless(text), "save-partial", "saved with %s", what.c_str()); }
		}
		CHECK(dumped(d) == before, "save-changed", "saving with %s changed the document", what.c_str());
		ErrorTap after; S path2 = mon::tmpDir + "/after.dae"; bool ok2 = saveDoc(d, r.chance(50) ? path2 : (path2 = good)); CHECK(ok2 && after.errors.empty(), "save-after", "after %s: %s", what.c_str(), after.all().c_str());
		CHECK(timeless(readFile(path2)) == timeless(text), "save-after-differs", "after %s, the file saved has %zu bytes instead of %zu", what.c_str(), readFile(path2).size(), text.size());
		if (injected && !want) mon::nontrivial();
		return;
	}

	// Loading
	size_t tops = FCollada::GetTopDocumentCount();
	DocRef ref; { ErrorTap tap; bool ok = loadDoc(ref, good); CHECK(ok, "load", "%s", tap.all().c_str()); }
	S want = dumped(ref);
	int how = (int) r.below(5); bool ok = true; FCDocument* d2 = NULL; ErrorTap tap;
	auto load = [&](const S& path)
	{
		if (how == 0) { FCDocument* x = FCollada::LoadDocument(path.c_str()); if (x != NULL) x->Release(); return x != NULL; }
		if (how == 1) { DocRef x; return FCollada::LoadDocument(x, path.c_str()); }
		if (how == 2) { FCDocument* x = FCollada::NewDocument(); bool k = FCollada::LoadDocumentFromFile(x, path.c_str()); x->Release(); return k; }
		d2 = FCollada::NewTopDocument(); return FCollada::LoadDocumentFromFile(d2, path.c_str());
	};
	switch (r.below(9))
	{
	case 0: what = "a missing file"; ok = load(mon::tmpDir + "/none.dae"); break;
	case 1: what = "a folder"; ok = load(dir); break;
	case 2: what = "an empty file"; writeFile(bad, r.chance(50) ? "" : "\n  \n"); ok = load(bad); break;
	case 3: { what = "no handle left"; openFails = 1; ok = load(good); injected = openFails == 2; openFails = 0; break; }
	case 4: { what = "no permission"; writeFile(bad, text); chmod(bad.c_str(), 0600); Nobody n; injected = n.on; ok = n.on ? load(bad) : false; break; }
	case 5: { what = "another root"; S t = text; size_t p = t.find("<COLLADA"); t.replace(p, 8, "<Collada"); p = t.rfind("</COLLADA>"); t.replace(p, 10, "</Collada>"); writeFile(bad, t); ok = load(bad); break; }
	case 6: { size_t at = r.below(text.size() + 1); if (r.chance(50)) at = anywhere(text.size()); if (at >= lastClose(text)) at = lastClose(text) - 1; what = "reads failing after " + std::to_string(at) + " of " + std::to_string(text.size()) + " bytes"; readBudget = (long) at; ok = load(good); readBudget = -1; break; }
	default: { size_t at = anywhere(lastClose(text)); what = "a file cut after " + std::to_string(at) + " of " + std::to_string(text.size()) + " bytes"; writeFile(bad, text.substr(0, at)); if (how == 4) { S t = text.substr(0, at); d2 = FCollada::NewTopDocument(); ok = t.empty() ? false : FCollada::LoadDocumentFromMemory(bad.c_str(), d2, (void*) &t[0], t.size()); if (t.empty()) injected = false; } else ok = load(bad); break; }
	}
	if (injected)
	{
		mon::sig(what); mon::sig(how); mon::hit("load: " + what.substr(0, what.find(" after")));
		CHECK(!ok, "load-claimed", "loading succeeds with %s", what.c_str()); CHECK(!tap.errors.empty(), "load-silent", "loading with %s raises no error", what.c_str());
	}
	CHECK(FCollada::GetTopDocumentCount() == tops + 1 + (d2 != NULL ? 1 : 0), "load-left", "%zu documents are left after loading with %s", FCollada::GetTopDocumentCount() - tops, what.c_str());
	if (d2 == NULL) d2 = FCollada::NewTopDocument();
	{ ErrorTap after; bool ok2 = loadDoc(d2, good); CHECK(ok2 && after.errors.empty(), "load-after", "after %s: %s", what.c_str(), after.all().c_str()); }
	S got = dumped(d2); CHECK(got == want, "load-after-differs", "after %s, the document loaded is another (%zu against %zu)", what.c_str(), got.size(), want.size());
	d2->Release();
	if (injected) mon::nontrivial();
}
