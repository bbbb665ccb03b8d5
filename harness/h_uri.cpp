// C17: URIs and paths against a segment-level reference resolver.
#include "mon.h"
#include "FCollada.h"
#include "FUtils/FUUri.h"
#include "FUtils/FUFileManager.h"
#include "FUtils/FUFile.h"
#include <unistd.h>
#include <sys/stat.h>

typedef std::string S;
typedef std::vector<S> VS;

static S seg(Rng& r)
{
	static const char* fixed[] = { "a", "b", "home", "models", "tex.png", "x.dae", "a b", "My_File-1.2", "..x", ".hid", "v1.0", "A", "z9" };
	if (r.chance(60)) return fixed[r.below(sizeof(fixed) / sizeof(*fixed))];
	static const char al[] = "abcXYZ019_-. ";
	S s; int n = r.chance(5) ? r.range(50, 300) : r.range(1, 8);
	for (int i = 0; i < n; ++i) s += al[r.below(sizeof(al) - 1)];
	if (s == "." || s == "..") s += "q";
	return s;
}

// Joins with a leading slash.
static S join(const VS& v) { S s; for (auto& x : v) s += "/" + x; return s.empty() ? "/" : s; }
static VS split(const S& p) { VS v; S c; for (char ch : p) { if (ch == '/') { if (!c.empty()) v.push_back(c); c.clear(); } else c += ch; } if (!c.empty()) v.push_back(c); return v; }
static VS norm(const VS& v) { VS o; for (auto& x : v) { if (x == ".") continue; if (x == "..") { if (!o.empty()) o.pop_back(); } else o.push_back(x); } return o; }
static S s_(const fm::string& f) { return f.c_str(); }

struct Base
{
	S scheme, host; int port; VS dirs; S file; S query, frag;
	S authority() const { return host + (port ? ":" + std::to_string(port) : ""); }
	S path() const { S s = "/"; for (auto& d : dirs) s += d + "/"; return s + file; }
	S uri() const { return scheme + "://" + authority() + path() + (query.empty() ? "" : "?" + query) + (frag.empty() ? "" : "#" + frag); }
	S absolute(const S& p) const { return scheme == "file" ? p : scheme + "://" + authority() + p; }
};

static Base rndBase(Rng& r, bool hostFile)
{
	Base b; b.port = 0;
	static const char* sch[] = { "file", "http", "https", "ftp" };
	b.scheme = r.chance(55) ? "file" : sch[r.below(4)];
	static const char* hosts[] = { "example.com", "h", "www.a-b.org", "10.0.0.1", "srv" };
	if (b.scheme != "file" || hostFile) { b.host = hosts[r.below(5)]; if (r.chance(30)) b.port = r.chance(50) ? 8080 : r.range(1, 65535); }
	int n = r.chance(5) ? r.range(10, 60) : r.range(b.scheme == "file" ? 1 : 0, 5);
	for (int i = 0; i < n; ++i) b.dirs.push_back(seg(r));
	if (r.chance(80)) b.file = seg(r);
	static const char q[] = "abc=&/?1.";
	if (r.chance(30)) for (int i = r.range(1, 12); i > 0; --i) b.query += q[r.below(sizeof(q) - 1)];
	if (r.chance(40)) for (int i = r.range(1, 12); i > 0; --i) b.frag += q[r.below(sizeof(q) - 1)];
	return b;
}

static const char* schemeName(FUUri::Scheme s) { return s == FUUri::FILE ? "file" : s == FUUri::HTTP ? "http" : s == FUUri::HTTPS ? "https" : s == FUUri::FTP ? "ftp" : "none"; }

static void parseParts(Rng& r)
{
	Base b = rndBase(r, r.chance(20));
	S text = b.uri();
	if (r.chance(15)) { S up; for (char c : b.scheme) up += (char) toupper(c); text = up + text.substr(b.scheme.size()); }
	FUUri u(text.c_str());
	mon::hit("uris_parsed"); mon::sig(text);
	CHECK(schemeName(u.GetScheme()) == b.scheme && s_(u.GetHostname()) == b.host && u.GetPort() == (uint32) b.port && s_(u.GetPath()) == b.path() && s_(u.GetQuery()) == b.query && s_(u.GetFragment()) == b.frag,
		"uri:parts", "'%s' -> scheme %s host '%s' port %u path '%s' query '%s' fragment '%s'", text.c_str(), schemeName(u.GetScheme()), u.GetHostname().c_str(), u.GetPort(), u.GetPath().c_str(), u.GetQuery().c_str(), u.GetFragment().c_str());
	CHECK(s_(u.GetAbsoluteUri()) == b.uri(), "uri:recompose", "'%s' -> '%s'", b.uri().c_str(), u.GetAbsoluteUri().c_str());
	Base nf = b; nf.frag.clear();
	CHECK(s_(u.GetAbsoluteUri(false)) == nf.uri(), "uri:recompose-no-fragment", "'%s' -> '%s'", nf.uri().c_str(), u.GetAbsoluteUri(false).c_str());
	CHECK(u.IsFile() == !b.file.empty(), "uri:is-file", "'%s' IsFile %d", text.c_str(), (int) u.IsFile());
	CHECK(s_(u.GetAuthority()) == b.authority(), "uri:authority", "'%s' -> '%s'", text.c_str(), u.GetAuthority().c_str());
	FUUri again(u.GetAbsoluteUri());
	CHECK(s_(again.GetAbsoluteUri()) == s_(u.GetAbsoluteUri()) && s_(again.GetPath()) == s_(u.GetPath()), "uri:stable", "'%s'", text.c_str());
	// Composing constructors.
	FUUri c1(u.GetScheme(), fm::string(), fm::string(), fm::string(b.host.c_str()), b.port, fm::string(b.path().c_str()), fm::string(b.query.c_str()), fm::string(b.frag.c_str()));
	CHECK(s_(c1.GetAbsoluteUri()) == b.uri(), "uri:compose", "'%s' -> '%s'", b.uri().c_str(), c1.GetAbsoluteUri().c_str());
	Base np = b; np.port = 0; np.query.clear();
	FUUri c2(u.GetScheme(), fm::string(b.host.c_str()), fm::string(b.path().c_str()), fm::string(b.frag.c_str()));
	CHECK(s_(c2.GetAbsoluteUri()) == np.uri(), "uri:compose", "'%s' -> '%s'", np.uri().c_str(), c2.GetAbsoluteUri().c_str());
	FUUri c3(fm::string(b.path().c_str()), fm::string(b.frag.c_str()));
	Base fp = np; fp.scheme = "file"; fp.host.clear();
	CHECK(s_(c3.GetAbsoluteUri()) == fp.uri(), "uri:compose", "'%s' -> '%s'", fp.uri().c_str(), c3.GetAbsoluteUri().c_str());
	// User information.
	FUUri c4(FUUri::FTP, "bob", r.chance(50) ? "pw" : "", "h", b.port, b.path().c_str());
	S ui = s_(c4.GetUserInformations());
	CHECK((ui == "bob" || ui == "bob:pw") && s_(c4.GetAbsoluteUri()) == "ftp://" + ui + "@h" + (b.port ? ":" + std::to_string(b.port) : "") + b.path(), "uri:compose", "user: '%s'", c4.GetAbsoluteUri().c_str());
	if (b.scheme == "file" && b.host.empty())
	{
		FUUri plain((b.path() + (b.frag.empty() ? "" : "#" + b.frag)).c_str());
		CHECK(plain.GetScheme() == FUUri::FILE && s_(plain.GetPath()) == b.path() && s_(plain.GetFragment()) == b.frag && s_(plain.GetAbsolutePath()) == b.path(), "uri:plain-path", "'%s' -> '%s' '%s'", b.path().c_str(), plain.GetPath().c_str(), plain.GetFragment().c_str());
	}
}

static S rndRel(Rng& r, VS& segs)
{
	segs.clear(); int n = r.range(0, 5);
	bool plain = r.chance(30);
	for (int i = 0; i < n; ++i) segs.push_back(plain ? seg(r) : r.chance(35) ? ".." : r.chance(20) ? "." : seg(r));
	segs.push_back(seg(r));
	S s; for (size_t i = 0; i < segs.size(); ++i) s += (i ? "/" : "") + segs[i];
	if (r.chance(10)) for (char& c : s) if (c == '/') { c = '\\'; }
	return s;
}

static void resolve(Rng& r)
{
	Base b = rndBase(r, false);
	FUUri u(b.uri().c_str());
	// A relative reference, against the reference resolver.
	VS rel; S relText = rndRel(r, rel);
	VS all = b.dirs; all.insert(all.end(), rel.begin(), rel.end()); all = norm(all);
	S want = b.absolute(join(all));
	S got = s_(u.MakeAbsolute(fm::string(relText.c_str())));
	mon::hit("references_resolved"); mon::sig(b.uri() + relText);
	CHECK(got == want, "uri:make-absolute", "base '%s' + '%s' -> '%s', expected '%s'", b.uri().c_str(), relText.c_str(), got.c_str(), want.c_str());
	FUUri res = u.Resolve(relText.c_str());
	CHECK(s_(res.GetAbsolutePath()) == want, "uri:resolve", "base '%s' + '%s' -> '%s'", b.uri().c_str(), relText.c_str(), res.GetAbsolutePath().c_str());
	S frag = r.chance(50) ? "frag1" : "", query = r.chance(30) ? "k=v" : "";
	FUUri ref((relText + (query.empty() ? "" : "?" + query) + (frag.empty() ? "" : "#" + frag)).c_str());
	u.MakeAbsolute(ref);
	CHECK(s_(ref.GetFragment()) == frag && s_(ref.GetQuery()) == query && s_(ref.GetPath()) == join(all) && s_(ref.GetHostname()) == b.host && ref.GetPort() == (uint32) b.port && schemeName(ref.GetScheme()) == b.scheme,
		"uri:make-absolute-in-place", "base '%s' + '%s' -> '%s'", b.uri().c_str(), relText.c_str(), ref.GetAbsoluteUri().c_str());
	// An absolute path reference stays on the same server.
	S ap = join(norm(split(rndBase(r, false).path()))) ;
	got = s_(u.MakeAbsolute(fm::string(ap.c_str())));
	// A path that is already absolute names a local file, whatever the base.
	CHECK(got == ap || got == b.absolute(ap), "uri:make-absolute-path", "base '%s' + '%s' -> '%s'", b.uri().c_str(), ap.c_str(), got.c_str());
	// A complete URI is its own absolute form.
	Base o = rndBase(r, false); o.query.clear(); o.frag.clear();
	got = s_(u.MakeAbsolute(fm::string(o.uri().c_str())));
	CHECK(got == o.absolute(o.path()), "uri:make-absolute-uri", "base '%s' + '%s' -> '%s'", b.uri().c_str(), o.uri().c_str(), got.c_str());

	// Relative and absolute again.
	Base t = rndBase(r, false); t.query.clear(); t.frag.clear();
	if (r.chance(75))
	{
		// Often near the base.
		t.scheme = b.scheme; t.host = b.host; t.port = b.port;
		size_t keep = r.below(b.dirs.size() + 1);
		t.dirs.assign(b.dirs.begin(), b.dirs.begin() + keep);
		for (int k = r.range(0, 3); k > 0; --k) t.dirs.push_back(seg(r));
	}
	if (t.file.empty()) t.file = seg(r);
	S abs = t.absolute(t.path());
	fm::string relf = u.MakeRelative(fm::string(abs.c_str()));
	S back = s_(u.MakeAbsolute(relf));
	mon::hit(relf.empty() || relf[0] != '.' ? "relative_forms_absolute" : "relative_forms_relative");
	CHECK(back == abs, "uri:relative-round-trip", "base '%s': '%s' -> '%s' -> '%s'", b.uri().c_str(), abs.c_str(), relf.c_str(), back.c_str());
	FUUri tu((t.uri() + (frag.empty() ? "" : "#" + frag)).c_str());
	fm::string rel2 = tu.GetRelativeUri(u);
	FUUri back2(rel2); u.MakeAbsolute(back2);
	CHECK(s_(back2.GetAbsoluteUri()) == s_(tu.GetAbsoluteUri()), "uri:relative-uri-round-trip", "base '%s': '%s' -> '%s' -> '%s'", b.uri().c_str(), tu.GetAbsoluteUri().c_str(), rel2.c_str(), back2.GetAbsoluteUri().c_str());
}

static void paths(Rng& r)
{
	// Folder, name and extension recompose.
	Base b = rndBase(r, false); S p = b.path();
	S ext; size_t dot = b.file.rfind('.');
	if (dot != S::npos) { ext = b.file.substr(dot + 1); for (char& c : ext) c = (char) tolower(c); }
	char slash = r.chance(10) ? '\\' : '/'; if (slash == '\\') std::replace(p.begin(), p.end(), '/', '\\');
	fm::string folder = FUFileManager::StripFileFromPath(fm::string(p.c_str()));
	CHECK(s_(folder) + b.file == p, "path:folder", "'%s' -> folder '%s'", p.c_str(), folder.c_str());
	fm::string e = FUFileManager::GetFileExtension(fm::string(p.c_str()));
	CHECK(s_(e) == ext, "path:extension", "'%s' -> extension '%s', expected '%s'", p.c_str(), e.c_str(), ext.c_str());
	mon::hit("paths_split");
	// Escape.
	S raw; int n = r.range(0, 30); for (int i = 0; i < n; ++i) raw += (char) (r.chance(60) ? r.range(32, 126) : r.range(1, 255));
	fm::string esc = FUUri::Escape(fm::string(raw.c_str()));
	CHECK(s_(FUUri::Escape(esc)) == s_(esc), "uri:escape-idempotent", "'%s' -> '%s'", mon::esc(raw).c_str(), esc.c_str());
	S dec, want; 
	for (size_t i = 0; i < esc.length(); ++i) if (esc[i] == '%' && i + 2 < esc.length()) { dec += (char) strtol(S(esc.c_str() + i + 1, 2).c_str(), 0, 16); i += 2; } else dec += esc[i];
	for (size_t i = 0; i < raw.size(); ++i) if (raw[i] == '%' && i + 2 < raw.size() && isxdigit((unsigned char) raw[i + 1]) && isxdigit((unsigned char) raw[i + 2])) { want += (char) strtol(raw.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else want += raw[i];
	CHECK(dec == want, "uri:escape-decodes", "'%s' -> '%s'", mon::esc(raw).c_str(), esc.c_str());
	for (size_t i = 0; i < esc.length(); ++i) CHECK((unsigned char) esc[i] > 32 && (unsigned char) esc[i] < 127, "uri:escape-charset", "'%s' -> '%s'", mon::esc(raw).c_str(), mon::esc(esc.c_str()).c_str());
}

static void rootHistory(Rng& r)
{
	FUFileManager fmgr;
	char cwd[4096]; if (!getcwd(cwd, sizeof cwd)) return;
	std::vector<VS> stack; stack.push_back(split(cwd));
	int n = r.range(3, 25);
	for (int i = 0; i < n; ++i)
	{
		int op = r.range(0, 3);
		mon::sig((uint64_t) op);
		VS top = stack.back();
		if (op == 0 || op == 1)
		{
			VS rel; S text;
			if (r.chance(40)) { Base b = rndBase(r, false); rel = b.dirs; if (rel.empty()) rel.push_back("root"); text = join(rel); top = rel; }
			else { text = rndRel(r, rel); top.insert(top.end(), rel.begin(), rel.end()); top = norm(top); }
			if (top.empty()) continue;
			if (op == 0) { if (r.chance(30)) text += "/"; fmgr.PushRootPath(fm::string(text.c_str())); }
			else { fmgr.PushRootFile(fm::string(text.c_str())); top.pop_back(); }
			stack.push_back(top);
			if (top.empty()) { fmgr.PopRootPath(); stack.pop_back(); }
		}
		else if (op == 2) { r.chance(50) ? fmgr.PopRootPath() : fmgr.PopRootFile(); if (stack.size() > 1) stack.pop_back(); }
		else
		{
			VS rel; S text = rndRel(r, rel); VS all = stack.back(); all.insert(all.end(), rel.begin(), rel.end());
			S got = s_(fmgr.GetCurrentUri().MakeAbsolute(fm::string(text.c_str())));
			CHECK(got == join(norm(all)), "manager:resolve", "root '%s' + '%s' -> '%s'", join(stack.back()).c_str(), text.c_str(), got.c_str());
		}
		S got = s_(fmgr.GetCurrentUri().GetAbsolutePath()), want = join(stack.back());
		if (want != "/") want += "/";
		mon::hit("root_path_steps");
		CHECK(got == want, "manager:root", "after %d operations the root is '%s', expected '%s'", i + 1, got.c_str(), want.c_str());
	}
	// Files are found relative to the root path.
	S d = mon::tmpDir + "/uri-root"; mkdir(d.c_str(), 0755);
	S f = d + "/probe.txt"; if (FILE* h = fopen(f.c_str(), "w")) { fputs("x", h); fclose(h); }
	fmgr.PushRootPath(fm::string(d.c_str()));
	CHECK(fmgr.FileExists("probe.txt") && fmgr.FileExists("./probe.txt") && fmgr.FileExists("../uri-root/probe.txt") && fmgr.FileExists(fm::string(f.c_str())) && fmgr.FileExists(fm::string(("file://" + f).c_str())), "manager:exists", "'%s' was not found", f.c_str());
	CHECK(!fmgr.FileExists("nope.txt") && !fmgr.FileExists("../probe.txt"), "manager:exists", "a missing file was found");
	unlink(f.c_str()); rmdir(d.c_str());
	char exe[4096]; ssize_t l = readlink("/proc/self/exe", exe, sizeof(exe) - 1);
	if (l > 0) { exe[l] = 0; *strrchr(exe, '/') = 0; CHECK(s_(FUFileManager::GetApplicationFolderName()) == exe, "manager:application-folder", "'%s'", FUFileManager::GetApplicationFolderName().c_str()); }
}

PROP(C17, "the case parsed, resolved or relativised URIs or ran a root-path history, and every result was compared with the reference")
{
	mon::nontrivial();
	switch (r.below(4)) { case 0: parseParts(r); break; case 1: resolve(r); resolve(r); break; case 2: paths(r); break; default: rootHistory(r); }
}
