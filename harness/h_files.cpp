// C37: the file manager gives each file to the callbacks of its scheme; files and logs hold what was written.
#include "docmon.h"
#include "FUtils/FUFile.h"
#include "FUtils/FULogFile.h"
#include "FUtils/FUUri.h"
#include <memory>
#include <sys/stat.h>
#include <unistd.h>

namespace
{
const FUUri::Scheme schemes[] = { FUUri::FILE, FUUri::HTTP, FUUri::HTTPS, FUUri::FTP };
const char* schemeText[] = { "file", "http", "https", "ftp" };

struct Server                                    // shared by the callbacks, and alive as long as one of them is
{
	std::vector<S>& log; S name; S root; int& alive;
	Server(std::vector<S>& l, const S& n, const S& dir, int& a) : log(l), name(n), root(dir), alive(a) { ++alive; }
	~Server() { --alive; }
};
typedef std::shared_ptr<Server> ServerRef;
S leaf(const S& p) { size_t k = p.find_last_of("/\\"); return k == S::npos ? p : p.substr(k + 1); }
struct What { bool load, exists, request; int openers; };

// A file name "x.gz" is taken by the opener for "gz", which gives "x"; and so on until none is left.
SchemeCallbacks* make(Rng& r, ServerRef s, What& w)
{
	SchemeCallbacks* c = NewSchemeCallbacks(); w.load = r.chance(70); w.exists = r.chance(60); w.request = r.chance(50); w.openers = r.chance(50) ? r.range(1, 2) : 0;
	if (w.load) c->load = new SchemeLoadCallback([s](const FUUri& u) { s->log.push_back(s->name + " load " + u.GetAbsolutePath().c_str()); return fstring((s->root + "/" + leaf(u.GetPath().c_str())).c_str()); });
	if (w.exists) c->exists = new SchemeExistsCallback([s](const FUUri& u) { s->log.push_back(s->name + " exists " + u.GetAbsolutePath().c_str()); return access((s->root + "/" + leaf(u.GetPath().c_str())).c_str(), F_OK) == 0; });
	if (w.request) c->request = new SchemeRequestFileCallback([s](const FUUri& u, SchemeOnCompleteCallback* done, size_t data) { s->log.push_back(s->name + " request " + u.GetAbsolutePath().c_str()); (*done)(u.GetPath(), data); });
	for (int k = 0; k < w.openers; ++k)
	{
		S ext = k == 0 ? ".gz" : ".enc";
		c->openers.push_back(new SchemePreProcessCallback([s, ext](const fstring& in, fstring& out)
		{
			S i = in.c_str(); if (i.size() <= ext.size() || i.compare(i.size() - ext.size(), ext.size(), ext) != 0) return false;
			S o = i.substr(0, i.size() - ext.size()); s->log.push_back(s->name + " open" + ext + " " + i); out = o.c_str(); return true;
		}));
	}
	return c;
}

S slurp(FUFile* f) { S t; if (f == NULL || !f->IsOpen()) return "(closed)"; t.resize(f->GetLength()); if (!t.empty() && !f->Read(&t[0], t.size())) return "(unread)"; return t; }

void managers(Rng& r)
{
	std::vector<S> log; int alive = 0;
	S local = mon::tmpDir + "/local", remote[2] = { mon::tmpDir + "/remote0", mon::tmpDir + "/remote1" };
	mkdir(local.c_str(), 0755); for (auto& d : remote) mkdir(d.c_str(), 0755);
	const char* names[] = { "a.txt", "b.txt", "a.txt.gz", "c.enc", "c.gz.enc", "c" };
	std::map<S, S> disk; std::vector<S> dirs{ local, remote[0], remote[1] };
	for (auto& d : dirs) for (auto* n : names) { S p = d + "/" + n; if (r.chance(50)) { disk[p] = leaf(d) + ":" + n; writeFile(p, disk[p]); } else unlink(p.c_str()); }
	size_t opened = 0, called = 0;
	{
		struct Side { FUFileManager m; std::map<int, What> what; std::map<int, ServerRef> server; };
		std::unique_ptr<Side> sides[2]; for (auto& s : sides) { s.reset(new Side()); s->m.PushRootPath(local.c_str()); }
		int serial = 0; int steps = r.range(5, 40);
		for (int step = 0; step < steps; ++step)
		{
			int side = r.range(0, 1); Side& x = *sides[side]; int sc = r.range(0, 3); const FUUri::Scheme scheme = schemes[sc];
			switch (r.below(12))
			{
			case 0: case 1: { ServerRef s(new Server(log, "s" + std::to_string(serial++), remote[r.below(2)], alive)); What w; x.m.SetSchemeCallbacks(scheme, make(r, s, w)); x.what[sc] = w; x.server[sc] = s; break; }
			case 2: x.m.RemoveSchemeCallbacks(scheme); x.what.erase(sc); x.server.erase(sc); break;
			case 3: if (r.chance(30)) { x.m.RemoveAllSchemeCallbacks(); x.what.clear(); x.server.clear(); } break;
			case 4: if (r.chance(50)) { Side& y = *sides[r.chance(80) ? 1 - side : side]; x.m.CloneSchemeCallbacks(&y.m); if (&x != &y) { x.what = y.what; x.server = y.server; } } break;
			case 5: if (r.chance(30)) { sides[side].reset(new Side()); sides[side]->m.PushRootPath(local.c_str()); } break;
			case 6: case 7:
			{ // Does it exist?
				S n = names[r.below(6)]; bool rel = sc == 0 && r.chance(50); S full = sc == 0 ? local + "/" + n : S(schemeText[sc]) + "://host/dir/" + n; log.clear();
				bool got = x.m.FileExists((rel ? n : full).c_str()); bool cb = x.what.count(sc) && x.what[sc].exists;
				if (cb)
				{
					Server& s = *x.server[sc]; ++called;
					CHECK(log.size() == 1 && log[0] == s.name + " exists " + full, "exists-callback", "%zu calls, first '%s', for %s", log.size(), log.empty() ? "" : log[0].c_str(), full.c_str());
					CHECK(got == (disk.count(s.root + "/" + n) != 0), "exists-remote", "%s: %d", full.c_str(), (int) got);
				}
				else { CHECK(log.empty(), "exists-callback", "unexpected '%s'", log.empty() ? "" : log[0].c_str()); CHECK(got == (sc == 0 && disk.count(full)), "exists-local", "%s: %d", full.c_str(), (int) got); }
				mon::hit("existence queries"); break;
			}
			default:
			{ // Open it.
				S n = names[r.below(6)]; bool rel = sc == 0 && r.chance(50); S full = sc == 0 ? local + "/" + n : S(schemeText[sc]) + "://host/dir/" + n; log.clear();
				bool has = x.what.count(sc) != 0; What w = has ? x.what[sc] : What{ false, false, false, 0 }; S sname = has ? x.server[sc]->name : S(), root = has ? x.server[sc]->root : S();
				bool background = has && w.request && r.chance(50); size_t token = r.below(1000), gotToken = ~(size_t) 0; S gotPath;
				SchemeOnCompleteCallback done([&](const fstring& p, size_t t) { gotPath = p.c_str(); gotToken = t; });
				S before = x.m.GetCurrentUri().GetAbsolutePath().c_str();
				FUFile* f = x.m.OpenFile((rel ? n : full).c_str(), false, background ? &done : NULL, token);
				std::vector<S> want; S path = full; bool processed = false;
				if (background) { want.push_back(sname + " request " + full); CHECK(f == NULL && gotToken == token && leaf(gotPath) == n, "request", "%s: file %d, token %zu for %zu, path %s", full.c_str(), f != NULL, gotToken, token, gotPath.c_str()); }
				else
				{
					if (w.load) { want.push_back(sname + " load " + full); path = root + "/" + n; }
					for (bool more = true; more;)
					{
						more = false;
						for (int k = 0; k < w.openers; ++k) { S ext = k == 0 ? ".gz" : ".enc"; if (path.size() > ext.size() && path.compare(path.size() - ext.size(), ext.size(), ext) == 0) { want.push_back(sname + " open" + ext + " " + path); path.resize(path.size() - ext.size()); more = processed = true; break; } }
					}
					CHECK(f != NULL, "opened", "%s: nothing returned", full.c_str());
					S text = slurp(f), expect = disk.count(path) ? disk[path] : S("(closed)");
					CHECK(text == expect, "content", "%s gave '%s', expected '%s' from %s", full.c_str(), text.c_str(), expect.c_str(), path.c_str()); opened += expect != "(closed)";
					S now = x.m.GetCurrentUri().GetAbsolutePath().c_str(); CHECK(now == (processed ? path : before), "current", "%s: root is '%s', expected '%s'", full.c_str(), now.c_str(), (processed ? path : before).c_str());
					if (processed) { x.m.PopRootPath(); x.m.PushRootPath(local.c_str()); }
				}
				CHECK(log == want, "calls", "%s: %zu calls (%s), expected %zu (%s)", full.c_str(), log.size(), log.empty() ? "" : log.back().c_str(), want.size(), want.empty() ? "" : want.back().c_str());
				called += want.size(); SAFE_DELETE(f); mon::hit(want.empty() ? "files opened without callbacks" : "files opened by callbacks");
			}
			}
			std::set<Server*> held; for (auto& s : sides) for (auto& e : s->server) held.insert(e.second.get());
			CHECK(alive == (int) held.size(), "callbacks-alive", "%d sets of callbacks alive, %zu registered", alive, held.size());
		}
	}
	CHECK(alive == 0, "callbacks-left", "%d", alive);
	mon::sig(opened * 64 + called); mon::sig(log.empty() ? S() : log.back()); if (opened + called > 0) mon::nontrivial(); mon::hit("manager histories");
}

// A document read through callbacks, with those it refers to.
void remoteDocuments(Rng& r)
{
	S dir = mon::tmpDir + "/served"; mkdir(dir.c_str(), 0755); std::vector<S> log; int alive = 0;
	int count = r.range(2, 4); std::vector<std::set<int>> refs(count); bool missing = r.chance(20);
	{
		std::vector<std::unique_ptr<DocRef>> docs; std::vector<FCDCamera*> cams;
		for (int k = 0; k < count; ++k) { docs.emplace_back(new DocRef()); (*docs[k])->SetFileUrl((dir + "/d" + std::to_string(k) + ".dae").c_str()); FCDCamera* c = (*docs[k])->GetCameraLibrary()->AddEntity(); c->SetName(("cam" + std::to_string(k)).c_str()); c->SetDaeId(("cam" + std::to_string(k)).c_str()); cams.push_back(c); }
		for (int k = 0; k < count; ++k)
		{
			FCDSceneNode* root = (*docs[k])->AddVisualScene();
			for (int q = 0; q < count; ++q) if (q > k && r.chance(60)) // a cycle keeps itself loaded
				 { root->AddChildNode()->AddInstance(cams[q]); refs[k].insert(q); }
		}
		for (int k = 0; k < count; ++k) { ErrorTap tap; CHECK(saveDoc(*docs[k], dir + "/d" + std::to_string(k) + ".dae"), "save", "%s", tap.all().c_str()); }
	}
	int gone = missing ? count - 1 : -1; if (missing) unlink((dir + "/d" + std::to_string(gone) + ".dae").c_str());
	std::set<int> reach, todo{ 0 }; while (!todo.empty()) { int k = *todo.begin(); todo.erase(k); if (!reach.insert(k).second || k == gone) continue; for (int q : refs[k]) todo.insert(q); }
	int sc = r.range(1, 3); const S base = S(schemeText[sc]) + "://server/dir/";
	{
		DocRef d; ServerRef s(new Server(log, "web", dir, alive));
		SchemeCallbacks* c = NewSchemeCallbacks();
		c->load = new SchemeLoadCallback([s](const FUUri& u) { s->log.push_back(u.GetAbsolutePath().c_str()); return fstring((s->root + "/" + leaf(u.GetPath().c_str())).c_str()); });
		d->GetFileManager()->SetSchemeCallbacks(schemes[sc], c); s.reset();
		ErrorTap tap; bool ok = loadDoc(d, base + "d0.dae"); CHECK(ok, "remote-load", "%s", tap.all().c_str());
		CHECK(S(d->GetFileUrl().c_str()) == base + "d0.dae", "remote-url", "%s", d->GetFileUrl().c_str());
		CHECK(!log.empty() && log[0] == base + "d0.dae", "remote-first", "%s", log.empty() ? "" : log[0].c_str());
		// Every reference is resolved.
		FCDSceneNode* root = d->GetVisualSceneInstance(); size_t k = 0; CHECK(root != NULL && root->GetChildrenCount() == refs[0].size(), "remote-nodes", "%zu", root ? root->GetChildrenCount() : 0);
		if (root) for (int q : refs[0])
		{
			if (k >= root->GetChildrenCount()) break;
			FCDSceneNode* n = root->GetChild(k++); if (n->GetInstanceCount() != 1) { CHECK(false, "remote-instance", "%zu", n->GetInstanceCount()); continue; }
			mon::AllowAsserts allow; // a reference which leads nowhere
			FCDEntity* e = n->GetInstance(0)->GetEntity(); CHECK((e != NULL) == (q != gone), "remote-entity", "reference to d%d: %d", q, e != NULL);
			if (e) { CHECK(S(e->GetName().c_str()) == "cam" + std::to_string(q), "remote-other", "%s", e->GetName().c_str()); CHECK(S(e->GetDocument()->GetFileUrl().c_str()) == base + "d" + std::to_string(q) + ".dae", "remote-document-url", "%s", e->GetDocument()->GetFileUrl().c_str()); }
		}
		std::map<S, int> times; for (auto& l : log) ++times[l];
		for (int q : refs[0]) { S u = base + "d" + std::to_string(q) + ".dae"; if (q != gone) CHECK(times[u] == 1, "remote-times", "%s asked for %d times", u.c_str(), times[u]); else CHECK(times[u] >= 1, "remote-times", "%s never asked for", u.c_str());  }
		for (int q : reach) { S u = base + "d" + std::to_string(q) + ".dae"; if (q != gone) CHECK(times[u] <= 1, "remote-times", "%s asked for %d times", u.c_str(), times[u]); times.erase(u); }
		for (auto& t : times) CHECK(t.second == 0, "remote-stray", "%s asked for", t.first.c_str());
		CHECK(alive == 1, "remote-callbacks", "%d sets of callbacks", alive);
		mon::hit("documents served", log.size()); mon::sig(log.size()); for (auto& l : log) mon::sig(l);
	}
	CHECK(alive == 0, "callbacks-left", "%d", alive); mon::nontrivial();
}

void files(Rng& r)
{
	S path = mon::tmpDir + "/file.bin"; unlink(path.c_str()); S model; bool exists = false;
	FUFile f; bool open = false, writing = false; size_t at = 0; size_t bytes = 0;
	for (int step = r.range(4, 40); step > 0; --step) switch (r.below(8))
	{
	case 0: case 1:
	{
		bool w = r.chance(50); bool ok = f.Open(path.c_str(), w ? FUFile::WRITE : FUFile::READ); bool want = !open && (w || exists);
		CHECK(ok == want, "open", "%s: %d, expected %d", w ? "writing" : "reading", (int) ok, (int) want);
		if (ok && want) { open = true; writing = w; at = 0; if (w) { exists = true; model.clear(); } } break;
	}
	case 2: if (open) { f.Close(); open = false; } break;
	case 3: if (open) CHECK(f.GetLength() == model.size(), "length", "%zu, expected %zu", f.GetLength(), model.size()); break;
	case 4: if (open && r.chance(30)) f.Flush(); break;
	default:
		if (open && writing) { S t; for (int k = r.chance(10) ? r.range(4000, 9000) : r.range(0, 40); k > 0; --k) t += (char) r.below(256); CHECK(f.Write(t.data(), t.size()), "write", "%zu bytes", t.size()); model += t; bytes += t.size(); }
		else if (open) { size_t n = r.chance(10) ? (size_t) r.range(4000, 9000) : (size_t) r.range(0, 60); S t(n, '?'); bool ok = f.Read(&t[0], n); bool want = at + n <= model.size(); size_t got = want ? n : model.size() - at;
			CHECK(ok == want, "read", "%zu of %zu at %zu: %d", n, model.size(), at, (int) ok); CHECK(t.substr(0, got) == model.substr(at, got), "read-bytes", "differ at %zu", at); at += got; bytes += got; }
	}
	CHECK(f.IsOpen() == open, "is-open", "%d", (int) f.IsOpen());
	if (open) f.Close();
	if (exists) CHECK(readFile(path) == model, "file", "%zu bytes, expected %zu", readFile(path).size(), model.size());
	unlink(path.c_str());
	{ FUFile g((mon::tmpDir).c_str(), FUFile::READ); CHECK(!g.IsOpen(), "folder-opened", "as a file"); }
	// Folders.
	S d = mon::tmpDir + "/made"; rmdir(d.c_str());
	bool first = FUFileManager::MakeDirectory(d.c_str()); struct stat st; CHECK(first && stat(d.c_str(), &st) == 0 && S_ISDIR(st.st_mode), "make-folder", "%d", (int) first);
	CHECK(FUFileManager::MakeDirectory(d.c_str()), "make-again", "a folder which exists"); rmdir(d.c_str());
	CHECK(!FUFileManager::MakeDirectory((mon::tmpDir + "/no/where").c_str()), "make-deep", "without its parent");
	writeFile(d, "x"); CHECK(!FUFileManager::MakeDirectory(d.c_str()), "make-over-file", "a file has the name"); unlink(d.c_str());
	mon::hit("file bytes", bytes); mon::sig(bytes); if (bytes > 0) mon::nontrivial();
}

void logs(Rng& r)
{
	S path = mon::tmpDir + "/log.txt", model; unlink(path.c_str()); int lines = 0;
	{
		FULogFile log(path.c_str()); CHECK(log.GetFile()->IsOpen(), "log-open", "%s", path.c_str());
		for (int k = r.range(1, 12); k > 0; --k)
		{
			S text; for (int q = r.chance(10) ? r.range(200, 3000) : r.range(0, 30); q > 0; --q) text += (char) r.range(32, 126);
			int n = (int) r.next(); float f = (float) r.range(-1000, 1000) / 8;
			char buf[64];
			switch (r.below(4))
			{
			case 0: log.WriteLine("%s", text.c_str()); model += text + "\n\r"; break;
			case 1: log.WriteLine("%s and %d", text.c_str(), n); model += text + " and " + std::to_string(n) + "\n\r"; break;
			case 2: snprintf(buf, sizeof buf, "%.3f%%", f); log.WriteLine("%.3f%%", f); model += S(buf) + "\n\r"; break;
			default: { uint32 line = (uint32) r.below(100000); log.WriteLine("some/file.cpp", line, "%s %d", text.c_str(), n); model += "[some/file.cpp:" + std::to_string(line) + "]\n\r" + text + " " + std::to_string(n) + "\n\r"; }
			}
			++lines;
			if (r.chance(30)) log.Flush();
			CHECK(readFile(path) == model, "log", "%zu bytes after %d lines, expected %zu", readFile(path).size(), lines, model.size());
		}
	}
	CHECK(readFile(path) == model, "log-closed", "%zu bytes, expected %zu", readFile(path).size(), model.size());
	{ FULogFile none((mon::tmpDir + "/no/such/log").c_str()); mon::AllowAsserts allow; none.WriteLine("%s", "lost"); }
	unlink(path.c_str()); mon::hit("log lines", lines); mon::sig(mon::hash(model.data(), model.size())); mon::nontrivial();
}
}

PROP(C37, "files opened and looked for through callbacks, documents served by callbacks, raw files and logs: a case counts when a file was opened, a callback was called or bytes were moved")
{
	switch (r.below(8)) { case 0: case 1: case 2: managers(r); break; case 3: case 4: remoteDocuments(r); break; case 5: case 6: files(r); break; default: logs(r); }
}
