// C36: plug-ins are called exactly when they should be, and parts of a document can be exported and imported alone.
#include "docmon.h"
#include "FColladaPlugin.h"
#include "FUtils/FUPluginManager.h"
#include "FUtils/FUXmlDocument.h"
#include <libxml/parser.h>
#include <libxml/tree.h>
#include <sys/stat.h>
#include <unistd.h>

namespace
{
// ---- Technique plug-ins ----
struct Thing : FUTrackable                       // what a plug-in makes out of an extra tree
{
	S payload; int* alive;
	Thing(const S& p, int* a) : payload(p), alive(a) { ++*alive; }
	~Thing() { --*alive; }
};
struct Event { S op, payload, parent; FUTrackable* object; };
struct Log { std::vector<Event> events; int alive = 0; int plugins = 0; };

S describe(const FUObject* o)
{
	if (o == NULL) return "(none)";
	if (o->HasType(FCDPhysicsRigidBody::GetClassType())) return "body"; // known by their sid
	if (o->HasType(FCDPhysicsRigidConstraint::GetClassType())) return "constraint";
	if (o->HasType(FCDEntity::GetClassType())) return S("entity ") + ((const FCDEntity*) o)->GetDaeId().c_str();
	return S(o->GetObjectType().GetTypeName());
}

void writeTree(FCDETechnique* t, const S& payload, int shape)
{
	// The same payload in one of several forms.
	if (shape == 0) t->AddParameter("payload", payload.c_str());
	else if (shape == 1) { FCDENode* n = t->AddChildNode("holder"); n->AddAttribute("kind", FC("x")); n->AddParameter("payload", payload.c_str()); }
	else { t->AddParameter("before", FC("1")); t->AddParameter("payload", payload.c_str()); t->AddParameter("after", FC("2")); }
}
S payloadOf(const FCDENode* n)
{
	for (size_t k = 0; k < n->GetChildNodeCount(); ++k)
	{
		const FCDENode* c = n->GetChildNode(k);
		if (S(c->GetName()) == "payload") return c->GetContent();
		S s = payloadOf(c); if (!s.empty()) return s;
	}
	return "";
}
struct Technique : FCPExtraTechnique
{
	S profile; Log& log; bool keeps;
	Technique(const S& p, Log& l, bool k) : profile(p), log(l), keeps(k) { ++log.plugins; }
	~Technique() { --log.plugins; }
	const char* GetPluginName() const { return "monitor"; }
	uint32 GetPluginVersion() const { return 1; }
	const char* GetProfileName() { return profile.c_str(); }
	FUTrackable* ReadFromArchive(FCDETechnique* t, FUObject* parent)
	{
		S p = payloadOf(t); bool take = keeps || (!p.empty() && p.back() % 2 == 0);
		Thing* o = take ? new Thing(p, &log.alive) : NULL;
		log.events.push_back(Event{ "read " + profile, p, describe(parent), o }); return o;
	}
	void WriteToArchive(FCDETechnique* t, const FUTrackable* handle) const
	{
		const Thing* o = (const Thing*) handle; writeTree(t, o->payload, (int) o->payload.size() % 3);
		log.events.push_back(Event{ "write " + profile, o->payload, "", (FUTrackable*) handle });
	}
};

// Every technique of a document, by the kind of its owner.
struct Site { FCDETechnique* t; S parent; };
std::vector<Site> sites(FCDocument* d)
{
	std::vector<Site> v;
	FCDExtraSet& all = d->GetExtraTrees();
	for (FCDExtraSet::iterator it = all.begin(); it != all.end(); ++it)
		for (size_t i = 0; i < it->first->GetTypeCount(); ++i)
			for (size_t j = 0; j < it->first->GetType(i)->GetTechniqueCount(); ++j)
				v.push_back(Site{ it->first->GetType(i)->GetTechnique(j), describe(it->first->GetParent()) });
	return v;
}
typedef std::vector<std::pair<S, S>> Calls;    // payload, parent
Calls sorted(Calls c) { std::sort(c.begin(), c.end()); return c; }
S show(const Calls& c) { S s; for (auto& p : c) s += p.first + "@" + p.second + " "; return s; }
Calls taken(const Log& l, size_t from, const S& op) { Calls c; for (size_t k = from; k < l.events.size(); ++k) if (l.events[k].op == op) c.push_back({ l.events[k].payload, l.events[k].parent }); return sorted(c); }

void techniques(Rng& r)
{
	static const int parts[] = { DocGen::SCENE, DocGen::CAMERA | DocGen::LIGHT, DocGen::MESH, DocGen::MATERIAL, DocGen::PHYSICS, DocGen::EXTRA | DocGen::CAMERA, DocGen::ASSET, DocGen::SPLINE, DocGen::EMITTER | DocGen::FORCE };
	int flags = 0; for (int k = r.range(1, 3); k > 0; --k) flags |= parts[r.below(9)];
	Log log; FColladaPluginManager* m = FCollada::GetPluginManager();
	const S profiles[] = { "MONITOR", "OTHER", "monitor" };
	std::vector<Technique*> plugins;
	int count = r.range(1, 3);
	for (int k = 0; k < count; ++k) { Technique* t = new Technique(profiles[k], log, r.chance(60)); plugins.push_back(t); CHECK(m->RegisterPlugin(t), "registered", "%s", profiles[k].c_str()); }
	{ Technique* nameless = new Technique("", log, true); CHECK(!m->RegisterPlugin(nameless), "registered-nameless", "a technique without a profile"); nameless->Release(); }
	CHECK(!m->RegisterPlugin(NULL), "registered-nothing", "NULL");

	S path = mon::tmpDir + "/p.dae"; size_t total = 0, handled = 0;
	std::map<S, Calls> expectRead;
	{
		DocRef d; DocGen g(r, d, flags, 1); g.build();
		// Payloads within any of the entities, and some for which there is no plug-in.
		std::vector<FCDExtra*> where; where.push_back(d->GetExtra());
		for (FCDEntity* e : g.entities) where.push_back(e->GetExtra());
		int n = r.range(1, 8);
		for (int k = 0; k < n; ++k)
		{
			FCDExtra* x = r.pick(where); S prof = r.chance(70) ? profiles[r.below(3)] : S("NOBODY");
			FCDEType* ty = x->AddType(r.chance(50) ? "" : ("t" + std::to_string(r.below(2))).c_str());
			if (ty->FindTechnique(prof.c_str()) != NULL) continue;
			FCDETechnique* t = ty->AddTechnique(prof.c_str()); S payload = "p" + std::to_string(k) + S(r.below(3), 'x') + std::to_string(r.below(10));
			writeTree(t, payload, r.range(0, 2)); ++total;
		}
		size_t before = log.events.size();
		ErrorTap tap; CHECK(saveDoc(d, path), "save", "%s", tap.all().c_str());
		CHECK(log.events.size() == before, "wrote-plain", "%zu calls for trees that no plug-in has taken", log.events.size() - before);
	}
	// What the file holds for each plug-in, as told by a document loaded without them.
	S filed; std::map<S, Calls> inFile;
	{
		DocRef d; for (auto* p : plugins) p->Release(); plugins.clear();
		CHECK(log.plugins == 0, "plugin-released", "%d left", log.plugins);
		size_t before = log.events.size();
		CHECK(loadDoc(d, path), "load", "plain"); CHECK(log.events.size() == before, "released-called", "%zu calls", log.events.size() - before);
		for (auto& s : sites(d)) inFile[s.t->GetProfile()].push_back({ payloadOf(s.t), s.parent });
		filed = dumpDoc(d).text();
	}
	for (int k = 0; k < count; ++k) { Technique* t = new Technique(profiles[k], log, r.chance(60)); plugins.push_back(t); m->RegisterPlugin(t); }
	{
		DocRef d; size_t from = log.events.size();
		CHECK(loadDoc(d, path), "load", "with plug-ins");
		for (auto* p : plugins)
		{
			Calls want = sorted(inFile[p->profile]), got = taken(log, from, "read " + p->profile);
			CHECK(want == got, "read-calls", "%s: file has %s, plug-in saw %s", p->profile.c_str(), show(want).c_str(), show(got).c_str());
			handled += got.size();
		}
		std::map<FUTrackable*, S> objects; for (size_t k = from; k < log.events.size(); ++k) if (log.events[k].object) objects[log.events[k].object] = log.events[k].payload;
		size_t held = 0;
		auto inspect = [&](const char* when)
		{
			held = 0;
			for (auto& s : sites(d)) if (FUTrackable* o = s.t->GetPluginObject())
			{
				++held; CHECK(objects.count(o), "object", "%s: an object that no plug-in made", when);
				CHECK(s.t->GetChildNodeCount() == 0, "tree-left", "%s: %zu nodes remain beside the object of %s", when, s.t->GetChildNodeCount(), objects[o].c_str());
			}
			CHECK(held == objects.size() && (int) held == log.alive, "objects-held", "%s: %zu made, %zu held, %d alive", when, objects.size(), held, log.alive);
		};
		inspect("after the load");
		for (auto& s : sites(d)) if (s.t->GetPluginObject() == NULL && s.parent.size())
		{ // those that were declined, or that are nobody's, remain as they were
			S p = payloadOf(s.t); bool mine = false; for (auto& c : inFile[s.t->GetProfile()]) if (c.first == p) mine = true;
			CHECK(mine, "tree-lost", "%s: %s", s.t->GetProfile(), p.c_str());
		}
		// Saving gives each object to its plug-in once, and leaves nothing behind; also when it fails.
		int saves = r.range(1, 3);
		for (int k = 0; k < saves; ++k)
		{
			bool bad = r.chance(25); S to = bad ? mon::tmpDir + "/missing/q.dae" : mon::tmpDir + "/q.dae"; from = log.events.size();
			{ ErrorTap tap; CHECK(saveDoc(d, to) == !bad, "save-status", "%d", (int) bad); }
			std::map<FUTrackable*, int> calls; for (size_t e = from; e < log.events.size(); ++e) { CHECK(log.events[e].op.compare(0, 5, "write") == 0, "save-called", "%s", log.events[e].op.c_str()); ++calls[log.events[e].object]; }
			for (auto& o : objects) CHECK(calls[o.first] == 1, "write-calls", "%s written %d times", o.second.c_str(), calls[o.first]);
			inspect("after a save"); mon::hit(bad ? "saves failed with plug-ins" : "saves with plug-ins");
			if (bad) continue;
			// Without the plug-ins, the content of the file is that of the first file.
			for (auto* p : plugins) p->Release(); plugins.clear();
			{ DocRef e; CHECK(loadDoc(e, to), "reload", "saved with plug-ins"); std::map<S, Calls> now; for (auto& s : sites(e)) now[s.t->GetProfile()].push_back({ payloadOf(s.t), s.parent });
			  for (auto& f : inFile) if (f.first != "") CHECK(sorted(f.second) == sorted(now[f.first]), "content", "%s: %s became %s", f.first.c_str(), show(sorted(f.second)).c_str(), show(sorted(now[f.first])).c_str()); }
			for (int q = 0; q < count; ++q) { Technique* t = new Technique(profiles[q], log, true); plugins.push_back(t); m->RegisterPlugin(t); }
		}
		// An object goes with the tree which holds it.
		std::vector<Site> all = sites(d);
		if (!all.empty() && r.chance(60))
		{
			FCDETechnique* t = r.pick(all).t; bool had = t->GetPluginObject() != NULL; int alive = log.alive; t->Release();
			CHECK(log.alive == alive - (had ? 1 : 0), "object-released", "%d alive before, %d after", alive, log.alive); mon::hit("techniques released", had);
		}
	}
	CHECK(log.alive == 0, "objects-left", "%d objects outlive their document", log.alive);
	// A document that cannot be loaded is not shown to the plug-ins.
	if (r.chance(30))
	{
		S text = readFile(path); text.resize(text.size() * (50 + r.below(45)) / 100); S cut = mon::tmpDir + "/cut.dae"; writeFile(cut, text);
		size_t from = log.events.size(); { DocRef d; ErrorTap tap; bool ok = loadDoc(d, cut); CHECK(!ok, "cut-loaded", "half a file"); }
		CHECK(log.events.size() == from, "failed-called", "%zu calls for a file that cannot be read", log.events.size() - from); mon::hit("failed loads with plug-ins");
	}
	for (auto* p : plugins) p->Release();
	CHECK(log.plugins == 0, "plugin-released", "%d left", log.plugins);
	mon::hit("trees for plug-ins", handled); mon::hit("technique documents"); mon::sig(handled * 16 + total); for (auto& e : log.events) { mon::sig(e.op); mon::sig(e.payload); }
	if (handled > 0) mon::nontrivial();
}

// ---- Archives ----
struct Archive : FCPArchive
{
	std::vector<S> exts; bool result; std::vector<S>& log; int id; int& alive;
	Archive(int i, std::vector<S>& l, bool res, int& a) : result(res), log(l), id(i), alive(a) { ++alive; }
	~Archive() { --alive; }
	void note(const char* what, const fchar* p) { log.push_back(std::to_string(id) + " " + what + " " + p); }
	const char* GetPluginName() const { return "archive"; }
	uint32 GetPluginVersion() const { return 7; }
	bool IsImportSupported() { return true; }
	bool IsExportSupported() { return true; }
	bool IsPartialExportSupported() { return false; }
	bool IsExtensionSupported(const char* e) { for (auto& x : exts) if (x == e) return true; return false; }
	int GetSupportedExtensionsCount() { return (int) exts.size(); }
	const char* GetSupportedExtensionAt(int i) { return i < 0 || i >= (int) exts.size() ? NULL : exts[i].c_str(); }
	bool ImportFile(const fchar* p, FCDocument*) { note("import", p); return result; }
	bool ImportFileFromMemory(const fchar* p, FCDocument*, const void* c, size_t n) { note("memory", p); log.back() += " " + S((const char*) c, n); return result; }
	bool ExportFile(FCDocument*, const fchar* p) { note("export", p); return result; }
	bool StartExport(const fchar*) { return false; }
	bool ExportObject(FCDObject*) { return false; }
	bool EndExport(fm::vector<uint8>&) { return false; }
	bool EndExport(const fchar*) { return false; }
	bool ImportObject(FCDObject*, const fm::vector<uint8>&) { return false; }
};
S lower(S s) { for (auto& c : s) if (c >= 'A' && c <= 'Z') c += 32; return s; }

void archives(Rng& r)
{
	FColladaPluginManager* m = FCollada::GetPluginManager(); size_t base = m->GetArchivePluginsCount();
	CHECK(base == 1, "archives", "%zu registered at first", base); FCPArchive* xml = m->GetArchivePlugin(0);
	static const char* words[] = { "dae", "xml", "DAE", "foo", "bar", "x3d", "Foo", "f", "da", "daex", "tar.gz" };
	std::vector<S> log, all; int alive = 0; std::vector<Archive*> mine; std::vector<S> extra; // added to the XML archive
	size_t calls = 0;
	int steps = r.range(4, 25);
	for (int step = 0; step < steps; ++step)
	{
		S w = words[r.below(11)];
		switch (r.below(7))
		{
		case 0: { if (mine.size() > 3) break; Archive* a = new Archive((int) r.below(1000), log, r.chance(70), alive); for (int k = r.range(0, 3); k > 0; --k) a->exts.push_back(words[r.below(10)]); mine.push_back(a); CHECK(m->RegisterPlugin(a), "register-archive", "refused"); CHECK(m->GetArchivePlugin(m->GetArchivePluginsCount() - 1) == a, "archive-order", "not the last"); break; }
		case 1: if (!mine.empty()) { size_t k = r.below(mine.size()); int was = alive; mine[k]->Release(); mine.erase(mine.begin() + k); CHECK(alive == was - 1, "archive-released", "%d -> %d", was, alive); } break;
		case 2:
		{
			bool has = w == "dae" || w == "xml" || std::find(extra.begin(), extra.end(), w) != extra.end();
			bool ok = xml->AddExtraExtension(w.c_str()); CHECK(ok == !has, "add-extension", "%s: %d", w.c_str(), (int) ok); if (ok) extra.push_back(w); break;
		}
		case 3:
		{
			auto it = std::find(extra.begin(), extra.end(), w); bool ok = xml->RemoveExtraExtension(w.c_str()); CHECK(ok == (it != extra.end()), "remove-extension", "%s: %d", w.c_str(), (int) ok);
			if (it != extra.end()) extra.erase(it); break;
		}
		default:
		{
			// Whose file is it? The first registered of those that read the extension, whatever the case.
			S dir = r.chance(50) ? mon::tmpDir + "/arch" : mon::tmpDir + "/ar.dae/x"; S file = dir + "." + (r.chance(30) ? "dae." : "") + w; if (r.chance(10)) { file = dir + "noext"; w = ""; if (file.find(".dae") != S::npos) file = mon::tmpDir + "/noext"; }
			S key = lower(w == "tar.gz" ? "gz" : w); int who = -2;
			auto supports = [&](const std::vector<S>& v) { for (auto& e : v) if (lower(e) == key) return true; return false; };
			std::vector<S> own(extra); own.push_back("dae"); own.push_back("xml");
			if (supports(own)) who = -1; else for (size_t k = 0; k < mine.size() && who == -2; ++k) if (supports(mine[k]->exts)) who = (int) k;
			all.insert(all.end(), log.begin(), log.end()); log.clear(); DocRef d; int what = (int) r.below(3); bool ok; S content = "content" + std::to_string(r.below(100)); ErrorTap tap;
			if (what == 0) ok = FCollada::SaveDocument(d, file.c_str());
			else if (what == 1) ok = FCollada::LoadDocumentFromFile(d, file.c_str());
			else ok = FCollada::LoadDocumentFromMemory(file.c_str(), d, (void*) content.data(), content.size());
			static const char* ops[] = { "export", "import", "memory" };
			++calls;
			if (who >= 0)
			{
				S want = std::to_string(mine[who]->id) + " " + ops[what] + " " + file + (what == 2 ? " " + content : S());
				CHECK(log.size() == 1 && log[0] == want, "archive-called", "expected '%s', saw %zu calls, first '%s'", want.c_str(), log.size(), log.empty() ? "" : log[0].c_str());
				CHECK(ok == mine[who]->result, "archive-status", "%d", (int) ok); mon::hit("files given to other archives");
			}
			else
			{
				CHECK(log.empty(), "archive-called", "'%s' for %s, with the XML archive %d", log.empty() ? "" : log[0].c_str(), file.c_str(), who);
				if (who == -2) { CHECK(!ok, "no-archive", "%s: reported as done", file.c_str()); CHECK(tap.errors.size() == 1, "no-archive-error", "%zu errors", tap.errors.size()); CHECK(access(file.c_str(), F_OK) != 0, "no-archive-file", "%s", file.c_str()); }
				else if (what == 0 && file.find("/x.") == S::npos)
				{
					CHECK(ok, "xml-archive", "%s was not written", file.c_str());
					DocRef e; CHECK(FCollada::LoadDocumentFromFile(e, file.c_str()), "xml-archive", "%s was not read", file.c_str()); unlink(file.c_str());
				}
				mon::hit(who == -2 ? "files nobody takes" : "files given to the XML archive");
			}
		}
		}
		// The list of extensions of the XML archive.
		CHECK(xml->GetSupportedExtensionsCount() == (int) extra.size() + 2, "extension-count", "%d, expected %zu", xml->GetSupportedExtensionsCount(), extra.size() + 2);
		std::vector<S> listed; for (int k = 0; k < xml->GetSupportedExtensionsCount(); ++k) { const char* e = xml->GetSupportedExtensionAt(k); listed.push_back(e ? e : "(null)"); }
		std::vector<S> want(extra); want.push_back("dae"); want.push_back("xml"); std::sort(listed.begin(), listed.end()); std::sort(want.begin(), want.end());
		CHECK(listed == want, "extensions", "differ");
		CHECK(xml->GetSupportedExtensionAt(xml->GetSupportedExtensionsCount() + (int) r.below(3)) == NULL, "extension-beyond", "not NULL");
		S q = words[r.below(11)]; CHECK(xml->IsExtensionSupported(q.c_str()) == (std::find(want.begin(), want.end(), q) != want.end()), "extension-supported", "%s", q.c_str());
	}
	for (auto* a : mine) a->Release(); for (auto& e : extra) xml->RemoveExtraExtension(e.c_str());
	CHECK(m->GetArchivePluginsCount() == base && alive == 0, "archives-left", "%zu, %d", m->GetArchivePluginsCount(), alive);
	mon::hit("archive histories"); for (auto& l : all) mon::sig(l.substr(0, l.find(' ', l.find(' ') + 1))); mon::sig(calls * 4 + extra.size()); if (calls > 0) mon::nontrivial();
}

// ---- Libraries of plug-ins ----
int made[8], gone[8];
struct Base : FUPlugin { DeclareObjectType(FUPlugin, Base) public: int k; Base(int i) : k(i) { ++made[k]; } ~Base() { ++gone[k]; } const char* GetPluginName() const { return "b"; } uint32 GetPluginVersion() const { return 0; } };
struct Derived : Base { DeclareObjectType(Base, Derived) public: Derived(int i) : Base(i) {} };
struct Aside : FUPlugin { DeclareObjectType(FUPlugin, Aside) public: int k; Aside(int i) : k(i) { ++made[k]; } ~Aside() { ++gone[k]; } const char* GetPluginName() const { return "a"; } uint32 GetPluginVersion() const { return 0; } };
ImplementObjectType(Base) ImplementObjectType(Derived) ImplementObjectType(Aside)
int kinds[2][4]; uint32 counts[2];                     // what each library offers: 0 base, 1 derived, 2 aside, 3 a derived which cannot be made
const FUObjectType* typeOf(int lib, uint32 i) { int k = kinds[lib][i]; return k == 0 ? &Base::GetClassType() : k == 2 ? &Aside::GetClassType() : &Derived::GetClassType(); }
FUPlugin* create(int lib, uint32 i) { int k = kinds[lib][i], at = lib * 4 + (int) i; switch (k) { case 0: return new Base(at); case 1: return new Derived(at); case 2: return new Aside(at); default: return NULL; } }
uint32 count0() { return counts[0]; } uint32 count1() { return counts[1]; }
const FUObjectType* type0(uint32 i) { return typeOf(0, i); } const FUObjectType* type1(uint32 i) { return typeOf(1, i); }
FUPlugin* create0(uint32 i) { return create(0, i); } FUPlugin* create1(uint32 i) { return create(1, i); }

void libraries(Rng& r)
{
	memset(made, 0, sizeof(made)); memset(gone, 0, sizeof(gone)); int want[8] = {};
	for (int l = 0; l < 2; ++l) { counts[l] = (uint32) r.range(0, 4); for (uint32 k = 0; k < counts[l]; ++k) kinds[l][k] = r.range(0, 3); }
	static const char* filters[] = { "*.none", "*.fcp|*.fvp", "*.a|*.b|*.c", "" };
	FUPluginManager* m = new FUPluginManager(filters[r.below(4)]); int libs = 0; std::vector<int> loaded;
	for (int step = r.range(2, 8); step > 0; --step) switch (r.below(4))
	{
	case 0: if (libs == 0) m->AddPluginLibrary(count0, (FUPluginManager::GetPluginType) type0, (FUPluginManager::CreatePlugin) create0); else if (libs == 1) m->AddPluginLibrary(count1, (FUPluginManager::GetPluginType) type1, (FUPluginManager::CreatePlugin) create1); if (libs < 2) ++libs; break;
	case 1: m->UnloadPlugins(); loaded.clear(); for (int k = 0; k < 8; ++k) CHECK(made[k] == gone[k], "unloaded", "plug-in %d: made %d, released %d", k, made[k], gone[k]); break;
	default:
	{
		int t = r.range(0, 4); const FUObjectType* types[] = { &FUPlugin::GetClassType(), &Base::GetClassType(), &Derived::GetClassType(), &Aside::GetClassType(), &FUObject::GetClassType() };
		for (int l = 0; l < libs; ++l) for (uint32 k = 0; k < counts[l]; ++k)
		{
			int kind = kinds[l][k]; if (kind == 3) continue;
			bool is = t == 0 || t == 4 || (t == 1 && kind != 2) || (t == 2 && kind == 1) || (t == 3 && kind == 2);
			if (is) { ++want[l * 4 + (int) k]; loaded.push_back(l * 4 + (int) k); }
		}
		m->LoadPlugins(*types[t]); mon::hit("plug-in libraries searched");
	}
	if (false) break;
	{
		CHECK(m->GetLoadedPluginCount() == loaded.size(), "loaded-count", "%zu, expected %zu", m->GetLoadedPluginCount(), loaded.size());
		for (int k = 0; k < 8; ++k) CHECK(made[k] == want[k], "loaded-kind", "plug-in %d made %d times, expected %d", k, made[k], want[k]);
		for (size_t k = 0; k < loaded.size() && k < m->GetLoadedPluginCount(); ++k)
		{
			FUPlugin* p = m->GetLoadedPlugin(k); int at = p->HasType(Base::GetClassType()) ? ((Base*) p)->k : ((Aside*) p)->k;
			CHECK(at == loaded[k], "loaded-order", "%zu is %d, expected %d", k, at, loaded[k]);
		}
		if (!loaded.empty() && r.chance(20)) { size_t k = r.below(loaded.size()); m->GetLoadedPlugin(k)->Release(); loaded.erase(loaded.begin() + k); CHECK(m->GetLoadedPluginCount() == loaded.size(), "plugin-gone", "still listed"); }
	}
	}
	delete m; uint64_t n = 0; for (int k = 0; k < 8; ++k) { CHECK(made[k] == gone[k], "unloaded", "plug-in %d: made %d, released %d", k, made[k], gone[k]); n += made[k]; }
	mon::hit("plug-ins made and released", n); for (int k = 0; k < 8; ++k) mon::sig((uint64_t) made[k] * 64 + k); if (n > 0) mon::nontrivial();
}

// ---- Parts of documents ----
S brief(xmlNode* n)                              // the element, whatever the layout
{
	S s = "<"; s += (const char*) n->name;
	for (xmlAttr* a = n->properties; a; a = a->next) { xmlChar* v = xmlGetProp(n, a->name); s += S(" ") + (const char*) a->name + "='" + (const char*) v + "'"; xmlFree(v); }
	s += ">"; bool elements = false; for (xmlNode* c = n->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE) elements = true;
	for (xmlNode* c = n->children; c; c = c->next)
		if (c->type == XML_ELEMENT_NODE) { if (S((const char*) c->name) != "modified") s += brief(c); } // the time of writing
		else if (!elements && c->content) s += (const char*) c->content;
	return s + "</>";
}
void byId(xmlNode* n, std::map<S, xmlNode*>& m)
{
	for (; n; n = n->next) if (n->type == XML_ELEMENT_NODE) { xmlChar* v = xmlGetProp(n, (const xmlChar*) "id"); if (v) { m[(const char*) v] = n; xmlFree(v); } byId(n->children, m); }
}
template <class L, class F> void each(L* l, F f) { for (size_t k = 0; k < l->GetEntityCount(); ++k) f(l->GetEntity(k)); }

template <class T> bool importAlone(FCDLibrary<T>* (FCDocument::*lib)(), FCPArchive* xml, const S& text, FCDocument* d, Dump& out)
{
	FCDEntity* e = (d->*lib)()->AddEntity(); fm::vector<uint8> bytes; bytes.resize(text.size()); memcpy(bytes.begin(), text.data(), text.size());
	bool ok = xml->ImportObject(e, bytes); out.any(e); return ok;
}

S timeless(FCDocument* d) { S t; Dump o = dumpDoc(d); for (auto& l : o.lines) if (l.first.find("modified") == S::npos) { t += l.first; t += "="; t += l.second; t += "\n"; } return t; }

void parts(Rng& r)
{
	int flags = 0; static const int some[] = { DocGen::SCENE, DocGen::CAMERA, DocGen::LIGHT, DocGen::MESH, DocGen::MATERIAL, DocGen::FX | DocGen::MATERIAL, DocGen::PHYSICS, DocGen::EXTRA, DocGen::ASSET, DocGen::SPLINE, DocGen::FORCE, DocGen::SKIN | DocGen::MESH | DocGen::SCENE, DocGen::MORPH | DocGen::MESH };
	for (int k = r.range(1, 4); k > 0; --k) flags |= some[r.below(13)];
	FCPArchive* xml = FCollada::GetPluginManager()->GetArchivePlugin(0);
	DocRef d; DocGen g(r, d, flags, 1); g.build(); S path = mon::tmpDir + "/whole.dae"; { ErrorTap tap; CHECK(saveDoc(d, path), "save", "%s", tap.all().c_str()); }
	xmlDoc* whole = xmlReadFile(path.c_str(), NULL, 0); if (whole == NULL) { CHECK(false, "save-xml", "not well-formed"); return; }
	std::map<S, xmlNode*> ids; byId(xmlDocGetRootElement(whole), ids);

	// Entities that are whole elements of a library.
	std::vector<FCDEntity*> all; auto add = [&](FCDEntity* e) { all.push_back(e); };
	each(d->GetCameraLibrary(), add); each(d->GetLightLibrary(), add); each(d->GetGeometryLibrary(), add); each(d->GetControllerLibrary(), add); each(d->GetImageLibrary(), add);
	each(d->GetMaterialLibrary(), add); each(d->GetEffectLibrary(), add); each(d->GetForceFieldLibrary(), add); each(d->GetPhysicsMaterialLibrary(), add); each(d->GetPhysicsModelLibrary(), add);
	each(d->GetVisualSceneLibrary(), [&](FCDSceneNode* s) { for (size_t k = 0; k < s->GetChildrenCount(); ++k) if (s->GetChild(k)->GetParent(0) == s) all.push_back(s->GetChild(k)); });
	DocRef d3; bool loaded = false; size_t done = 0; S was = timeless(d);
	for (int round = r.range(1, 3); round > 0; --round)
	{
		std::vector<FCDEntity*> chosen; if (!all.empty()) for (int k = r.range(0, 5); k > 0; --k) chosen.push_back(r.pick(all));
		CHECK(xml->StartExport(r.chance(50) ? path.c_str() : NULL), "start", "refused");
		for (FCDEntity* e : chosen) CHECK(xml->ExportObject(e), "export-object", "%s", e->GetDaeId().c_str());
		if (r.chance(20)) CHECK(!xml->ExportObject(NULL), "export-nothing", "NULL was exported");
		fm::vector<uint8> bytes; CHECK(xml->EndExport(bytes), "end", "refused");
		{ mon::AllowAsserts allow; fm::vector<uint8> more; CHECK(!xml->EndExport(more), "end-twice", "nothing was started"); if (!chosen.empty()) CHECK(!xml->ExportObject(chosen[0]), "export-after-end", "nothing was started"); }
		xmlDoc* part = xmlReadMemory((const char*) bytes.begin(), (int) bytes.size(), "part", NULL, 0);
		CHECK(part != NULL, "part-xml", "%zu bytes are not well-formed", bytes.size()); if (part == NULL) continue;
		xmlNode* root = xmlDocGetRootElement(part); CHECK(S((const char*) root->name) == "COLLADA", "part-root", "%s", root->name);
		size_t at = 0;
		for (xmlNode* c = root->children; c; c = c->next) if (c->type == XML_ELEMENT_NODE)
		{
			if (at >= chosen.size()) { ++at; continue; }
			FCDEntity* e = chosen[at++]; S id = e->GetDaeId().c_str(); xmlNode* w = ids.count(id) ? ids[id] : NULL;
			CHECK(w != NULL, "part-id", "%s is not in the whole", id.c_str()); if (w == NULL) continue;
			S a = brief(w), b = brief(c); CHECK(a == b, S("part:") + (const char*) w->name, "%s alone: %s\n in the whole: %s", id.c_str(), b.substr(0, 600).c_str(), a.substr(0, 600).c_str());
			++done; mon::hit(S("exported alone: ") + (const char*) c->name);
			// Those that need nothing else can also be read alone.
			S kind = (const char*) c->name; xmlBuffer* buf = xmlBufferCreate(); xmlNodeDump(buf, part, c, 0, 0); S text((const char*) xmlBufferContent(buf)); xmlBufferFree(buf);
			DocRef d2; d2->SetFileUrl(path.c_str()); Dump got, ref; bool ok = true; bool did = true;
			{
				ErrorTap tap;
				if (text.find("<target") != S::npos) did = false; // aims at a node of the scene
				else if (kind == "camera") { ok = importAlone(&FCDocument::GetCameraLibrary, xml, text, d2, got); }
				else if (kind == "light") { ok = importAlone(&FCDocument::GetLightLibrary, xml, text, d2, got); }
				else if (kind == "image") { ok = importAlone(&FCDocument::GetImageLibrary, xml, text, d2, got); }
				else if (kind == "physics_material") { ok = importAlone(&FCDocument::GetPhysicsMaterialLibrary, xml, text, d2, got); }
				else if (kind == "geometry" && text.find("convex_hull_of") == S::npos) { ok = importAlone(&FCDocument::GetGeometryLibrary, xml, text, d2, got); }
				else did = false;
			}
			if (!did) continue;
			CHECK(ok, "import-object", "%s: %s", kind.c_str(), text.substr(0, 400).c_str());
			if (!loaded) { loaded = true; CHECK(loadDoc(d3, path), "load", "whole"); } FCDEntity* same = kind == "camera" ? (FCDEntity*) d3->FindCamera(id.c_str()) : kind == "light" ? (FCDEntity*) d3->FindLight(id.c_str()) : kind == "image" ? (FCDEntity*) d3->FindImage(id.c_str()) : kind == "geometry" ? (FCDEntity*) d3->FindGeometry(id.c_str()) : (FCDEntity*) d3->FindPhysicsMaterial(id.c_str());
			CHECK(same != NULL, "load-id", "%s", id.c_str()); if (same == NULL) continue;
			ref.any(same); for (auto* o : { &ref, &got }) for (auto& l : o->lines) if (l.first.find("modified") != S::npos) l.second = "";
			reportDiff("alone-" + kind, ref, got); mon::hit("imported alone: " + kind);
		}
		CHECK(at == chosen.size(), "part-count", "%zu elements for %zu objects", at, chosen.size()); xmlFreeDoc(part);
		mon::hit("partial exports");
	}
	CHECK(timeless(d) == was, "part-changes", "the document differs after the export of its parts");
	// What cannot be read is refused.
	if (r.chance(40))
	{
		static const char* junk[] = { "", "<", "<camera", "plain", "<camera></light>", "<?xml version='1.0'?>", "<!-- -->" };
		S t = junk[r.below(7)]; fm::vector<uint8> b; b.resize(t.size()); if (!t.empty()) memcpy(b.begin(), t.data(), t.size());
		ErrorTap tap; DocRef d2; FCDEntity* e = d2->GetCameraLibrary()->AddEntity(); mon::AllowAsserts allow; CHECK(!xml->ImportObject(e, b), "import-junk", "'%s' was accepted", t.c_str()); mon::hit("junk refused");
	}
	xmlFreeDoc(whole); mon::sig(done); for (auto* e : all) mon::sig(S(e->GetDaeId().c_str())); if (done > 0) mon::nontrivial();
}
}

PROP(C36, "plug-ins registered and released around loads and saves, and objects exported and imported by themselves: a case counts when a plug-in was called or an object was handled alone")
{
	switch (r.below(8)) { case 0: case 1: case 2: techniques(r); break; case 3: archives(r); break; case 4: libraries(r); break; default: parts(r); }
}
