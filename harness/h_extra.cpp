// C39: extra trees, notes and asset tags hold exactly what was put in, at every level.
#include "docmon.h"

namespace
{
struct Node
{
	FUTrackedPtr<FCDENode> p; S name, content; std::vector<std::pair<S, S>> attrs; std::vector<std::unique_ptr<Node>> kids;
	FCDENode* get() const { return const_cast<Node*>(this)->p; }
};
struct Tech { FCDETechnique* p; S profile; Node root; };
struct Type { FCDEType* p; S name; std::vector<std::unique_ptr<Tech>> techs; };
struct Tree { FCDExtra* p; std::vector<std::unique_ptr<Type>> types; };

S cleaned(S n)
{
	for (size_t i = 0; i < n.size(); ++i) { char c = n[i]; bool alpha = (c >= 'a' && c <= 'z') || (c >= 'A' && c <= 'Z') || c == '_', digit = c >= '0' && c <= '9'; if (!alpha && !(digit && i > 0)) n[i] = '_'; }
	return n;
}
S anyName(Rng& r)
{
	static const char* some[] = { "a", "b", "param", "param2", "A", "1st", "two words", "x-y", "x.y", "_", "", "\xc3\xa9", "p:q", "ab" };
	return some[r.below(14)];
}
S anyText(Rng& r) { static const char* some[] = { "", "1", "text", "a < b & c", "  spaced ", "0.5 1", "line\nline", "\xc3\xa9" }; return some[r.below(8)]; }
const char* profileNames[] = { "FCOLLADA", "MAYA", "maya", "MAX3D", "" };
const char* typeNames[] = { "", "one", "two", "One" };

// Every node of the tree, parents first.
void all(Node& n, std::vector<Node*>& out) { out.push_back(&n); for (auto& k : n.kids) all(*k, out); }

void compare(const Node& m, FCDENode* n, FCDENode* parent, const char* who)
{
	if (n == NULL) { CHECK(false, "node/missing", "%s: %s", who, m.name.c_str()); return; }
	CHECK(n->GetParent() == parent, "node/parent", "%s: %s", who, m.name.c_str());
	CHECK(m.name == n->GetName(), "node/name", "%s: '%s', expected '%s'", who, mon::esc(n->GetName()).c_str(), mon::esc(m.name).c_str());
	CHECK(m.content == n->GetContent(), "node/content", "%s: %s: '%s', expected '%s'", who, m.name.c_str(), mon::esc(n->GetContent()).c_str(), mon::esc(m.content).c_str());
	CHECK(n->GetAttributeCount() == m.attrs.size(), "attribute/count", "%s: %s: %zu, expected %zu", who, m.name.c_str(), (size_t) n->GetAttributeCount(), m.attrs.size());
	for (size_t i = 0; i < m.attrs.size() && i < n->GetAttributeCount(); ++i)
	{
		CHECK(m.attrs[i].first == n->GetAttribute(i)->GetName().c_str() && m.attrs[i].second == n->GetAttribute(i)->GetValue().c_str(), "attribute/value", "%s: %s: %s=%s, expected %s=%s", who, m.name.c_str(), n->GetAttribute(i)->GetName().c_str(), mon::esc(n->GetAttribute(i)->GetValue().c_str()).c_str(), m.attrs[i].first.c_str(), mon::esc(m.attrs[i].second).c_str());
		CHECK(n->FindAttribute(m.attrs[i].first.c_str()) == n->GetAttribute(i), "attribute/find", "%s: %s", who, m.attrs[i].first.c_str());
		CHECK(m.attrs[i].second == n->ReadAttribute(m.attrs[i].first.c_str()).c_str(), "attribute/read", "%s: %s", who, m.attrs[i].first.c_str());
	}
	CHECK(n->FindAttribute("no such") == NULL && n->ReadAttribute("no such").empty(), "attribute/none", "%s: found", who);
	CHECK(n->GetChildNodeCount() == m.kids.size(), "node/children", "%s: %s: %zu, expected %zu", who, m.name.c_str(), (size_t) n->GetChildNodeCount(), m.kids.size());
	if (n->GetChildNodeCount() != m.kids.size()) return;
	std::map<S, std::vector<FCDENode*>> by; FCDENodeList leaves; StringList leafNames; n->FindParameters(leaves, leafNames); size_t leaf = 0;
	for (size_t i = 0; i < m.kids.size(); ++i)
	{
		compare(*m.kids[i], n->GetChildNode(i), n, who); by[m.kids[i]->name].push_back(n->GetChildNode(i));
		if (m.kids[i]->kids.empty()) { CHECK(leaf < leaves.size() && leaf < leafNames.size() && leaves[leaf] == n->GetChildNode(i) && m.kids[i]->name == leafNames[leaf].c_str(), "node/parameters", "%s: %s: leaf %zu", who, m.name.c_str(), leaf); ++leaf; }
	}
	CHECK(leaf == leaves.size() && leaf == leafNames.size(), "node/parameters", "%s: %zu leaves, expected %zu", who, (size_t) leaves.size(), leaf);
	for (auto& b : by)
	{
		CHECK(n->FindChildNode(b.first.c_str()) == b.second[0] && n->FindParameter(b.first.c_str()) == b.second[0], "node/find", "%s: %s under %s", who, b.first.c_str(), m.name.c_str());
		FCDENodeList found; n->FindChildrenNodes(b.first.c_str(), found);
		bool ok = found.size() == b.second.size(); for (size_t i = 0; ok && i < found.size(); ++i) ok = found[i] == b.second[i];
		CHECK(ok, "node/find-all", "%s: %zu of %s under %s, expected %zu", who, (size_t) found.size(), b.first.c_str(), m.name.c_str(), b.second.size());
	}
	CHECK(n->FindChildNode("nosuchnode") == NULL, "node/find", "%s: found nothing's node", who);
}
void compare(const Tree& t, FCDExtra* e, const char* who)
{
	CHECK(e->GetTypeCount() == t.types.size(), "type/count", "%s: %zu, expected %zu", who, (size_t) e->GetTypeCount(), t.types.size());
	if (e->GetTypeCount() != t.types.size()) return;
	bool content = false, def = false;
	for (size_t i = 0; i < t.types.size(); ++i)
	{
		Type& m = *t.types[i]; FCDEType* p = e->GetType(i);
		CHECK(p->GetParent() == e && m.name == p->GetName().c_str() && e->FindType(m.name.c_str()) == p, "type/value", "%s: '%s', expected '%s'", who, p->GetName().c_str(), m.name.c_str());
		if (m.name.empty()) { def = true; CHECK(e->GetDefaultType() == p, "type/default", "%s", who); }
		CHECK(p->GetTechniqueCount() == m.techs.size(), "technique/count", "%s: %zu, expected %zu", who, (size_t) p->GetTechniqueCount(), m.techs.size());
		if (p->GetTechniqueCount() != m.techs.size()) return;
		std::map<S, FCDENode*> roots;
		for (size_t k = 0; k < m.techs.size(); ++k)
		{
			Tech& mt = *m.techs[k]; FCDETechnique* q = p->GetTechnique(k);
			CHECK(mt.profile == q->GetProfile() && p->FindTechnique(mt.profile.c_str()) == q, "technique/value", "%s: '%s', expected '%s'", who, q->GetProfile(), mt.profile.c_str());
			compare(mt.root, q, NULL, who); if (!mt.root.kids.empty()) content = true;
			for (size_t c = 0; c < q->GetChildNodeCount(); ++c) roots.insert(std::make_pair(S(q->GetChildNode(c)->GetName()), q->GetChildNode(c)));
		}
		for (auto& x : roots) CHECK(p->FindRootNode(x.first.c_str()) == x.second, "type/root", "%s: %s", who, x.first.c_str());
		CHECK(p->FindTechnique("no such profile") == NULL && p->FindRootNode("nosuchnode") == NULL, "type/none", "%s: found", who);
	}
	CHECK(def == (e->GetDefaultType() != NULL), "type/default", "%s", who);
	CHECK(e->FindType("no such type") == NULL, "type/none", "%s: found", who);
	CHECK(e->HasContent() == content, "extra/has-content", "%s: %d, expected %d", who, (int) e->HasContent(), (int) content);
}
void copyModel(const Node& from, Node& to) { to.name = from.name; to.content = from.content; to.attrs = from.attrs; for (auto& k : from.kids) { to.kids.emplace_back(new Node()); copyModel(*k, *to.kids.back()); } }
void copyModel(const Tree& from, Tree& to) { for (auto& t : from.types) { to.types.emplace_back(new Type()); to.types.back()->name = t->name; for (auto& q : t->techs) { to.types.back()->techs.emplace_back(new Tech()); to.types.back()->techs.back()->profile = q->profile; copyModel(q->root, to.types.back()->techs.back()->root); } } }

struct Text { FCDAssetContributor* c; S v[5]; };

void trees(Rng& r)
{
	DocRef d; FCDEntity* owner = NULL; Tree t;
	switch (r.below(4))
	{
	case 0: owner = d->GetCameraLibrary()->AddEntity(); break;
	case 1: owner = d->GetLightLibrary()->AddEntity(); break;
	case 2: owner = d->AddVisualScene(); break;
	default: owner = d->GetMaterialLibrary()->AddEntity(); break;
	}
	t.p = owner->GetExtra(); size_t registered = d->GetExtraTrees().size();
	t.types.emplace_back(new Type()); t.types[0]->p = t.p->GetDefaultType(); t.types[0]->name = "";
	CHECK(t.p->GetTypeCount() == 1 && !t.p->HasContent(), "extra/new", "%zu types", (size_t) t.p->GetTypeCount());
	int steps = r.range(5, 60); size_t released = 0;
	for (int k = 0; k < steps; ++k)
	{
		int op = (int) r.below(14); std::vector<Tech*> techs; for (auto& x : t.types) for (auto& q : x->techs) techs.push_back(q.get());
		std::vector<Node*> nodes; for (auto* q : techs) all(q->root, nodes);
		if (op == 0)
		{
			S n = typeNames[r.below(4)]; Type* old = NULL; for (auto& x : t.types) if (x->name == n) old = x.get();
			FCDEType* p = r.chance(50) ? t.p->AddType(n.c_str()) : t.p->AddType(fm::string(n.c_str()));
			if (old != NULL) { CHECK(p == old->p, "type/again", "another '%s'", n.c_str()); mon::hit("types found again"); } else { t.types.emplace_back(new Type()); t.types.back()->p = p; t.types.back()->name = n; }
		}
		else if ((op == 1 || techs.empty()) && !t.types.empty())
		{
			Type& x = *t.types[r.below(t.types.size())]; S n = profileNames[r.below(5)]; Tech* old = NULL; for (auto& q : x.techs) if (q->profile == n) old = q.get();
			FCDETechnique* p = x.p->AddTechnique(n.c_str());
			if (old != NULL) { CHECK(p == old->p, "technique/again", "another '%s'", n.c_str()); mon::hit("techniques found again"); } else { x.techs.emplace_back(new Tech()); x.techs.back()->p = p; x.techs.back()->profile = n; x.techs.back()->root.p = p; }
		}
		else if (nodes.empty()) continue;
		else if (op <= 4)
		{
			Node& n = *nodes[r.below(nodes.size())]; S name = anyName(r); n.kids.emplace_back(new Node()); Node& c = *n.kids.back();
			if (r.chance(30)) { c.p = n.get()->AddChildNode(); c.get()->SetName(name.c_str()); } else c.p = r.chance(50) ? n.get()->AddChildNode(name.c_str()) : n.get()->AddChildNode(fm::string(name.c_str()));
			c.name = cleaned(name);
		}
		else if (op <= 6)
		{
			Node& n = *nodes[r.below(nodes.size())]; S name = anyName(r); n.kids.emplace_back(new Node()); Node& c = *n.kids.back(); c.name = cleaned(name);
			switch (r.below(4))
			{
			case 0: c.content = anyText(r); c.p = n.get()->AddParameter(name.c_str(), c.content.c_str()); break;
			case 1: { int v = r.range(-100000, 100000); c.content = std::to_string(v); c.p = n.get()->AddParameter(name.c_str(), (int32) v); break; }
			case 2: { bool v = r.chance(50); c.p = n.get()->AddParameter(fm::string(name.c_str()), v); c.content = c.get()->GetContent(); CHECK(!c.content.empty() && FUStringConversion::ToBoolean(c.content.c_str()) == v, "parameter/bool", "'%s' for %d", c.content.c_str(), (int) v); break; }
			default: { float v = (float) r.range(-4000, 4000) / 8.0f; char b[40]; snprintf(b, 40, "%g", (double) v); c.content = b; c.p = n.get()->AddParameter(name.c_str(), v); break; }
			}
			mon::hit("parameters");
		}
		else if (op <= 8)
		{
			Node& n = *nodes[r.below(nodes.size())]; S name = anyName(r), value; FCDEAttribute* a = NULL;
			switch (r.below(4))
			{
			case 0: value = anyText(r); a = n.get()->AddAttribute(name.c_str(), value.c_str()); break;
			case 1: { fm::string nn(name.c_str()); value = anyText(r); a = n.get()->AddAttribute(nn, value.c_str()); CHECK(cleaned(name) == nn.c_str(), "attribute/cleaned", "'%s' from '%s'", nn.c_str(), name.c_str()); break; }
			case 2: { int v = r.range(-1000, 1000); value = std::to_string(v); a = n.get()->AddAttribute(name.c_str(), (int32) v); break; }
			default: value = anyText(r); a = n.get()->AddAttribute(name.c_str(), fstring(value.c_str())); break;
			}
			bool found = false; name = cleaned(name); for (auto& x : n.attrs) if (x.first == name) { x.second = value; found = true; mon::hit("attributes replaced"); }
			if (!found) n.attrs.push_back(std::make_pair(name, value));
			CHECK(a == n.get()->FindAttribute(name.c_str()), "attribute/returned", "%s", name.c_str());
		}
		else if (op == 9) { Node& n = *nodes[r.below(nodes.size())]; S name = anyName(r); n.get()->SetName(fm::string(name.c_str())); n.name = cleaned(name); }
		else if (op == 10)
		{
			Node& n = *nodes[r.below(nodes.size())]; S text = anyText(r); std::vector<Node*> below; for (auto& c : n.kids) all(*c, below);
			n.get()->SetContent(text.c_str()); for (auto* c : below) CHECK(c->get() == NULL, "content/children", "a child outlives the new content"); released += below.size();
			n.kids.clear(); n.content = text; if (!below.empty()) mon::hit("children replaced by content");
		}
		else if (op == 11)
		{
			Node& n = *nodes[r.below(nodes.size())]; if (n.kids.empty()) continue; size_t at = r.below(n.kids.size()); std::vector<Node*> below; all(*n.kids[at], below);
			FCDENode* gone = n.kids[at]->get(); gone->Release(); for (auto* c : below) CHECK(c->get() == NULL, "release/children", "a child outlives its parent"); n.kids.erase(n.kids.begin() + at); mon::hit("nodes released");
		}
		else if (op == 12 && r.chance(25))
		{
			if (r.chance(50)) { Type& x = *t.types[r.below(t.types.size())]; if (x.techs.empty()) continue; size_t at = r.below(x.techs.size()); x.techs[at]->p->Release(); x.techs.erase(x.techs.begin() + at); mon::hit("techniques released"); }
			else { size_t at = r.below(t.types.size()); t.types[at]->p->Release(); t.types.erase(t.types.begin() + at); mon::hit("types released"); if (t.types.empty()) { t.types.emplace_back(new Type()); t.types[0]->name = "one"; t.types[0]->p = t.p->AddType("one"); } }
		}
		else if (op == 13) { Node& n = *nodes[r.below(nodes.size())]; if (!n.attrs.empty()) { size_t at = r.below(n.attrs.size()); n.get()->GetAttribute(at)->Release(); n.attrs.erase(n.attrs.begin() + at); mon::hit("attributes released"); } }
		compare(t, t.p, "tree");
	}
	// A clone has the same content and its own objects.
	{
		DocRef other; FCDocument* into = r.chance(50) ? (FCDocument*) d : (FCDocument*) other; FCDExtra* copy = NULL; bool own = r.chance(40);
		if (own) { copy = into == (FCDocument*) d ? t.p->Clone() : NULL; if (copy == NULL) own = false; }
		if (!own) copy = into->GetCameraLibrary()->AddEntity()->GetExtra(), t.p->Clone(copy);
		Tree m; m.p = copy; copyModel(t, m);
		bool def = false; for (auto& x : m.types) def |= x->name.empty();
		if (!def) { m.types.emplace(m.types.begin(), new Type()); }                       // the clone's own default type
		else for (size_t i = 0; i < m.types.size(); ++i) if (m.types[i]->name.empty()) { std::rotate(m.types.begin(), m.types.begin() + i, m.types.begin() + i + 1); break; }
		compare(m, copy, "clone");
		std::vector<Node*> nodes; for (auto& x : t.types) for (auto& q : x->techs) all(q->root, nodes);
		if (!nodes.empty() && r.chance(50)) { Node& n = *nodes[r.below(nodes.size())]; n.get()->SetName("changed"); n.name = "changed"; n.get()->AddAttribute("fresh", "1"); n.attrs.push_back(std::make_pair(S("fresh"), S("1"))); compare(m, copy, "clone after change"); compare(t, t.p, "original after change"); }
		if (own) copy->Release();
		compare(t, t.p, "original");
		mon::hit("clones");
	}
	CHECK(d->GetExtraTrees().size() >= registered, "extra/registered", "%zu, at first %zu", (size_t) d->GetExtraTrees().size(), registered);
	{ size_t n = d->GetExtraTrees().size(); FCDExtra* own = new FCDExtra(d, NULL); CHECK(d->GetExtraTrees().size() == n + 1 && d->GetExtraTrees().find(own) != d->GetExtraTrees().end(), "extra/registered", "a new tree is not registered"); own->Release(); CHECK(d->GetExtraTrees().size() == n, "extra/registered", "a released tree is still registered"); }
	std::vector<Node*> nodes; for (auto& x : t.types) for (auto& q : x->techs) all(q->root, nodes);
	owner->Release(); for (auto* n : nodes) CHECK(n->get() == NULL, "release/owner", "a node outlives its entity");
	mon::hit("nodes", nodes.size()); for (auto* n : nodes) mon::sig(n->name + "=" + n->content); if (nodes.size() > 1) mon::nontrivial();
}

void tags(Rng& r)
{
	DocRef d; std::vector<FCDEntity*> es; for (int i = 0; i < 4; ++i) es.push_back(i & 1 ? (FCDEntity*) d->GetCameraLibrary()->AddEntity() : (FCDEntity*) d->GetMaterialLibrary()->AddEntity());
	S notes[4]; struct A { FCDAsset* a = NULL; S v[4]; S unit = "meter"; float factor = 1.0f; FMVector3 up = FMVector3::YAxis; bool hasUp = false, hasUnits = false; std::vector<Text> who; } as[4];
	size_t handle[4] = { 0, 0, 0, 0 };
	for (int i = 0; i < 4; ++i) { CHECK(!es[i]->HasNote() && es[i]->GetNote().empty() && const_cast<const FCDEntity*>(es[i])->GetAsset() == NULL && es[i]->GetUserHandle() == NULL, "tag/new", "entity %d", i); }
	auto look = [&](FCDAsset* a, const A& m, const char* who, bool contributors)
	{
		CHECK(m.v[0] == a->GetKeywords().c_str() && m.v[1] == a->GetRevision().c_str() && m.v[2] == a->GetSubject().c_str() && m.v[3] == a->GetTitle().c_str(), "asset/text", "%s", who);
		CHECK(m.unit == a->GetUnitName().c_str() && m.factor == a->GetUnitConversionFactor() && m.hasUnits == a->GetHasUnitsFlag(), "asset/units", "%s: %s %g %d, expected %s %g %d", who, a->GetUnitName().c_str(), (double) a->GetUnitConversionFactor(), (int) a->GetHasUnitsFlag(), m.unit.c_str(), (double) m.factor, (int) m.hasUnits);
		CHECK(m.up.x == a->GetUpAxis().x && m.up.y == a->GetUpAxis().y && m.up.z == a->GetUpAxis().z && m.hasUp == a->GetHasUpAxisFlag(), "asset/up", "%s", who);
		size_t want = contributors ? m.who.size() : 0; CHECK(a->GetContributorCount() == want, "asset/contributors", "%s: %zu, expected %zu", who, (size_t) a->GetContributorCount(), want);
		for (size_t i = 0; i < want && i < a->GetContributorCount(); ++i)
		{
			FCDAssetContributor* c = a->GetContributor(i); const Text& x = m.who[i];
			CHECK(x.v[0] == c->GetAuthor().c_str() && x.v[1] == c->GetAuthoringTool().c_str() && x.v[2] == c->GetComments().c_str() && x.v[3] == c->GetCopyright().c_str() && x.v[4] == c->GetSourceData().c_str(), "contributor/text", "%s: %zu", who, i);
			bool empty = true; for (auto& s : x.v) empty &= s.empty(); CHECK(c->IsEmpty() == empty, "contributor/empty", "%s: %zu", who, i);
		}
	};
	int steps = r.range(5, 50);
	for (int k = 0; k < steps; ++k)
	{
		int e = (int) r.below(4), op = (int) r.below(9);
		if (op == 0) { notes[e] = anyText(r); es[e]->SetNote(notes[e].c_str()); mon::hit("notes"); }
		else if (op == 1) { handle[e] = (size_t) r.below(1000); es[e]->SetUserHandle((void*) handle[e]); }
		else
		{
			if (as[e].a == NULL) { as[e].a = es[e]->GetAsset(); mon::hit("assets"); }
			A& m = as[e]; CHECK(es[e]->GetAsset() == m.a, "asset/again", "another");
			S s = anyText(r);
			switch (op)
			{
			case 2: switch (r.below(4)) { case 0: m.v[0] = s; m.a->SetKeywords(s.c_str()); break; case 1: m.v[1] = s; m.a->SetRevision(s.c_str()); break; case 2: m.v[2] = s; m.a->SetSubject(s.c_str()); break; default: m.v[3] = s; m.a->SetTitle(s.c_str()); break; } break;
			case 3: m.unit = anyName(r); m.a->SetUnitName(m.unit.c_str()); break;
			case 4: m.factor = r.flt(0.001f, 100.0f); m.hasUnits = true; m.a->SetUnitConversionFactor(m.factor); break;
			case 5: m.up = r.chance(50) ? FMVector3::ZAxis : FMVector3::XAxis; m.hasUp = true; m.a->SetUpAxis(m.up); break;
			case 6: if (r.chance(50)) { m.hasUp = false; m.a->ResetHasUpAxisFlag(); } else { m.hasUnits = false; m.a->ResetHasUnitsFlag(); } break;
			case 7: { Text x; x.c = m.a->AddContributor(); CHECK(x.c->IsEmpty(), "contributor/new", "not empty"); m.who.push_back(x); break; }
			default: if (!m.who.empty())
			{
				size_t at = r.below(m.who.size()); Text& x = m.who[at];
				switch (r.below(6)) { case 0: x.v[0] = s; x.c->SetAuthor(s.c_str()); break; case 1: x.v[1] = s; x.c->SetAuthoringTool(s.c_str()); break; case 2: x.v[2] = s; x.c->SetComments(s.c_str()); break; case 3: x.v[3] = s; x.c->SetCopyright(s.c_str()); break; case 4: x.v[4] = s; x.c->SetSourceData(s.c_str()); break; default: x.c->Release(); m.who.erase(m.who.begin() + at); break; }
				mon::hit("contributors changed");
			}
			}
		}
		for (int i = 0; i < 4; ++i)
		{
			CHECK(es[i]->HasNote() == !notes[i].empty() && notes[i] == es[i]->GetNote().c_str() && es[i]->GetUserHandle() == (void*) handle[i], "tag/value", "entity %d", i);
			const FCDAsset* a = const_cast<const FCDEntity*>(es[i])->GetAsset(); CHECK(a == as[i].a, "asset/which", "entity %d", i); if (as[i].a != NULL) look(as[i].a, as[i], "asset", true);
		}
	}
	for (int i = 0; i < 4; ++i) if (as[i].a != NULL && r.chance(50))
	{
		bool withAll = r.chance(50); FCDAsset* c = as[i].a->Clone(NULL, withAll); look(c, as[i], "clone", withAll); c->Release(); look(as[i].a, as[i], "original", true);
		FUTrackedPtr<FCDAsset> t(as[i].a); es[i]->Release(); CHECK(t == NULL, "asset/release", "outlives its entity"); mon::hit("asset clones");
	}
	for (auto& n : notes) mon::sig(n); for (auto& a : as) mon::sig(a.v[0] + a.v[1] + a.v[2] + a.v[3] + a.unit); mon::nontrivial();
}
}

PROP(C39, "histories of changes to extra trees, notes, user handles and asset tags")
{
	if (r.chance(70)) trees(r); else tags(r);
}
