// C38: physics quantities: volumes, defaults copied from bodies, shapes with exactly one geometry, attachments.
#include "docmon.h"

namespace
{
typedef FCDPhysicsAnalyticalGeometry PAS;
const double PI = 3.14159265358979323846;

// Volume of the solid between heights a and b whose cross-section at h has the area f(h), by Simpson's rule.
template <class F> double integrate(double a, double b, F f)
{
	const int N = 2000; double h = (b - a) / N, s = f(a) + f(b);
	for (int i = 1; i < N; ++i) s += (i & 1 ? 4.0 : 2.0) * f(a + i * h);
	return s * h / 3.0;
}
// Half an ellipsoid on an elliptical cap, as high as the cap's larger radius.
double halfEnd(double rx, double rz) { double h = std::max(rx, rz); return h == 0.0 ? 0.0 : integrate(0.0, h, [&](double y) { return PI * rx * rz * (1.0 - y * y / (h * h)); }); }
double tube(double x1, double z1, double x2, double z2, double h) { return integrate(0.0, h, [&](double y) { double t = h == 0.0 ? 0.0 : y / h; return PI * (x1 + (x2 - x1) * t) * (z1 + (z2 - z1) * t); }); }

float length(Rng& r) { switch (r.below(6)) { case 0: return 0.0f; case 1: return (float) r.range(1, 5); case 2: return r.flt(0.001f, 0.1f); case 3: return r.flt(10.0f, 500.0f); default: return r.flt(0.1f, 10.0f); } }
bool close(double got, double want) { return fabs(got - want) <= 1e-4 * fabs(want) + 1e-7; }

double fill(Rng& r, PAS* g)
{
	switch (g->GetGeomType())
	{
	case PAS::BOX: { FCDPASBox* b = (FCDPASBox*) g; b->halfExtents = FMVector3(length(r), length(r), length(r)); return 8.0 * b->halfExtents.x * (double) b->halfExtents.y * b->halfExtents.z; }
	case PAS::PLANE: { FCDPASPlane* b = (FCDPASPlane*) g; b->normal = FMVector3(length(r), length(r), length(r)); b->d = length(r); return 1.0; }
	case PAS::SPHERE: { FCDPASSphere* b = (FCDPASSphere*) g; b->radius = length(r); return 2.0 * halfEnd(b->radius, b->radius); }
	case PAS::CYLINDER: { FCDPASCylinder* b = (FCDPASCylinder*) g; b->radius = FMVector2(length(r), length(r)); b->height = length(r); return tube(b->radius.x, b->radius.y, b->radius.x, b->radius.y, b->height); }
	case PAS::CAPSULE: { FCDPASCapsule* b = (FCDPASCapsule*) g; b->radius = FMVector2(length(r), length(r)); b->height = length(r); return tube(b->radius.x, b->radius.y, b->radius.x, b->radius.y, b->height) + 2.0 * halfEnd(b->radius.x, b->radius.y); }
	case PAS::TAPERED_CYLINDER: { FCDPASTaperedCylinder* b = (FCDPASTaperedCylinder*) g; b->radius = FMVector2(length(r), length(r)); b->radius2 = r.chance(20) ? b->radius : r.chance(20) ? FMVector2(b->radius.x, length(r)) : FMVector2(length(r), length(r)); b->height = length(r); return tube(b->radius.x, b->radius.y, b->radius2.x, b->radius2.y, b->height); }
	case PAS::TAPERED_CAPSULE: { FCDPASTaperedCapsule* b = (FCDPASTaperedCapsule*) g; b->radius = FMVector2(length(r), length(r)); b->radius2 = r.chance(20) ? b->radius : r.chance(20) ? FMVector2(b->radius.x, length(r)) : FMVector2(length(r), length(r)); b->height = length(r); return tube(b->radius.x, b->radius.y, b->radius2.x, b->radius2.y, b->height) + halfEnd(b->radius.x, b->radius.y) + halfEnd(b->radius2.x, b->radius2.y); }
	default: return -1.0;
	}
}
const PAS::GeomType kinds[] = { PAS::BOX, PAS::PLANE, PAS::SPHERE, PAS::CYLINDER, PAS::CAPSULE, PAS::TAPERED_CYLINDER, PAS::TAPERED_CAPSULE };
const char* kindName[] = { "box", "plane", "sphere", "cylinder", "capsule", "tapered-cylinder", "tapered-capsule" };

struct Geo { FCDGeometry* g; int kind; double volume; int hull; S hullText; };   // kind: 0 mesh, 1 spline, 2 nothing; hull: index or -1 (none) or -2 (unknown id)

double volumeOf(const std::vector<Geo>& all, int i)
{
	std::set<int> seen;
	while (true)
	{
		const Geo& g = all[i];
		if (g.kind != 0) return 1.0;
		if (g.hull == -1) return g.volume;
		if (g.hull == -2 || !seen.insert(i).second) return 1.0;
		i = g.hull;
	}
}

void volumes(Rng& r)
{
	DocRef d;
	std::vector<Geo> all; int n = r.range(1, 5);
	for (int i = 0; i < n; ++i)
	{
		Geo g; g.g = d->GetGeometryLibrary()->AddEntity(); g.kind = r.chance(80) ? 0 : r.range(1, 2); g.volume = 0.0; g.hull = -1;
		if (r.chance(40)) g.g->SetDaeId(fm::string(("geo" + std::to_string(i)).c_str()));
		if (g.kind == 1) g.g->CreateSpline();
		if (g.kind == 0)
		{
			FCDGeometryMesh* m = g.g->CreateMesh();
			int sets = r.chance(75) ? 1 : r.range(0, 3);
			for (int s = 0; s < sets; ++s)
			{
				FCDGeometrySource* src = m->AddSource(FUDaeGeometryInput::POSITION);
				uint32 stride = r.chance(70) ? 3 : 4; std::vector<float> v; int count = r.chance(8) ? 0 : r.range(1, 12);
				double lo[3] = { 1e30, 1e30, 1e30 }, hi[3] = { -1e30, -1e30, -1e30 };
				for (int k = 0; k < count; ++k) for (uint32 c = 0; c < stride; ++c) { float x = r.flt(-20.0f, 20.0f); v.push_back(x); if (c < 3) { lo[c] = std::min(lo[c], (double) x); hi[c] = std::max(hi[c], (double) x); } }
				src->SetStride(stride); if (count > 0) src->SetData(FloatList(v.data(), v.size()), stride);
				FCDGeometryPolygons* p = m->AddPolygons(); FCDGeometryPolygonsInput* in = p->AddInput(src, 0);
				if (count > 0) { p->AddFaceVertexCount(3); in->AddIndex(0); in->AddIndex((uint32) count - 1); in->AddIndex(0); }
				if (count > 0) g.volume += (hi[0] - lo[0]) * (hi[1] - lo[1]) * (hi[2] - lo[2]);
			}
		}
		all.push_back(g);
	}
	for (int i = 0; i < n; ++i) if (all[i].kind == 0 && r.chance(40))
	{
		FCDGeometryMesh* m = all[i].g->GetMesh();
		if (r.chance(15)) { m->SetConvexHullOf(fm::string("nosuch")); all[i].hull = -2; }
		else { all[i].hull = (int) r.below(n); m->SetConvexHullOf(all[all[i].hull].g); }
		mon::hit("hulls");
	}
	for (int i = 0; i < n; ++i) if (all[i].kind == 0)
	{
		int at = i; std::set<int> seen; const FCDGeometryMesh* want = NULL;
		while (true) { if (at == -2 || all[at].kind != 0 || !seen.insert(at).second) { want = NULL; break; } if (all[at].hull == -1) { want = all[at].g->GetMesh(); break; } at = all[at].hull; }
		CHECK(all[i].g->GetMesh()->FindConvexHullOfMesh() == want, "hull/mesh", "mesh %d", i);
	}
	FCDPhysicsModel* model = d->GetPhysicsModelLibrary()->AddEntity();
	FCDPhysicsRigidBody* body = model->AddRigidBody(); double masses = 0.0;
	int shapes = r.range(1, 6);
	for (int s = 0; s < shapes; ++s)
	{
		FCDPhysicsShape* shape = body->GetParameters()->AddPhysicsShape();
		CHECK(!shape->IsAnalyticalGeometry() && !shape->IsGeometryInstance() && shape->IsHollow() && shape->GetMass() == 0.0f && shape->GetDensity() == 0.0f && shape->GetMassPointer() == NULL && shape->GetDensityPointer() == NULL && !shape->IsDensityMoreAccurate(), "shape/defaults", "new shape");
		int changes = r.range(1, 4); double want = 0.0; S what;
		for (int c = 0; c < changes; ++c)
		{
			FUTrackedPtr<FCDGeometryInstance> oldInstance(shape->GetGeometryInstance()); FUTrackedPtr<PAS> oldForm(shape->GetAnalyticalGeometry());
			if (r.chance(60))
			{
				int k = (int) r.below(7); PAS* g = shape->CreateAnalyticalGeometry(kinds[k]); what = kindName[k];
				CHECK(g != NULL && g->GetGeomType() == kinds[k] && shape->GetAnalyticalGeometry() == g, "shape/create", "%s", what.c_str());
				if (g == NULL) return;
				want = fill(r, g); mon::hit("volume " + what);
			}
			else
			{
				int k = (int) r.below(n); bool convex = r.chance(30);
				size_t before = d->GetGeometryLibrary()->GetEntityCount(); FCDGeometryInstance* gi = shape->CreateGeometryInstance(all[k].g, convex); what = convex ? "convex-copy" : "mesh";
				want = volumeOf(all, k);
				FCDGeometry* target = (FCDGeometry*) gi->GetEntity();
				CHECK(shape->GetGeometryInstance() == gi, "shape/create", "%s", what.c_str());
				if (convex)
				{
					CHECK(d->GetGeometryLibrary()->GetEntityCount() == before + 1 && target != NULL && target != all[k].g && target->IsMesh() && target->GetMesh()->IsConvex() && target->GetMesh()->GetConvexHullOf() == all[k].g->GetDaeId(), "shape/convex-copy", "hull of %s", all[k].g->GetDaeId().c_str());
					if (target == NULL || !target->IsMesh()) return;
					Geo g; g.g = target; g.kind = 0; g.volume = 0.0; g.hull = k; all.push_back(g);
				}
				else CHECK(target == all[k].g && d->GetGeometryLibrary()->GetEntityCount() == before, "shape/mesh", "instance of %s", all[k].g->GetDaeId().c_str());
				mon::hit("volume " + what);
			}
			CHECK(oldInstance == NULL && oldForm == NULL, "shape/old-geometry", "kept after %s", what.c_str());
			CHECK(shape->IsAnalyticalGeometry() != shape->IsGeometryInstance(), "shape/one-geometry", "%s: analytical %d instance %d", what.c_str(), (int) shape->IsAnalyticalGeometry(), (int) shape->IsGeometryInstance());
			float got = shape->CalculateVolume();
			CHECK(close(got, want), ("volume/" + what).c_str(), "%s: %g, expected %g", what.c_str(), (double) got, want);
			if (r.chance(30)) { FCDPhysicsShape* copy = shape->Clone(); float v = copy->CalculateVolume(); CHECK(v == got, "volume/clone", "%s: %g, clone %g", what.c_str(), (double) got, (double) v); SAFE_RELEASE(copy); }
		}
		if (r.chance(80)) { int times = r.range(1, 2); float m = 0.0f; while (times-- > 0) { m = r.flt(0.1f, 50.0f); shape->SetMass(m); } masses += m; CHECK(shape->GetMass() == m && shape->GetMassPointer() != NULL, "shape/mass", "%g", (double) shape->GetMass()); CHECK(shape->GetDensityPointer() == NULL, "shape/mass", "density set with the mass"); }
		if (r.chance(50)) { float m = r.flt(0.1f, 50.0f); shape->SetDensity(m); CHECK(shape->GetDensity() == m, "shape/density", "%g", (double) shape->GetDensity()); }
		mon::sig(what); mon::sig((uint64_t) (want * 1000.0));
	}
	float m = r.flt(0.5f, 20.0f); body->GetParameters()->SetMass(m);
	if (masses > 0.0) { float f = body->GetShapeMassFactor(); CHECK(close(f, m / masses), "body/mass-factor", "%g, expected %g", (double) f, m / masses); mon::hit("mass factors"); }
	mon::nontrivial();
}

FMVector3 vec(Rng& r) { return FMVector3(r.flt(-5.0f, 5.0f), r.flt(-5.0f, 5.0f), r.flt(-5.0f, 5.0f)); }
bool same(const FMVector3& a, const FMVector3& b) { return a.x == b.x && a.y == b.y && a.z == b.z; }
struct Par { bool dynamic = true; float mass = 1.0f, density = 0.0f; FMVector3 inertia = FMVector3::Zero, translate = FMVector3::Zero, axis = FMVector3::XAxis; float angle = 0.0f; bool byDensity = false, byInertia = false; };

void change(Rng& r, FCDPhysicsRigidBodyParameters* p, Par& m)
{
	switch (r.below(10))
	{
	case 0: m.dynamic = r.chance(50); p->SetDynamic(m.dynamic); break;
	case 1: m.mass = r.flt(0.0f, 10.0f); p->SetMass(m.mass); break;
	case 2: m.density = r.flt(0.0f, 10.0f); p->SetDensity(m.density); break;
	case 3: m.inertia = vec(r); m.byInertia = true; p->SetInertia(m.inertia); break;
	case 4: m.translate = vec(r); p->SetMassFrameTranslate(m.translate); break;
	case 5: m.axis = vec(r); p->SetMassFrameRotateAxis(m.axis); break;
	case 6: m.angle = r.flt(-180.0f, 180.0f); p->SetMassFrameRotateAngle(m.angle); break;
	case 7: m.byDensity = r.chance(50); p->SetDensityMoreAccurate(m.byDensity); break;
	case 8: m.byInertia = r.chance(50); p->SetInertiaAccurate(m.byInertia); break;
	default: m.axis = vec(r); m.angle = r.flt(-180.0f, 180.0f); p->SetMassFrameOrientation(FMAngleAxis(m.axis, m.angle)); break;
	}
}
void compare(FCDPhysicsRigidBodyParameters* p, const Par& m, const char* who)
{
	CHECK(p->IsDynamic() == m.dynamic, "parameters/dynamic", "%s", who);
	CHECK(*p->GetMass() == m.mass, "parameters/mass", "%s: %g, expected %g", who, (double) *p->GetMass(), (double) m.mass);
	CHECK(*p->GetDensity() == m.density, "parameters/density", "%s: %g, expected %g", who, (double) *p->GetDensity(), (double) m.density);
	CHECK(same(*p->GetInertia(), m.inertia), "parameters/inertia", "%s", who);
	CHECK(same(*p->GetMassFrameTranslate(), m.translate), "parameters/translate", "%s", who);
	CHECK(same(p->GetMassFrameRotateAxis(), m.axis) && p->GetMassFrameRotateAngle() == m.angle, "parameters/rotate", "%s", who);
	CHECK(p->IsDensityMoreAccurate() == m.byDensity, "parameters/by-density", "%s", who);
	CHECK(p->IsInertiaAccurate() == m.byInertia, "parameters/by-inertia", "%s", who);
}

// Which material a shape or a set of parameters holds, and whether it goes with it.
struct Holder { FUTrackedPtr<FCDPhysicsMaterial> own; FCDPhysicsMaterial* shared = NULL; };
template <class T> void changeMaterial(Rng& r, T* p, Holder& h, const std::vector<FCDPhysicsMaterial*>& mats)
{
	FUTrackedPtr<FCDPhysicsMaterial> old(h.own);
	if (r.chance(50)) { FCDPhysicsMaterial* m = p->AddOwnPhysicsMaterial(); CHECK(p->GetPhysicsMaterial() == m && p->OwnsPhysicsMaterial(), "material/own", "not taken"); m->SetRestitution(r.unit()); h.own = m; h.shared = NULL; }
	else { h.shared = r.chance(20) ? NULL : mats[r.below(mats.size())]; p->SetPhysicsMaterial(h.shared); h.own = NULL; CHECK(!p->OwnsPhysicsMaterial(), "material/shared", "owned"); }
	CHECK(old == NULL, "material/old", "the material owned before is still alive");
	CHECK(p->GetPhysicsMaterial() == (h.own != NULL ? (FCDPhysicsMaterial*) h.own : h.shared), "material/current", "another material");
	mon::hit("materials");
}

void bodies(Rng& r)
{
	DocRef d; std::vector<FCDPhysicsMaterial*> mats; for (int i = 0; i < 3; ++i) mats.push_back(d->GetPhysicsMaterialLibrary()->AddEntity());
	FCDPhysicsModel* model = d->GetPhysicsModelLibrary()->AddEntity(); FCDPhysicsScene* scene = d->GetPhysicsSceneLibrary()->AddEntity();
	FCDSceneNode* root = d->AddVisualScene(); FCDSceneNode* nodes[3]; for (auto& n : nodes) n = root->AddChildNode();
	CHECK(same(scene->GetGravity(), FMVector3(0.0f, -9.8f, 0.0f)) && scene->GetTimestep() == 1.0f, "scene/defaults", "gravity and time step");
	FMVector3 gravity = vec(r); float step = r.flt(0.0f, 1.0f); scene->SetGravity(gravity); scene->SetTimestep(step); CHECK(same(scene->GetGravity(), gravity) && scene->GetTimestep() == step, "scene/values", "gravity and time step");
	FCDPhysicsModelInstance* mi = scene->AddPhysicsModelInstance(model); CHECK(mi->GetEntity() == model && scene->GetPhysicsModelInstancesCount() == 1, "scene/instance", "model instance");
	struct B { FCDPhysicsRigidBody* b; Par p; Holder h; std::vector<FCDPhysicsShape*> shapes; std::vector<Holder> sh; }; std::vector<std::unique_ptr<B>> bs;
	struct I { FCDPhysicsRigidBodyInstance* i; Par p; Holder h; FCDPhysicsRigidBody* body; FMVector3 v = FMVector3::Zero, w = FMVector3::Zero; FCDSceneNode* target = NULL; }; std::vector<std::unique_ptr<I>> is;
	struct C { FCDPhysicsRigidConstraint* c; FCDPhysicsRigidBody* body[2] = { NULL, NULL }; FCDSceneNode* node[2] = { NULL, NULL }; S sid; float v[6] = { 1.0f, 0.0f, 0.0f, 1.0f, 0.0f, 0.0f }; FMVector3 lim[4] = { FMVector3::Zero, FMVector3::Zero, FMVector3::Zero, FMVector3::Zero }; bool on = true, inter = false; }; std::vector<std::unique_ptr<C>> cs;
	size_t forces = 0, constraintInstances = 0;
	int steps = r.range(10, 50);
	for (int k = 0; k < steps; ++k)
	{
		int op = (int) r.below(12);
		if (op == 0 || bs.empty()) { bs.emplace_back(new B()); bs.back()->b = model->AddRigidBody(); compare(bs.back()->b->GetParameters(), Par(), "new body"); }
		else if (op == 1) { B& b = *bs[r.below(bs.size())]; change(r, b.b->GetParameters(), b.p); }
		else if (op == 2)
		{
			is.emplace_back(new I()); B* b = r.chance(80) ? bs[r.below(bs.size())].get() : NULL; I& i = *is.back(); i.i = mi->AddRigidBodyInstance(b == NULL ? NULL : b->b); i.body = b == NULL ? NULL : b->b; if (b != NULL) i.p = b->p;
			CHECK(i.i->GetModelParentInstance() == mi && i.i->GetParameters()->GetPhysicsShapeCount() == 0, "instance/new", "parent or shapes"); compare(i.i->GetParameters(), i.p, "new instance");
		}
		else if (op == 3 && !is.empty()) { I& i = *is[r.below(is.size())]; change(r, i.i->GetParameters(), i.p); }
		else if (op == 4 && !is.empty()) { I& i = *is[r.below(is.size())]; B& b = *bs[r.below(bs.size())]; i.i->SetRigidBody(b.b); i.body = b.b; i.p = b.p; mon::hit("bodies set"); }
		else if (op == 5 && !is.empty()) { I& i = *is[r.below(is.size())]; i.v = vec(r); i.w = vec(r); i.i->SetVelocity(i.v); i.i->SetAngularVelocity(i.w); i.target = r.chance(20) ? NULL : nodes[r.below(3)]; i.i->SetTargetNode(i.target); }
		else if (op == 6) { cs.emplace_back(new C()); C& c = *cs.back(); c.c = model->AddRigidConstraint(); CHECK(c.c->GetParent() == model, "constraint/parent", "other model"); }
		else if (op == 7 && !cs.empty())
		{
			C& c = *cs[r.below(cs.size())]; int side = (int) r.below(2);
			if (r.chance(50)) { FCDPhysicsRigidBody* b = bs[r.below(bs.size())]->b; c.body[side] = b; c.node[side] = NULL; if (side == 0) c.c->SetReferenceRigidBody(b); else c.c->SetTargetRigidBody(b); }
			else { FCDSceneNode* n = nodes[r.below(3)]; c.node[side] = n; c.body[side] = NULL; if (side == 0) c.c->SetReferenceNode(n); else c.c->SetTargetNode(n); }
			mon::hit("attachments");
		}
		else if (op == 8 && !cs.empty())
		{
			C& c = *cs[r.below(cs.size())]; float x = r.flt(-5.0f, 5.0f); FMVector3 v = vec(r); int w = (int) r.below(13);
			switch (w)
			{
			case 0: c.c->SetSpringLinearStiffness(x); break; case 1: c.c->SetSpringLinearDamping(x); break; case 2: c.c->SetSpringLinearTargetValue(x); break;
			case 3: c.c->SetSpringAngularStiffness(x); break; case 4: c.c->SetSpringAngularDamping(x); break; case 5: c.c->SetSpringAngularTargetValue(x); break;
			case 6: c.c->SetLimitsLinearMin(v); break; case 7: c.c->SetLimitsLinearMax(v); break; case 8: c.c->SetLimitsSCTMin(v); break; case 9: c.c->SetLimitsSCTMax(v); break;
			case 10: c.on = r.chance(50); c.c->SetEnabled(c.on); break; case 11: c.inter = r.chance(50); c.c->SetInterpenetrate(c.inter); break;
			default: c.sid = "sid" + std::to_string(r.below(4)); c.c->SetSubId(fm::string(c.sid.c_str())); break;
			}
			if (w < 6) c.v[w] = x; else if (w < 10) c.lim[w - 6] = v;
		}
		else if (op == 9) { B& b = *bs[r.below(bs.size())]; if (r.chance(40)) { b.shapes.push_back(b.b->GetParameters()->AddPhysicsShape()); b.sh.push_back(Holder()); } if (!b.shapes.empty() && r.chance(60)) { size_t s = r.below(b.shapes.size()); changeMaterial(r, b.shapes[s], b.sh[s], mats); } else changeMaterial(r, b.b->GetParameters(), b.h, mats); }
		else if (op == 10 && !is.empty()) { I& i = *is[r.below(is.size())]; changeMaterial(r, i.i->GetParameters(), i.h, mats); }
		else if (op == 11)
		{
			if (r.chance(50) && !cs.empty()) { FCDPhysicsRigidConstraint* c = cs[r.below(cs.size())]->c; FCDPhysicsRigidConstraintInstance* ci = mi->AddRigidConstraintInstance(c); ++constraintInstances; CHECK(ci->GetRigidConstraint() == c && ci->GetModelParentInstance() == mi, "constraint/instance", "other constraint"); }
			else { FCDForceField* f = d->GetForceFieldLibrary()->AddEntity(); FCDPhysicsForceFieldInstance* fi = mi->AddForceFieldInstance(f); ++forces; CHECK(fi->GetEntity() == f, "force/instance", "other force field"); }
		}
		// Everything else is as it was.
		CHECK(model->GetRigidBodyCount() == bs.size() && model->GetRigidConstraintCount() == cs.size() && mi->GetInstanceCount() == is.size() + forces + constraintInstances, "model/counts", "step %d", k);
		for (auto& b : bs)
		{
			compare(b->b->GetParameters(), b->p, "body"); CHECK(b->b->GetParameters()->GetPhysicsShapeCount() == b->shapes.size(), "parameters/shapes", "%zu", (size_t) b->b->GetParameters()->GetPhysicsShapeCount());
			CHECK(b->b->GetParameters()->GetPhysicsMaterial() == (b->h.own != NULL ? (FCDPhysicsMaterial*) b->h.own : b->h.shared), "material/body", "step %d", k);
			CHECK(model->FindRigidBodyFromSid(b->b->GetSubId()) == b->b, "model/find-body", "%s", b->b->GetSubId().c_str());
		}
		for (auto& i : is)
		{
			compare(i->i->GetParameters(), i->p, "instance"); CHECK(i->i->GetRigidBody() == i->body, "instance/body", "step %d", k);
			CHECK(same(*i->i->GetVelocity(), i->v) && same(*i->i->GetAngularVelocity(), i->w) && i->i->GetTargetNode() == i->target, "instance/values", "step %d", k);
			CHECK(i->i->GetParameters()->GetPhysicsMaterial() == (i->h.own != NULL ? (FCDPhysicsMaterial*) i->h.own : i->h.shared), "material/instance", "step %d", k);
		}
		for (size_t n = 0; n < cs.size(); ++n)
		{
			C& c = *cs[n]; FCDPhysicsRigidConstraint* p = c.c;
			CHECK(p->GetReferenceRigidBody() == c.body[0] && p->GetTargetRigidBody() == c.body[1] && p->GetReferenceNode() == c.node[0] && p->GetTargetNode() == c.node[1], "constraint/attachment", "step %d", k);
			float v[6] = { *p->GetSpringLinearStiffness(), *p->GetSpringLinearDamping(), *p->GetSpringLinearTargetValue(), *p->GetSpringAngularStiffness(), *p->GetSpringAngularDamping(), *p->GetSpringAngularTargetValue() };
			for (int q = 0; q < 6; ++q) CHECK(v[q] == c.v[q], "constraint/spring", "value %d: %g, expected %g", q, (double) v[q], (double) c.v[q]);
			CHECK(same(*p->GetLimitsLinearMin(), c.lim[0]) && same(*p->GetLimitsLinearMax(), c.lim[1]) && same(*p->GetLimitsSCTMin(), c.lim[2]) && same(*p->GetLimitsSCTMax(), c.lim[3]), "constraint/limits", "step %d", k);
			CHECK(p->IsEnabled() == c.on && p->IsInterpenetrate() == c.inter && p->GetSubId() == c.sid.c_str(), "constraint/values", "step %d", k);
			if (!c.sid.empty()) { size_t first = 0; while (cs[first]->sid != c.sid) ++first; CHECK(model->FindRigidConstraintFromSid(c.sid.c_str()) == cs[first]->c, "model/find-constraint", "%s", c.sid.c_str()); }
		}
	}
	CHECK(model->FindRigidBodyFromSid("nosuch") == NULL && model->FindRigidConstraintFromSid("nosuch") == NULL, "model/find-nothing", "found");
	// Owned materials go with the body, shared ones stay.
	if (!bs.empty() && r.chance(70))
	{
		size_t at = r.below(bs.size()); std::vector<FUTrackedPtr<FCDPhysicsMaterial>> own; if (bs[at]->h.own != NULL) own.push_back(bs[at]->h.own); for (auto& h : bs[at]->sh) if (h.own != NULL) own.push_back(h.own);
		std::vector<FUTrackedPtr<FCDPhysicsMaterial>> kept; for (auto* m : mats) kept.push_back(m);
		FCDPhysicsRigidBody* gone = bs[at]->b; SAFE_RELEASE(bs[at]->b);
		for (auto& m : own) CHECK(m == NULL, "material/release", "an owned material outlives its body");
		for (auto& m : kept) CHECK(m != NULL, "material/release", "a shared material went with a body");
		for (auto& c : cs) for (int s = 0; s < 2; ++s) if (c->body[s] == gone) { CHECK((s == 0 ? c->c->GetReferenceRigidBody() : c->c->GetTargetRigidBody()) == NULL, "constraint/released", "still attached"); mon::hit("attached bodies released"); }
		for (auto& i : is) if (i->body == gone) { CHECK(i->i->GetRigidBody() == NULL, "instance/released", "still there"); compare(i->i->GetParameters(), i->p, "instance after release"); }
	}
	mon::sig(bs.size() * 100 + is.size() * 10 + cs.size()); for (auto& b : bs) mon::sig((uint64_t) (b->p.mass * 1000.0f)); mon::hit("bodies", bs.size()); mon::hit("instances", is.size()); mon::hit("constraints", cs.size()); mon::nontrivial();
}
}

PROP(C38, "random shapes with their volumes, and histories of bodies, instances, constraints and materials")
{
	if (r.chance(55)) volumes(r); else bodies(r);
}
