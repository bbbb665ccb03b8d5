// Document-level monitoring: a canonical observation of a document through its public getters,
// random document construction, and export/import helpers.
#pragma once
#include "mon.h"
#include "FCollada.h"
#include "FCDocument/FCDocument.h"
#include "FCDocument/FCDAnimated.h"
#include "FCDocument/FCDAnimation.h"
#include "FCDocument/FCDAnimationChannel.h"
#include "FCDocument/FCDAnimationClip.h"
#include "FCDocument/FCDAnimationCurve.h"
#include "FCDocument/FCDAnimationKey.h"
#include "FCDocument/FCDAsset.h"
#include "FCDocument/FCDCamera.h"
#include "FCDocument/FCDController.h"
#include "FCDocument/FCDControllerInstance.h"
#include "FCDocument/FCDEffect.h"
#include "FCDocument/FCDEffectCode.h"
#include "FCDocument/FCDEffectParameter.h"
#include "FCDocument/FCDEffectParameter.hpp"
#include "FCDocument/FCDEffectParameterSampler.h"
#include "FCDocument/FCDEffectParameterSurface.h"
#include "FCDocument/FCDEffectPass.h"
#include "FCDocument/FCDEffectPassShader.h"
#include "FCDocument/FCDEffectPassState.h"
#include "FCDocument/FCDEffectProfile.h"
#include "FCDocument/FCDEffectProfileFX.h"
#include "FCDocument/FCDEffectStandard.h"
#include "FCDocument/FCDEffectTechnique.h"
#include "FCDocument/FCDEmitter.h"
#include "FCDocument/FCDEmitterInstance.h"
#include "FCDocument/FCDEntityInstance.h"
#include "FCDocument/FCDEntityReference.h"
#include "FCDocument/FCDExternalReferenceManager.h"
#include "FCDocument/FCDExtra.h"
#include "FCDocument/FCDForceField.h"
#include "FCDocument/FCDGeometry.h"
#include "FCDocument/FCDGeometryInstance.h"
#include "FCDocument/FCDGeometryMesh.h"
#include "FCDocument/FCDGeometryPolygons.h"
#include "FCDocument/FCDGeometryPolygonsInput.h"
#include "FCDocument/FCDGeometryPolygonsTools.h"
#include "FCDocument/FCDGeometrySource.h"
#include "FCDocument/FCDGeometrySpline.h"
#include "FCDocument/FCDImage.h"
#include "FCDocument/FCDLibrary.h"
#include "FCDocument/FCDLight.h"
#include "FCDocument/FCDMaterial.h"
#include "FCDocument/FCDMaterialInstance.h"
#include "FCDocument/FCDMorphController.h"
#include "FCDocument/FCDPhysicsAnalyticalGeometry.h"
#include "FCDocument/FCDPhysicsForceFieldInstance.h"
#include "FCDocument/FCDPhysicsMaterial.h"
#include "FCDocument/FCDPhysicsModel.h"
#include "FCDocument/FCDPhysicsModelInstance.h"
#include "FCDocument/FCDPhysicsRigidBody.h"
#include "FCDocument/FCDPhysicsRigidBodyInstance.h"
#include "FCDocument/FCDPhysicsRigidBodyParameters.h"
#include "FCDocument/FCDPhysicsRigidConstraint.h"
#include "FCDocument/FCDPhysicsRigidConstraintInstance.h"
#include "FCDocument/FCDPhysicsScene.h"
#include "FCDocument/FCDPhysicsShape.h"
#include "FCDocument/FCDPlaceHolder.h"
#include "FCDocument/FCDSceneNode.h"
#include "FCDocument/FCDSkinController.h"
#include "FCDocument/FCDTexture.h"
#include "FCDocument/FCDTransform.h"
#include "FCDocument/FCDVersion.h"
#include "FUtils/FUFileManager.h"
#include "FUtils/FUDateTime.h"
#include "FUtils/FUError.h"

typedef std::string S;

// ---- Observation ---------------------------------------------------------------------------------
// A list of (path, value) lines. Paths hold names and "[n]" indices only.
struct Dump
{
	enum { ANIM = 1, IDS = 2, DEFAULT = 3 };
	int flags = DEFAULT;
	bool buffered = false;  // in an instance that is kept in an extra tree
	bool rawNames = false;  // do not name unnamed entities after their ids
	bool ownerless = false; // in the extra tree of the document
	std::vector<std::pair<S, S>> lines;
	std::vector<S> stack;
	S prefix;
	std::map<const char*, S> animatedPaths;                 // where each animatable value was observed
	std::vector<std::pair<size_t, std::pair<const FCDAnimated*, int>>> driverLines;
	// What is described by which object, for those who ask: an object's text leaves out that of the objects it owns.
	struct Object { const FUTrackable* o; const FUTrackable* owner; const char* kind; S text; std::vector<const FUTrackable*> uses; };
	bool watching = false;
	std::vector<Object> objects; std::map<const FUTrackable*, size_t> objectAt;
	std::vector<std::pair<size_t, size_t>> scopes;
	struct See { Dump* d; See(Dump* d, const FUTrackable* o, const char* kind); ~See() { if (d->watching) d->scopes.pop_back(); } };
	void use(const FUTrackable* o);
	template <class T> void refTo(const S& k, const T* o) { use(o); kv(k, o == NULL ? S("(none)") : S(o->GetDaeId().c_str())); }
	void kv(const S& k, const S& v);
	void kv(const S& k, const char* v) { kv(k, S(v)); }
	void kv(const S& k, const fm::string& v) { kv(k, S(v.c_str())); }
	void f(const S& k, float v);
	void i(const S& k, long long v);
	void v2(const S& k, const FMVector2& v);
	void v3(const S& k, const FMVector3& v);
	void v4(const S& k, const FMVector4& v);
	void floats(const S& k, const float* v, size_t n);
	void push(const S& k) { stack.push_back(prefix); prefix += (prefix.empty() ? "" : "/") + k; }
	void push(const S& k, size_t n) { push(k + "[" + std::to_string(n) + "]"); }
	void pop() { prefix = stack.back(); stack.pop_back(); }
	S text() const;

	void document(const FCDocument* d, bool assetDates = false);
	void entity(const FCDEntity* e);              // common part
	void any(const FCDEntity* e);                 // common and specific part
	void asset(const FCDAsset* a, bool modified);
	void extra(const S& k, const FCDExtra* e);
	void enode(const FCDENode* n);
	void anim(const S& k, const FCDParameterAnimatable& p, const FCDAnimated* override_ = NULL);
	void animated(const FCDAnimated* a);
	void curve(const FCDAnimationCurve* c);
	void node(const FCDSceneNode* n, const FCDSceneNode* parent);
	void transform(const FCDTransform* t);
	void instance(const FCDEntityInstance* i);
	void geometry(const FCDGeometry* g);
	void mesh(const FCDGeometryMesh* m);
	void controller(const FCDController* c);
	void image(const FCDImage* i);
	void material(const FCDMaterial* m);
	void effect(const FCDEffect* e);
	void param(const FCDEffectParameter* p);
	void code(const FCDEffectCode* c);
	void texture(const FCDTexture* t);
	void camera(const FCDCamera* c);
	void light(const FCDLight* l);
	void animation(const FCDAnimation* a);
	void clip(const FCDAnimationClip* c);
	void physMaterial(const FCDPhysicsMaterial* m);
	void physModel(const FCDPhysicsModel* m);
	void physScene(const FCDPhysicsScene* m);
	void physParams(const FCDPhysicsRigidBodyParameters* p);
	void physShape(const FCDPhysicsShape* s);
};
struct DiffLine { S path, key, a, b; };
// Differences between two observations; the key is the path with indices stripped.
std::vector<DiffLine> diffDumps(const Dump& a, const Dump& b);
S pathKey(const S& path);
// Reports every difference as a violation "<what>:<key>".
size_t reportDiff(const S& what, const Dump& a, const Dump& b);
Dump dumpDoc(const FCDocument* d, bool dates = false);

// ---- Construction --------------------------------------------------------------------------------
struct DocGen
{
	enum
	{
		SCENE = 1, CAMERA = 2, LIGHT = 4, EXTRA = 8, ASSET = 16, LAYER = 32, MESH = 64, SPLINE = 128, MATERIAL = 256,
		FX = 512, ANIM = 1024, SKIN = 2048, MORPH = 4096, PHYSICS = 8192, FORCE = 16384, EMITTER = 32768, CLIP = 65536, ALL = 0x1ffff
	};
	Rng& r;
	FCDocument* d;
	int flags;
	int scale;                                     // rough size, 1 = small
	std::vector<FCDEntity*> entities;
	std::vector<FCDSceneNode*> nodes, joints;
	std::vector<FCDGeometry*> meshes, splines; std::vector<FCDGeometryMesh*> hulls;
	std::vector<FCDMaterial*> materials;
	std::vector<FCDEffect*> effects;
	std::vector<FCDImage*> images;
	std::vector<FCDCamera*> cameras;
	std::vector<FCDLight*> lights;
	std::vector<FCDController*> skins, morphs;
	std::vector<FCDForceField*> forces;
	std::vector<FCDEmitter*> emitters;
	std::vector<FCDPhysicsMaterial*> physMaterials;
	std::vector<FCDPhysicsModel*> physModels;
	std::vector<FCDPhysicsScene*> physScenes;
	std::vector<std::pair<FCDAnimated*, int>> animatables;   // what may be driven by curves, and how many of its values
	DocGen(Rng& r_, FCDocument* d_, int flags_, int scale_ = 1) : r(r_), d(d_), flags(flags_), scale(scale_) {}
	bool has(int f) const { return (flags & f) != 0; }

	void build();
	// Values that survive the six-digit text form.
	float num(float scale_ = 100.0f);
	float pos(float lo, float hi);
	FMVector2 vec2() { float x = num(), y = num(); return FMVector2(x, y); }
	FMVector3 vec3() { float x = num(), y = num(), z = num(); return FMVector3(x, y, z); }
	FMVector3 axis();
	FMVector3 color3();
	FMVector4 color4();
	FMMatrix44 matrix();
	FMMatrix44 affine();
	S word(int maxLen = 10);                       // an XML name without special characters
	S text(int maxLen = 20);                       // printable, with XML specials, no blank ends
	S uri();
	int count(int maxN) { return r.range(0, maxN * scale); }

	void entity(FCDEntity* e, bool nameIt = true);
	void asset(FCDAsset* a);
	void extra(FCDExtra* x, int depth = 3, bool untyped = false);
	void enode(FCDENode* n, int depth);
	void camera();
	void light();
	void force();
	void emitter();
	void layers();
	void scene();
	void sceneNode(FCDSceneNode* n, int depth);
	void transforms(FCDSceneNode* n);
	void transformValue(FCDTransform* t);
	void instances(FCDSceneNode* n);
	void mesh();
	void spline();
	void image();
	void material();
	void effect();
	void standardProfile(FCDEffect* e);
	void fxProfile(FCDEffect* e);
	FCDEffectParameter* effectParam(std::function<FCDEffectParameter*(uint32)> add, bool modifier, int kinds = 0x3ff);
	void skin();
	void morph();
	void physics();
	void physShape(FCDPhysicsShape* s);
	void physParams(FCDPhysicsRigidBodyParameters* p);
	void physModelInstance(FCDPhysicsModelInstance* in, FCDPhysicsModel* m);
	void animations();
	void clips();
	void animatable(FCDParameterAnimatable& p, int values);
	FCDAnimationCurve* curve(FCDAnimationChannel* ch);
	void keys(FCDAnimationCurve* c, const std::vector<float>* inputs = NULL, int interp = -1);
	void passState(FCDEffectPassState* st);
	std::vector<FCDEffectParameterSurface*> scopeSurfaces;
	std::vector<FCDEffectParameterSampler*> scopeSamplers;
	int paramSerial = 0;
	bool still = false;                            // nothing made now is to be animated
	void bindMaterials(FCDGeometryInstance* gi, FCDGeometryMesh* m);
};

// ---- Export and import ---------------------------------------------------------------------------
struct DocRef { FCDocument* d; DocRef() : d(FCollada::NewTopDocument()) {} ~DocRef() { if (d) d->Release(); } operator FCDocument*() { return d; } FCDocument* operator->() { return d; } DocRef(const DocRef&) = delete; };
S readFile(const S& path);
void writeFile(const S& path, const S& text);
S tmpFile(const char* name);
// Records the library's error reports while alive.
struct ErrorTap
{
	std::vector<S> errors, warnings;
	ErrorTap(); ~ErrorTap();
	void onError(FUError::Level level, uint32 code, uint32 line);
	void onWarning(FUError::Level level, uint32 code, uint32 line);
	S all() const;
};
bool saveDoc(FCDocument* d, const S& path);
bool loadDoc(FCDocument* d, const S& path);
bool loadDocMem(FCDocument* d, const S& path, const S& text);
