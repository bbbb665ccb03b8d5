#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing; output is committed)."""
import json, os, sys
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from config import PROPS
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
D, U, M, X = "FCollada/FCDocument/", "FCollada/FUtils/", "FCollada/FMath/", "FColladaPlugins/FArchiveXML/"
L = []


def prop(id, title, statement, over, text, why, files, mech, observe=None):
    assert len(title) <= 80, title
    L.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text},
              "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech],
                          **({"observe_at": observe} if observe else {})}})


prop("C01", "Loading any COLLADA bytes never corrupts memory, crashes or hangs",
     "Loading a COLLADA document from any byte sequence - well-formed, schema-violating or truncated - finishes without reading or writing outside live memory, without undefined behaviour, a crash, a leak or an unbounded loop. The load reports success or failure, and whatever document it leaves behind can be inspected, exported and destroyed safely.",
     ["inputs"], "every byte sequence handed to the loader from memory or from a file, in particular mutations of valid documents of every feature area",
     "the tests load a dozen well-formed sample files; the quantifier is over all byte strings, including missing, duplicated, cyclic and out-of-range content",
     [X + "FAXColladaParser.cpp", X + "FAXGeometryImport.cpp", X + "FAXMaterialImport.cpp", X + "FAXAnimationImport.cpp", X + "FAXImportLinking.cpp", U + "FUXmlParser.cpp"],
     [("per-element import with null/size checks", X + "*Import.cpp"), ("bad input reported through FUError", U + "FUError.cpp")])
prop("C02", "Meshes, polygon sets, vertex data and splines survive export and import",
     "Exporting a document and loading the result yields the same geometries: the same sources (semantic, stride, values), polygon sets (primitive type, material symbol, face-vertex counts, holes, per-input index streams and set numbers), splines and their options. Values survive to the precision of the text format, indices and counts exactly, and the written file itself contains those numbers.",
     ["inputs"], "every valid geometry a user can build: any number of sources, inputs, sets, polygons with holes, lines, strips, fans, points, splines",
     "the round-trip test writes one hand-made mesh; the quantifier is over all shapes of geometry content",
     [X + "FAXGeometryExport.cpp", X + "FAXGeometryImport.cpp", D + "FCDGeometryMesh.cpp", D + "FCDGeometryPolygons.cpp", D + "FCDGeometrySource.cpp", D + "FCDGeometrySpline.cpp"],
     [("WritePolygons/WriteSource", X + "FAXGeometryExport.cpp"), ("LoadPolygons/LoadSource", X + "FAXGeometryImport.cpp")])
prop("C03", "Scene graphs, transforms and instances survive export and import",
     "Exporting a document and loading the result yields the same visual scenes: the same node tree and order, node names, ids, sub-ids, joint flag and visibility, the same ordered transforms with the same values, and the same instances pointing to the same entities with the same material bindings. Nodes with several parents stay shared and every world transform is unchanged to text precision.",
     ["inputs"], "every acyclic scene graph, with any mix of the transform kinds, instances, targets and shared nodes",
     "the test scene has a handful of nodes; the quantifier is over all graph shapes and transform stacks",
     [X + "FAXSceneExport.cpp", X + "FAXSceneImport.cpp", X + "FAXInstanceExport.cpp", X + "FAXInstanceImport.cpp", D + "FCDSceneNode.cpp", D + "FCDTransform.cpp"],
     [("WriteSceneNode/WriteTransform*", X + "FAXSceneExport.cpp"), ("LoadSceneNode/LoadTransform*", X + "FAXSceneImport.cpp")])
prop("C04", "Materials, effects, textures and images survive export and import",
     "Exporting a document and loading the result yields the same materials, effects, profiles, standard lighting parameters, effect parameters of every type (with semantic, annotations and values), textures, samplers, surfaces, passes, render states and images with their file names. References between them resolve to the counterparts of the original objects.",
     ["inputs"], "every combination of effect profiles, parameters, states, shaders and textures reachable through the API",
     "the tests build one standard effect and one FX effect; the quantifier is over all parameter types, render states and bindings",
     [X + "FAXMaterialExport.cpp", X + "FAXMaterialImport.cpp", D + "FCDEffectStandard.cpp", D + "FCDEffectPassState.cpp", D + "FCDEffectParameter.cpp"],
     [("WriteEffect*", X + "FAXMaterialExport.cpp"), ("LoadEffect*", X + "FAXMaterialImport.cpp")])
prop("C05", "Animations, curves and clips survive export and import",
     "Exporting a document and loading the result yields the same animation tree, channels, curves and clips: every curve has the same target, element, keys (times, values, interpolation, tangents, TCB data), infinity behaviour and driver, and every clip the same name, span and curves. Evaluating any animated value at any time gives the same result before and after, to text precision.",
     ["inputs"], "every set of animated values: single and merged multi-dimensional curves, all interpolations, infinities, drivers and clips",
     "the tests animate two or three parameters; the quantifier is over targets x interpolations x key sets",
     [X + "FAXAnimationExport.cpp", X + "FAXAnimationImport.cpp", D + "FCDAnimated.cpp", D + "FCDAnimationCurve.cpp", D + "FCDAnimationMultiCurve.cpp"],
     [("WriteAnimatedValue", X + "FAXAnimationExport.cpp"), ("LinkAnimated/LoadAnimationCurve", X + "FAXAnimationImport.cpp")])
prop("C06", "Skin and morph controllers survive export and import",
     "Exporting a document and loading the result yields the same controllers: bind-shape and inverse bind matrices, joint ids, per-vertex influences with their weights, morph method, targets and weights, and the instances with their skeleton roots and resolved joints. Weights and matrices survive to text precision, indices and counts exactly.",
     ["inputs"], "every skin and morph controller: any number of joints, influences (also none) and targets, chained controllers",
     "the tests write one skin and one morph; the quantifier is over influence tables and joint sets",
     [X + "FAXControllerExport.cpp", X + "FAXControllerImport.cpp", X + "FAXImportLinking.cpp", D + "FCDSkinController.cpp", D + "FCDMorphController.cpp"],
     [("WriteSkinController/WriteMorphController", X + "FAXControllerExport.cpp"), ("LinkSkinController", X + "FAXImportLinking.cpp")])
prop("C07", "Cameras, lights, asset data, extras and layers survive export and import",
     "Exporting a document and loading the result yields the same cameras, lights, emitters, force fields, asset information (contributors, keywords, unit, up-axis, revision, dates), layers and user extra trees (techniques, nodes, attributes, text). Every optional value keeps its presence and every number survives to text precision.",
     ["inputs"], "every combination of optional camera, light and asset settings and every extra tree",
     "the tests write one camera, one light and a small extra tree; the quantifier is over all settings and text",
     [X + "FAXCameraExport.cpp", X + "FAXLightExport.cpp", X + "FAXLightImport.cpp", X + "FAXCameraImport.cpp", X + "FAXEntityExport.cpp", D + "FCDExtra.cpp", D + "FCDAsset.cpp"],
     [("WriteCamera/WriteLight/WriteAsset/WriteExtra", X), ("LoadCamera/LoadLight/LoadAsset/LoadExtra", X)])
prop("C08", "Physics models, scenes, shapes and constraints survive export and import",
     "Exporting a document and loading the result yields the same physics scenes, models, rigid bodies, shapes (analytical and mesh), rigid constraints, physics materials and their instances, with the same targets. Masses, inertia, limits, springs, gravity and flags survive to text precision.",
     ["inputs"], "every combination of physics content reachable through the API",
     "the tests write one physics scene; the quantifier is over all shapes, parameters and instance overrides",
     [X + "FAXPhysicsExport.cpp", X + "FAXPhysicsImport.cpp", D + "FCDPhysicsModel.cpp", D + "FCDPhysicsRigidBody.cpp", D + "FCDPhysicsShape.cpp"],
     [("Write* of physics", X + "FAXPhysicsExport.cpp"), ("Load* of physics", X + "FAXPhysicsImport.cpp")])
prop("C09", "Export is deterministic and re-export of an imported file is stable",
     "Exporting the same document twice gives the same bytes apart from time stamps, and no byte of the output depends on uninitialised memory. Loading an exported file and exporting it again reproduces that file, so repeated load/save cycles neither lose nor accumulate content.",
     ["inputs", "histories"], "every document, and every number of export/import cycles",
     "the tests compare one document after one cycle through a hand-written comparison; the quantifier is over documents and cycles",
     [X + "FArchiveXML.cpp", X + "FAXEntityExport.cpp", X + "FAXColladaWriter.cpp", X + "FAXColladaParser.cpp"],
     [("single canonical writer order", X + "FArchiveXML.cpp")])
prop("C10", "Exported files are well-formed and all their ids and references resolve",
     "Whatever document is exported, the file is well-formed XML in the COLLADA 1.4 shape: every id is unique and a valid name, every internal URL, joint name, animation channel and input source resolves to an element of the right kind, and every declared count equals the number of values written. Names and text appear in the file exactly as set, suitably escaped.",
     ["inputs"], "every document a user can build, including colliding and unusual names and ids",
     "no test reads the exported file with an independent parser",
     [X + "FArchiveXML.cpp", X + "FAXColladaWriter.cpp", U + "FUXmlWriter.cpp", D + "FCDObjectWithId.cpp"],
     [("unique ids", D + "FCDObjectWithId.cpp"), ("count attributes", X + "FAXColladaWriter.cpp"), ("escaping", U + "FUXmlWriter.cpp")])
prop("C11", "A clone equals its original and shares no mutable state with it",
     "Cloning an entity, into the same or another document, gives an object whose content equals the original's apart from ids, from the animation curves of its values, and from references that become external. Changing or destroying either afterwards leaves the other intact, and clones are released with no leak or double release.",
     ["inputs", "histories"], "every clonable entity with any content, every later edit or release order",
     "the tests clone one or two objects and compare a few fields",
     [D + "FCDEntity.cpp", D + "FCDGeometryMesh.cpp", D + "FCDSceneNode.cpp", D + "FCDEffect.cpp", D + "FCDAnimationCurve.cpp", D + "FCDExtra.cpp"],
     [("Clone of every entity", D + "*.cpp")])
prop("C12", "Tracked references never dangle and owners release each object exactly once",
     "Whenever an object is destroyed, every tracked pointer, tracked list and owning reference to it stops referring to it, and each object owned by a reference or container is destroyed exactly once, in whatever order objects, containers and observers are created, copied, retargeted and released. A tracked list always contains exactly the live objects that were added to it and not removed.",
     ["histories"], "every history of creating, tracking, un-tracking, copying, re-assigning, moving and releasing objects",
     "the tests run three or four fixed histories",
     [U + "FUObject.h", U + "FUObject.cpp", U + "FUTracker.h", U + "FUTracker.cpp"],
     [("tracker registration", U + "FUTracker.cpp"), ("owner notification", U + "FUObject.cpp")])
prop("C13", "Releasing document parts in any order leaves a consistent document",
     "Entities, nodes, instances, curves and whole documents can be released at any time and in any order: nothing still reachable refers to released memory, nothing leaks or is released twice, libraries list exactly the live entities, and the remaining document can still be traversed, exported and re-loaded. What is not related to a released object is unchanged.",
     ["histories"], "every history of building, linking, releasing and re-building parts of documents",
     "the tests release documents only whole, at the end",
     [D + "FCDocument.cpp", D + "FCDLibrary.hpp", D + "FCDEntityInstance.cpp", D + "FCDAnimated.cpp", D + "FCDSceneNode.cpp"],
     [("tracked references between entities", D), ("ownership containers", U + "FUObject.h")])
prop("C14", "Containers behave like the standard ones for every operation history",
     "The library's vector, pointer vector, ordered tree map, set and sorting behave like the corresponding standard containers for every sequence of operations: same contents, order, size and search results. Elements are constructed and destroyed exactly once and copies are independent.",
     ["histories", "inputs"], "every sequence of container operations with any element values",
     "the tests exercise a few dozen fixed insertions and removals",
     [M + "FMArray.h", M + "FMArrayPointer.h", M + "FMTree.h", M + "FMSort.h"],
     [("AVL balancing", M + "FMTree.h"), ("manual element lifetime", M + "FMArray.h")])
prop("C15", "Strings and string builders behave like standard strings",
     "The library's strings and string builders hold exactly the characters that a standard string would hold after the same operations - append, insert, erase, sub-string, search, compare, resize, pop, remove, and formatting of integers, booleans and floats - and always hand out null-terminated text of the reported length.",
     ["histories", "inputs"], "every sequence of string and builder operations with any text",
     "the tests check a few appends and searches",
     [U + "FUString.h", U + "FUString.cpp", U + "FUStringBuilder.hpp", U + "FUStringBuilder.cpp"],
     [("buffer growth and termination", U + "FUStringBuilder.hpp")])
prop("C16", "Numbers, vectors and lists convert to text and back without loss",
     "Writing an integer, boolean, float, vector, colour, matrix or list of them as text and parsing it back gives the same value (floats to the text format's precision, integers exactly), and parsing any decimal text gives the value a standard parser gives. Parsing consumes exactly the tokens present: counts, separators, signs, exponents, special values and missing values never shift, drop or invent elements.",
     ["inputs"], "every value, every list length, and every token text including unusual spacing, signs, exponents and truncation",
     "the tests convert a handful of literals",
     [U + "FUStringConversion.cpp", U + "FUStringConversion.hpp", U + "FUStringBuilder.hpp"],
     [("hand-written number parser", U + "FUStringConversion.hpp"), ("float formatting", U + "FUStringBuilder.hpp")])
prop("C17", "URI and path resolution: relative and absolute forms denote the same file",
     "Parsing a URI splits it into the parts it was made of and writing it out restores it; making an absolute path relative to a base and absolute again returns the same absolute path. Resolving a reference against a base gives the file a standard resolver would name (dot segments included), and file name, folder and extension of a path recompose to the path.",
     ["inputs"], "every file path and URI: schemes, drives, UNC-like hosts, fragments, dot segments, nested roots",
     "the tests resolve a fixed table of URIs",
     [U + "FUUri.cpp", U + "FUFileManager.cpp"],
     [("MakeAbsolute/MakeRelative", U + "FUUri.cpp"), ("root path stack", U + "FUFileManager.cpp")])
prop("C18", "Base64, CRC and XML text encoding are exact inverses of their decoders",
     "Decoding an encoded byte sequence returns it unchanged and encodings are the standard ones; malformed input is refused without touching memory outside the buffers. The checksum of any text is the standard CRC-32 of its bytes, and any text stored as XML content or attribute through the library is read back identical.",
     ["inputs"], "every byte sequence, every text and every malformed encoded string",
     "the tests encode a few fixed strings",
     [U + "FUBase64.cpp", U + "FUCrc32.cpp", U + "FUXmlWriter.cpp", U + "FUXmlParser.cpp", U + "FUXmlDocument.cpp"],
     [("encode/decode tables", U + "FUBase64.cpp"), ("XML escaping", U + "FUXmlWriter.cpp")])
prop("C19", "Ids and names handed out are unique, valid, stable and released",
     "At any time all ids of a document's objects are distinct and valid XML names, looking up an id finds exactly the object that holds it, and an id wished for is granted unchanged when it is free. The unique-name map behaves as a set: inserting makes the text unique by a suffix and reports it, erasing frees exactly that text.",
     ["histories"], "every history of creating, renaming, id-setting, cloning and releasing objects, and every name text",
     "the tests add a few duplicate names",
     [D + "FCDObjectWithId.cpp", U + "FUUniqueStringMap.cpp", D + "FCDocument.cpp", D + "FCDEntity.cpp"],
     [("unique name map", U + "FUUniqueStringMap.cpp"), ("id cleaning", D + "FCDObjectWithId.cpp")])
prop("C20", "Matrix, quaternion and vector algebra obeys the mathematics",
     "Matrix products, inverses, transposes, determinants, point and vector transforms, decomposition and recomposition, Euler, axis-angle and quaternion conversions and interpolations agree with a double-precision reference within rounding. Inverting twice, or decomposing and recomposing, returns the original wherever the inverse exists.",
     ["inputs"], "all finite, well-conditioned matrices, rotations, angles and vectors, including the singular orientations",
     "the tests check a few literals",
     [M + "FMMatrix44.cpp", M + "FMMatrix33.cpp", M + "FMQuaternion.cpp", M + "FMAngleAxis.cpp", M + "FMVector3.cpp", M + "FMLookAt.cpp", M + "FMSkew.cpp"],
     [("Decompose/Recompose/Inverted", M + "FMMatrix44.cpp"), ("slerp/ToEuler", M + "FMQuaternion.cpp")])
prop("C21", "Bounding volumes contain what was included in them",
     "A bounding box or sphere contains every point and volume that was included in it, whatever the order, and the box is the smallest such box. Overlap, containment and transformation agree with exact geometry: a transformed volume contains the transformed points.",
     ["inputs", "histories"], "every sequence of included points and volumes, and every transform",
     "the tests include a few points",
     [U + "FUBoundingBox.cpp", U + "FUBoundingSphere.cpp"],
     [("Include/Overlaps/Transform", U + "FUBoundingBox.cpp")])
prop("C22", "Curves pass through their keys and evaluate as specified between them",
     "Evaluating an animation curve at a key time gives the key's value, between keys it follows the key's interpolation (step, linear, Bezier) as a reference evaluation of the same segment does, and outside the key range it follows the infinity behaviour - constant, linear, cycle, cycle-relative, oscillate (a multi-dimensional curve is constant there). Evaluation has no side effects, and is finite for finite keys, TCB segments included.",
     ["inputs"], "every sorted key set, interpolation mix, infinity pair and time",
     "the tests evaluate one or two curves at a few times",
     [D + "FCDAnimationCurve.cpp", D + "FCDAnimationMultiCurve.cpp", D + "FCDAnimationKey.cpp", M + "FMInterpolation.cpp"],
     [("Evaluate", D + "FCDAnimationCurve.cpp")])
prop("C23", "Curve editing keeps keys sorted and the motion unchanged",
     "Adding and deleting keys keeps the key list sorted by time with exactly the keys asked for; merging curves into a multi-curve, splitting, cloning, collapsing and converting values keep the value of the motion at every key and keep unrelated keys unchanged.",
     ["histories", "inputs"], "every sequence of key insertions, deletions, merges and conversions",
     "the tests merge two fixed curves",
     [D + "FCDAnimationCurve.cpp", D + "FCDAnimationCurveTools.cpp", D + "FCDAnimationMultiCurve.cpp", D + "FCDAnimationClipTools.cpp"],
     [("AddKey/DeleteKey/Merge/Collapse", D + "FCDAnimationCurveTools.cpp")])
prop("C24", "Polygon tools preserve the surface and all its vertex attributes",
     "Triangulating, re-indexing, splitting into equal-vertex buffers, fitting index buffers, reversing windings and generating texture tangents keep every face's corners with all their attribute values, up to what the tool is documented to change. Triangulation of a polygon yields exactly the triangles covering it with unchanged total area vector, and every index stays within its source.",
     ["inputs"], "every mesh: polygons of any size, holes, several inputs sharing or not sharing indices, any buffer limits",
     "the tests process one or two fixed meshes",
     [D + "FCDGeometryPolygonsTools.cpp", D + "FCDGeometryPolygons.cpp", D + "FCDGeometryMesh.cpp"],
     [("Triangulate/GenerateUniqueIndices/FitIndexBuffers/ReverseNormals", D + "FCDGeometryPolygonsTools.cpp")])
prop("C25", "Editing skins and morphs keeps influences, targets and joints consistent",
     "Limiting the influences of a skin keeps, for every vertex, the strongest influences above the threshold, no more than allowed, whose weights keep their sum and their proportions; vertices already within the limits are untouched. Binding a skin to the vertices that unique indices made gives every packed vertex the influences of its position. Setting and clearing targets, over chains of controllers, keeps the base geometry, one influence list per vertex, and exactly the morph targets that fit the base; it never deletes a geometry of the library. The skeleton roots of an instance are exactly its joints without a parent joint.",
     ["inputs"], "every influence table, limit and threshold; every history of targets and joints",
     "the tests reduce one small table",
     [D + "FCDSkinController.cpp", D + "FCDControllerTools.cpp"],
     [("ReduceInfluences", D + "FCDSkinController.cpp")])
prop("C26", "External references resolve to the right entities across documents",
     "References between documents survive export and import and resolve to the entity of that id in the referenced file, whatever order the files are loaded, released and re-loaded in, with relative and absolute paths. A reference whose target is missing or was released stays unresolved but keeps its address, and resolves again once the file is available.",
     ["histories", "configurations"], "every set of mutually referencing documents and every order of loading, releasing and re-loading",
     "the tests use one fixed pair or triple of documents",
     [D + "FCDEntityReference.cpp", D + "FCDExternalReferenceManager.cpp", D + "FCDPlaceHolder.cpp"],
     [("place holders", D + "FCDPlaceHolder.cpp"), ("reference manager", D + "FCDExternalReferenceManager.cpp")])
prop("C27", "The scene graph stays symmetric and acyclic, and traversal visits all",
     "After any sequence of adding, moving, sharing and releasing nodes, a node lists a child exactly when the child lists it as parent, no node is its own descendant, and iteration visits every node of the sub-tree exactly once per path and in documented order. A node's local transform is the ordered product of its transforms, and its world transform the product along its parents.",
     ["histories"], "every sequence of graph edits, every transform stack",
     "the tests build one small graph",
     [D + "FCDSceneNode.cpp", D + "FCDSceneNodeIterator.cpp", D + "FCDSceneNodeIterator.hpp", D + "FCDTransform.cpp"],
     [("AddChildNode/RemoveChildNode/AddInstance", D + "FCDSceneNode.cpp")])
prop("C28", "Unit and up-axis standardisation keeps the scene geometrically the same",
     "Converting a document to another length unit or up-axis describes the same physical scene: every world-space vertex position, camera, light, and animated position at every time equals the original mapped by that one change of basis and scale. Converting there and back restores the original, and entities are converted once, however often they are instantiated.",
     ["inputs", "configurations"], "every document, every pair of up-axes and units, animated or not",
     "the tests convert no document with known geometry",
     [D + "FCDocumentTools.cpp", D + "FCDAsset.cpp"],
     [("StandardizeUpAxisAndLength", D + "FCDocumentTools.cpp")])
prop("C29", "Every enumerated value and its COLLADA name are inverses",
     "For every enumeration with COLLADA names, converting each value to its name and back returns the value, distinct values have distinct names unless documented synonyms, names match the COLLADA vocabulary, and unknown text maps to the designated unknown or default value.",
     ["inputs"], "every enumeration, every value and every other text",
     "the tests convert few of the enumerations",
     [U + "FUDaeEnum.cpp", U + "FUDaeEnum.h", U + "FUDaeSyntax.h", D + "FCDEffectPassState.cpp"],
     [("string/enum tables", U + "FUDaeEnum.cpp")])
prop("C30", "I/O failures are reported and never pass for success",
     "When a file cannot be opened, read or completely written - missing file or folder, no permission, full device, size limit, truncation - the load or save call reports failure and raises an error, and never claims success. A load that fails leaves no half-registered state: the same document can be loaded or saved properly afterwards.",
     ["fault_sequences", "inputs"], "every point at which the file system can fail during save and load",
     "no test injects a fault",
     ["FCollada/FCollada.cpp", U + "FUXmlDocument.cpp", U + "FUFile.cpp", X + "FArchiveXML.cpp"],
     [("return values and FUError", U + "FUXmlDocument.cpp")])
prop("C31", "Callbacks fire exactly once for every registration, last registered first",
     "Raising an event calls every currently registered handler exactly once per registration with the given arguments, last registered first; releasing removes one registration of that object, which is never called again, and the others stay, even when handlers are added or removed while the event is raised. Every reported error, warning or message reaches the registered error callbacks of its level, and error logs list exactly the reports of their lifetime.",
     ["histories"], "every history of registering, raising, releasing and nesting",
     "the tests raise one event with two handlers",
     [U + "FUEvent.h", U + "FUError.cpp", U + "FUErrorLog.cpp"],
     [("handler list", U + "FUEvent.h"), ("callbacks per level", U + "FUError.cpp")])
prop("C32", "Parameters and animated values store what they are given and track dirt",
     "An animatable parameter returns the value last stored and marks its object as changed with every store; an animatable list keeps exactly the inserted elements, marks its object with every insertion, removal, replacement and resizing, and its animations follow their element while elements are inserted and removed around it, and go with it. Setting a value while animated curves exist leaves the curves intact, and evaluating an animated value, or the whole document at a time, writes exactly the curve results to the parameters.",
     ["histories"], "every history of reading, storing, inserting, removing and animating",
     "the tests use a few fixed sequences",
     [D + "FCDocument.cpp", D + "FCDParameterAnimatable.h", D + "FCDParameterAnimatable.cpp", D + "FCDParameterAnimatable.hpp", D + "FCDAnimated.cpp"],
     [("animated list maintenance", D + "FCDParameterAnimatable.cpp")])

prop("C33", "Effects answer with the parameters and values of the right level",
     "Searching a material, effect, profile, technique or pass for effect parameters by reference, semantic or sub-id finds exactly the parameters of the levels searched which match, in level order, the first of them when one is asked for. The default and animated values of a standard profile are those of the parameter that applies (instance override, bound parameter, own value), and effect parameters compare, copy and overwrite by value with their identity kept. Surfaces, standard profiles, texture lists, extra attributes, bindings, shaders, code and profiles keep exactly what was added and removed; opacity and reflectivity follow the colour, factor and transparency mode.",
     ["histories"], "every history of parameters, textures, surfaces and bindings over the levels of an effect",
     "the tests build a single effect with a few parameters",
     [D + "FCDEffectTools.cpp", D + "FCDEffectStandard.cpp", D + "FCDEffectParameter.cpp", D + "FCDEffectParameterSurface.cpp", D + "FCDEffectParameterSampler.cpp", D + "FCDEffect.cpp", D + "FCDEffectProfileFX.cpp", D + "FCDEffectTechnique.cpp", D + "FCDMaterial.cpp", D + "FCDMaterialInstance.cpp"],
     [("search by reference", D + "FCDEffectTools.cpp"), ("opacity", D + "FCDEffectStandard.cpp")])

prop("C34", "Content is read alike however the XML spells it",
     "Two files with the same COLLADA content are read to the same document and the same errors: white space, comments, processing instructions and CDATA sections between and within elements, the order of attributes, the spelling of numbers and booleans, the encoding, byte-order mark and line ends, a namespace prefix, the order and splitting of libraries, defaults written or left out, polygons written as polygons, polylist or triangles, shared or repeated animation sources, other unique ids and the exporter profile of known light and camera parameters do not matter.",
     ["inputs"], "every document and every such respelling of its file",
     "the tests read the files FCollada wrote",
     [U + "FUXmlParser.cpp", U + "FUXmlDocument.cpp", U + "FUStringConversion.hpp", X + "FAXColladaParser.cpp", X + "FAXGeometryImport.cpp", X + "FAXLightImport.cpp", X + "FArchiveXML.cpp"],
     [("text of an element", U + "FUXmlParser.cpp"), ("primitives", X + "FAXGeometryImport.cpp")])
prop("C35", "Conversion tools agree with what they convert",
     "Loading a penumbra gives outer and fall-off angles which at every time are the fall-off plus twice the positive and negative part of the penumbra, whichever of them is animated by lines or steps, in curves of their own which a file keeps. Sampling a scene node gives its matrices at every key time, in order, with enough samples that no rotation turns by half a turn between them. Linear splines converted to Bezier, and Bezier splines to NURBS, pass through the same points, open or closed.",
     ["inputs"], "every light, node and spline with straight or stepped curves",
     "no test converts any of these",
     [D + "FCDLightTools.cpp", D + "FCDSceneNodeTools.cpp", D + "FCDGeometrySpline.cpp"],
     [("penumbra", D + "FCDLightTools.cpp"), ("sampling", D + "FCDSceneNodeTools.cpp"), ("NURBS", D + "FCDGeometrySpline.cpp")])

prop("C36", "Plug-ins see each tree once, and parts of documents travel alone",
     "A technique plug-in is shown every extra tree of its profile exactly once per successful load, with the object that owns it; what it makes replaces the tree, is written out by it once per save, leaves no nodes behind even when the save fails, and is released with the tree; trees that are declined or nobody's stay as they are. A file goes to the first registered archive that supports its extension whatever the case, or is refused with one error. Plug-in libraries make the plug-ins of the wanted type once each, in order, and released plug-ins are called no more. An object exported by itself gives the same element as in the whole file, changes nothing, and can be imported by itself; data that is not XML is refused.",
     ["inputs", "histories"], "every document, set of plug-ins and order of registrations, loads, saves and releases",
     "the tests register no plug-in besides the XML archive and export whole documents only",
     ["FCollada/FColladaPlugin.cpp", U + "FUPluginManager.cpp", X + "FArchiveXML.cpp", D + "FCDExtra.cpp", U + "FUXmlDocument.cpp"],
     [("reading and writing through plug-ins", "FCollada/FColladaPlugin.cpp"), ("partial export", X + "FArchiveXML.cpp")])
prop("C37", "Files are opened where their scheme and root path say",
     "Opening a file or asking whether it exists calls the callbacks registered for its scheme, and those of no other: the loader, or the request when it is to be fetched in the background, with the absolute address, then the openers in any order until none applies, and the content is that of the file they lead to. Callbacks are owned by the manager, copied when cloned and released exactly once. A document loaded through callbacks keeps its own address and resolves its relative references through the same callbacks, each document once. Files give back the bytes written, folders are made unless they exist, and log files hold every formatted line.",
     ["histories", "inputs"], "every history of registrations, clones and openings, and every sequence of file operations",
     "the tests open local files through default managers only",
     [U + "FUFileManager.cpp", U + "FUFile.cpp", U + "FULogFile.cpp", D + "FCDPlaceHolder.cpp", U + "FUXmlDocument.cpp"],
     [("opening", U + "FUFileManager.cpp"), ("references", D + "FCDPlaceHolder.cpp")])
prop("C38", "Physics volumes and defaults are those of the shapes and bodies",
     "A shape has exactly one geometry, and giving it another releases the one before. Its volume is that of the solid its parameters describe; for a mesh it is that of the bounding boxes of its positions, for a convex hull that of the mesh it is the hull of, and 1 when there is none. Rigid body instances start with the values of their body and change alone from then on. Constraints attach to a body or a node on each side, whichever was set last, and let go of what is released. Owned materials live as long as their shape or body; shared ones are left alone. A copy of a shape has the same volume.",
     ["inputs", "histories"], "all shape parameters, hull chains, and histories of bodies, instances, constraints and materials",
     "the tests build one physics scene and never ask for a volume",
     [D + "FCDPhysicsShape.cpp", D + "FCDPhysicsAnalyticalGeometry.cpp", M + "FMVolume.cpp", D + "FCDPhysicsRigidBody.cpp", D + "FCDPhysicsRigidBodyInstance.cpp", D + "FCDPhysicsRigidBodyParameters.cpp", D + "FCDPhysicsModel.cpp", D + "FCDPhysicsRigidConstraint.cpp", D + "FCDGeometryMesh.cpp"],
     [("volumes", M + "FMVolume.cpp"), ("defaults of instances", D + "FCDPhysicsRigidBodyInstance.cpp")])
prop("C39", "Extra trees, notes and asset tags hold what was put in",
     "An extra tree has one type of each name added and one technique of each profile in a type; adding one again gives the existing one. Nodes keep their children and attributes in order, with names cleaned to XML names, a later value of an attribute replacing the earlier one, and content replacing children. Lookups by name find the first match or all matches in order, and nothing else. Clones, in the same or another document, are equal and separate; releasing any part releases what is below it and nothing else. Notes, user handles, asset tags and contributors are given back as set, and belong to one entity.",
     ["histories", "inputs"], "every history of additions, changes, lookups, clones and releases",
     "the tests add a few parameters and read them back after a save",
     [D + "FCDExtra.cpp", D + "FCDExtra.h", D + "FCDAsset.cpp", D + "FCDEntity.cpp"],
     [("extra trees", D + "FCDExtra.cpp"), ("asset tags", D + "FCDAsset.cpp")])

prop("C40", "Passes hold shaders, code and render states in order, with the defaults",
     "A pass has at most one vertex and one fragment shader of its own kinds, shaders keep their parameter bindings in order, and bind code that belongs to their technique or profile. The render states of a pass are kept in the order of the schema, states of one type in the order in which they were added; they start out with the default values of the schema, and hold exactly the values that were set, whatever happens to the other states. Clones of states, passes, techniques, profiles and effects are equal to the original and independent of it, with their shaders bound to the clone's own code.",
     ["histories", "inputs"], "every history of additions, releases, settings and clones of passes, shaders, code and render states",
     "the tests check a few render states after one load",
     [D + "FCDEffectPass.cpp", D + "FCDEffectPassShader.cpp", D + "FCDEffectPassState.cpp", D + "FCDEffectCode.cpp", D + "FCDEffectTechnique.cpp", D + "FCDEffectProfileFX.cpp"],
     [("render states", D + "FCDEffectPassState.cpp"), ("shaders", D + "FCDEffectPassShader.cpp"), ("clones", D + "FCDEffectPass.cpp")])

prop("C41", "Editing meshes keeps faces, holes, inputs and sources consistent",
     "Whatever sources, vertex sources, polygon sets, faces, holes and inputs are added, changed and removed, in any order: the counts and offsets of sets, faces, holes and face-vertices are those of the faces put in; removing a face takes its holes and its indices and nothing else; inputs at one offset share one index list, which stays with the others when its owner or the owner's source goes; promoting a source to a vertex source moves its inputs to the position's offset; a search by name, id, semantic or source finds exactly what is there; a source's numbers are those last set. A clone equals the mesh and is independent of it.",
     ["histories", "inputs"], "every history of edits of a mesh, its polygon sets, inputs and sources, with releases and clones anywhere",
     "the tests build one mesh of fixed shape",
     [D + "FCDGeometryMesh.cpp", D + "FCDGeometryPolygons.cpp", D + "FCDGeometryPolygonsInput.cpp", D + "FCDGeometrySource.cpp"],
     [("faces and holes", D + "FCDGeometryPolygons.cpp"), ("index lists", D + "FCDGeometryPolygonsInput.cpp"), ("sources", D + "FCDGeometryMesh.cpp")])

TECH = "runtime monitoring: randomised workloads on the real library under ASan+UBSan+LSan, library assertions hooked, judged by "
ORACLE = {}


def main():
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in L:
            f.write(json.dumps(p) + "\n")
    checks, na = [], []
    for p in L:
        c = PROPS.get(p["id"])
        if c is None:
            na.append({"property": p["id"], "reason": "the family applies, but its monitor is not built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "python3 tools/check.py %s --tier quick" % p["id"],
                       "thorough_cmd": "python3 tools/check.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": TECH + c["oracle"],
                       "level": "exploration",
                       "level_note": "held on the executions driven (counts, distinct cases and observed events are in the evidence file); nothing is claimed about paths not driven"})
    m = {"version": 1, "setup_cmd": "python3 tools/build.py asan", "checks": checks, "not_applicable": na}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
    open(os.path.join(V, "MANIFEST.json"), "a").write("\n")
    print(len(checks), "claimed", len(na), "not")


main()
