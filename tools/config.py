"""Per property: number of cases per tier, the oracle (for MANIFEST), and options of the run."""
PROPS = {}


def P(pid, quick, thorough, oracle, **kw):
    PROPS[pid] = dict(quick=quick, thorough=thorough, oracle=oracle, **kw)


P("C14", 60000, 1500000, "std-container reference models and element lifetime counters")
P("C15", 60000, 1500000, "std::string as the reference model of every operation history")
P("C16", 40000, 800000, "the C library's number parser and printer as reference, on random literals, lists and values")
P("C17", 60000, 1200000, "a segment-level reference resolver, and the recomposition of every part")
P("C18", 60000, 1500000, "independent base64 and CRC-32 implementations, and libxml2 plus a percent decoder reading the written XML")
P("C29", 20000, 300000, "tables of the COLLADA 1.4 vocabulary, checked both ways for every value plus near-miss texts")
P("C12", 40000, 800000, "an ownership and observation model of every pointer, list, reference and container, plus lifetime counters")
P("C30", 6000, 200000, "the kind and place of the injected failure: status, reported errors, the files and documents afterwards compared with those of an undisturbed run")
P("C31", 30000, 500000, "a registration model of every handler, and the expected text of every log")
P("C32", 40000, 1500000, "a model of every value, of the element each animation belongs to and of the straight-line curves, compared after each operation")
P("C19", 40000, 800000, "std::set as the model of the unique map; a ledger of every id, its holder and its lookups for documents")
P("C20", 300000, 10000000, "double-precision reference algebra, identities (inverse, transpose, conjugate) and numeric integration")
P("C21", 100000, 4000000, "exact double-precision geometry over everything included so far")
P("C04", 3000, 60000, "canonical observation of the document before writing and after reading back")
P("C03", 3000, 60000, "the document observed through its public getters before the export, and after importing the written file")
P("C07", 3000, 60000, "the document observed through its public getters before the export, and after importing the written file")
P("C02", 3000, 60000, "the document observed through its public getters before the export, and after importing the written file")
P("C06", 3000, 60000, "the document observed through its public getters before the export, and after importing the written file")
P("C08", 3000, 60000, "the document observed through its public getters before the export, and after importing the written file")
P("C09", 1500, 30000, "byte comparison of the files written, and of the document observed through its public getters, before and after saving and over two load/save cycles")
P("C05", 3000, 60000, "the document observed through its public getters before the export, and after importing the written file")
P("C10", 3000, 60000, "an independent reading of the written file with libxml2: COLLADA content models, id table, reference kinds, counts, and the values of the document")
P("C22", 200000, 1000000, "each segment in double precision, with the solver's documented tolerance, and the infinity rules")
P("C23", 200000, 1000000, "a list model of the keys; the source curves evaluated at and between all keys of a merged curve; a shift model of the clips")
P("C24", 150000, 3000000, "the corners of every face with all attribute values, before and after; reference triangulation, packing and tangents in double precision")
P("C25", 100000, 2000000, "the influence table, target list and joint roots recomputed beside the library")
P("C26", 4000, 100000, "every reference of every loaded document compared, after each step, with the entity of the generated model, the address it was saved with and the documents known to be loaded")
P("C27", 30000, 500000, "a list of nodes with parents, children, instances and transforms kept beside the graph; matrices in double precision")
P("C11", 3000, 60000, "the observation of an entity through its public getters before and after cloning, changing and releasing either side")
P("C28", 6000, 100000, "the change of basis between the two systems computed in double precision and applied to every transform, vertex, bind pose, clip plane and instance, at several times")
P("C13", 2000, 60000, "trackers on every reachable object, an ownership model of what goes with what, and per-object observations before and after every release")
P("C01", 20000, 400000, "AddressSanitizer, UBSan, the leak detector and a time limit over damaged files, and the observation, export and destruction of what was loaded")
P("C33", 80000, 2000000, "a naive walk over the recorded parameters of every level; list models of images, textures and bindings; opacity and reflectivity in double precision")
P("C34", 6000, 120000, "the document read from the file before it was respelled")
P("C35", 100000, 3000000, "the angles, transforms and points of the originals evaluated in double precision")
P("C36", 8000, 200000, "a log of every call made to the plug-ins, the elements of the whole file, and the objects as loaded with it")
P("C37", 40000, 1200000, "a model of the callbacks, of the files on disk and of the bytes written")
P("C38", 60000, 1500000, "volumes integrated numerically in double precision, and a value model of every body, instance, constraint, shape and material")
P("C39", 20000, 600000, "a model of every type, technique, node, attribute, note and asset tag, compared after each change")
P("C40", 20000, 600000, "a model of every pass, shader, binding, code and render state, compared after each change and after cloning; the schema's default of every state")
P("C41", 40000, 1500000, "a model of all sources, sets, faces, holes, inputs and index lists, compared in full after each step and with clones")
