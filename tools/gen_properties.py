import json
P=[]
def p(id,title,st,over,qt,why,files,mech,state=None,obs=None,hook=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":state,"meaning":state,"where":files[0]}]
    if obs: a["observe_at"]=[obs]
    if hook: a["hook_needed"]=hook
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":qt},"why_tests_cant":why,"anchors":a})
EC="src/core/Environment.cpp"; SC="src/core/Serialization.cpp"; EV="src/core/Event.cpp"; EH="src/core/EventHandler.cpp"
p("C01","Replicas fed by pulled binary events converge to the source environment",
"After a replica environment has applied, in order, every batch of binary events pulled from a source environment, it contains exactly the same items (ids, classes, contents), frame tree, map-to-frame assignments and layer hierarchy as the source had at the last pull, however the source's modifications were split into batches. Receiving a batch twice in a row, forwarding the events through an intermediate replica, or replacing a lost replica by an empty one and requesting the full content must lead to the same state.",
["histories","fault_sequences","schedules"],"every history of attach/detach/modify/link/unlink operations (including re-attaching a removed item or id), every split into pulls, every delay, duplicate delivery, replica loss and relay topology",
"the one existing synchronisation test sends three frames once in one direction; removal, re-adding, batching, duplication and resynchronisation are never exercised and the space of histories is unbounded",
[EC,EV,EH,SC],[("pullEvents/applyEvents",EC),("event queue with merging of pending events",EH+" EventQueue::handle, "+EV+" Event::merge"),("application of events to an environment",EV+" ApplyEventHelper"),("binary encoding of items",SC+" BinarySerialization")],
"environments linked by batches of binary events","complete public-API dump of source and replica after each delivered batch",False)
p("C02","Asynchronous event queues hand over changes intact under any thread schedule",
"When one thread modifies an environment while other threads flush an event processor or queued synchronisation handler (with multithreading enabled, a synchronisation handler being flushed by one thread) that applies to another environment, every flush applies everything that was queued before it began and leaves the target in a state the source actually went through, later flushes never go back to an older state, and once modifications stop one further flush makes the target equal to the source. No schedule of these threads crashes, deadlocks, loses, tears or repeats a change.",
["schedules","histories"],"every interleaving of the modifying thread and the flushing threads at any point inside the library, for every modification history",
"the existing test uses the queue from a single thread; thread interleavings are not controlled by any test",
[EH,EV,EC],[("queue locking and deferred processing",EH+" EventQueue::handle/flush"),("copying items when events are queued for another thread",EV+" Event::ref"),("application to target",EH+" EventProcessor::process")],
"source and target environment, one locked queue","target dump after each flush against the recorded sequence of source states",False)
p("C03","Event handlers see an exact, ordered mirror of the environment",
"From registration until removal, the events a handler receives, replayed in order, reproduce at every moment exactly the items, root, frame tree, map placements and layer hierarchy of the environment: registration announces the complete existing content, each change afterwards is reported exactly once, with the right subjects, to every handler registered at that time in registration order, calls that change nothing report no structural change, and removal withdraws the complete content. After removal a handler receives nothing more, and an attached filter suppresses exactly the events it rejects for that handler only.",
["histories","schedules"],"every history of structural changes with handlers and filters being registered and unregistered at arbitrary points between them",
"no existing test registers a plain handler at all; the guarantee quantifies over all histories and registration points",
[EC,"src/core/EventSource.cpp",EH],[("announcing and withdrawing content on (un)registration",EC+" addEventHandler/removeEventHandler"),("fan-out to handlers","src/core/EventSource.cpp"),("filters",EH+" EventHandler::receive"),("event emission in each structural operation",EC)],
"the set of registered handlers","mirror rebuilt from the handler's own events against the environment's dump after each step",False)
p("C04","Saving and loading an environment preserves everything that was saved",
"Loading a directory to which an environment was successfully saved yields an environment with the same items (ids, classes, labels, contents, uncertainties), frame tree, map placements, layer hierarchy, operator connections and root frame, for any content, including after repeated modify/save/load generations and saving over an older scene. Items created after loading receive ids that do not clash with loaded ones, and saving never alters the environment being saved.",
["histories","inputs","fault_sequences"],"every environment content and every sequence of modify, save, reload and continue, with the operating system free to split, interrupt and shorten reads and writes",
"existing tests save one fixed tiny scene; the quantification is over all contents and multi-generation histories and over short or interrupted I/O",
[SC,EC,"src/core/FrameNode.cpp","src/maps","src/tools/PlyFile.cpp"],[("scene writer and reader",SC+" FileSerialization::writeToFile/readFromFile"),("per-class property and payload encoding","src/maps/*.cpp serialize/unserialize"),("id counter restoration",SC+" readFromFile")],
"scene directory","public-API dump before save and after load",False)
p("C05","A save that does not report failure has stored the complete scene",
"If saving an environment returns without reporting an error, then the scene directory contains the complete scene and loading it (once the disk works again) gives back the environment that was saved. Whatever the disk does while saving (full disk, I/O errors, files that cannot be created, errors reported only when a file is closed), data loss is never silent, and neither the environment in memory nor the ability to save again is damaged.",
["fault_sequences","inputs","crash_points"],"every position of every open, write, flush and close failure during a save, for every scene content",
"no existing test makes any I/O operation fail",
[SC,EC,"src/maps/Grid.hpp","src/maps/MLSGrid.cpp","src/maps/LaserScan.cpp","src/tools/PlyFile.cpp"],[("scene file and stream handling",SC+" FileSerialization::writeToFile/getBinaryOutputStream"),("raster payload writing","src/maps/Grid.hpp writeGridData"),("save entry point",EC+" Environment::serialize")],
"scene directory on a failing disk","result of the save call against a fault-free reload of the directory",False)
p("C06","Loading a damaged or half-written scene fails cleanly or yields a sound scene",
"Loading a scene directory left behind by a crash at any moment of a save, or with truncated, missing, mixed-generation or corrupted files, or with reads that fail, either reports an error or returns an environment that is internally consistent and usable (every link connects items it contains, the frames are reachable, it can be modified, saved and destroyed) and whose contents depend on the files alone. It never crashes, reads invalid memory, hangs, leaks the partially built environment's files or kills the process.",
["crash_points","fault_sequences","inputs"],"every crash point of a save combined with every torn or lost tail of the files being written, every read error position and byte-level damage of stored files",
"no existing test loads a damaged scene; crash points and damage positions are a combinatorial space",
[SC,EC,"src/maps","src/tools/PlyFile.cpp"],[("scene parsing",SC+" FileSerialization::readFromFile, Serialization::read"),("payload parsing","src/maps/MLSGrid.cpp readMap, src/maps/Grid.hpp readGridData, src/maps/LaserScan.cpp parseScan, src/tools/PlyFile.cpp")],
"scene directory as found after a crash","outcome of the load call, then a soundness audit and use of the returned environment",False)
p("C07","Item ids are unique, stable and never silently replaced",
"In every environment no two attached items ever share an id, an id never changes while its item is attached, an explicitly requested free id is honoured (under the environment's prefix when it is relative), and attaching an item whose explicit id is taken is refused with an error that leaves both environment and items unchanged. Automatically numbered ids are always accepted and fresh (not in use, and never one the environment already gave out automatically), whatever ids were created, removed, re-attached, moved between environments or loaded from disk before.",
["histories","configurations"],"every history of attaching with automatic, relative, absolute and colliding ids, detaching, re-attaching, moving between environments, changing prefixes and saving/reloading",
"existing tests attach a handful of items with automatic ids only",
[EC,SC,"src/core/EnvironmentItem.hpp"],[("id assignment and collision check",EC+" Environment::attachItem"),("prefix handling",EC+" setEnvironmentPrefix"),("counter after load",SC+" readFromFile")],
"set of ids of an environment","id returned after each attach against the reference set",False)
p("C08","Items are owned exactly once and destroyed exactly once",
"An item attached to an environment stays alive exactly as long as the environment or any reference held by the user or by a pending event needs it: attaching passes ownership, detaching returns it together with removal of all links, moving an item to another environment keeps it alive, and destroying the environment releases everything that nobody else holds. No history of such operations, including failing ones, leads to use of a destroyed item, a double destruction or an item that is never destroyed.",
["histories","fault_sequences"],"every history of attach, implicit attach, detach (plain and deep), move between environments, holding and dropping references, replacing metadata, pending events and environment destruction in any order",
"existing tests never check destruction, detaching or moving between environments",
[EC,"src/core/EnvironmentItem.hpp","src/core/Layer.cpp","src/core/Holder.hpp",EV],[("reference counting",EC+" intrusive_ptr_add_ref/intrusive_ptr_release"),("attach and detach",EC+" attachItem/detachItem"),("metadata holders","src/core/Layer.cpp, src/core/Holder.hpp"),("references kept by queued events",EV+" Event::ref")],
"ownership graph of items","count of live items per identity after each step; poisoned memory after release",False)
p("C09","Structure queries always agree with the sequence of structure changes",
"After any sequence of attaching, detaching (plain or deep), re-parenting, linking and unlinking, every structure query of the environment (parents, children, maps of a frame, frame of a map, layer parents and children, items by id or type) returns exactly what the sequence implies: each frame has at most one parent, each map at most one frame, each relation appears once, and no relation mentions an item that is not attached. Repeating an operation or undoing one that was never done has no effect, and results do not depend on where items happen to lie in memory.",
["histories","configurations"],"every history of structure operations over any mix of frames, maps, layers and operators, and every memory layout of the items",
"existing tests execute one fixed script with a few items",
[EC,"src/core/FrameNode.cpp","src/core/Layer.cpp"],[("relation tables and their maintenance",EC+" addChild/removeChild/setFrameNode/detachFrameNode/detachItem"),("queries",EC+" getChildren/getParents/getMaps/getFrameNode/getItems")],
"frame tree, layer graph, map placement","all queries after each step against a set-based reference model",False)
p("C10","Relative transforms stay consistent with the current frame tree",
"At every moment the transform between any two frames or maps under a common root equals the composition of the current parent transforms along the tree: a frame to its parent gives its own transform, a frame to itself gives identity, chaining through a third frame and inverting agree, and the variant with uncertainty gives the same transform. Frames without a common root are refused with an error, and copying a map to another environment reproduces its transform to the root there.",
["histories"],"every history of re-parenting, transform updates, detaching and cloning of maps between environments, queried between any two steps",
"one existing test checks two fixed queries on a static tree",
[EC,"src/core/Layer.cpp","src/core/FrameNode.cpp","src/core/Transform.cpp"],[("chain composition",EC+" relativeTransform"),("map copying with its frame chain","src/core/Layer.cpp CartesianMap::cloneTo")],
"frame tree with transforms","query results after each step against independent matrix products",False)
p("C11","Damaged binary events are rejected or applied, never corrupting",
"Applying binary events that were lost, reordered, truncated, bit-flipped or built by a foreign sender either reports an error or applies them, and in both cases the receiving environment stays internally consistent, fully usable and free of memory errors, and what is decoded depends on the event alone. Undamaged events that follow a rejected one are applied correctly.",
["inputs","fault_sequences","histories"],"every damage to event type, operation, ids, class name, properties and payload streams, and every loss or reordering of events",
"no existing test applies a malformed, partial or out-of-order event",
[SC,EV,"src/maps"],[("event decoding",SC+" BinarySerialization::unserializeBinaryEvent/applyEvent"),("lenient application",EV+" ApplyEventHelper, "+EH+" EventDispatcher::dispatch")],
"receiving environment","soundness audit after each delivered event, then a clean resynchronisation",False)
p("C12","Map contents survive the wire and the disk unchanged",
"For every serialisable item class (frames, point clouds with normals and colours, feature clouds, triangle meshes, laser scans, all raster grids with any set of bands, multi-level surface grids, traversability grids), encoding an item as a binary event or to disk and decoding it again yields the same class and exactly the same stored values, however large the content and however the payload is chopped up in transit. Encoding never changes the item, and a payload that is shorter than announced is reported instead of being completed with invented values.",
["inputs","fault_sequences"],"every content of every class including empty, extreme and very large values, over memory streams and over files with short and interrupted reads and writes, and every truncation point",
"existing tests round-trip four classes with one fixed content each and never a truncated payload",
["src/maps","src/tools/PlyFile.cpp",SC],[("class encoders and decoders","src/maps/*.cpp serialize/unserialize, src/maps/Grid.hpp"),("property document and stream transport",SC+" BinarySerialization, FileSerialization")],
"item content","field-by-field digest before encoding and after decoding",False)
p("C13","Multi-level surface grids keep exactly the patches put into them",
"After any sequence of inserting, erasing, moving, clearing, resizing, copying, assigning and merging, every cell of a multi-level surface grid or list grid holds exactly the patches the sequence implies in the right order, and copies are independent of their origin. The reported patch count is the number of stored patches, and the occupied-cell index, where the grid keeps one, and the extents cover every occupied cell (they may keep cells that were occupied since the grid was last cleared). An allocation failure in the middle of an operation is reported as an error and leaves a valid grid that can be used on and destroyed, with its cells, count and index consistent.",
["histories","fault_sequences"],"every history of cell operations on one or several grids and every allocation-failure point within them",
"existing tests insert a few patches and never erase, move, copy or fail an allocation",
["src/tools/ListGrid.hpp","src/maps/MLSGrid.cpp","src/maps/MLSGrid.hpp"],[("intrusive cell lists and pool","src/tools/ListGrid.hpp"),("counting, index, extents","src/maps/MLSGrid.cpp addCell/erase/clear/move")],
"cells, count, index, extents","full cell dump after each step against a model of lists",False)
p("C14","Running out of memory never corrupts an environment",
"If memory runs out at any point inside an operation on an environment (attaching, linking, detaching, cloning, modifying, queueing, pulling or applying events, saving, loading), the operation reports the failure and the environment stays internally consistent: every link connects attached items, no item is lost, destroyed twice or used after destruction. Once memory is available again the environment can be used, synchronised, saved and destroyed normally. A failed operation need not be undone: it may have been carried out in part, an assignment that failed may leave the target with partial contents until it is assigned again, and a replica whose event was lost is right again after a complete pull into a fresh receiver.",
["fault_sequences","histories","crash_points"],"every allocation in every operation of every history failing",
"no existing test makes an allocation fail",
[EC,EV,EH,SC,"src/core/Layer.cpp"],[("multi-step structure updates",EC),("event queue and binary encoding",EH+", "+SC)],
"environment under allocation failure","soundness audit after the failed operation and after further use",False)
p("C15","Operator wiring follows the connections made and respects arity",
"At every moment the inputs, outputs, generator and generated-from relations reported for operators and layers equal the connections made and not undone; each connection counts once, an operator never holds more inputs or outputs than it declares, and detaching a layer from its generator really makes it not generated. Updating operators runs every attached operator exactly once and reports each of its outputs as modified.",
["histories"],"every history of connecting, replacing, disconnecting, detaching and updating over any set of operators and layers, with memory layout varied",
"the existing test adds two inputs and one output once",
["src/core/Operator.cpp",EC,"src/core/Layer.cpp"],[("operator graph",EC+" addInput/addOutput/removeInput/removeOutput/getGenerator"),("arity checks","src/core/Operator.cpp"),("detaching and updating","src/core/Layer.cpp detachFromOperator/updateFromOperator, "+EC+" updateOperators")],
"operator input and output relations","all queries after each step against a reference model",False)
p("C16","Copies of items are independent snapshots",
"A copy of an item made by cloning or assignment has the same class, contents and metadata as its origin at that moment, is not attached to any environment, and from then on neither changing nor destroying one of them affects the other. This holds for every item class and for metadata of every stored type.",
["histories","inputs"],"every interleaving of cloning, assigning, modifying and destroying origins and copies, for all item classes",
"one existing test clones a single point cloud with one metadata entry",
["src/core/EnvironmentItem.hpp","src/core/Layer.cpp","src/core/Holder.hpp","src/maps","src/tools/ListGrid.hpp"],[("clone and set of every class","src/core/EnvironmentItem.hpp item macros"),("deep copy of metadata","src/core/Layer.cpp, src/core/Holder.hpp"),("cached band pointers, cell lists","src/maps/TraversabilityGrid.cpp, src/tools/ListGrid.hpp")],
"origin and copies","content digests of all copies after each step against the model",False)
p("C17","Context updates let a receiver rebuild a map from its latest update alone",
"With context updates enabled, the binary events emitted for an attached or modified map are sufficient on their own: a receiver that missed any earlier events, and applies just the events emitted for that change, ends up with the map, its complete chain of frames with current transforms up to the root, and the map's placement, exactly as in the source. This holds in immediate and in queued mode and whether or not queued items are copied.",
["fault_sequences","histories","configurations"],"every history of changes, every subset of lost earlier emissions and every queue mode",
"no existing test uses context updates",
[SC],[("context events for maps",SC+" SynchronizationEventHandler::process/addBinaryEvent"),("queueing and flushing",SC+" SynchronizationEventHandler::handle/flush")],
"emitted binary events","empty receiver that applies one emission against the source's chain",False)
p("C18","A map made of several surface grids answers from its current grids",
"After any sequence of adding, creating and selecting grids, moving frames, changing or removing grids, copying, assigning and deep cloning, a multi-grid surface map refers to exactly the grids the sequence implies, with the right active grid, child layers and placements, and new grids take over the geometry and configuration of their template. A patch look-up returns a patch that one of its current grids stores at that position (converted to the map's height), finds one whenever there is one within the threshold, does not depend on earlier look-ups of grids or transforms that have changed since, and never touches a removed grid. Assigning or deep cloning leaves the original map and its grids unchanged, and a deep clone has its own active grid.",
["histories","configurations","heap_layouts"],"every history of grid, frame and map changes with look-ups in between and every heap placement",
"no existing test uses multi-grid maps",
["src/maps/MLSMap.hpp","src/maps/MLSMap.cpp","src/maps/MLSGrid.cpp"],[("look-ups and their cache","src/maps/MLSMap.cpp getPatch"),("adding, creating and selecting grids","src/maps/MLSMap.cpp addGrid/createGrid/selectActiveGrid"),("copies","src/maps/MLSMap.cpp operator=/cloneDeep")],
"grid list, child layers, look-up results","search of all grids of the model with independently composed transforms",False)
p("C19","Map operators compute from the current contents of their inputs alone",
"When a completely wired map operator runs (cutting, merging and converting point clouds, distance grids, laser scans, grids and surface grids; slope, folding, illumination; traversability classification, growing and grassfire), its result is determined by the current contents of its inputs, the current frame tree, its settings and, where it adds to its output, what the output held - and by nothing else: not earlier or interrupted runs, stale output, other items, moves, copies, save and load, or memory placement. It changes no map but its output, refuses grids of different sizes instead of reading beyond them, keeps the settings that are part of a scene, and replicas follow its updates. Cut, merged, converted, folded and (without negative information) projected data are exactly what the inputs define, placed by the current relative transforms; grown and simply classified cells get the class their neighbourhood or slope and step values imply.",
["histories","failure_points","configurations","heap_layouts"],"every history of map, frame, wiring and settings changes with runs of operators in between, every failing allocation during a run, every memory placement",
"existing (unbuilt) tests run a single operator once",
["src/operators","src/core/Operator.cpp"],[("operator implementations","src/operators/*.cpp updateAll"),("running operators","src/core/Environment.cpp updateOperators")],
"contents of all maps before and after each run, result in a fresh environment","run of a new operator in a new environment that holds copies of all maps; executable reference of the result for eleven operators",False)
# not applicable
p("C20","Expectation maximisation fits never lose likelihood and stay normalised",
"Each iteration of the Gaussian mixture fit leaves the mixture weights summing to one, covariances positive semi-definite and the data likelihood not lower than before.",
["inputs"],"all data sets and initialisations","the existing test checks one synthetic data set",
["src/tools/ExpectationMaximization.hpp","src/tools/GaussianMixture.hpp"],[("EM step","src/tools/ExpectationMaximization.hpp")])
p("C21","Lookup tables return the distance they tabulate",
"For every position inside their range the radial and box lookup tables return the distance that direct computation gives, to within the tabulation resolution.",
["inputs"],"all table parameters and positions","existing (unbuilt) tests probe a few positions",
["src/tools/BoxLookUpTable.cpp","src/tools/RadialLookUpTable.cpp"],[("tabulation","src/tools/BoxLookUpTable.cpp")])
p("C22","Uncertainty propagation is the linearised propagation of its operands",
"Composing, inverting and applying uncertain transforms yields the covariance obtained by linearised propagation of the operands' covariances, always symmetric and positive semi-definite.",
["inputs"],"all transforms and covariances","existing (unbuilt) tests compare one Monte-Carlo case",
["src/core/Transform.cpp"],[("covariance propagation","src/core/Transform.cpp")])
p("C23","Interpolation, reconstruction and registration compute their defined result",
"Grid interpolation from meshes, point cloud simplification, surface reconstruction and point cloud registration produce the output defined by their geometric specification.",
["inputs"],"all input maps and parameters","existing (unbuilt) tests use one or two inputs per operator",
["src/operators/Projection.cpp","src/operators/SimplifyPointcloud.cpp","src/operators/SurfaceReconstruction.cpp","src/icp"],[("operator implementations","src/operators/Projection.cpp, SimplifyPointcloud.cpp, SurfaceReconstruction.cpp")])
p("C24","Grid coordinates and cell indices convert consistently",
"Converting a cell index to coordinates and back returns the same cell, positions outside the grid are refused, and rectangle iteration visits exactly the cells inside the rectangle once.",
["inputs"],"all grids, poses and positions","existing (unbuilt) tests check a few rectangles",
["src/maps/GridBase.cpp","src/tools/GridAccess.cpp"],[("index conversion and rectangle iteration","src/maps/GridBase.cpp")])
for x in P:
    assert len(x["title"])<=80,x["title"]
    x["anchors"]={k:v for k,v in x["anchors"].items()}
open('/verif/properties.jsonl','w').write("".join(json.dumps(x)+"\n" for x in P))
