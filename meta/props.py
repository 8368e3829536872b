PROPS = [
 {'id': 'C01', 'title': 'Frame callbacks of filters give up exactly the references they take',
  'statement': 'On every path through a built-in filter\'s frame-producing callback, each frame, node, function or map reference the callback obtains is released, handed on or returned exactly once, and is not used after that. Error and early-return paths are included. Repeated requests, failing or not, therefore neither leak nor prematurely free frames.',
  'over': ['inputs', 'histories'], 'quant': 'every path of every frame callback, i.e. every frame, format, property content and error outcome',
  'why': 'Tests compare pixel results on a few clips; a leaked or doubly freed reference on one error path shows only as memory growth or a crash under particular inputs.',
  'files': ['src/core/simplefilters.cpp', 'src/core/reorderfilters.cpp', 'src/core/audiofilters.cpp', 'src/core/genericfilters.cpp', 'src/core/mergefilters.cpp'],
  'mechanism': [('getFrameFilter / newVideoFrame / copyFrame paired with freeFrame or return', 'src/core/*filters.cpp frame callbacks')],
  'technique': 'path-sensitive ownership typestate analysis over LLVM IR', 'note': 'sound per path under finite interval facts; loops over references run at least once'},
 {'id': 'C02', 'title': 'Every filter activation ends in a frame, an error or a request',
  'statement': 'Whenever the core activates a built-in filter\'s frame-producing callback to begin a frame or because requested frames are ready, the callback either returns a frame, or sets an error, or requests at least one further frame, and never mixes these outcomes. No activation ends silently with nothing.',
  'over': ['inputs', 'histories'], 'quant': 'every path of every frame callback for the initial and all-frames-ready activations',
  'why': 'A silent activation aborts the process or hangs the request only for the frame number, property or format that reaches that path.',
  'files': ['src/core/simplefilters.cpp', 'src/core/reorderfilters.cpp', 'src/core/audiofilters.cpp', 'src/core/vsthreadpool.cpp'],
  'mechanism': [('activationReason dispatch', 'src/core/*filters.cpp frame callbacks'), ('fatal check for callbacks that return nothing', 'src/core/vscore.cpp VSNode::getFrameInternal')],
  'technique': 'path-sensitive protocol (typestate) analysis over LLVM IR', 'note': 'search loops ending in a request are assumed to find their element'},
 {'id': 'C03', 'title': 'Filters fetch only frames they requested, by the same clip and number',
  'statement': 'In a built-in filter\'s frame-producing callback, every frame fetched once requested frames are ready was requested earlier in the same frame job: the same node and the same frame number, on every combination of parameters and frame numbers. A fetch that was never requested returns null and is dereferenced.',
  'over': ['inputs', 'histories'], 'quant': 'every pair of a request path and a fetch path of every frame callback, with symbolic frame numbers',
  'why': 'Whether request and fetch agree depends on frame number and parameters (first or last frame, odd fields, empty planes), of which tests sample few.',
  'files': ['src/core/simplefilters.cpp', 'src/core/reorderfilters.cpp', 'src/core/mergefilters.cpp', 'src/core/audiofilters.cpp', 'src/core/vsapi.cpp'],
  'mechanism': [('requestFrameFilter(n, node) matched by getFrameFilter(n, node)', 'src/core/*filters.cpp frame callbacks'), ('availFrames lookup returning null', 'src/core/vsapi.cpp getFrameFilter')],
  'technique': 'symbolic dataflow matching of request and fetch sites over LLVM IR', 'note': 'frame numbers computed in loops or by calls are matched by node only'},
 {'id': 'C04', 'title': 'Filters declare exactly the nodes they keep, with a pattern their requests obey',
  'statement': 'When a built-in filter creates its node, each input node its instance keeps and requests from is listed in the dependency array, every counted entry is filled in with a node the instance keeps, and a declared request pattern is honoured: under rpStrictSpatial the frame callback requests only frame n for output frame n, and under rpNoFrameReuse it does not request the same fixed frame every time.',
  'over': ['inputs', 'histories'], 'quant': 'every path of every creation callback that reaches node creation, against every request of its frame callback',
  'why': 'Caching decisions derive from the declared dependencies; a wrong one changes no pixel, only caching, memory and speed, or shows as a stale node, which tests never compare.',
  'files': ['src/core/simplefilters.cpp', 'src/core/reorderfilters.cpp', 'src/core/mergefilters.cpp', 'src/core/genericfilters.cpp', 'src/core/vscore.cpp'],
  'mechanism': [('VSFilterDependency arrays at createVideoFilter/createAudioFilter', 'src/core/*filters.cpp creation callbacks'), ('cache enabling from request patterns', 'src/core/vscore.cpp VSNode::updateCacheState')],
  'technique': 'path-sensitive abstract interpretation of creation callbacks over LLVM IR', 'note': 'dependency lists built in loops are compared as a whole'},
 {'id': 'C05', 'title': 'Creating and freeing filters gives up every reference taken',
  'statement': 'On every path of a built-in filter\'s creation callback each node, frame, function, map reference and instance object it obtains is released exactly once, handed to the created filter\'s instance or returned; error paths included. What the instance keeps is released exactly once by its free callback, on each of its paths, together with the instance data.',
  'over': ['inputs', 'histories'], 'quant': 'every path of every creation callback and every path of the free callback it registers',
  'why': 'Rejected arguments and teardown are rarely repeated in tests and a leaked or doubly released node leaves results unchanged until memory runs out or the process crashes.',
  'files': ['src/core/simplefilters.cpp', 'src/core/reorderfilters.cpp', 'src/core/mergefilters.cpp', 'src/core/audiofilters.cpp', 'src/core/lutfilters.cpp'],
  'mechanism': [('instance data structs, SingleNodeData/VariableNodeData destructors and free callbacks', 'src/core/filtershared.h'), ('mapGetNode/addNodeRef paired with freeNode', 'src/core/*filters.cpp creation callbacks')],
  'technique': 'path-sensitive ownership typestate analysis over LLVM IR, creation and free callbacks paired', 'note': 'loops over references run at least once; unwinding past the callback not followed'},
 {'id': 'C06', 'title': 'Every call of a built-in function ends in either a result or an error',
  'statement': 'On every path through the creation callback of a built-in function registered with a result, the output map receives either a result (a node or returned value) or an error message, never both and never nothing. A caller that sees no error can therefore use the result.',
  'over': ['inputs'], 'quant': 'every path of every creation callback: every argument combination',
  'why': 'An argument combination that silently returns nothing is only met by the test that happens to use it; callers dereference the missing result.',
  'files': ['src/core/simplefilters.cpp', 'src/core/reorderfilters.cpp', 'src/core/mergefilters.cpp', 'src/core/genericfilters.cpp', 'src/core/exprfilter.cpp'],
  'mechanism': [('mapSetError / createVideoFilter / mapConsumeNode on the output map', 'src/core/*filters.cpp creation callbacks')],
  'technique': 'path-sensitive protocol analysis over LLVM IR', 'note': 'two table-filling callbacks (Lut, Lut2) have paths beyond the precision limit and are reported undecided'},
 {'id': 'C07', 'title': 'Built-in functions use their arguments as their signatures declare them',
  'statement': 'A built-in function\'s callback reads only arguments its registered signature declares, with an accessor of the declared type; reads every declared argument; returns only declared results of the declared type; and never uses a read that aborts on absence for an optional or further list element without first testing on every path that it is there. Omitting an optional argument therefore never kills the process and passing one always has an effect.',
  'over': ['inputs'], 'quant': 'every map read reachable from each of the registered callbacks, on every path to it',
  'why': 'Tests pass few of the combinations of present and absent optional arguments.',
  'files': ['src/core/simplefilters.cpp', 'src/core/genericfilters.cpp', 'src/core/audiofilters.cpp', 'src/core/vsresize.cpp', 'src/core/textfilter.cpp', 'src/core/vsmap.h'],
  'mechanism': [('registerFunction signature strings', 'src/core/*filters.cpp *Initialize'), ('mapGet* with and without error argument', 'src/core/*filters.cpp creation callbacks')],
  'technique': 'interprocedural constant propagation and control-dependence analysis over LLVM IR, checked against the registered signatures', 'note': 'a branch depending on the count or read error of the value is taken to test its presence'},
 {'id': 'C08', 'title': 'Filters that run in parallel share nothing they write',
  'statement': 'A built-in filter whose frame function may run in several threads at once gives the same frames as one that runs alone: in fmParallel mode nothing reachable from the frame function writes to the instance data or to global or static data, except atomically, under a mutex at least as shared as the data, by once-only initialisation, or thread-locally; data written under such a mutex is only read under it. In fmParallelRequests mode the same holds for calls before the requested frames are ready. Filters whose frame function keeps state are made with a mode that serialises it, for every combination of arguments.',
  'over': ['schedules', 'inputs'], 'quant': 'every write reachable from the frame function of every built-in filter, every pair of frame function and mode at every place where a filter is made',
  'why': 'A race shows only under a particular interleaving, usually as a wrong pixel or a lost frame once in many runs; tests mostly render one frame at a time.',
  'files': ['src/core/simplefilters.cpp', 'src/core/genericfilters.cpp', 'src/core/audiofilters.cpp', 'src/core/averageframesfilter.cpp', 'src/core/vsresize.cpp', 'src/core/mergefilters.cpp', 'src/core/lutfilters.cpp', 'src/core/exprfilter.cpp'],
  'mechanism': [('the frame functions and the filterMode argument of createVideoFilter/createAudioFilter', 'src/core/simplefilters.cpp'), ('vszimg::get_graph_data', 'src/core/vsresize.cpp')],
  'technique': 'interprocedural pointer provenance of every write over LLVM IR, with guarding conditions and held mutexes', 'note': 'machine code generated by Expr and code of zimg are outside'},
 {'id': 'C09', 'title': 'Filters write only to frames they made',
  'statement': 'A frame obtained from another filter is never changed by the filter that obtained it: within the frame function of every built-in filter write access to pixels, samples and properties is requested only on frames it just made (newVideoFrame, newVideoFrame2, newAudioFrame, newAudioFrame2, copyFrame), pixels and samples are written only through the pointer getWritePtr gave, and properties only through the map getFramePropertiesRW gave; nothing is written through pointers obtained for reading.',
  'over': ['inputs', 'histories'], 'quant': 'every write and every request for write access reachable from the frame function of every built-in filter, through all helpers and kernels',
  'why': 'Source frames are cached and shared with other consumers; a filter that changes one corrupts what others see only when they look later, which single-filter tests never do.',
  'files': ['src/core/simplefilters.cpp', 'src/core/genericfilters.cpp', 'src/core/textfilter.cpp', 'src/core/boxblurfilter.cpp', 'src/core/mergefilters.cpp', 'src/core/reorderfilters.cpp', 'src/core/audiofilters.cpp', 'src/core/kernel'],
  'mechanism': [('the frame functions and their kernels', 'src/core/simplefilters.cpp')],
  'technique': 'interprocedural pointer provenance of every write over LLVM IR', 'note': 'machine code generated by Expr is outside: it receives the source pointers without const'},
 {'id': 'C10', 'title': 'Errors never escape across the C interface as exceptions',
  'statement': 'No exception raised by a throw in the project, by a std::filesystem operation that fails, by an invalid regular expression, by a failing number conversion or by cutting a string at the position of a search that found nothing leaves a function that is called through the C interface (API functions, filter creation, frame, free and log callbacks, plugin entry points, thread bodies, main of the tools) or a function that must not throw: on every chain of calls there is a handler that matches its type. Bad arguments, malformed registrations, unreadable paths and malformed files therefore end as errors reported to the caller and never terminate the process. Exhaustion of memory or threads and container index checks are outside.',
  'over': ['inputs', 'crash_points'], 'quant': 'every throwing statement and library call, every chain of calls from it to a function called from outside, every handler on the way',
  'why': 'An exception that finds no handler terminates the process of the host application, but only for the one input that raises it; tests use few invalid inputs.',
  'files': ['src/core/vscore.cpp', 'src/core/vsapi.cpp', 'src/core/lutfilters.cpp', 'src/core/genericfilters.cpp', 'src/core/boxblurfilter.cpp', 'src/core/averageframesfilter.cpp', 'src/core/exprfilter.cpp', 'src/core/vsresize.cpp', 'src/vsscript/vsscript.cpp', 'src/vspipe/vspipe.cpp'],
  'mechanism': [('handlers of VSException and std::runtime_error', 'src/core/vscore.cpp VSCore::createVideoFilter, VSPluginFunction::invoke, VSPlugin::registerFunction and the filter creation functions')],
  'technique': 'interprocedural exception flow analysis over LLVM IR', 'note': 'callbacks of plugins are assumed not to throw'},
 {'id': 'C12', 'title': 'Shared core state is only touched under its lock, and locks are always released',
  'statement': 'The state worker threads and callers share in the core (task queue and counters of the thread pool, pending-request lists, a node\'s cache, consumers and serial frame, the core\'s plugin, format, cache and log-handler tables, a plugin\'s functions while loading, the memory manager\'s free list) is accessed only with the mutex protecting it held, on every path, and every core function releases exactly the locks it took on every way out, exceptions aside.',
  'over': ['schedules', 'histories'], 'quant': 'every access to guarded state in every core function reachable from the API, on every path and through every call chain',
  'why': 'A missing lock only shows under a particular interleaving, which a test run may never produce.',
  'files': ['src/core/vsthreadpool.cpp', 'src/core/vscore.cpp', 'src/core/vscore.h', 'src/core/memoryuse.cpp', 'src/core/vsapi.cpp'],
  'mechanism': [('VSThreadPool::taskLock, VSNode::cacheMutex/serialMutex, VSCore::*Lock, VSPlugin::functionLock, MemoryUse::m_mutex', 'src/core/vscore.h')],
  'technique': 'interprocedural flow- and path-sensitive lock-set analysis over LLVM IR', 'note': 'constructors, unshared objects and core teardown exempt; guards named per member'},
 {'id': 'C13', 'title': 'The core\'s locks are taken in one global order and waits never hold another lock',
  'statement': 'No two core locks are ever acquired in opposite orders along any call chains, no non-recursive lock is taken again while held, and a thread that waits on a condition variable holds only the mutex that wait releases. So no combination of threads can deadlock on the core\'s internal locks.',
  'over': ['schedules'], 'quant': 'every pair of acquisitions along every call chain of the core',
  'why': 'A lock-order inversion deadlocks only if two threads interleave at exactly the two acquisitions.',
  'files': ['src/core/vsthreadpool.cpp', 'src/core/vscore.cpp', 'src/core/vscore.h', 'src/core/vsapi.cpp'],
  'mechanism': [('nested lock scopes in notifyCaches, setLinear, loadPlugin, runTasks', 'src/core/vscore.cpp, src/core/vsthreadpool.cpp')],
  'technique': 'interprocedural lock-order graph analysis over LLVM IR', 'note': 'locks abstracted per class member; indirect calls resolved by vtable and function-pointer field'},
 {'id': 'C14', 'title': 'User callbacks are never called with a lock held that they could need',
  'statement': 'The core never calls code it does not own (filter callbacks, frame-done callbacks, log handlers, function implementations, free callbacks, plugin entry points) while holding one of its non-recursive mutexes which an API call from that code could acquire; the only locks held there are the documented serialisation locks and recursive ones.',
  'over': ['schedules', 'histories'], 'quant': 'every call through a user-supplied function pointer in the core, with every lock set it can be reached with',
  'why': 'The deadlock needs a callback that calls back into the API at that moment; test callbacks do not.',
  'files': ['src/core/vscore.cpp', 'src/core/vsthreadpool.cpp', 'src/core/vsapi.cpp'],
  'mechanism': [('calls of filterGetFrame, frameDone, handler, func, free', 'src/core/vscore.cpp, src/core/vsthreadpool.cpp')],
  'technique': 'interprocedural lock-set analysis over LLVM IR at indirect call sites', 'note': 'may-held locks at each foreign call against those API entry points acquire'},
 {'id': 'C15', 'title': 'Every frame request is completed exactly once and none is left sleeping',
  'statement': 'Whatever a filter does with a request (return a frame, fail, request further frames) and however it was satisfied (computed or found in the cache): everyone waiting for it is notified exactly once with that outcome, its pending count falls by one and it is queued exactly when the count reaches zero; an internal request is unregistered exactly once before the lock is released, an external one has its callback called exactly once, with a frame or an error but not both, unlocked; all requested frames are subscribed to and counted; the filter is told of failed requests (arError); an fmFrameState filter stays reserved exactly until its request completes. Thread bookkeeping (active, idle, reserved, processing) balances over every round; a queued task always has a woken or active thread; a worker never sleeps while it might be the last active one with work, a pending flush or a stop to handle; requests deferred by a flush are resumed; waiting for completion and shutdown end only when, and always when, all workers are idle or stopped.',
  'over': ['schedules', 'histories', 'inputs'], 'quant': 'every path through one round of the worker loop and its helpers, the request entry point, setThreadCount, waitForDone and the destructor',
  'why': 'A lost or doubled completion hangs or corrupts only for a particular combination of outcome, sharing and timing (error with several waiters, cached frame with a second subscriber, memory pressure, nested blocking requests).',
  'files': ['src/core/vsthreadpool.cpp', 'src/core/vscore.h'],
  'mechanism': [('VSThreadPool::runTasks, returnFrame, startInternalRequest, startExternal, wakeThread, waitForDone', 'src/core/vsthreadpool.cpp')],
  'state': [('numFrameRequests', 'requests of a context still outstanding', 'src/core/vscore.h VSFrameContext'), ('activeThreads/idleThreads', 'workers running and sleeping', 'src/core/vscore.h VSThreadPool'), ('allContexts', 'internal requests in flight', 'src/core/vscore.h VSThreadPool')],
  'technique': 'property simulation (path-sensitive typestate with value facts, helpers followed) over LLVM IR', 'note': 'one round of the loop is judged from an arbitrary state; termination of filters themselves is not claimed'},
 {'id': 'C16', 'title': 'Reference counts of nodes, frames, functions and planes balance inside the core',
  'statement': 'Inside the core every reference is accounted for on every path: an API function that hands out a reference (addFrameRef, getFrameFilter, mapGetNode, newVideoFrame, createVideoFilter2 and so on) adds exactly one for the caller, one that takes one over (freeNode, mapConsumeFrame and so on) gives up exactly one whether it succeeds or fails, and all others leave the counts as they were. Frames add one reference for each plane they share and drop it when destroyed or when the plane is replaced; a node holds one reference to each dependency for its lifetime; delivering a frame moves references without losing or adding one. Counts are changed atomically by one, an object is destroyed exactly when its count reaches zero, and copying, moving, assigning, swapping and resetting the core\'s smart pointers keep count and number of holders equal, self-assignment included.',
  'over': ['inputs', 'histories', 'schedules'], 'quant': 'every path of every API function, of the frame and node constructors and destructors, of frame delivery and of each counting and smart pointer method',
  'why': 'A count that is off by one on one path only shows as memory that is never freed, or as a crash long after, for one kind of object or one error.',
  'files': ['src/core/vsapi.cpp', 'src/core/vscore.cpp', 'src/core/vscore.h', 'src/core/intrusive_ptr.h', 'src/core/vsthreadpool.cpp'],
  'mechanism': [('add_ref/release and vs_intrusive_ptr', 'src/core/intrusive_ptr.h, src/core/vscore.h'), ('add_ref before returning a held object', 'src/core/vsapi.cpp')],
  'state': [('refcount', 'number of holders', 'src/core/vscore.h')],
  'technique': 'path-sensitive reference credit analysis over LLVM IR', 'note': 'elements of containers of smart pointers are left to the container'},
 {'id': 'C17', 'title': 'Shared frame planes and property maps are never written, only copied first',
  'statement': 'Copying a frame or a property map is cheap because storage is shared; sharing is never observable. The core changes a map\'s storage, a property\'s value array or hands out a pointer for writing into a frame plane only when it has established that nobody else holds that object (it was just made, or its reference count is 1), on every path; otherwise it is replaced by a complete copy first. So writing through one frame or map never changes another.',
  'over': ['inputs', 'histories'], 'quant': 'every write to a map storage, property array or plane in the core, on every path and in every calling context',
  'why': 'A missing copy corrupts another frame or map that happens to share the object at that moment, which needs a particular sequence of copies and writes.',
  'files': ['src/core/vscore.h', 'src/core/vscore.cpp', 'src/core/vsapi.cpp'],
  'mechanism': [('VSMap::detach, VSMap::insert/erase/clear/copy', 'src/core/vscore.h'), ('VSFrame::getWritePtr', 'src/core/vscore.cpp')],
  'technique': 'path-sensitive exclusivity analysis of every write to shared objects over LLVM IR, helpers judged in their calling contexts', 'note': 'writes by filters through const_cast are outside'},
 {'id': 'C18', 'title': 'Reading and writing typed properties is checked and reported truthfully',
  'statement': 'A typed getter of the map API hands out the element asked for only if the map carries no error, the key exists, the index is in range and the value has the getter\'s type; a value is never read as another type or past its end. Otherwise the error output receives the code for what went wrong (peError, peUnset, peIndex, peType), success never, and without an error output the process ends. A typed setter stores exactly the value given, as an array of its own type (video or audio by what the node or frame is), under a valid name only; replace, append and touch do what they say, appending never changes a value of another type, and the return value is 0 exactly when something was stored. mapNumElements and mapGetType answer -1 and unset exactly for missing keys. Saturated reads clamp; _ColorRange is _Range with 0 and 1 swapped.',
  'over': ['inputs', 'histories'], 'quant': 'every path of every typed getter, setter and query of the API tables: every map content, key, index, type and mode',
  'why': 'Tests read values that are there; wrong types, missing keys, empty arrays and out of range indices in every combination of accessor and stored type are not sampled.',
  'files': ['src/core/vsapi.cpp', 'src/core/vscore.h', 'include/VSHelper4.h'],
  'mechanism': [('propGetShared, propSetShared, mapSetEmpty', 'src/core/vsapi.cpp'), ('VSArray::at/push_back/getDataPointer', 'src/core/vscore.h')],
  'technique': 'path-sensitive value-fact analysis of the API functions over LLVM IR, helpers followed', 'note': 'contents of strings passed are not interpreted beyond the name test being made'},
 {'id': 'C19', 'title': 'Frames are what their node declared, and planes have the memory their size says',
  'statement': 'A frame a filter returns is handed on (to its consumers and into the cache) only if it is what the node declared: same media type, same format and same width and height unless declared variable, and for audio exactly the number of samples due at that frame number (the full block size except the last frame, which holds the rest); anything else is fatal, and a frame as declared is never rejected or lost. Creating a frame with non-positive dimensions or with a sample count outside 1..the block size is fatal. Each plane of a new frame has a stride that covers its width and is aligned, and memory that covers stride times height (all channels for audio). Planes and channels are only shared or copied from a source plane that exists and has the same dimensions (length) and bytes per sample, anything else is fatal; the plane used is the one asked for. Plane accessors hand out the plane asked for and nothing for planes that do not exist. A copied frame has format, dimensions, planes and properties of the original.',
  'over': ['inputs', 'histories'], 'quant': 'every path of frame delivery, of every frame constructor and of every plane accessor: every declaration, format, size, plane number and source frame',
  'why': 'Tests use matching frames and existing planes; a filter returning something else, odd subsamplings and sizes, or plane arguments that do not fit are not sampled, and an overrun of plane memory often goes unnoticed.',
  'files': ['src/core/vscore.cpp', 'src/core/vscore.h'],
  'mechanism': [('VSNode::getFrameInternal', 'src/core/vscore.cpp'), ('VSFrame constructors and getReadPtr/getWritePtr/getStride/getWidth/getHeight', 'src/core/vscore.cpp')],
  'technique': 'path conditions and address terms of delivery, constructors and accessors over LLVM IR, compared on a grid of formats', 'note': 'frames passed to other nodes by cacheFrame are not compared with the declaration by the core and are outside'},
 {'id': 'C20', 'title': 'Frame memory is counted exactly, handed out whole and kept within the limit',
  'statement': 'Every block of frame memory is counted in the bytes in use with its size from the moment it is handed out until it is given back, and blocks kept for reuse are counted apart with theirs; no count changes otherwise. A block is at least as large as requested and remembers its own size; a block taken back is either kept or released, never both or neither, and a kept block leaves the list when it is handed out or released. Kept blocks are released until used plus kept memory is within the limit, whenever a block is kept or the limit is set. The memory manager ends exactly when the core is gone and nothing is in use, releasing what was kept. A plane takes its memory from the manager once, for all of its size, and gives it back once; its copy has the same contents. The bytes in use and the limit that users can query or set are those of the manager.',
  'over': ['histories', 'inputs'], 'quant': 'every path of every entry point of the memory manager, every request size, every history of allocations and releases',
  'why': 'Counts that drift or blocks that are lost only show after many allocations of particular sizes, or never in a test; no test looks at them.',
  'files': ['src/core/memoryuse.cpp', 'src/core/memoryuse.h', 'src/core/vscore.cpp', 'src/core/vsapi.cpp'],
  'mechanism': [('vs::MemoryUse', 'src/core/memoryuse.cpp'), ('VSPlaneData', 'src/core/vscore.cpp')],
  'technique': 'path-sensitive balance of block movements and counter changes over LLVM IR, sizes compared as terms', 'note': 'which kept block is chosen and the per-call allocation estimate are outside'},
 {'id': 'C21',
  'title': 'The binary interface keeps its promises',
  'statement': "What the published headers (VapourSynth4.h, VSConstants4.h, VSScript4.h, VapourSynth.h) promise to plugins and applications compiled earlier stays as it is: no enumeration value, structure layout, callback signature, function table offset or version number changes; tables only grow at the end; the core's own copy of the API 3 declarations agrees with the public one. Every slot of every function table is filled, with the function of that slot. getVapourSynthAPI, getVSScriptAPI and plugin loading accept exactly the versions the build implements (and getVSScriptAPI only after initialisation succeeded), and a plugin's functions, filters and free callbacks are always called with the function table of the API version under which they were registered or created.",
  'over': ['inputs', 'histories'],
  'quant': 'every declaration of the public headers, every table slot, every requested version, every call of a plugin function with an API table',
  'why': 'Tests are recompiled together with the headers, so a changed layout or swapped slot is consistent inside the repository and only breaks binaries that were built before; few versions are ever requested in tests.',
  'files': ['include/VapourSynth4.h', 'include/VSConstants4.h', 'include/VSScript4.h', 'include/VapourSynth.h', 'src/core/VapourSynth3.h', 'src/core/vsapi.cpp', 'src/core/vscore.cpp', 'src/vsscript/vsscript.cpp'],
  'mechanism': [('function tables and version negotiation', 'src/core/vsapi.cpp vs_internal_vsapi, vs_internal_vsapi3, vs_internal_vspapi, getVapourSynthAPI; src/vsscript/vsscript.cpp vsscript_api, getVSScriptAPI'), ('apiMajor of nodes, functions and plugins', 'src/core/vscore.cpp VSPlugin::configPlugin, VSNode::getFrameInternal, VSFunction::call, VSCore::destroyFilterInstance')],
  'technique': 'compile-time witnesses over the public headers, and static evaluation of table initialisers and version conditions over LLVM IR',
  'note': 'x86-64 Linux ABI'},
 {'id': 'C22',
  'title': 'The Python module never holds the interpreter lock where it can be waited for',
  'statement': 'The Python module never calls into the core with the interpreter lock (GIL) held where the core may wait for other threads or run functions of plugins, scripts or log handlers: requesting a frame and waiting for it, invoking and calling functions, freeing a core, delivering log messages, adding and removing log handlers, setting the thread count. Callbacks that the core calls (frame completion, Python functions, log handlers, free callbacks) and exported functions of the module take the lock before they touch Python and give it back on every path, and no code of the module uses Python without it.',
  'over': ['schedules', 'inputs'],
  'quant': 'every call from the module into the core, every use of Python, every path through callbacks and exported functions',
  'why': 'The deadlocks need another thread to be inside a callback at the right moment; a test that hits the window once in a thousand runs says nothing.',
  'files': ['src/cython/vapoursynth.pyx', 'src/cython/vapoursynth.pxd', 'src/core/vsapi.cpp', 'src/core/vscore.cpp', 'src/core/vsthreadpool.cpp'],
  'mechanism': [('nogil blocks and gil acquisition', 'src/cython/vapoursynth.pyx: every "with nogil", "with gil", callbacks (frameDoneCallback, publicFunction, freeFunc, log_handler_wrapper, log_handler_free), vpy4_*'), ('waits and locks of the core', 'src/core/vsthreadpool.cpp waitForDone, src/core/vscore.cpp logMessage, addLogHandler, removeLogHandler, freeCore')],
  'technique': "lock-state dataflow over the compiled module, against the set of core functions that wait or run foreign code, computed from the core's lock analysis",
  'note': ''},
 {'id': 'C23',
  'title': 'Whatever is asked of the Python module is answered',
  'statement': 'Every frame requested asynchronously through the Python module ends with exactly one call of the callback, with a frame or an error, and is then taken off the outstanding requests of its environment, whatever the error text contains, whether or not the requesting thread had an environment, and whatever fails on the way. Every exception raised while the core runs a Python function, of any class, becomes the error of that call. Log messages always reach the Python handler. The script functions exported to VSScript report failure (nonzero or NULL), with an error text where evaluation failed, whenever anything in them failed, and no callback or exported function returns with a Python exception pending.',
  'over': ['inputs', 'histories'],
  'quant': 'every path through the callbacks and exported functions of the module, with every operation on it failing',
  'why': 'The failing paths need text that is not UTF-8, a missing environment, or an exception class that tests do not raise; a missed answer is a caller that waits for ever.',
  'files': ['src/cython/vapoursynth.pyx'],
  'mechanism': [('frame completion', 'src/cython/vapoursynth.pyx frameDoneCallback, CallbackData'), ('Python functions as filter functions', 'src/cython/vapoursynth.pyx publicFunction'), ('log handlers', 'src/cython/vapoursynth.pyx _logCb, log_handler_wrapper'), ('exported functions', 'src/cython/vapoursynth.pyx vpy4_*, _vpy_evaluate')],
  'technique': 'path exploration with exception edges (typestate of pending exception, answer and status) over the compiled module',
  'note': 'environment policies are taken not to raise; looking up module names, formatting and allocation are taken to succeed'},
 {'id': 'C25',
  'title': 'Objects that outlive their environment or frame raise; none uses a dead handle',
  'statement': 'After an environment is destroyed or a frame is closed, every operation of the Python module on the nodes, frames, frame properties, cores, plugins and functions that belonged to it raises an exception (or answers without the core) instead of handing a dead handle to the core; that includes passing them as arguments, iterators that were started before, and exported functions. Every node and frame that is created is registered with its environment so that destroying it reaches them, and a handle that was given up is not kept.',
  'over': ['histories', 'inputs'],
  'quant': 'every use of a raw handle stored in an object of the module, on every path, for every order of destruction and use',
  'why': 'Tests use objects inside a living environment; the property is about every operation after destruction, in any order, and a miss is memory corruption rather than a failure.',
  'files': ['src/cython/vapoursynth.pyx'],
  'mechanism': [('guards', 'src/cython/vapoursynth.pyx RawNode.ensure_valid, RawFrame._ensure_open, Core.ensure_valid'), ('invalidation', 'src/cython/vapoursynth.pyx EnvironmentPolicyAPI.destroy_environment; create*Node, create*Frame registration')],
  'technique': 'must-facts (typestate) dataflow with interprocedural summaries over the compiled module',
  'note': 'the check and the use are taken to be one step: Python code running in between that destroys the environment is not followed'},
 {'id': 'C26',
  'title': 'vspipe reports success only for complete output',
  'statement': 'When vspipe ends with exit status 0, every step it took has succeeded and everything it was asked to write has arrived: numbers on the command line were read completely and in range, every file was opened, the script and its arguments were accepted, the output exists, trimming succeeded, headers could be made, every frame was retrieved, and for the output, timecodes, JSON and graph file either each write or the error state of the stream was looked at and the stream was flushed or closed successfully; a failure of any of these ends in a nonzero status. A frame that fails and every write or property problem found while handling a frame is recorded as the error of the run and no more frames are requested after it. Frames are written in order, whatever order they finish in; each finished frame is counted once, the next frame of the clip and its alpha is requested once and only while there are frames left; and a frame is counted as completed only under the mutex the main thread waits with, which is kept until the frame has been written, so that the main thread is told of the last frame and never closes the output or releases the state before it has been written.',
  'over': ['inputs', 'schedules'],
  'quant': 'every path through main of vspipe with its helpers and the callback for finished frames, with every operation on them failing',
  'why': 'vspipe has no tests at all; full disks, frames that fail, clips with alpha and the moment at which the main thread wakes up need particular circumstances.',
  'files': ['src/vspipe/vspipe.cpp'],
  'mechanism': [('exit status', 'src/vspipe/vspipe.cpp main, outputNode'), ('streams', 'src/vspipe/vspipe.cpp finishFile, initializeVideoOutput, initializeAudioOutput, finalizeVideoOutput'), ('finished frames', 'src/vspipe/vspipe.cpp frameDoneCallback, outputFrame'), ('numbers', 'src/vspipe/vspipe.cpp parseOptions')],
  'technique': 'path exploration of the program with its helpers followed (typestate of unchecked results, failures, streams, lock and counters)',
  'note': 'text printed to stderr and by --version and --help is left out; the core calls the callback exactly once per request (C15); the Windows branches are not compiled here'},
 {'id': 'C24',
  'title': 'The Python module releases what it owns, exactly once',
  'statement': 'Every map, frame, node, function reference and buffer the Python module makes, receives as a reference of its own or is called with is, on every path including those on which an exception is raised, released exactly once, or kept in an object that releases it when it is deallocated, or returned to a caller who then owns it; it is not used after it was released, and what belongs to somebody else (a handle in an object, a borrowed pointer of the core) is never handed on or returned as if it were owned without taking a reference first. A Python object handed to the core as the data of a callback, or kept in a script (its dictionary and error text), holds a reference of its own for that, which is dropped exactly once by the callback for a finished frame, the function given to release it, or whoever takes it out of the script, and not by anything else; when handing it over fails the reference is dropped.',
  'over': ['inputs', 'histories'],
  'quant': 'every path of every function of the module that makes, receives, hands over or keeps a resource, with every Python operation on it failing that can fail',
  'why': 'leaks and references dropped once too often do not change results; they need exceptions at particular points (values that cannot be converted, interrupts, files that refuse to be written) and long runs before anybody sees them.',
  'files': ['src/cython/vapoursynth.pyx'],
  'mechanism': [('calls of plugin functions', 'src/cython/vapoursynth.pyx Function.__call__, Func.__call__, mapToDict'), ('callback data', 'src/cython/vapoursynth.pyx createFuncPython, freeFunc, publicFunction, RawNode.get_frame_async, frameDoneCallback, Core.add_log_handler, log_handler_free, EnvironmentPolicyAPI.set_logger'), ('owners', 'src/cython/vapoursynth.pyx RawNode, RawFrame, FramePtr, Func, Core __dealloc__'), ('scripts', 'src/cython/vapoursynth.pyx _vpy_replace_pyenvdict, _vpy_evaluate, vpy4_freeScript, vpy4_getOutput')],
  'technique': 'path exploration of the compiled module with ownership typestate and reference counts of named resources',
  'note': 'reference counting that Cython generates is taken to be right; environment policies are taken not to raise; what is overwritten in a field of a script that the function has not looked at is not judged'},
 {'id': 'C27',
  'title': 'Objects given to the Python module are what it takes them for',
  'statement': 'Wherever the Python module looks inside an object as one of its own classes (a node, frame, format, function, environment, core, plugin, callback or log handle), calls a method of it that is not looked up by name, keeps or returns it as one, the object is of that class or one derived from it, and a method does not look inside an argument that was given as None: objects that come from scripts, environment policies, frame properties or dictionaries of outputs have been tested for the class on every path to that place, and the user data a callback of the core converts back is of the class it was registered with. An object of another class, even one with attributes of the same names, makes the call raise an exception or is treated as what it is and never has its memory read as something it is not. The core, which the module passes on to functions of the core, is never left out where the core needs one.',
  'over': ['inputs'],
  'quant': 'every use of the layout of a class of the module, every object kept, returned or passed on as one, every callback registered with the core, every core passed to the core',
  'why': 'an unchecked cast works for every object it was meant for; the tests pass objects of the right classes, and a wrong one reads unrelated memory and crashes only with particular values',
  'files': ['src/cython/vapoursynth.pyx'],
  'mechanism': [('values given to filters, functions and frame properties', 'src/cython/vapoursynth.pyx typedDictToMap, dictToMap, FrameProps.__setitem__'), ('environments', 'src/cython/vapoursynth.pyx EnvironmentPolicy.is_alive, EnvironmentPolicyAPI.wrap_environment, _env_current, _get_vsscript_policy'), ('outputs of scripts', 'src/cython/vapoursynth.pyx vpy4_getOutput, vpy4_getAlphaOutput, VideoNode.output'), ('callback data', 'src/cython/vapoursynth.pyx publicFunction, frameDoneCallback, log_handler_wrapper')],
  'technique': 'type-state dataflow over the compiled module: declared classes, type tests dominating each use, user data matched to its callbacks, constants traced through calls',
  'note': 'binary operators rely on the language; frames(), plugins() and functions() are taken to yield frames, plugins and functions; built-in types such as dict and str are checked by Cython and not judged'},
 {'id': 'C28',
  'title': 'What filters compute',
  'statement': 'Every built-in filter computes the values its documentation gives: Expr evaluates its expression with the documented operators, clamping and rounding, Resize converts between formats, matrices, transfers and primaries, the convolution, lookup, merge, levels and statistics filters compute their formulas for every sample, and all implementations of the same filter (plain, SSE2, AVX2) agree.',
  'over': ['inputs'],
  'quant': 'every sample of every frame, format and parameter',
  'why': 'formats, parameters and sample values are far too many to sample',
  'files': ['src/core/expr', 'src/core/kernel', 'src/core/simplefilters.cpp', 'src/core/genericfilters.cpp', 'src/core/vsresize.cpp'],
  'mechanism': [('expression compiler', 'src/core/expr/expr.cpp, jitcompiler'), ('kernels', 'src/core/kernel/*.cpp, src/core/kernel/x86/*.c')],
  'na': 'The property equates values computed at run time, by generated machine code (Expr), intrinsics and an external library (zimg), with formulas that are only given in prose. Deciding it needs evaluation or equivalence proofs by a solver, which are other families; nothing about the shape of the code stands for it.'},
 {'id': 'C29',
  'title': 'Frames do not depend on the schedule',
  'statement': 'For a graph of filters without side effects the contents of frame n of any node are the same whatever the number of threads, the sizes of the caches, the order and overlap of requests, and whether frames are recomputed or found in a cache.',
  'over': ['schedules', 'histories'],
  'quant': 'every graph, every order of requests, every interleaving',
  'why': 'it quantifies over interleavings and histories of requests',
  'files': ['src/core/vscore.cpp', 'src/core/vsthreadpool.cpp', 'src/core/vscore.h'],
  'mechanism': [('cache', 'src/core/vscore.cpp VSNode cache, VSCache'), ('scheduling', 'src/core/vsthreadpool.cpp VSThreadPool::runTasks')],
  'na': 'It relates the contents of frames across executions, so it depends on what each getFrame function computes from its inputs and on filters that keep state by design (Average Frames windows, caches, user callbacks); no static argument in reach decides it as a whole. The causes that can be decided are claimed separately: data shared between threads (C08), frames written after they are shared (C09, C17), frames fetched by the wrong number (C03), the locks of the core (C12) and the completion of requests (C15).'},
 {'id': 'C30',
  'title': 'The bytes written by vspipe and output()',
  'statement': 'What vspipe and VideoNode.output/AudioNode.output write is, for every clip, a valid stream of the chosen container (raw, Y4M, WAVE, Wave64, timecodes, JSON): headers state the format, dimensions, rate and length of the clip, planes are in the documented order and every line has exactly the bytes of its samples.',
  'over': ['inputs'],
  'quant': 'every format, dimension, rate, range and container',
  'why': 'combinations of formats and containers with lengths that overflow header fields are rarely tried',
  'files': ['src/vspipe/vspipe.cpp', 'src/vspipe/vsjson.cpp', 'src/cython/vapoursynth.pyx', 'src/common/wave.h'],
  'mechanism': [('headers', 'src/vspipe/vspipe.cpp initializeVideoOutput, initializeAudioOutput'), ('Python', 'src/cython/vapoursynth.pyx VideoNode.output, AudioNode.output')],
  'na': 'The headers are strings formatted from run-time values and the oracle is the definition of the container formats; whether the text is right for all values is a question about computed strings, not about the structure of the program. That nothing is lost, duplicated, reordered or left unreported on the way to the file is claimed as C26.'},
]
