"""The properties and how each is decided. tools/gen.py writes properties.jsonl and MANIFEST.json from this."""
P = {}


def prop(id, title, statement, over, text, tests, files, mech, technique, note, observe=()):
    P[id] = dict(id=id, title=title, statement=statement, over=over, text=text, tests=tests, files=files, mech=mech,
                 technique=technique, note=note, observe=list(observe))


CORE = ['src/core/vsthreadpool.cpp', 'src/core/vscore.cpp', 'src/core/vsapi.cpp']

prop('C01', 'Every frame request completes exactly once, whatever the schedule',
     'Every frame request a client makes, synchronous or asynchronous, for any node and any number of threads, is completed exactly once, '
     'with either a frame or an error and for the frame number and node it was made for; no combination of thread count changes, cache '
     'clearing, memory pressure, errors or synchronous requests made from inside callbacks of the pool leaves a request unanswered. '
     'Asynchronous completion callbacks run one at a time, and requests for frames outside a clip are answered with an error.',
     ['schedules', 'histories', 'configurations'],
     'all request histories of any number of clients, all interleavings of the worker threads, all thread counts, cache settings and memory limits',
     'the tests request a few frames from one thread with default settings; lost wakeups, deadlocks under memory pressure and double '
     'completions need particular interleavings and settings',
     CORE, [('thread pool task loop, wake-up and over-limit parking', 'src/core/vsthreadpool.cpp: VSThreadPool::runTasks'),
            ('request start and completion', 'src/core/vsthreadpool.cpp: startExternal, returnFrame, startInternalRequest'),
            ('synchronous requests', 'src/core/vsapi.cpp: getFrame, getFrameAsync')],
     'online exactly-once and quiescence monitors over random graphs under injected delays, clock warping and memory pressure; ASan build as well',
     'Held on every execution observed; a hang is only reported when the process is provably quiescent. Schedules are sampled, not enumerated.',
     ['completion callback', 'getFrame return'])

prop('C02', 'Filters are activated exactly as their declared mode promises',
     'A filter declared serial is never entered by two threads at once, a filter that keeps per-frame state finishes one frame before '
     'starting another, a filter with parallel requests is entered by one thread at a time once its inputs are ready, and internally one frame '
     'is not produced twice at the same time for the same consumers. Each frame is started exactly once with empty per-frame data, is continued '
     'only when every frame it requested is available (or once with an error if one failed), keeps its own per-frame data between '
     'activations, and is never activated for a frame number outside the clip.',
     ['schedules', 'programs', 'histories'],
     'all graphs, filter modes, request patterns and interleavings of the worker threads',
     'the tests do not observe activations at all; they only look at final frames of graphs made of the built-in filters',
     CORE, [('per-node serial lock and frame-state owner', 'src/core/vsthreadpool.cpp: VSThreadPool::runTasks'),
            ('combining of internal requests', 'src/core/vsthreadpool.cpp: startInternalRequest'),
            ('frame availability and clamping', 'src/core/vsapi.cpp: requestFrameFilter, getFrameFilter')],
     'online activation-protocol monitor inside custom filters of every mode, under perturbed schedules; ASan build as well',
     'Every activation of every filter in the run is judged; assumes filters keep their side of the contract.',
     ['filter getFrame callback'])

prop('C03', 'A graph gives the same frames whatever the schedule and settings',
     'The frame delivered for a node and frame number, both pixel or sample contents and properties, is the one a single-threaded evaluation of '
     'the graph gives, regardless of thread count, request order, concurrency, cache configuration, cache flushing and memory limits. The same '
     'holds for every frame handed to a filter: it is the frame of the node and number the filter asked for, with requests past the end of a '
     'clip answered with its last frame, and it is never modified while someone holds it.',
     ['schedules', 'configurations', 'programs'],
     'all graphs, orders of requests, thread counts, cache settings, memory limits and interleavings',
     'the tests use one order of requests and default caches and threads; wrong frames need cache reuse, sharing and concurrency to line up',
     CORE, [('frame caches', 'src/core/vscore.cpp: VSCache, VSNode::getCachedFrameInternal'),
            ('copy-on-write frames', 'src/core/vscore.cpp: VSFrame, VSPlaneData'),
            ('routing of finished frames', 'src/core/vsthreadpool.cpp: runTasks')],
     'differential oracle: sequential evaluation of the same random graph against every frame delivered, under perturbed schedules and settings',
     'Contents are compared for every delivered frame and every frame passed to a filter in the run.',
     ['delivered frames', 'frames received by filters'])

prop('C04', 'Errors reach exactly the requests that depend on them, with their text',
     'When a filter fails on a frame, every request whose result needs that frame fails with the message of a filter that actually failed on something it '
     'needed, requests that do not need it succeed, and no failed frame is ever delivered or reused as a frame. Error text is copied into the '
     'caller\'s buffer truncated to its size and terminated, and later requests for the same or other frames work normally.',
     ['histories', 'schedules', 'fault_sequences'],
     'all patterns of failing frames and filters, all graphs, buffer sizes and interleavings',
     'the tests make single requests fail in a few filters; they do not combine failures with sharing, concurrency and retries',
     CORE, [('error propagation to waiting contexts', 'src/core/vsthreadpool.cpp: runTasks'),
            ('error text', 'src/core/vscore.cpp: VSFrameContext::setError; src/core/vsapi.cpp: frameWaiterCallback')],
     'fault injection in custom filters with an online oracle that knows which frames must fail and which messages are possible',
     'Every delivered frame and error is judged against the sequential evaluation of which frames fail.',
     ['completion callback', 'getFrame error buffer', 'filter error activation'])

prop('C05', 'Frame caches never lie, obey their bounds and can be controlled',
     'A cached frame is returned only for the node and frame number it was produced for, until it is flushed; a cache with a fixed size holds at '
     'most that many frames and keeps the most recently used ones, and a frame within the configured size that was requested again is not '
     'produced again. Disabling, forcing, resizing or clearing caches takes effect immediately, never changes any delivered frame, and clearing releases the memory of frames '
     'nobody else holds.',
     ['histories', 'configurations'],
     'all sequences of requests, cache mode and option changes, flushes and graph changes',
     'the tests have a handful of cache size scenarios; replacement order, option changes and adaptive resizing depend on long histories and the clock',
     ['src/core/vscore.cpp', 'src/core/vscore.h'],
     [('adaptive LRU cache', 'src/core/vscore.cpp: VSCache'), ('cache modes and options', 'src/core/vscore.cpp: VSNode::setCacheMode, setCacheOptions, updateCacheState')],
     'online model of the cache compared with production counts of custom filters over random operation histories with a controlled clock',
     'Judges which requests may and must reach the filter for fixed-size, disabled and flushed caches; adaptive size is bounded, not predicted.',
     ['filter getFrame callback', 'core memory counter'])

prop('C06', 'Frame memory is conserved and the limit is honoured',
     'The memory a core reports as used equals the memory of the frames and caches that exist: it rises with each allocation, is unaffected by sharing, '
     'and returns to zero once all frames are released and caches are flushed. When use exceeds the configured limit, caches are shrunk '
     'until use falls to the limit or nothing unreferenced is left, and the core keeps making progress and correct frames.',
     ['histories', 'schedules', 'configurations'],
     'all allocation and release histories from any threads, all limits',
     'the tests only check that setting the limit returns a value; leaks and over-retention need long histories and pressure',
     ['src/core/memoryuse.cpp', 'src/core/memoryuse.h', 'src/core/vscore.cpp', 'src/core/vsthreadpool.cpp'],
     [('allocation accounting and buffer pool', 'src/core/memoryuse.cpp'), ('eviction under pressure', 'src/core/vscore.cpp: VSCore::notifyCaches'),
      ('pipeline flush', 'src/core/vsthreadpool.cpp: runTasks')],
     'conservation monitor over core memory counters against a model of live planes, under ASan, with clock control to force sweeps and flushes',
     'Counters are compared exactly at quiescent points and bounded in between.',
     ['core info'])

prop('C07', 'Objects live exactly as long as they are referenced',
     'Each filter instance\'s free callback, each function\'s and log handler\'s free callback runs exactly once, after the last reference is gone, never while '
     'a call or frame of it is in progress, and never before the objects that depend on it are gone. Frames and nodes that are still referenced stay '
     'valid, even after the core itself was freed, until they are released one at a time, and no operation touches freed memory.',
     ['histories', 'schedules'],
     'all orders of creating, referencing, requesting from and releasing nodes, frames, functions, maps and cores, with concurrent work',
     'tests release everything in the order Python happens to; use after free needs other orders and concurrent requests',
     CORE, [('reference counts and core lifetime', 'src/core/vscore.h, src/core/vscore.cpp: filterInstanceDestroyed, freeCore'),
            ('iterative destruction of filter chains', 'src/core/vscore.cpp: destroyFilterInstance')],
     'exactly-once lifetime monitors on free callbacks plus AddressSanitizer, over random graphs with temporary filters and late releases',
     'Object lifetimes observed in the run; leaks of library internals are not judged beyond callbacks and the memory counter.',
     ['filter free callback'])

prop('C08', 'The core has no data races',
     'Any use of the core allowed by the documentation - requests, node and filter creation and release, cache and thread settings, logging, map, '
     'function and frame operations from several threads - is free of data races in the core.',
     ['schedules'],
     'all interleavings of all documented operations',
     'a race is invisible to functional tests and the suite is not run under a race detector',
     CORE + ['src/core/vslog.cpp', 'src/core/memoryuse.cpp'],
     [('locking in thread pool, caches, core', 'src/core/vsthreadpool.cpp, src/core/vscore.cpp')],
     'ThreadSanitizer over the random graph, map, frame and logging workloads',
     'Happens-before race detection on the executed code; uninstrumented system libraries are trusted.',
     ['memory accesses'])

prop('D01', 'Maps behave as ordered, typed containers with value semantics',
     'A map stores typed lists under names in insertion-independent name order: reads return exactly what was written, with the documented error for missing keys, wrong '
     'types and indices, appending and replacing follow the documented rules and a refused write leaves the map unchanged. Copies of maps and '
     'frame properties are independent values: changing one never changes another, also when several threads use copies at the same time.',
     ['histories', 'schedules', 'inputs'],
     'all sequences of map operations over all types, sizes and sharing, and concurrent use of copies',
     'tests exercise a few keys from one thread; copy-on-write sharing and refused operations are not covered',
     ['src/core/vsapi.cpp', 'src/core/vscore.h', 'src/core/vscore.cpp'],
     [('copy-on-write map storage', 'src/core/vscore.h: VSMap, VSMapStorage, VSArray'), ('map API', 'src/core/vsapi.cpp: mapSetIntInternal and neighbours')],
     'model-based oracle on random operation histories under ASan+UBSan, plus a threaded copy-on-write workload under TSan',
     'Every observer is compared with the model after every step.',
     ['map API results'])

prop('D02', 'Frames are isolated values with valid, aligned, shared-on-write planes',
     'Writing to a frame or its properties never changes any other frame, including copies and frames built from its planes, while unmodified '
     'planes are shared and not duplicated in memory. Every frame has the dimensions, plane sizes, subsampling, channel layout and sample counts of its '
     'format, plane pointers and strides are aligned to at least 32 bytes and planes never overlap one another.',
     ['histories', 'inputs', 'schedules'],
     'all formats and sizes, all sequences of copying, plane sharing and writing, and concurrent use of copies',
     'tests write a few pixels in small frames through Python only',
     ['src/core/vscore.cpp', 'src/core/vscore.h', 'src/core/vsapi.cpp'],
     [('frame and plane storage', 'src/core/vscore.cpp: VSFrame, VSPlaneData'), ('frame API', 'src/core/vsapi.cpp: newVideoFrame2, copyFrame, newAudioFrame2')],
     'model-based oracle (independent copies of all contents) over random frame histories, under ASan+UBSan and TSan',
     'Every frame\'s contents, properties, geometry and the memory counter are compared with the model.',
     ['frame API results', 'core memory counter'])

prop('D03', 'Functions accept exactly the arguments their signature allows',
     'Registering a function succeeds exactly for well-formed names and argument signatures and a plugin never ends up with a duplicate or malformed function. Calling a function runs '
     'it only when all required arguments are present, have the declared type and arity and nothing undeclared is passed; otherwise the call '
     'fails with an error naming the function and problem, and arguments and results are passed through unchanged and released exactly once.',
     ['inputs', 'programs'],
     'all signatures and all argument maps',
     'tests call the built-in functions with mostly correct arguments',
     ['src/core/vscore.cpp', 'src/core/vsapi.cpp'],
     [('signature parsing', 'src/core/vscore.cpp: VSPluginFunction'), ('argument checking', 'src/core/vscore.cpp: VSPluginFunction::invoke')],
     'reference model of the signature grammar and argument rules against random signatures and calls, under ASan+UBSan',
     'Signatures and calls are generated around the boundary of what is valid.',
     ['registerFunction, invoke results'])

prop('D04', 'Formats are validated, named and encoded consistently',
     'A video or audio format can be created exactly when its parameters form a supported combination; its numeric ID and its derived fields '
     '(bytes per sample, planes, channels) follow from the parameters, different video formats have different IDs and names, and converting to an ID and back '
     'gives the same format. A filter is created exactly when its clip description is valid.',
     ['inputs'],
     'all combinations of format parameters',
     'tests look at a few named formats',
     ['src/core/vscore.cpp', 'src/core/vsapi.cpp', 'include/VSHelper4.h'],
     [('format queries', 'src/core/vscore.cpp: queryVideoFormat, getVideoFormatByID, isValidVideoFormat, isValidAudioFormat, isValidVideoInfo')],
     'exhaustive sweep of the parameter space against an independent model, under ASan+UBSan',
     'The parameter space is swept completely for small values and sampled outside.',
     ['format API results'])

prop('D05', 'Log messages reach every registered handler once and in order',
     'A message logged to a core is delivered exactly once, unchanged and in order to every handler registered at that time; messages logged before the first handler is added are kept (up to the '
     'documented bound) and delivered to it first. A removed handler is never called again and its free callback runs exactly once.',
     ['histories', 'schedules'],
     'all sequences and interleavings of logging, adding and removing handlers',
     'tests log single messages with one handler',
     ['src/core/vscore.cpp', 'src/core/vsapi.cpp'],
     [('log dispatch and early message store', 'src/core/vscore.cpp: logMessage, addLogHandler, removeLogHandler')],
     'sequence-numbered trace monitor on handlers, single and multi-threaded, under ASan and TSan',
     'Message sequences in the run are checked completely.',
     ['log handler callback'])

prop('D06', 'Plugins load exactly once under unique identities',
     'Loading a plugin succeeds exactly when the file is a plugin of a supported API version whose identifier and namespace (its own or the forced ones) are not '
     'taken; a load that fails changes nothing. Every loaded plugin is listed once and found by its identifier and namespace with its own functions, and only '
     'plugins that declare themselves modifiable accept new functions after loading. Loading a directory loads every plugin in it (exactly those its manifest '
     'lists, if it has one), each in the build that suits the processor, and passes over those that fail.',
     ['histories', 'inputs'],
     'all sequences of loading good, broken, conflicting and renamed plugins, and all plugin directory trees with and without manifests',
     'no test loads an external plugin at all',
     ['src/core/vscore.cpp', 'src/core/vsapi.cpp'],
     [('plugin loading', 'src/core/vscore.cpp: loadPlugin, loadAllPluginsInPath, VSPlugin')],
     'reference model of the plugin registry over random load histories with purpose-built plugins, under ASan+UBSan',
     'The registry is compared with the model completely after every step; API 3 plugins are not covered.',
     ['plugin enumeration', 'LoadPlugin results'])

prop('D07', 'Graph inspection tells the truth about every node',
     'Everything a node reports about itself (name, filter mode, video or audio description, sources and how they are requested) is what it was created with, at any time and from any thread. '
     'In a core with graph inspection a node also reports, innermost first, the whole chain of function calls that created it with their unchanged arguments; in any other core it reports none. '
     'The processing time of a node and the freed time of the core count each activation once, never more than was spent and never less than was certainly spent.',
     ['histories', 'schedules', 'programs'],
     'all graphs built by nested function calls from any number of threads, with and without inspection and timing',
     'no test looks at graph inspection or processing times',
     ['src/core/vscore.cpp', 'src/core/vsapi.cpp', 'src/core/vscore.h'],
     [('creation information and node description', 'src/core/vscore.cpp: VSNode, VSCore::functionFrame handling'), ('time counters', 'src/core/vscore.cpp: VSNode::processFrame, VSCore::destroyFilterInstance')],
     'model of every node kept by instrumented filters and compared with all inspection calls, clocks inside the filters bounding the time counters; also under ASan+UBSan and TSan',
     'Every node is compared completely; times are bounded by clocks read inside and around the activations.',
     ['inspection API results'])

prop('D08', 'Programs and plugins written for API 3 see the same world',
     'A program or plugin that uses the API 3 functions gets what API 3 documents, over the same objects that API 4 programs use: formats translate to their API 3 ids and constants and back, maps keep every value, key, type and error '
     'across both views, functions registered through one API are callable with the same arguments and defaults through the other, filters created through either deliver the same frames under the promises of their filter mode, '
     'and messages reach every handler once with its own user data until it is removed.',
     ['inputs', 'histories', 'schedules'],
     'all histories of maps, formats, registrations, messages and graphs mixing both APIs',
     'no test loads an API 3 plugin or calls an API 3 function',
     ['src/core/vsapi.cpp', 'src/core/vscore.cpp', 'include/VapourSynth.h'],
     [('API 3 functions', 'src/core/vsapi.cpp: functions ending in 3'), ('translation of formats and arguments', 'src/core/vscore.cpp: VideoInfoToV3, getV3VideoFormat, getV3ArgString, VSPlugin::invoke'),
      ('filter modes', 'src/core/vscore.cpp: VSNode API 3 constructor; src/core/cachefilter.cpp')],
     'a plugin and a host written only against the API 3 header run random histories beside API 4 code on the same core; a model of the documented answers judges each call and each frame; also under ASan+UBSan and TSan',
     'Answers are judged where API 3 documents them; the fatal paths of API 3 are not entered.',
     ['results of API 3 and API 4 calls over the same objects', 'frames delivered'])

FT = 'reference model in numpy: every frame of random clips is compared with an independent evaluation at every CPU dispatch level, under load from several threads; repeated under ASan+UBSan'
FN = 'Exact for integer formats up to the rounding of exact ties, within a derived rounding bound for float formats; inputs are sampled, resize-dependent features are not built here.'
FOBS = ['frames, properties and clip information of the filter outputs']


def fprop(id, title, statement, text, tests, files, mech, note=FN, over=('inputs', 'configurations'), technique=FT):
    prop(id, title, statement, list(over), text, tests, files, mech, technique, note, FOBS)


fprop('F01', 'Spatial filters compute their documented neighbourhood operations',
      'Convolution (square, horizontal, vertical, separable), Median, Minimum, Maximum, Inflate, Deflate, Prewitt and Sobel give, for every sample of every processed plane of any '
      'supported format and size, the documented function of its neighbourhood with mirrored edges, rounded and clamped to the format, honouring all their arguments. Planes that '
      'are not processed, frame properties and clip information are passed on unchanged. The result does not depend on the CPU instruction set used.',
      'all formats, sizes, sample values, matrices, divisors, biases, thresholds, coordinates, planes and CPU levels',
      'the tests look at single pixels of constant clips and compare a few kernels on one size; edge columns, tails of vector rows and extreme values are not covered',
      ['src/core/genericfilters.cpp', 'src/core/kernel/generic.cpp', 'src/core/kernel/x86/generic_avx2.cpp'],
      [('argument handling and dispatch', 'src/core/genericfilters.cpp'), ('kernels', 'src/core/kernel/generic.cpp, src/core/kernel/x86')])
fprop('F02', 'Point filters map every sample as documented',
      'Invert, InvertMask, Limiter, Binarize, BinarizeMask, Levels, Lut and Lut2 map every sample of the processed planes by the documented formula or the table or function given, '
      'rounded and clamped to the output format, whatever the format, size, arguments and CPU level; tables and arguments that do not fit the format are refused. Planes that are not '
      'processed are passed on unchanged, or processing them is mandatory if the output format differs.',
      'all formats, sizes, sample values, tables, thresholds and planes',
      'the tests use a few constant clips and tables',
      ['src/core/genericfilters.cpp', 'src/core/lutfilters.cpp'],
      [('point filters', 'src/core/genericfilters.cpp'), ('table filters', 'src/core/lutfilters.cpp')])
fprop('F03', 'Expr evaluates every program to the value its operations define',
      'For every valid program, Expr gives for every sample the value the reverse Polish operations define on the corresponding samples of its inputs, up to single precision rounding, '
      'rounded and clamped to the output format, whatever optimisations the expression compiler applies and whichever CPU level runs it; results of exactly representable integer arithmetic '
      'are exact. Empty expressions copy the plane, missing ones repeat the last one, and malformed programs and references to missing clips are refused.',
      'all programs over up to 26 inputs of all formats, output formats, sizes and CPU levels',
      'the tests evaluate about a hundred tiny programs on constant clips and pin the code generated for some programs; optimiser rules interact in combinations nobody wrote down',
      ['src/core/expr/expr.cpp', 'src/core/expr/jitcompiler_x86.cpp', 'src/core/exprfilter.cpp'],
      [('parser, optimiser', 'src/core/expr/expr.cpp'), ('code generators', 'src/core/expr/jitcompiler_x86.cpp, src/core/exprfilter.cpp: ExprInterpreter')],
      note='Random programs are evaluated in interval arithmetic with a derived error budget; programs with values undefined, infinite or leaving the float range when multiplied out are not judged (two listed findings).')
fprop('F04', 'Merging filters blend two clips by the exact documented weights',
      'Merge, MaskedMerge (also premultiplied and with first_plane), MakeDiff, MergeDiff, MakeFullDiff, MergeFullDiff and PreMultiply combine the corresponding samples of their '
      'inputs by the documented arithmetic with correct rounding, weights of 0 and 1 and mask values 0 and peak giving exactly one input, for all formats, sizes and CPU levels. '
      'Shorter second clips repeat their last frame, unprocessed planes and properties come from the first clip, and clips or masks that do not fit are refused.',
      'all formats, sizes, sample values, weights, masks, clip lengths, planes and CPU levels',
      'the tests check constant clips for a few formats; full range exactness and clip length handling are not covered',
      ['src/core/mergefilters.cpp', 'src/core/kernel/merge.cpp', 'src/core/kernel/x86/merge_avx2.cpp'],
      [('filters', 'src/core/mergefilters.cpp'), ('kernels', 'src/core/kernel/merge.cpp')])
fprop('F05', 'BoxBlur and AverageFrames average the samples they document',
      'BoxBlur gives the average of 2r+1 samples with repeated edges in each direction for every radius and number of passes, integer passes rounding alternately up and down; AverageFrames '
      'gives the weighted sum of the corresponding frames of its clips, or of the neighbouring frames of one clip (frames beyond the ends repeated, frames across scene changes replaced by the '
      'current one), divided by the scale. Planes that are not processed and properties come from the current frame of the first clip.',
      'all formats, sizes, radii, pass counts, weights, scales, clip lengths and scene change marks',
      'the tests check a few radii on one picture and weights on constant clips',
      ['src/core/boxblurfilter.cpp', 'src/core/averageframesfilter.cpp', 'src/core/kernel/average.cpp'],
      [('box blur', 'src/core/boxblurfilter.cpp'), ('averaging', 'src/core/averageframesfilter.cpp')])
fprop('F06', 'Geometry filters move every sample to its documented place',
      'Crop, CropAbs, AddBorders, StackVertical/Horizontal, FlipVertical/Horizontal, Turn90/180/270, Transpose, SeparateFields, DoubleWeave, ShufflePlanes, SplitPlanes and BlankClip put every '
      'input sample or colour exactly where documented, for every format (all depths and subsamplings), size and CPU level. Clip length, size, format, frame rate, field order and duration properties '
      'follow the documented rules, including when clips of different lengths, repeated clips or clips of variable size are used. Arguments that violate the size, subsampling or range rules are refused.',
      'all formats, sizes, borders, plane combinations and field orders',
      'the tests run these filters on a few clips and mostly check clip information',
      ['src/core/simplefilters.cpp', 'src/core/kernel/transpose.cpp'],
      [('geometry filters', 'src/core/simplefilters.cpp')],
      note='Exact for all formats; ShufflePlanes on variable clips, which the documentation promises but the code refuses, is not judged.')
fprop('F07', 'Timeline filters deliver exactly the documented frames',
      'Trim, Reverse, Loop, Interleave, SelectEvery, Splice, DuplicateFrames, DeleteFrames, FreezeFrames and AssumeFPS, alone or in any combination, deliver for every output frame number exactly '
      'the documented input frame, unchanged except for the documented frame durations, and report the documented length, frame rate, format and size, up to the maximum clip length. Arguments '
      'outside the clip, results that would be empty or too long and clips that do not match are refused.',
      'all graphs of timeline filters, clip lengths from one frame to the maximum, arguments and request orders',
      'the tests of these filters check lengths and some frame numbers of single filters',
      ['src/core/reorderfilters.cpp', 'src/core/simplefilters.cpp'],
      [('timeline filters', 'src/core/reorderfilters.cpp'), ('frame rate', 'src/core/simplefilters.cpp: AssumeFPS')],
      note='Exact; graphs and arguments are sampled. The frame rate of interleaved clips with different rates, which documentation and code define differently, is not judged.',
      over=('inputs', 'histories'),
      technique='reference model: random graphs of timeline filters compared with a lazy list model, frames requested in random order from several threads; repeated under ASan+UBSan')
fprop('F08', 'Frame property filters and per-frame functions do exactly what they document',
      'SetFrameProp, SetFrameProps, RemoveFrameProps (with wildcards), CopyFrameProps, SetFieldBased, ClipToProp and PropToClip change exactly the documented frame properties and nothing else. FrameEval '
      'and ModifyFrame call their function with the frame number and the matching frames, one call at a time, and deliver exactly the frame it chose. A function that '
      'fails or returns something unsuitable fails that frame only, with its message.',
      'all properties, types, patterns, clip lengths, functions and request orders',
      'the tests set and read single properties',
      ['src/core/simplefilters.cpp'],
      [('property filters', 'src/core/simplefilters.cpp: SetFrameProp .. CopyFrameProps'), ('per-frame functions', 'src/core/simplefilters.cpp: FrameEval, ModifyFrame')],
      note='Exact; chains, properties and patterns are sampled.', over=('inputs', 'histories', 'schedules'),
      technique='reference model: random chains of property filters and callbacks compared with a model of frames and properties, frames requested in random order from several threads; repeated under ASan+UBSan')
fprop('F09', 'Plane statistics and range verification judge every sample',
      'PlaneStats reports the exact minimum and maximum and the exact normalised average of the chosen plane, and the normalised mean absolute difference to a second clip (a shorter one repeats its last '
      'frame), under the requested property names. PEMVerifier fails exactly the frames with a sample outside the limits or not finite and names the first such sample. Both pass the frame and all '
      'other properties on unchanged, at every CPU level, and refuse clips, planes and limits that do not fit.',
      'all formats, sizes (also rows of a million samples), sample values, planes, limits and CPU levels',
      'the tests use PlaneStats only to compare clips and PEMVerifier only on good ones',
      ['src/core/simplefilters.cpp', 'src/core/kernel/planestats.cpp', 'src/core/kernel/x86/planestats_avx2.cpp', 'src/core/kernel/x86/planestats_sse2.cpp'],
      [('filters', 'src/core/simplefilters.cpp: PlaneStats, PEMVerifier'), ('reductions', 'src/core/kernel/planestats.cpp')],
      note='Exact; averages and differences of float formats up to double (difference: single) precision rounding.')
FT2 = 'reference model: random graphs of audio editing filters compared with a lazy model of the samples, frames requested in random order from several threads; repeated under ASan+UBSan'
fprop('F10', 'Audio editing filters deliver exactly the documented samples',
      'AudioTrim, AudioSplice, AudioLoop, AudioReverse, ShuffleChannels, SplitChannels, AssumeSampleRate and silent BlankAudio, alone or combined, deliver for every position exactly the documented '
      'input sample in the documented channel, wherever the sample falls relative to the frame boundaries of the clips involved. Every frame is full except the last, the length, '
      'format, sample rate and channel layout are the documented ones up to the maximum length, and positions outside the clip, results that are empty or too long and clips that do not match are refused.',
      'all graphs of audio editing filters, clip lengths from one sample to the maximum, channel layouts, sample formats, arguments and request orders',
      'the tests use clips of one or a few frames and compare lengths and formats',
      ['src/core/audiofilters.cpp'],
      [('editing filters', 'src/core/audiofilters.cpp: AudioTrim .. AudioReverse, ShuffleChannels, SplitChannels, AssumeSampleRate, BlankAudio')],
      note='Exact; graphs, arguments and frame numbers are sampled.', over=('inputs', 'histories'), technique=FT2)
fprop('F11', 'Audio gain, mixing, resampling and test tones follow the documented maths',
      'AudioGain and AudioMix multiply and sum channels by the given factors, AudioResample converts sample type, depth, rate and channel layout with its documented filter and mixing '
      'coefficients, and BlankAudio generates the requested waveform; every sample is the exact result correctly rounded to the output format, whatever frame it falls in and in whatever order '
      'frames are requested. Samples out of range are clamped, fail the frame or are warned about as requested, naming the right sample interval, and dither adds only the documented noise.',
      'all clips, channel layouts, sample formats, rates, coefficients, clip lengths, dither and overflow modes and CPU levels',
      'the tests compare gains and matrices on constant clips and lengths of resampled clips',
      ['src/core/audiofilters.cpp', 'src/core/audioresampling.cpp'],
      [('gain, mixing, waveforms', 'src/core/audiofilters.cpp: AudioGain, AudioMix, BlankAudio'), ('resampling', 'src/core/audioresampling.cpp')],
      note='Results within the rounding of single (resampling) or double precision accumulation of the exact value.')
fprop('F12', 'Every CPU specific build of the filters gives the documented results',
      'Whichever build of the built in filters the core picks for the processor at hand, baseline, AVX2 or Zen 4, and whatever CPU level is set, every filter delivers the frames, samples and properties its '
      'documentation defines: integer results exactly, floating point results up to rounding.',
      'all builds, CPU levels, filters, formats, sizes and arguments the other filter properties range over',
      'the tests only run the build picked for the machine they run on, at the highest level',
      ['meson.build', 'src/core/vscore.cpp', 'src/core/float16_helper.h', 'src/core/kernel/x86/generic_impl.h', 'src/core/kernel/x86/convolution_impl.h'],
      [('choice of the build', 'src/core/vscore.cpp: VSPlugin'), ('native half precision conversion', 'src/core/float16_helper.h'), ('kernels', 'src/core/kernel/x86')],
      note='Held on every case observed; builds the machine cannot run are not observed.')
fprop('F13', 'No argument or input makes a built in filter crash, leak or misdescribe frames',
      'Whatever arguments a script passes to a built in function and whatever clips, sample values and frame properties it is applied to, the call or the frame request either fails with a message or delivers frames '
      'that have exactly the format, size and length the clip announces, with every sample written: asking again gives the same frame. No access outside a frame, no crash, no undefined arithmetic happens '
      'and nothing is left behind when the graph is freed.',
      'all functions, all argument values including the extremes of every type, clips of every and of varying format and size, out of range samples, malformed properties, and graphs built from earlier results',
      'the tests call functions with sensible arguments and a handful of deliberate mistakes',
      ['src/core', 'include/VSHelper4.h'],
      [('functions', 'src/core/*filters.cpp, expr/, lutfilters.cpp, textfilter.cpp, audioresampling.cpp'), ('size checks', 'src/core/vscore.cpp: VSFrame, createVideoFilter')],
      note='Held on every call observed; frames too big for the memory limit of the harness and numbers of blur passes that only take time are not requested.', over=('inputs', 'histories'),
      technique='hostile calls judged by an oracle over clip info, frames, repeated requests and the leak report of the core; most of them under ASan+UBSan')
fprop('F14', 'Text filters draw exactly the text asked for and nothing else',
      'The text filters return a copy of the frame, of any format, in which exactly the given text, frame number, properties or clip information is drawn with the built in font at the requested place and scale: unprintable '
      'characters as underscores, long lines wrapped, lines that do not fit dropped, the chroma beneath neutral and every other sample, the properties and the source frames unchanged. Frames too small for one '
      'character, other sample types and invalid alignments or scales are refused.',
      'all texts including every byte value, alignments, scales, formats, frame sizes and frame properties',
      'the tests do not look at what the text filters draw',
      ['src/core/textfilter.cpp', 'src/core/ter-116n.h'],
      [('rendering', 'src/core/textfilter.cpp: scrawl_text, split_text, sanitise_text'), ('contents', 'src/core/textfilter.cpp: textGetFrame, append_prop')],
      note='Held on every case observed; the text of CoreInfo is read back from the picture, all other text is compared sample by sample.')
PT = 'reference model in Python of the values involved, random operations through the real module; repeated with the core, filters and module built with ASan+UBSan'
PY = ['src/cython/vapoursynth.pyx']
prop('P01', 'Frames seen from Python hold exactly what was written, and read only stays so',
     'A plane view has the shape, strides, type and values of the plane it belongs to, writes through one view show in every other view and in the frame but never in a copy of the frame '
     'or a frame a filter delivered. Properties behave like a dictionary in which every supported value, alone or in a list, comes back equal and of the same type. Views stay valid '
     'after their frame is closed or collected, and a closed frame refuses to be used.',
     ['inputs', 'histories'],
     'all frames, formats, view operations, property values and orders of copying, viewing, writing and closing',
     'the tests set a few properties and read single samples',
     PY, [('frames and views', 'src/cython/vapoursynth.pyx: VideoFrame, AudioFrame, _2dview, _1dview_contig'), ('properties', 'src/cython/vapoursynth.pyx: FrameProps')],
     PT, 'Exact; histories are sampled.', ['view contents', 'property reads'])
prop('P02', 'Python clip operations and frame delivery never lose, repeat or reorder frames',
     'Slicing, indexing, joining and repeating clips selects exactly the frames or samples Python sequence rules say. frames(), get_frame, get_frame_async and output() deliver each '
     'requested frame exactly once and in order, or the first error, whatever the prefetch, backlog, thread count and timing, never run further ahead than the backlog '
     'allows, and always end. Written raw, y4m and wave streams hold exactly the samples of the clip and headers that describe them.',
     ['inputs', 'schedules', 'histories'],
     'all clips, slices, prefetch and backlog settings, thread counts, timings, failing frames, formats and clients that stop early',
     'the tests slice a clip and iterate over one a few times',
     PY, [('clip operators', 'src/cython/vapoursynth.pyx: VideoNode.__getitem__, AudioNode.__getitem__'), ('frame delivery', 'src/cython/vapoursynth.pyx: RawNode.frames, get_frame_async, output'),
          ('wave headers', 'src/common/wave.cpp')],
     'exactly-once and ordering monitors over recorded requests with injected delays and failures, reference model of clip expressions, parser of the written streams; repeated under ASan+UBSan',
     'Held on every execution observed; schedules are sampled.', ['callbacks', 'iterated frames', 'written bytes'])
prop('P03', 'Environments are isolated and nothing survives their destruction by crashing',
     'Outputs, cores, settings, loggers and local values of one environment are never seen in another, entering and leaving environments in any nesting and thread restores the previous one, and functions '
     'called back by the core run in the environment that created them. Destroying an environment answers every request first, then runs its callbacks in order, also while other threads '
     'keep requesting frames. Afterwards every clip, frame, function and core of it refuses work with an error instead of crashing or hanging.',
     ['histories', 'schedules'],
     'all histories of environments created, entered, left and destroyed by any number of threads, and all uses of objects that outlive their environment',
     'the tests create one or two environments and check single effects',
     PY, [('environments', 'src/cython/vapoursynth.pyx: EnvironmentPolicyAPI, Environment, _FastManager, Local'), ('objects of a destroyed environment', 'src/cython/vapoursynth.pyx: ensure_valid, _ensure_open'),
          ('asynchronous callbacks', 'src/cython/vapoursynth.pyx: frameDoneCallback')],
     'model of every environment judged after each step of random histories, teardown raced against requesting threads, every kind of object used after destruction; repeated under ASan+UBSan',
     'Held on every history observed.', ['current environment', 'callback order', 'answers of dead objects'])
prop('P04', 'Arguments, results and exceptions cross the Python boundary unchanged',
     'Calling a function from Python hands it exactly the given values, matched by position and name, converted to the declared type, and returns exactly what it produced; calls that do not fit the '
     'declaration are refused. Python functions called by the core receive and return the same values. An exception one of them raises reaches exactly the caller whose request failed, '
     'with its message or, for exceptions meant to end the program, as the same object, and everything passed is released when no longer used.',
     ['inputs', 'schedules'],
     'all function signatures, argument lists, values, result maps, exceptions and callers on any number of threads',
     'the tests call functions with a few fixed arguments',
     PY, [('calls', 'src/cython/vapoursynth.pyx: Function.__call__, typedDictToMap, mapToDict'), ('callbacks', 'src/cython/vapoursynth.pyx: publicFunction, Func'), ('checks', 'src/core/vscore.cpp: VSPluginFunction::invoke')],
     'echo plugin whose functions are declared at run time: random signatures and calls judged against a model of the conversions, identity of exceptions, reference counts; repeated under ASan+UBSan',
     'Held on every call observed; values and signatures are sampled.', ['values the callee received', 'results', 'exceptions'])

prop('P05', 'Python objects describe what they stand for',
     'Formats, clips, frames, plugins, functions and the core seen from Python report exactly the properties of what they stand for: names, ids, dimensions, frame rates, channel layouts, dependencies, creation arguments, '
     'signatures, limits and times, consistently through attributes, equality, hashing, text and introspection; impossible values are refused with an exception and never end the process. '
     'Every message sent to a core reaches each log handler installed at that moment once and in order, and no handler that was removed.',
     ['inputs', 'histories'],
     'all formats, clips, functions, settings and histories of handlers',
     'the tests look at a few formats and attributes',
     PY, [('formats', 'src/cython/vapoursynth.pyx: VideoFormat, ChannelLayout, Core.query_video_format'), ('nodes', 'src/cython/vapoursynth.pyx: VideoNode, AudioNode, RawNode'), ('plugins', 'src/cython/vapoursynth.pyx: Plugin, Function, construct_signature'), ('core', 'src/cython/vapoursynth.pyx: Core, LogHandle, CoreTimings')],
     'random formats, clips, run time declared functions, settings and handler histories in environments with and without graph inspection, every answer judged against a model; repeated under ASan+UBSan',
     'Held on every answer observed; arguments are sampled.', ['attributes', 'delivered messages', 'signatures'])

prop('V01', 'The command line program writes exactly the output that was asked for',
     'Running a script through vspipe writes exactly the frames or samples of the selected output and range, in order and complete, with the header of the chosen container and correct timecode, '
     'property and graph files, whatever the number of requests and the timing of the filters, and then exits with code 0. Script errors, failing frames, impossible combinations, malformed options and output that cannot '
     'be written give a message and a nonzero exit code, and what was written before a failure is a prefix of the right output; it never crashes or hangs.',
     ['inputs', 'schedules', 'configurations'],
     'all scripts, formats, frame properties, option combinations, completion orders and write delays',
     'the program is not run by the tests at all',
     ['src/vspipe/vspipe.cpp', 'src/vspipe/vsjson.cpp', 'src/vspipe/printgraph.cpp', 'src/common/wave.cpp', 'src/vsscript/vsscript.cpp'],
     [('frame reordering, writing and completion', 'src/vspipe/vspipe.cpp: frameDoneCallback, outputNode'), ('headers', 'src/vspipe/vspipe.cpp: initializeVideoOutput; src/common/wave.cpp'),
      ('side files', 'src/vspipe/vsjson.cpp, src/vspipe/printgraph.cpp')],
     'the real program is run on generated scripts under injected write and lock delays; bytes, side files, messages and exit codes are compared with what the script defines; repeated under ASan+UBSan',
     'Held on every run observed; scripts and options are sampled. Windows specific output is out of reach.', ['bytes written', 'side files', 'exit codes'])
prop('V02', 'Scripts run through the C scripting interface are isolated and released',
     'Each script handle keeps its own variables, outputs, working state and core over any number of evaluations, from any thread and next to any number of other scripts, and values, clips and functions '
     'set from or read by the host come through unchanged. A script that fails or exits reports a message and exit code and disturbs no other script. '
     'Log messages and warnings reach the log of the core of the script that caused them, and freeing a script releases its core exactly once.',
     ['inputs', 'histories', 'schedules'],
     'all histories of evaluations, variables, outputs, failures and releases over several scripts and threads',
     'the scripting library is not loaded by the tests at all',
     ['src/vsscript/vsscript.cpp', 'src/cython/vapoursynth.pyx'],
     [('C interface', 'src/vsscript/vsscript.cpp'), ('evaluation, variables and outputs', 'src/cython/vapoursynth.pyx: _vpy_evaluate, vpy4_getVariable, vpy4_getOutput'),
      ('one environment per script', 'src/cython/vapoursynth.pyx: VSScriptEnvironmentPolicy'), ('log forwarding', 'src/cython/vapoursynth.pyx: PythonVSScriptLoggingBridge')],
     'random histories over up to three scripts on each of up to four threads through the real library with an embedded interpreter, every script judged against a model of its state; repeated under ASan+UBSan',
     'Held on every history observed.', ['variables', 'outputs and frames', 'errors and exit codes', 'core destruction'])
