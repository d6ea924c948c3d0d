"""The properties, in one place. tools/gen.py writes properties.jsonl and MANIFEST.json from this and checks/registry.py."""
B = 'src/main/cpp/Balau/'
PROPS = []


def P(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    PROPS.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over.split(), text=qtext), why_tests_cant=why,
                      anchors=dict(files=[B + f for f in files], mechanism=[dict(name=n, where=B + w) for n, w in mech],
                                   state=[dict(name=n, meaning=m, where=B + w) for n, m, w in state], observe_at=list(observe), hook_needed=None)))


P('P01', 'The bounded blocking queue is a linearisable FIFO that loses no wake-up',
  'However producers and consumers interleave, the bounded queue behaves as one FIFO queue of its capacity: every element that was accepted comes out exactly once and in order, the capacity is never exceeded, and full/empty answers are those of that queue. A blocking call waits exactly as long as the queue is full or empty, a timed call gives up only after its time has passed while the queue is still full or empty, a zero or negative wait does not block, and the full/space callbacks are called in pairs with the element concerned. No operation races with another.',
  'schedules histories', 'every interleaving of every small client program (threads x operations), every expiry of a timed wait, spurious wake-ups, every capacity, starting offset and initial content within bounds',
  'The existing tests run two threads with sleeps: they sample one schedule; lost wake-ups, wrap-around at particular offsets and unlocked reads need particular interleavings.',
  ['Container/ArrayBlockingQueue.hpp', 'Container/BlockingQueue.hpp'],
  [('mutex, two condition variables, re-checked predicates', 'Container/ArrayBlockingQueue.hpp')], [('count/head/tail', 'ring buffer position', 'Container/ArrayBlockingQueue.hpp')], ['return values and values dequeued'])

P('P02', 'The synchronised queue is a linearisable unbounded FIFO',
  'However threads interleave, the unbounded synchronised queue behaves as one FIFO queue: each element put in comes out once and in order, a dequeue on an empty queue throws the empty exception and changes nothing, and the empty test tells the truth at some point during the call. No operation races with another.',
  'schedules histories', 'every interleaving of every small client program',
  'There is no concurrent test of this container; only all interleavings show linearisability.',
  ['Container/SynchronizedQueue.hpp'], [('one mutex around a list', 'Container/SynchronizedQueue.hpp')])

P('P03', 'The semaphore admits exactly as many as its count and loses no wake-up',
  'However threads interleave, the semaphore behaves as one counter: an increment never blocks, a decrement completes exactly when the counter can be taken from a positive value, and no thread stays blocked while the counter is positive. What was written before an increment is visible after the decrement that it lets through.',
  'schedules histories', 'every interleaving of every small client program, with spurious wake-ups',
  'Tests use it in one pattern; a lost wake-up needs two waiters and a particular order of increments.',
  ['Concurrent/Semaphore.hpp'], [('mutex and condition variable', 'Concurrent/Semaphore.hpp')])

P('P04', 'The cyclic barrier releases each round together and is reusable',
  'When a barrier for n threads is used by exactly n threads, no thread leaves a round before all n have arrived at it, every thread leaves every round, the barrier is ready for the next round at once, and it can be reconfigured between rounds. What a thread wrote before the barrier is visible to the others after it.',
  'schedules', 'every interleaving within the preemption bound of n threads over several rounds and reconfigurations',
  'A barrier that fails only when a fast thread laps a slow one passes any test that does not force that schedule; there is no barrier test in the suite.',
  ['Concurrent/CyclicBarrier.hpp', 'Concurrent/Semaphore.hpp'], [('two turnstiles', 'Concurrent/CyclicBarrier.hpp')])

P('P05', 'Lazy values and single time executors run their code once under any schedule',
  'However many threads ask at the same time, the construction code of a lazy value and the code of a single time executor complete once, every caller that returns sees the complete effect, and a run that throws counts as not run, so that a later call tries again. The destruction code runs exactly once if and only if the construction or execution had completed.',
  'schedules fault_sequences', 'every interleaving within the bound, every number of failing first attempts, with and without destruction code, any previous content of the memory',
  'Double-checked initialisation is right or wrong in the interleaving between the two checks, and in the memory order of the publication; sequential tests cannot tell.',
  ['Concurrent/LazyValue.hpp', 'Concurrent/SingleTimeExecutor.hpp'], [('double-checked flag with acquire/release', 'Concurrent/LazyValue.hpp'), ('relaxed flag with fences', 'Concurrent/SingleTimeExecutor.hpp')])

P('P06', 'Injected singletons are made once, also when threads ask at the same time',
  'A lazy singleton is constructed once however many threads first ask for it at the same moment and all of them get that one complete object; a thread-local singleton is constructed once per thread, is the same object within the thread and another in every other thread. Instances of a new-instance binding are never shared.',
  'schedules', 'every interleaving within the bound of several threads doing first and later requests, directly and through dependants',
  'Injector tests are single threaded.',
  ['Application/Injector.hpp', 'Application/Impl/Binding.hpp', 'Concurrent/LazyValue.hpp', 'Concurrent/ThreadLocalInstance.hpp'],
  [('lazy value in the singleton binding', 'Application/Impl/Binding.hpp')])

P('P07', 'Injected objects are created in dependency order and released once',
  'Creating an injector constructs its eager singletons exactly once and dependencies before dependants; the registered post-construction calls run exactly once after that, in order of registration. Destroying the injector runs the registered pre-destruction calls exactly once, before its singletons are destroyed, and destroys every singleton exactly once, no earlier than the last holder of it.',
  'configurations histories', 'every dependency graph shape over a bounded number of bindings, each with every binding kind and registration order',
  'Tests use a handful of fixed graphs.',
  ['Application/Injector.hpp', 'Application/Impl/Binding.hpp', 'Application/ApplicationConfiguration.hpp'],
  [('instantiateEagerSingletons in topological order', 'Application/Injector.hpp'), ('post construction / pre destruction calls', 'Application/Injector.hpp')])

P('P08', 'An injector is created if and only if its bindings are complete and acyclic',
  'Creating an injector succeeds exactly when every dependency of every binding can be satisfied and no binding depends on itself through any path; otherwise it throws the exception of that kind: missing dependency, cyclic dependency or duplicate binding. No object is constructed by an injector whose creation fails.',
  'configurations', 'all dependency graphs over a bounded number of bindings, with missing, duplicate and cyclic edges, singleton and non-singleton kinds',
  'Tests contain one cycle and one missing dependency.',
  ['Application/Injector.hpp', 'Container/DependencyGraph.hpp', 'Exception/InjectorExceptions.hpp'], [('validate by dependency graph', 'Application/Injector.hpp')])

P('P09', 'A request to the injector gets the binding of exactly its type, name and kind',
  'For every combination of bindings, a request by value, unique pointer, reference or shared pointer, named or not and const or not, gets the object of the binding with that type, kind and name, promoting non-const to const only; if there is none it throws, and the can-provide query agrees. A child injector prefers its own bindings and then asks its parents.',
  'configurations', 'every subset of bindings of one type in parent and child, times every request',
  'The combinations are many and interact; tests take a few.',
  ['Application/Injector.hpp', 'Application/BindingBuilder.hpp', 'Application/Impl/BindingMap.hpp', 'Application/Impl/BindingKey.hpp'], [('binding key hash and meta type', 'Application/Impl/BindingKey.hpp')])

P('P10', 'The object trie behaves as a tree of values under every operation sequence',
  'After any sequence of insertions, lookups, cascades, copies and moves, the trie holds exactly the values a plain tree model holds: exact, nearest and cascading lookups find the deepest matching value, and depth-first and breadth-first iteration visit every node once in the specified order and then end. Copies are deep and independent.',
  'histories', 'all operation sequences to a bounded depth over a small key alphabet, and all tree shapes to a bounded size for iteration and cascading',
  'Tests check a few fixed tries.',
  ['Container/ObjectTrie.hpp'], [('child vectors, iterators with explicit stacks', 'Container/ObjectTrie.hpp')])

P('P11', 'The dependency graph orders, detects cycles and answers queries correctly',
  'For every graph, the cycle test is true exactly when there is a directed cycle and the edges it names break every cycle; the direct dependencies, membership, lookups and edge data are exact; the dependency order visits every node once and after all its dependencies; the parallel order puts every node on the level of its longest chain of dependencies; both orders refuse a cyclic graph. Adding and removing nodes and edges in any order gives the same answers, and invalid insertions and removals are rejected without effect.',
  'inputs histories', 'all directed graphs to a bounded number of nodes in all insertion orders',
  'Tests use a few fixed graphs.',
  ['Container/DependencyGraph.hpp'], [('adjacency with dependants and dependencies', 'Container/DependencyGraph.hpp')])

P('P12', 'Every well-formed property text parses to the tree its author wrote',
  'For every tree of simple properties, nested composites, includes and comments, and every permitted layout of it, parsing the text gives exactly that tree: names, values with escapes and continuation lines joined, nesting and order. Printing a parsed tree and parsing the result gives the same tree.',
  'inputs', 'all trees to a bounded size with names, values, escapes, delimiters, blanks and line breaks from a small alphabet; printed and parsed again',
  'The tests parse about a dozen texts.',
  ['Lang/Property/Parser/PropertyParser.hpp', 'Lang/Property/Parser/PropertyScanner.hpp', 'Lang/Property/Lang/PropertyAst.hpp', 'Lang/Property/Util/PropertyAstToString.hpp'],
  [('recursive descent parser', 'Lang/Property/Parser/PropertyParser.hpp')])

P('P13', 'Any text at all is either parsed or rejected by the property parser',
  'For every input text the property parser ends, and either returns a tree that accounts for the input or throws a syntax error; it never reads outside the text, never fails otherwise, and the returned tree stays valid as long as it lives. Texts with unbalanced braces are rejected.',
  'inputs', 'all texts to a bounded length over the alphabet of significant characters',
  'Tests have no malformed texts to speak of; the parser works on views into its input.',
  ['Lang/Property/Parser/PropertyParser.hpp', 'Lang/Common/AbstractScanner.hpp', 'Lang/Common/ScannedTokens.hpp'],
  [('scanner over string view', 'Lang/Common/AbstractScanner.hpp')])

P('P14', 'Scanned tokens tell exactly where they came from',
  'For every text and every token of it, the text of the token and its start and end line and column are those of the token in the source, the tokens cover the text without gap or overlap, and random access, one-by-one and single token computation give the same spans. Reading a token stream with consume, expect, put back, mark and reset always returns the tokens a plain cursor over the list would.',
  'inputs histories', 'all texts to a bounded length over letters, blanks, line breaks and multi-byte characters; all scanner API call sequences to a bounded depth',
  'Tests scan a few lines with one API.',
  ['Lang/Common/ScannedTokens.hpp', 'Lang/Common/AbstractScanner.hpp', 'Lang/Common/CodeSpan.hpp'], [('line length cache', 'Lang/Common/AbstractScanner.hpp')])

P('P15', 'Environment configuration binds typed, defaulted and cascaded properties exactly',
  'Given property texts and type specifications, the configured value of every property is the value of the last source in cascade order that defines it, converted to its specified type, or else the default of its specification; composites and their nested properties are reachable exactly as nested in the source. A value that does not convert is an error and never a silent other value.',
  'configurations inputs', 'all combinations of a bounded set of property sources, type specifications, defaults, overrides and nesting',
  'The environment configuration tests are left out of this build and cover one fixed configuration.',
  ['Application/EnvironmentConfiguration.hpp', 'Application/Impl/EnvironmentConfigurationBuilder.hpp', 'Application/EnvironmentProperties.hpp', 'Application/Impl/PropertyBindingBuilderFactory.hpp'],
  [('trie of binding builder factories', 'Application/Impl/EnvironmentConfigurationBuilder.hpp')])

P('P16', 'The command line parser accepts exactly the documented argument lists',
  'For every configuration of switches, options with values, the help option and final value, and every argument list in the selected style, parsing gives each option exactly the presence and value the arguments state, rejects unknown options, missing values and missing final values, and never reads outside the arguments. Typed value requests convert exactly the values in range and reject all others, and defaults are used only for absent options.',
  'inputs configurations', 'all argument lists to a bounded length over a token alphabet, for all configurations and both styles',
  'Tests parse fixed lists.',
  ['Application/CommandLine.hpp'], [('parse by style', 'Application/CommandLine.hpp')])

P('P17', 'A logger emits a message exactly when its effective level admits it',
  'For every configuration of namespaces and levels, the level of a logger is the one configured for its nearest configured ancestor, or the default level; a call logs exactly when its level is at least that level; changing the configuration re-propagates to all existing loggers; and loggers obtained before or after configuration, with the same namespace, behave the same.',
  'configurations histories', 'all assignments of levels to a tree of namespaces, all orders of logger creation and configuration, all reconfiguration sequences to a bounded depth',
  'Tests log from a few namespaces under a few fixed configurations.',
  ['Logging/Logger.hpp', 'Logging/Logger.cpp', 'Logging/Impl/LoggingState.cpp', 'Logging/Impl/LoggingState.hpp', 'Logging/LoggingLevel.hpp'], [('level propagation over the logger tree', 'Logging/Impl/LoggingState.cpp')])

P('P18', 'A log line is exactly its format and message with all parameters in place',
  'For every format specification, the line written is the format with each specifier replaced by its value and everything else verbatim; for every message text, each placeholder is replaced by the parameter of its position, superfluous parameters and placeholders lose nothing and never cause a failure, and every line ends with one line break. Formats are inherited as levels are.',
  'inputs configurations', 'all formats to a bounded number of items, all message texts to a bounded length over braces and letters with 0..n parameters of different types',
  'Tests use a handful of formats and messages.',
  ['Logging/Logger.hpp', 'Logging/Impl/LoggerItems.cpp', 'Logging/Impl/LoggerItems.hpp', 'Logging/Impl/LoggingState.cpp'], [('format items', 'Logging/Impl/LoggerItems.cpp')])

P('P19', 'Each message reaches exactly the stream configured for its level',
  'For every configuration, the nearest namespace with any stream option decides: a message goes to the stream it gives for the level of the message, or else to its general stream, or else to that of the adjacent levels, first towards error and then towards trace; without any, warnings and below go to standard output and errors to standard error. It goes there once and nowhere else. Unknown streams and invalid settings are reported and never lose later messages to valid streams; flush settings are honoured.',
  'configurations', 'all assignments of streams to levels over a tree of namespaces',
  'Tests cover a few assignments.',
  ['Logging/Impl/LoggingState.cpp', 'Logging/Impl/LoggingStreams.cpp', 'Logging/Impl/LoggerPropertyVisitor.hpp'], [('per level stream table', 'Logging/Impl/LoggingState.hpp')])

P('P20', 'Concurrent logging, logger creation and configuration are safe and whole',
  'While threads concurrently obtain loggers, log and configure, one logger exists per namespace, every message that an unchanged configuration admits is written once as one unbroken line, and nothing races or deadlocks.',
  'schedules', 'every interleaving within the bound of threads that obtain loggers, log and reconfigure',
  'Logging tests are single threaded apart from stress that samples schedules.',
  ['Logging/Logger.cpp', 'Logging/Logger.hpp', 'Logging/Impl/LoggingState.cpp', 'Logging/Impl/LoggingStreams.hpp', 'Logging/Impl/LoggerAllocator.cpp'], [('state mutex, stream mutex', 'Logging/Impl/LoggingState.cpp')])

P('P21', 'The shared memory queue delivers every object whole, once and in order',
  'Whatever the interleaving of producers and consumers on one shared memory queue, each object that was enqueued is dequeued exactly once, equal to the original and in order, also when it needs several messages; a full or empty queue blocks a blocking call and makes a timed or try call report failure without losing or tearing an object.',
  'schedules histories inputs', 'every interleaving within the bound of small producer and consumer programs; all object sizes around the message size; all queue capacities within bounds; expiry of timed waits between the parts of an object',
  'Tests use one producer and one consumer process; part boundaries and timeouts between parts need a particular schedule.',
  ['Interprocess/SharedMemoryQueue.hpp'], [('chunk header and pending buffer', 'Interprocess/SharedMemoryQueue.hpp')])

P('P22', 'Shared memory objects are created, opened and removed as requested',
  'Every sequence of creating, opening, opening-or-creating, reading, writing, moving and destroying managed and unmanaged shared memory objects by name leaves exactly the objects that a table of names to values would: creating makes a new object of the given value, opening gives the existing object with its current value or fails if there is none, opening-or-creating does one or the other, every process sees what any of them wrote, and the name disappears exactly when the instance that created the object (or the one it was moved to) goes.',
  'histories', 'all operation sequences to a bounded depth over two names and several handles',
  'Tests create one object and open it once.',
  ['Interprocess/MSharedMemoryObject.hpp', 'Interprocess/USharedMemoryObject.hpp'], [('boost shared memory objects', 'Interprocess/MSharedMemoryObject.hpp')])

P('P23', 'Child process status is reported exactly as the process ended',
  'A forked child runs the given function once, and whatever way it ends (return value, exit, signal) the parent gets exactly that status, from blocking and non-blocking waits alike, exactly once, and a process that has not ended is reported as such. Terminating a running child ends it; ids that are no process get an empty report.',
  'fault_sequences histories', 'all ways to end a child, all exit codes and the common signals, for every wait call, before and after the end',
  'Tests check one exit code.',
  ['Concurrent/Fork.hpp'], [('waitid/waitpid', 'Concurrent/Fork.hpp')])

P('P24', 'The test runner reports every selected test once and its exit code is right',
  'Whatever tests do (succeed, fail an assertion, throw, exit, abort, be killed by a signal), in every execution model that isolates them and with any number of workers, each selected test is run once and reported once with its own outcome, no other test is affected, the run ends, and the exit code is zero exactly when no test failed. In the models without isolation the same holds for tests that do not end the process.',
  'fault_sequences configurations', 'all assignments of behaviours to a bounded list of tests, times execution models and worker counts',
  'The runner is tested by tests that are themselves run by it and pass.',
  ['Testing/TestRunner.hpp', 'Testing/Impl/WorkerProcessesTestRunnerExecutor.hpp', 'Testing/Impl/ProcessPerTestTestRunnerExecutor.hpp', 'Testing/Impl/MultiProcessTestRunnerExecutor.hpp', 'Testing/Impl/WorkerThreadsTestRunnerExecutor.hpp', 'Testing/Impl/TestRunnerExecutor.hpp'],
  [('shared memory queue of results, process monitoring', 'Testing/Impl/MultiProcessTestRunnerExecutor.hpp')])

P('P25', 'An assertion passes exactly when its condition is true',
  'For all operand values and all assertion kinds, comparison, predicate, matcher and exception assertions pass exactly when the stated relation holds, fail otherwise with a report that shows both operands, and never evaluate an operand more than once.',
  'inputs', 'all pairs of operands from boundary sets, all assertion kinds, all container contents to a bounded size',
  'Assertions are only tested on a few operands, and a test framework that passes wrongly hides everything else.',
  ['Testing/Assertions.hpp', 'Testing/Matchers.hpp', 'Testing/Impl/MatcherClasses.hpp', 'Testing/Impl/StandardRenderers.hpp'], [('assertion templates', 'Testing/Assertions.hpp')])

P('P26', 'The test runner selects exactly the tests its patterns match',
  'For every list of patterns, exactly the registered tests whose full names match one of the patterns are selected and run once each, the tests of a group together and in registration order (the order of the groups is unspecified); only * and ? are special in a pattern, and with the namespaces option names include the namespaces; an empty list selects all tests; and per-group set-up and tear-down run around each test of the group.',
  'inputs configurations', 'all patterns to a bounded length over letters and wildcards, against all names in a bounded set, in lists of one and two',
  'Tests use no patterns to speak of.',
  ['Testing/TestRunner.hpp', 'Testing/Impl/TestGroup.hpp'], [('glob to regular expression', 'Testing/TestRunner.hpp')])

P('P27', 'A URI is split into exactly its components',
  'For every URI built from a scheme and optional user, host, port, path, query and fragment, parsing it gives back exactly those components and putting them together gives the text; any other text is either parsed into components that put together give the text, or rejected with InvalidUriException. Nothing outside the text is read.',
  'inputs', 'all combinations of components from boundary sets, and all texts to a bounded length over the significant characters',
  'Tests parse about ten URIs.',
  ['Resource/UriComponents.hpp', 'Resource/Uri.hpp'], [('hand written scanner', 'Resource/UriComponents.hpp')])

P('P28', 'URI resolution and path normalisation follow the rules for relative references',
  'Resolving a path against a base URI gives the URI the rules for relative references prescribe, for each kind of URI (the base path being the path itself if it ends with a slash or is a directory, and otherwise the path without its last component; a path with a scheme of its own is parsed on its own). Normalising a path removes exactly the empty, current and parent components without climbing above the root, and is idempotent. Appending a component changes only the path, and the text of a file, http or https URI parses back to an equal URI.',
  'inputs', 'all bases and relative paths to a bounded number of components from a small alphabet',
  'Tests resolve a few paths.',
  ['Resource/UriResolve.hpp', 'Resource/UriComponents.hpp'], [('resolution by kind of URI', 'Resource/UriResolve.hpp')])

P('P29', 'URL decoding inverts URL encoding and rejects what is malformed',
  'For every text, decoding its percent encoding gives the text back; plus signs become blanks; a parameter string is split into exactly its keys and values; malformed escapes are rejected with NetworkException when the caller asks for it and otherwise ignored without damage to the text around them; and nothing outside the input is read.',
  'inputs', 'all texts to a bounded length over letters, separators, escapes (valid and malformed) and multi-byte characters',
  'The network tests are left out of the build here and decode a few strings.',
  ['Network/Utilities/UrlDecode.hpp'], [('percent decoder', 'Network/Utilities/UrlDecode.hpp')])

P('P30', 'Unicode encoding, decoding and iteration are exact in both directions',
  'Converting any sequence of Unicode scalar values between UTF-8, UTF-16 and UTF-32 and back gives the same sequence; iterating over UTF-8 text forwards or backwards visits exactly its code points; and character classification, case mapping and width agree with Unicode for every code point.',
  'inputs', 'all Unicode scalar values, all pairs of boundary values, all byte sequences to a bounded length for the safe iteration functions',
  'Tests convert a few strings.',
  ['Type/Character.hpp', 'Type/ToString.hpp', 'Util/Strings.hpp', 'Type/ToStringS.hpp'], [('ICU macros', 'Type/Character.hpp')])

P('P31', 'String utilities agree with their definitions on every string',
  'For all strings, splitting then joining, trimming, padding, prefix and suffix tests, counting, searching, replacing and line-break handling give exactly what their definitions say, on empty, matching, overlapping and multi-byte arguments alike, and nothing outside the arguments is read.',
  'inputs', 'all strings to a bounded length over a small alphabet, times all arguments',
  'Tests use a few strings for each function.',
  ['Util/Strings.hpp', 'Util/Containers.hpp', 'Util/Vectors.hpp'], [('string functions', 'Util/Strings.hpp')])

P('P32', 'Converting values to text and back is exact, and bad text is rejected',
  'For every value of the built-in types, converting to text and back gives the same value; every text that is not exactly a number in the range of the type is rejected with the conversion exception; and conversion to text is the same for standard and allocator strings.',
  'inputs', 'all 8 and 16 bit values, all boundary neighbourhoods of wider types, all texts to a bounded length over digits, signs, blanks and letters',
  'Tests convert a few numbers of each type.',
  ['Type/FromString.hpp', 'Type/Impl/FromStringImpl.hpp', 'Type/ToStringS.hpp', 'Type/ToStringA.hpp'], [('conversion overloads', 'Type/FromString.hpp')])

P('P33', 'A zip archive holds exactly what was put in it',
  'After any sequence of putting, replacing, renaming and deleting entries, directories and comments, committed in any number of sessions, reading the archive gives exactly the names, contents and comments that a map would hold; operations on names that are absent or on a closed archive are errors and change nothing.',
  'histories', 'all operation sequences to a bounded depth over a small set of names and contents, with commits between them',
  'Tests write and read two archives.',
  ['Util/Zip.hpp', 'Resource/ZipFile.hpp', 'Resource/ZipEntry.hpp'], [('libzip wrapper', 'Util/Zip.hpp')])

P('P34', 'Compression followed by decompression gives the original bytes',
  'For every content, compressing and decompressing through files, strings and streams, in every combination, gives exactly the original bytes; a truncated or damaged archive gives an error and never different content taken for the original.',
  'inputs fault_sequences', 'contents of every length around the buffer sizes and several byte patterns; every truncation point and every single byte change of small archives',
  'Tests compress one text.',
  ['Util/Compression.hpp'], [('boost iostreams gzip filters', 'Util/Compression.hpp')])

P('P35', 'File resources read and write exactly the bytes and characters they are given',
  'Writing any text or bytes through a file resource and reading it back gives the same text or bytes, and the encoding in the file is UTF-8; iterating over a directory visits each entry once, the recursive iteration each descendant once; and file queries agree with the file system.',
  'inputs histories', 'all texts to a bounded length over 1-4 byte characters, around buffer boundaries; all directory trees to a bounded size',
  'Tests read a few files.',
  ['Resource/File.hpp', 'Resource/StringUri.hpp', 'Util/Files.hpp', 'Util/Streams.hpp'], [('converting stream buffers', 'Resource/File.hpp')])

P('P36', 'A digest depends only on the content and not on how it is read',
  'For every content, each digest equals the published algorithm, and is the same from a string, a stream and a file, at every length around block and buffer boundaries.',
  'inputs', 'every content length up to several blocks and around the read buffer, for every algorithm, against independent implementations',
  'Tests hash one text each.',
  ['Util/Hashing.hpp', 'ThirdParty/HashLibrary'], [('chunked digest update', 'Util/Hashing.hpp')])

P('P37', 'Scope exit actions run exactly once, at the end of the scope or when told',
  'Under any sequence of clearing, resetting and executing early, and whether the scope ends normally or by an exception, the action that is set when the scope ends runs exactly once, an action executed early does not run again, and a cleared action does not run.',
  'histories', 'all call sequences to a bounded depth, with normal and exceptional exits',
  'Tests use one sequence.',
  ['Type/OnScopeExit.hpp', 'Type/MovableOnScopeExit.hpp'], [('destructor', 'Type/OnScopeExit.hpp')])

P('P38', 'Printed quantities denote the value printed to the stated precision',
  'For every number and number of decimals, fixed, scientific, metric prefix, binary prefix, byte, duration and hex output denotes the value rounded to the stated decimals, with the prefix in range, and dates and durations print and parse back to the same instant.',
  'inputs', 'all boundary neighbourhoods of the prefixes and rounding points, all byte arrays and widths to a bound, all dates around calendar boundaries',
  'Tests print a few numbers.',
  ['Util/PrettyPrint.hpp', 'Util/DateTime.hpp'], [('formatting', 'Util/PrettyPrint.hpp')])

P('P39', 'A path gets the MIME type of its extension, and the network library logs what its level admits',
  'For every table of MIME types and every path, the type looked up is that of the extension of the last part of the path, whatever its case, and empty if there is no extension or it is not in the table; a logger of the network library, however and whenever it was made, writes exactly the messages that the logger of its namespace writes, and evaluates message functions only when the level admits them.',
  'inputs configurations', 'all standard extensions in all cases, all short paths; all levels, ways to log and ways to obtain the logger',
  'No built test looks up a type or uses these loggers.',
  ['Network/Utilities/MimeTypes.cpp', 'Network/Utilities/MimeTypes.hpp', 'Network/Utilities/BalauLogger.hpp', 'Network/Utilities/BalauLogger.cpp'], [('extension lookup', 'Network/Utilities/MimeTypes.cpp')])

P('P40', 'Test reports and writers record exactly the outcomes they are given',
  'For every set of test outcomes, the generated XML report is well formed whatever characters names and messages contain, counts tests, failures and errors exactly, and names each test once; a composite writer passes everything to each of its writers, in order.',
  'inputs configurations', 'all outcome lists to a bounded length with names and messages over the characters significant to XML',
  'No test reads a report.',
  ['Testing/Reporters/SurefireTestReportGenerator.cpp', 'Testing/Impl/CompositeWriter.hpp'], [('XML printing', 'Testing/Reporters/SurefireTestReportGenerator.cpp')])

P('P41', 'Random numbers lie within the range asked for, reach its ends and come again with the seed',
  'For every range [lower, upper] of a uniform generator of any type and every seed, every number is at least lower and at most upper, each value of a small range occurs, and generators made with the same range and seed give the same sequence.',
  'inputs', 'all pairs of boundary values of every type, with all seeds and sequence lengths to a bound',
  'The test reads ten numbers of one generator.',
  ['Util/Random.hpp', 'Util/Impl/RandomImpl.hpp'], [('inclusive upper end', 'Util/Impl/RandomImpl.hpp')])

P('P42', 'The directories of the user and the application follow the environment as documented',
  'For every environment and user database, the home directory, user name, and the user, global and runtime directories of an application are those documented (environment variable if defined and not blank, otherwise the documented default, otherwise the documented exception), every call ends, a directory once determined does not change, and the runtime directory exists afterwards.',
  'configurations faults', 'all environments and answers of the user database within bounds, each in a process of its own',
  'Tests see the one environment they run in.',
  ['Util/User.hpp', 'Util/App.hpp', 'Util/Impl/AppImpl.hpp'], [('getHomeDirectory', 'Util/User.hpp')])

P('P43', 'Container, memory, stream, file and UUID helpers agree with their definitions',
  'For all contents, appending, concatenating, mapping, searching, replacing, reading lines, copying streams and files and converting between vectors and texts give exactly the elements, in order, that their documentation defines, without changing their sources; the text and the order of a UUID are those of its bytes.',
  'inputs', 'all contents of the containers and all texts to a bound',
  'Tests use one example of each, and none of some.',
  ['Util/Containers.hpp', 'Util/Vectors.hpp', 'Util/Memory.hpp', 'Util/Streams.hpp', 'Util/Files.hpp', 'Util/Enums.hpp', 'Type/UUID.hpp'], [('append', 'Util/Containers.hpp')])

P('P44', 'A development assertion ends the process exactly when its condition is false',
  'Whatever the form of the assertion and its message, the process is aborted, with the message printed, if and only if the condition is false; the condition is evaluated once and the message only when it is needed. Exceptions of the library carry their name, text and place of origin, whatever the text.',
  'inputs', 'all forms of assertions with both values and all messages to a bound, each in a process of its own',
  'Tests cannot observe the end of the process.',
  ['Dev/Assert.hpp', 'Exception/BalauException.hpp'], [('performAssertion', 'Dev/Assert.hpp')])
P('P45', 'A run of tests with worker threads is the same whatever the schedule',
  'With the worker threads execution model, in every schedule of the workers each selected test is run exactly once, between the set-up and the tear-down of its group in one thread; each is reported once with the result it had itself, also when several tests fail, throw or are ignored at the same time; lines logged by tests are written once; and the run ends with the verdict that the results imply, without data races.',
  'schedules', 'the real test runner under the controlled scheduler, every schedule to a preemption bound, with set-up, tests and tear-down of every behaviour',
  'The tests run the runner once, in whatever schedule the machine gives.',
  ['Testing/Impl/WorkerThreadsTestRunnerExecutor.hpp', 'Testing/Impl/TestRunnerExecutor.hpp', 'Testing/Impl/TestGroupBase.hpp'], [('WorkerThreadsTestRunnerExecutor', 'Testing/Impl/WorkerThreadsTestRunnerExecutor.hpp')])
