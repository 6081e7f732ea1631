# The properties: text for properties.jsonl and MANIFEST.json (written by gen.py).
B = 'src/main/cpp/Balau/'
SYM = 'symbolic execution of the clang-compiled LLVM IR of the real code, assertions decided by Z3 (QF_BV)'
CONC = SYM + '; thread schedules are explored exhaustively up to a pre-emption bound with a happens-before race check'
STRUCT = SYM + '; the configuration is a set of symbolic choices, each of whose values is followed'
def P(title, statement, over, quant, why, files, mech, state=None, note='', technique=SYM): return dict(title=title, statement=statement, over=over, quant=quant, why=why, files=[B + f for f in files], mech=[dict(name=n, where=B + w) for n, w in mech], state=state, note=note, technique=technique)
PROPS = {
'S01': P('String searching and line counting agree with the definition',
 'For every text and pattern (UTF-8 bytes, UTF-32 code points, C strings), the contains / starts with / ends with / occurrence count / line length functions return exactly what the definition of the operation over the text yields, always terminate and read only the text they were given. Occurrences are counted left to right without overlap and an empty pattern has no occurrences.',
 ['inputs'], 'every text and pattern up to the stated lengths, every byte or code point value',
 'the unit tests sample a handful of texts; empty, repeated, overlapping and boundary patterns are combinations they do not reach', ['Util/Strings.hpp'], [('Strings searching', 'Util/Strings.hpp')]),
'S02': P('Replacing, splitting and joining preserve and partition the text',
 'Replacing all matches changes exactly the non-overlapping matches found left to right and nothing else; splitting on a delimiter yields exactly the maximal pieces between delimiters, so that nothing but delimiters is lost; prefixing, suffixing and joining place every piece and delimiter exactly once, in order. All of them terminate and stay within the text for every input, including empty patterns and texts made of delimiters only.',
 ['inputs'], 'every text, pattern and replacement up to the stated lengths',
 'tests use a few literal texts; matches at the ends, adjacent delimiters, empty patterns and replacements containing the pattern need the whole input space', ['Util/Strings.hpp'], [('replaceAll, split, splitAndTrim, join', 'Util/Strings.hpp')]),
'T01': P('Assertions pass exactly when their condition holds',
 'An assertion of the testing framework passes exactly when the documented condition of its matcher holds for the supplied values (equality, ordering, distance, prefix, suffix, containment, null, type and thrown exception, in every form with or without location, text and printing); otherwise it raises an assertion exception whose message starts with the location and the supplied text and shows both values, without undefined behaviour for any value.',
 ['inputs'], 'every value of the stated types and every text, vector and thrown exception within the stated bounds',
 'the whole test suite trusts its assertions, and each is exercised only with values that are expected to pass; extreme values, empty texts and element types with their own equality are not sampled', ['Testing/Assertions.hpp', 'Testing/Matchers.hpp', 'Testing/Impl/MatcherClasses.hpp', 'Testing/Impl/StandardRenderers.hpp'], [('assertThat / assertThatNP', 'Testing/Assertions.hpp'), ('MatcherFunction', 'Testing/Impl/MatcherClasses.hpp'), ('render', 'Testing/Impl/StandardRenderers.hpp')]),
'T02': P('A test run executes exactly the selected tests and reports each outcome',
 'A run of the test runner executes exactly the registered tests that match the test list (names with * and ? wildcards, separated by commas or blanks; every test when the list is empty) and support the execution model, each once between its setup and its teardown; reports every test once with its own outcome (passed, ignored, failed or error, failures of setup and teardown included), and succeeds exactly when no test failed.',
 ['inputs', 'programs', 'schedules'], 'every schedule of two worker threads with up to two pre-emptions, and every combination of test, setup and teardown behaviours and every test list within the stated bounds',
 'the runner runs the test suite but is itself not tested: failing tests, failing setups and teardowns, and selection lists never occur in a passing suite', ['Testing/TestRunner.hpp', 'Testing/Impl/TestRunnerExecutor.hpp', 'Testing/Impl/SingleThreadedTestRunnerExecutor.hpp', 'Testing/Impl/TestGroup.hpp'], [('runTest / addTests / printAvailableResults', 'Testing/Impl/TestRunnerExecutor.hpp'), ('report', 'Testing/TestRunner.hpp')]),
'K01': P('Clock readings, date texts and random integers are within their definition',
 'Every reading of the system clock is the instant that the operating system shows, in whole units of the requested size; today is the calendar day of that instant; points in time and durations are written in a format as their date and time; a random integer lies between its two bounds, both of which occur, and generators with the same seed yield the same numbers.',
 ['inputs'], 'every instant, duration and pair of bounds within the stated bounds',
 'the tests compare two readings of the clock and a few texts; century and leap year boundaries and extreme bounds are not sampled', ['System/SystemClock.hpp', 'System/Clock.hpp', 'Util/DateTime.hpp', 'Util/Random.hpp'], [('nanotime … decitime, today', 'System/SystemClock.hpp'), ('toString', 'Util/DateTime.hpp'), ('RandomNumberGenerator', 'Util/Random.hpp')]),
'S03': P('Trimming, padding and letter case keep the remaining text intact',
 'Trimming removes exactly the leading and / or trailing Unicode space code points; padding appends or prepends only the padding code point until the requested number of code points is reached; case conversion maps each code point to its Unicode simple case mapping and keeps the text well-formed even when the encoded length changes; case-insensitive comparison is exactly comparison of the converted texts.',
 ['inputs'], 'every well-formed text up to the stated number of code points',
 'tests use ASCII texts; code points whose case mapping has a different encoded length and texts made of white space are not sampled', ['Util/Strings.hpp', 'Type/Character.hpp'], [('trim, pad, toUpper, toLower, equalsIgnoreCase', 'Util/Strings.hpp')]),
'S04': P('UTF-8 cursors and digit classification are exact',
 'Moving forwards or backwards through UTF-8 text reads each code point and lands on each code point boundary exactly; the validating versions additionally never leave the text, always make progress and report a negative value for a malformed sequence, for arbitrary bytes. Writing a code point stores exactly its encoding, and the ASCII, octal, binary and hexadecimal digit and validity tests accept exactly the code points they are named for.',
 ['inputs'], 'every text up to the stated length and every offset; every 32 bit value for the classifications',
 'tests sample a few characters; truncated and overlong sequences at the end of the buffer and every boundary value are not reached', ['Type/Character.hpp'], [('getNext / getPrevious / advance / retreat UTF-8', 'Type/Character.hpp')]),
'C01': P('Integers and booleans survive conversion to text and back; bad text is refused',
 'Every integer and boolean converted to text (UTF-8, UTF-16, UTF-32) is written as its exact decimal digits and parses back to the same value. Parsing accepts exactly the texts that denote a number within the range of the requested type and base, yields that number, and throws a conversion exception for every other text, never a wrapped or truncated value.',
 ['inputs'], 'every value or text within the stated bounds for all ten integer types',
 'there are no unit tests of number parsing at all; the limits of each type, signs, prefixes and trailing characters form a space that sampling does not cover', ['Type/FromString.hpp', 'Type/Impl/FromStringImpl.hpp', 'Type/ToString.hpp', 'Type/Impl/ToStringImpl.hpp'], [('fromString', 'Type/Impl/FromStringImpl.hpp'), ('toString', 'Type/Impl/ToStringImpl.hpp')]),
'C02': P('Conversions between Unicode encodings lose nothing',
 'Converting a well-formed text between UTF-8, UTF-16 and UTF-32 in any direction yields exactly the encoding of the same code points, so that every round trip is the identity. Converting arbitrary bytes, code units or code points never yields an ill-formed text, and a single character parsed from text is the code point its first bytes encode or a conversion exception.',
 ['inputs'], 'every text up to the stated number of code points, arbitrary bytes and code units up to the stated length',
 'tests use a few literals; surrogate boundaries, truncated sequences and four byte characters are points that need the whole code space', ['Type/FromString.hpp', 'Type/Impl/FromStringImpl.hpp', 'Type/ToString.hpp', 'Type/Impl/ToStringImpl.hpp'], [('UTF conversions', 'Type/Impl/ToStringImpl.hpp'), ('fromString to characters', 'Type/Impl/FromStringImpl.hpp')]),
'A01': P('The command line is parsed into exactly what it says, or refused',
 'For every argument list and each style (switch space value, switch equals value, automatic detection), parsing yields exactly the options, values and final values that the documented grammar assigns to the arguments, or throws the documented exception (unknown option, missing value, missing or illegal final value); nothing is read beyond the arguments and nothing of an earlier parse survives. Numeric access returns exactly the number the text denotes in the range of the requested type, or throws. The help text contains every option once, each line ended and wrapped within the requested width without losing a word.',
 ['inputs', 'histories'], 'every list of up to three arguments of up to three characters over the syntax alphabet; every short numeric text',
 'unit tests use a few well-formed command lines; option value boundaries, missing values at the end, reuse of a parser and malformed numbers need the whole input space', ['Application/CommandLine.hpp'], [('CommandLine', 'Application/CommandLine.hpp')]),
'R01': P('URI parsing assigns every character to the right component',
 'For every byte string the URI class either refuses it with its documented exception or parses it so that scheme, user information, host, port, path, query and fragment are exactly the RFC 3986 components of the text, the textual form is reproduced unchanged, and nothing outside the text is read. Path normalisation removes exactly the "." components and the ".." components that have a parent, and is idempotent.',
 ['inputs'], 'every byte string of up to five bytes; longer strings over the delimiter alphabet',
 'tests use a list of typical URIs; empty components, unusual delimiter orders and malformed UTF-8 form a space sampling does not cover', ['Resource/Uri.hpp', 'Resource/Url.hpp'], [('Uri parsing, normalisation', 'Resource/Uri.hpp')]),
'N01': P('URL decoding and parameter splitting are exact and never leave the input',
 'URL decoding yields exactly the text denoted by the percent and plus encoding; malformed escapes and malformed UTF-8 are reported or passed over as the chosen option documents, and the result is never ill-formed when validation is requested. Splitting a query string returns every parameter with its name and value once. Arbitrary bytes never make either read outside the input.',
 ['inputs'], 'every byte string of up to four bytes; runs over the escape alphabet; up to three parameters',
 'no unit test of the decoder is part of the build; truncated and invalid escapes are reached by any network client', ['Network/Utilities/UrlDecode.hpp'], [('UrlDecode', 'Network/Utilities/UrlDecode.hpp')]),
'X01': P('Single execution and lazy values compute once under every schedule',
 'A single-time executor runs its function exactly once, a lazy value computes its value exactly once and a thread-local instance is created once per thread, whatever the interleaving of the threads that use them; every caller returns only after the computation and sees its complete effects (no data race), and the outcome of a failed computation is as documented.',
 ['schedules'], 'every interleaving of two or three threads up to the stated number of pre-emptions at every memory access, atomic or lock operation',
 'a test observes the schedules the machine happens to take; a missing barrier or a check outside the lock shows only under one interleaving', ['Concurrent/SingleTimeExecutor.hpp', 'Concurrent/LazyValue.hpp', 'Concurrent/ThreadLocalInstance.hpp'], [('SingleTimeExecutor', 'Concurrent/SingleTimeExecutor.hpp'), ('LazyValue', 'Concurrent/LazyValue.hpp'), ('ThreadLocalInstance', 'Concurrent/ThreadLocalInstance.hpp')], state='shared flag, mutex, computed value, threads', technique=CONC),
'X02': P('Semaphores and barriers admit exactly the threads they should',
 'A semaphore never admits more threads than it has permits, loses no increment and wakes a waiter whenever a permit is available (no lost wake-up, no deadlock); a cyclic barrier releases its threads exactly when all of them have arrived, once per cycle, and can be reused at once. What a thread wrote before is visible to the threads it releases.',
 ['schedules'], 'every interleaving of two or three threads up to the stated number of pre-emptions',
 'lost wake-ups and reuse races of a barrier need particular interleavings that a test run does not produce on demand', ['Concurrent/Semaphore.hpp', 'Concurrent/CyclicBarrier.hpp'], [('Semaphore', 'Concurrent/Semaphore.hpp'), ('CyclicBarrier', 'Concurrent/CyclicBarrier.hpp')], state='permit count, waiters, arrived threads', technique=CONC),
'X03': P('Queues deliver every element exactly once, in order, within their bound',
 'For every history of operations the array blocking queue and the synchronised queue behave like a FIFO list: each element enqueued is dequeued exactly once and in order, a bounded queue never holds more than its capacity, blocking and timed operations wait exactly as long as the state requires, and concurrent producers and consumers lose, duplicate or tear nothing (no data race, no deadlock).',
 ['schedules', 'histories'], 'every history of a few operations for the sequential behaviour; every interleaving of two or three threads up to the stated number of pre-emptions',
 'tests push data through the queue under the schedules the machine takes; wrap around, full and empty boundaries combined with a pre-emption are not reached on purpose', ['Container/ArrayBlockingQueue.hpp', 'Container/SynchronizedQueue.hpp', 'Container/BlockingQueue.hpp'], [('ArrayBlockingQueue', 'Container/ArrayBlockingQueue.hpp'), ('SynchronizedQueue', 'Container/SynchronizedQueue.hpp')], state='ring buffer, positions, waiters', technique=CONC),
'X04': P('Process control reports exactly what happened to the child',
 'Forking runs the given function in the child only and never returns into the caller there; waiting on or polling for a child returns exactly the process id, exit code or signal the operating system reports, errors become exceptions, interrupted calls are not mistaken for termination, and terminating a process signals exactly the given process.',
 ['fault_sequences', 'inputs'], 'every result of the modelled system calls (fork, waitid, kill): success, each child status, failure',
 'a test sees the one child status it provokes; failures of fork, waitid and kill and the other child states are not reached', ['Concurrent/Fork.hpp'], [('Fork', 'Concurrent/Fork.hpp')]),
'D01': P('Object tries keep order and find, replace and cascade exactly',
 'For every trie, children keep the order of insertion; depth and breadth first iteration and iteration over the children visit every node exactly once in the documented order; exact, nearest and nearest-leaf search return the node the path denotes or nothing; add-or-replace, find-or-add and cascading change or create exactly the nodes they should, with the supplied comparison, creation and copy functions applied to every value; copies are equal and independent.',
 ['inputs', 'histories'], 'every trie shape of up to four nodes below the root with symbolic keys and bodies; every path of up to two or three steps',
 'tests use one or two fixed tries; single children, empty nodes, duplicate keys and paths that leave the trie at each level are shapes they do not contain', ['Container/ObjectTrie.hpp'], [('ObjectTrie, ObjectTrieNode', 'Container/ObjectTrie.hpp')], state='nodes, children'),
'D02': P('Dependency graphs answer exactly for the relations that were added',
 'After every history of adding and removing dependencies and relationships, lookups, direct dependencies, edge data and iteration agree with exactly the relations present; cycles are reported if and only if there are any; the dependency order contains every dependency once, after all it depends on, and the parallel order places each in the earliest possible step. Using a missing or existing item throws the documented exception and changes nothing.',
 ['histories', 'inputs'], 'every directed graph of up to three vertices and every history of two operations on four starting graphs',
 'tests build one graph; removal followed by lookups, self relations and each cyclic shape need the whole space of small graphs', ['Container/DependencyGraph.hpp', 'Exception/ContainerExceptions.hpp'], [('DependencyGraph', 'Container/DependencyGraph.hpp')], state='graph, reverse lookup'),
'P01': P('Property text is parsed as documented and printed back unchanged',
 'For every text the property parser either builds exactly the nodes the documented grammar assigns (comments, blank lines, values, composite values with nested blocks, includes, escapes, line continuations) or refuses it with the parser exception; malformed UTF-8 is refused. Printing the tree and parsing it again gives an equal tree, equality distinguishes exactly the trees that differ, and normalisation removes exactly the escapes and line continuations. Nothing is read outside the text, whatever its bytes.',
 ['inputs'], 'every text of up to the stated number of characters over the syntax alphabet, every byte string of up to three bytes',
 'unit tests parse a few well-formed files; text that ends within a construct, short texts, malformed UTF-8 and escapes next to line breaks need the whole input space', ['Lang/Property/Parser/PropertyParser.hpp', 'Lang/Property/Parser/PropertyScanner.hpp', 'Lang/Property/Lang/PropertyAst.hpp', 'Lang/Property/Util/PropertyAstToString.hpp', 'Lang/Common/AbstractScanner.hpp'], [('PropertyParser', 'Lang/Property/Parser/PropertyParser.hpp'), ('PropertyScanner', 'Lang/Property/Parser/PropertyScanner.hpp')]),
'P02': P('Scanned tokens and their code spans locate the source text exactly',
 'For every sequence of tokens, the text, position and code span of each token are exactly those of the source, whether the tokens are iterated, accessed at random or scanned one by one. Consuming, putting back, marking, resetting and the whitespace modes move exactly to the tokens they name, and an unexpected token is reported exactly once and only when it is unexpected.',
 ['inputs', 'histories'], 'every sequence of up to three tokens of nine forms; every sequence of four operations',
 'tests scan one or two texts forwards; putting back over line breaks, skipped whitespace and markers are histories they do not contain', ['Lang/Common/ScannedTokens.hpp', 'Lang/Common/AbstractScanner.hpp', 'Lang/Common/CodeSpan.hpp'], [('ScannedTokens', 'Lang/Common/ScannedTokens.hpp'), ('AbstractScanner', 'Lang/Common/AbstractScanner.hpp')], state='cursor, line lengths, marker'),
'R02': P('Appending to and resolving against a URL keeps what it must keep',
 'Appending a path component to a URL changes only the path, placing exactly one separator; resolving a path against a URL yields the reference itself when it is absolute and otherwise its place under the documented base path. Scheme, user information, host and port of the URL are kept in every case.',
 ['inputs'], 'URLs of four authorities, every path and component of up to the stated length over the path alphabet',
 'tests append to a typical URL without port or user information; the combinations of authority, trailing separator, query and fragment are not sampled', ['Resource/Url.hpp', 'Resource/Http.hpp', 'Resource/UriResolve.hpp'], [('appendPathComponent', 'Resource/Url.hpp'), ('UriResolve', 'Resource/UriResolve.hpp')]),
'I01': P('Injection gives the instance bound for the type, name and constness',
 'For every chain of injectors and every set of bindings, a request for a shared instance, reference, value or unique instance is served by the binding of exactly that kind, type and name in the nearest injector that has one; a request for a const instance falls back to the non-const binding only when no const binding exists, a request for a non-const instance is never served by a const binding, and everything else is refused with the missing binding exception or answered with the given default. Registering two bindings of the same key is refused however the bindings are distributed over configurations.',
 ['configurations', 'inputs'], 'chains of up to three injectors (four in the thorough tier) with every combination of const and non-const bindings; every subset of seven kinds of bindings; every pair and triple of bindings of seven kinds',
 'tests exercise one configuration each; the precedence between constness and the distance of the injector is a matter of combinations', ['Application/Injector.hpp', 'Application/Impl/Binding.hpp', 'Application/Impl/BindingKey.hpp', 'Application/Impl/BindingBuilder.hpp', 'Application/Impl/BindingMap.hpp', 'Application/ApplicationConfiguration.hpp'], [('Injector.getShared', 'Application/Injector.hpp'), ('BindingKey', 'Application/Impl/BindingKey.hpp')], state='binding maps of a chain of injectors', technique=STRUCT),
'I02': P('Creating an injector refuses exactly the incomplete or cyclic bindings',
 'For every dependency graph between bindings, creating or validating an injector succeeds exactly when every dependency is satisfied in the chain of injectors and the dependencies are free of cycles; otherwise it throws the exception naming the defect and constructs nothing. Eager singletons are constructed once each, after the instances they depend on, and bindings that would own the injector itself are refused.',
 ['configurations'], 'every dependency graph over three bindings, of every kind of dependency, absent, in the injector or in its parent',
 'tests contain a handful of graphs; whether a graph is complete and acyclic is a property of all graphs', ['Application/Injector.hpp', 'Application/Impl/Binding.hpp', 'Container/DependencyGraph.hpp'], [('Injector.create', 'Application/Injector.hpp'), ('DependencyGraph', 'Container/DependencyGraph.hpp')], state='dependency graph', technique=STRUCT),
'I03': P('Bound objects are created, shared, called back and destroyed as promised',
 'Singletons are constructed at most once per binding, lazily or eagerly as bound, also when threads request them together; new instance bindings construct one object per request; custom deleters are used, and every object is destroyed exactly once when its last owner lets go of it. Every registered post-construction and pre-destruction call is made exactly once, static singletons are set after construction and reset at destruction, including those of extra configurations and of configurations used before.',
 ['histories', 'schedules', 'configurations'], 'fourteen forms of shared bindings and ten of new instances, up to two uses each; two threads; up to two calls in each of up to three nested configurations, used once or twice',
 'tests use each form once in a single thread and cannot cover interleavings of lazy construction or combinations of nested configurations', ['Application/Injector.hpp', 'Application/Impl/Binding.hpp', 'Application/Impl/BindingBuilder.hpp', 'Application/ApplicationConfiguration.hpp', 'Application/InjectorConfiguration.hpp'], [('AbstractLazySingletonBinding', 'Application/Impl/Binding.hpp'), ('ApplicationConfiguration', 'Application/ApplicationConfiguration.hpp')], state='singletons, registered calls', technique=STRUCT),
'G01': P('Scope guards run their function exactly once, when they should',
 'A scope guard runs the function it holds exactly once: at the end of the scope that owns it, however the scope is left, or earlier when told to; a cleared guard runs nothing, a guard that was given another function runs that one, and a guard that was moved from runs nothing while its new owner does. What the function captured is available while it runs and is released with the guard.',
 ['histories', 'inputs'], 'every history of up to three operations (four in the thorough tier) on a guard and on a movable guard of three forms, left normally or by an exception',
 'no test of the movable guard exists and the tests of the other leave one scope normally; which operation came before the exit is a matter of histories', ['Type/OnScopeExit.hpp', 'Type/MovableOnScopeExit.hpp'], [('OnScopeExit', 'Type/OnScopeExit.hpp'), ('MovableOnScopeExit', 'Type/MovableOnScopeExit.hpp')], state='function held by the guard', technique=STRUCT),
'U01': P('Container, vector and stream helpers keep every element, in order',
 'Appending, moving, concatenating, mapping, pushing and converting containers yield exactly the elements of their sources in order; replace-or-append changes exactly the first matching element or appends one; the containment queries answer exactly for the elements present; copying a stream and reading its lines lose and add nothing.',
 ['inputs'], 'every pair of containers of up to three elements with any content, every stream text of up to four characters over line breaks and letters',
 'the helpers have few or no tests; which of several equal elements is changed and what happens at empty containers and last lines needs the whole input space', ['Util/Vectors.hpp', 'Util/Containers.hpp', 'Util/Memory.hpp', 'Util/Streams.hpp'], [('Vectors', 'Util/Vectors.hpp'), ('Containers', 'Util/Containers.hpp'), ('Streams', 'Util/Streams.hpp')]),
'U02': P('Hexadecimal printing shows every byte, in order, within its lines',
 'Printing the bytes of a memory block or value as hexadecimal writes exactly two digits for each byte in order, whatever the bytes, and breaks lines and groups as the given line length and group size ask; it reads nothing outside the block and always returns.',
 ['inputs'], 'every block of up to four bytes with any content, six line lengths, four group sizes',
 'the function has no test; bytes from 80 upwards, absent group sizes and incomplete last groups are reached by any caller', ['Util/PrettyPrint.hpp'], [('printHexBytes', 'Util/PrettyPrint.hpp')]),
'L01': P('Log lines appear exactly when enabled and say exactly what was logged',
 'A message of a level is written, once and to the stream of its level, exactly when the level is enabled for the logger, whichever form of call is used, and a message function is called exactly then; the enabled queries agree. Every "{}" in a message is replaced in order by the text of an argument (missing ones are marked, surplus ones ignored) and nothing else is changed. The line is the configured format with each specifier replaced by level, namespace, location, time, thread or message, and anything else kept verbatim.',
 ['inputs', 'configurations'], 'every message of up to five characters over the placeholder alphabet with up to three arguments; every level, call form and level setting; every format of up to two (three) specifiers; dates at the boundaries of months and years',
 'the logging tests write to files and look at a few lines; braces next to placeholders, missing arguments, missing locations and disabled levels are combinations they do not contain', ['Logging/Logger.cpp', 'Logging/Logger.hpp', 'Logging/Impl/LoggerItems.hpp', 'Logging/Impl/LoggerItems.cpp', 'Logging/Impl/LoggerMessageItems.hpp', 'Logging/Impl/LoggingState.cpp', 'Util/DateTime.hpp'], [('logMessage, textToMessageItems', 'Logging/Logger.cpp'), ('setFormats', 'Logging/Impl/LoggingState.cpp')]),
'L02': P('Loggers are configured by the nearest configured logging namespace',
 'After every history of obtaining loggers and configuring, each logger has the level, flushing, format and streams of the nearest configured namespace at or above its own, whether it was obtained before or after; level specific streams override the general one, levels without a stream use the one of the next lower level and then of the next higher one, and a namespace with any stream of its own inherits none. A namespace always gives the same logger, a reset restores the default configuration, and a locked configuration never changes.',
 ['configurations', 'histories'], 'every level setting of a chain of four namespaces with siblings, every set of stream options of two namespaces, every pair of successive configurations of two namespaces, loggers obtained before or after',
 'the tests configure a few fixed trees; inheritance and fallback are defined over all combinations of settings', ['Logging/Impl/LoggingState.cpp', 'Logging/Impl/LoggingState.hpp', 'Logging/Logger.cpp', 'Logging/Impl/LoggerPropertyVisitor.hpp', 'Logging/Impl/LoggerConfigurationVisitor.hpp', 'Container/ObjectTrie.hpp'], [('propagateConfiguration, setStreams, setLevels', 'Logging/Impl/LoggingState.cpp'), ('getInstance', 'Logging/Impl/LoggingState.cpp')], state='tree of loggers, pools of streams', technique=STRUCT),
'L03': P('Logging goes on correctly while it is being configured',
 'Whatever the interleaving of threads that log, obtain loggers and configure the logging system, there is no data race, no message of an enabled level is lost or written twice, each line has the previous or the new format and never a mixture, and goes to the previous or the new stream; threads that ask for the same namespace get the same configured logger, and after the configuration every logger uses it.',
 ['schedules'], 'every interleaving of two threads with one pre-emption (two in the thorough tier) at every memory access, atomic or lock operation',
 'tests of the logging system are single threaded', ['Logging/Logger.cpp', 'Logging/Impl/LoggingState.cpp', 'Logging/Logger.hpp'], [('logMessage', 'Logging/Logger.cpp'), ('configure, getInstance', 'Logging/Impl/LoggingState.cpp')], state='atomic fields of the loggers', technique=CONC),
'E01': P('Environment properties have the value, type and default of their last source',
 'An environment configuration turns its inputs and type specifications into bindings: a property has the value of the last input that gives it, converted to the type of its last specification (the specifications in code override those in texts, later texts override earlier ones, and a property without specification is a text), or the default of that specification; it is found under that type only and at its place in the hierarchy, and a composite property is there exactly when it has a property. A value that cannot be converted, an unknown or missing type and incompatible specifications are refused, included files are read relative to the file that includes them, and a configuration can be used again with the same result.',
 ['configurations', 'inputs'], 'every combination of given, specified and defaulted properties within the stated shapes, every digit or character of their values',
 'tests check a few fixed configurations; precedence and defaults are defined over all combinations of sources, depths and types', ['Application/EnvironmentConfiguration.hpp', 'Application/EnvironmentProperties.hpp', 'Application/Impl/EnvironmentConfigurationBuilder.hpp', 'Application/Impl/EnvironmentConfigurationBuilderUtils.hpp', 'Application/Impl/PropertyTypeSpecificationVisitor.hpp', 'Application/Impl/PropertyBindingBuilderFactory.hpp', 'Application/Impl/PropertyString.hpp'], [('build, buildProvidedValues, buildDefaultValues, appendFactories, cascade', 'Application/Impl/EnvironmentConfigurationBuilder.hpp'), ('createPropertyStrings', 'Application/Impl/EnvironmentConfigurationBuilderUtils.hpp'), ('getValue, getUnique, getComposite', 'Application/EnvironmentProperties.hpp')], technique=STRUCT),
'Q01': P('Shared memory queues deliver every message whole, once and in order',
 'Whatever their sizes, messages enqueued in a shared memory queue by any handle leave it unchanged and exactly once, by priority and, within a priority, in order; a message that is split into chunks is put together again when its chunks arrive among those of other messages and when attempts to dequeue find only a part of it. An attempt reports whether it succeeded, waits as long as asked and loses nothing; oversize objects and unusable buffer sizes are refused; empty and full tell the state of the queue.',
 ['schedules', 'inputs', 'histories'], 'every order of arrival of the chunks of the messages and every point of the attempts within the stated bounds, every content',
 'the tests send one constant object; reassembly depends on how the chunks of concurrent producers interleave and on where a timed dequeue gives up', ['Interprocess/SharedMemoryQueue.hpp', 'Interprocess/Impl/SharedMemoryQueueImpl.hpp'], [('enqueue, tryEnqueue, dequeue, tryDequeue, performMultiChunkDequeue, completeMultiChunkDequeue', 'Interprocess/SharedMemoryQueue.hpp')], technique=CONC, note='over models of the Boost message queue, named shared memory, clock and binary archives'),
'Q02': P('All handles of a shared memory object refer to one object',
 'A managed or unmanaged shared memory object is constructed once with the given arguments; opening an existing name in any mode gives access to that object, whose arguments are ignored, and changes made through one handle are seen through the others. A name that does not exist cannot be opened; creating an object under a name in use makes a new object and leaves the previous one unchanged for its handles; and a handle keeps its object when it is moved.',
 ['histories', 'inputs'], 'every pair of ways to create and open an object, every value of the object',
 'no test covers the ways to open an existing object; identity of the object is about pairs of operations in different processes', ['Interprocess/MSharedMemoryObject.hpp', 'Interprocess/USharedMemoryObject.hpp'], [('constructors, move, remap', 'Interprocess/USharedMemoryObject.hpp'), ('constructors, move', 'Interprocess/MSharedMemoryObject.hpp')], note='over a model of named shared memory'),
}
NOT_APPLICABLE = {}
