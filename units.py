import os
LIBDIR = '/usr/lib/x86_64-linux-gnu'
ICU = [LIBDIR + '/libicuuc.so']
def U(cpp, entry, bounds, reach=(), libs=(), **k): return dict(cpp=cpp, entry=entry, bounds=bounds, reach=list(reach), libs=list(libs), **k)
RES = ICU + [LIBDIR + '/libboost_filesystem.so', LIBDIR + '/libboost_system.so', LIBDIR + '/libboost_iostreams.so', LIBDIR + '/libssl.so', LIBDIR + '/libcrypto.so', LIBDIR + '/libz.so']
STR = dict(libs=ICU)
INJ = RES
RUN = RES + [LIBDIR + '/libboost_serialization.so', LIBDIR + '/libboost_thread.so']
MODELS = ['-I' + os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness', 'models')]
PROPS = {
 'S01': dict(units=[
   U('strings.cpp', 'strings_search', 'bytes: text <= 5, pattern <= 3', ['found', 'absent', 'several'], ICU),
   U('strings.cpp', 'strings_search32', 'code points: text <= 4, pattern <= 2', ['found', 'absent', 'several'], ICU),
   U('strings.cpp', 'strings_search_cstr', 'C strings: text <= 4, pattern <= 2', ['done'], ICU),
   U('strings_more.cpp', 'strings_regex', 'expressions a+, ab|b, [\\t ]+; text <= 4 over {a, b, blank, tab, x}', ['several matches', 'no match', 'whole match'], ICU),
  U('strings_more.cpp', 'strings_overloads', 'string, C string and view overloads taking a character: text <= 3', ['at the start', 'at the end', 'in the middle', 'absent'], ICU),
  U('strings_more.cpp', 'strings_overloads32', 'the same for UTF-32 text <= 3', ['at the start', 'at the end', 'absent'], ICU),
  U('strings.cpp', 'strings_lines', 'text <= 4 over {a, b, CR, LF}', ['several lines'], ICU),
 ]),
 'S02': dict(units=[
   U('strings.cpp', 'strings_replace', 'text <= 5, match <= 2, replacement <= 2', ['replaced', 'replaced twice'], ICU),
   U('strings.cpp', 'strings_replace32', 'code points: text <= 4, match <= 2, replacement <= 2', ['replaced', 'replaced twice'], ICU),
   U('strings.cpp', 'strings_split', 'text <= 5, delimiters <= 2', ['several pieces', 'only delimiters'], ICU),
   U('strings.cpp', 'strings_split32', 'code points: text <= 4', ['several pieces', 'only delimiters'], ICU),
   U('strings.cpp', 'strings_split_trim', 'text <= 5', ['trimmed'], ICU),
   U('strings_more.cpp', 'strings_regex_replace', 'expressions a+, ab|b, [\\t ]+; text <= 4, replacement <= 2 of any bytes', ['several matches', 'no match'], ICU),
  U('strings_more.cpp', 'strings_simplify', 'text <= 5 over {b, blank, tab, x}', ['simplified', 'three characters'], ICU),
  U('strings_more.cpp', 'strings_regex_split', 'expressions a+, ab|b, [\\t ]+; text <= 4, with and without delimiters, compression and trimming', ['several pieces', 'delimiters returned', 'empty piece'], ICU),
  U('strings_more.cpp', 'strings_replace_forms', 'string, C string, allocator and typed overloads: text <= 4, match and replacement <= 2', ['replaced twice', 'unchanged'], ICU),
  U('strings_more.cpp', 'strings_join_forms', 'string, C string, allocator and UTF-32 overloads: up to 3 elements', ['three elements'], ICU),
  U('strings_more.cpp', 'strings_misc_forms', 'C string line lengths, UTF-32 splitAndTrim, toStringContainer, C string equalsIgnoreCase: text <= 4', ['two lines', 'two pieces', 'three elements', 'same', 'different'], ICU),
  U('strings.cpp', 'strings_join', 'up to 3 pieces of up to 2 bytes, delimiter <= 2', ['three'], ICU),
 ]),
 'T01': dict(units=[
   U('testing.cpp', 'assert_compare', 'int, unsigned long long, long long and unsigned char: every pair of values; six matchers, four forms', ['passed', 'failed', 'equal'], ICU),
   U('testing.cpp', 'assert_almost', 'int, long long, unsigned and unsigned long long: every actual value, expected value and distance (whose sum fits for signed types)', ['passed', 'failed', 'near'], ICU),
   U('testing.cpp', 'assert_text', 'texts <= 3 and expectations <= 2 of any bytes; six matchers, four forms', ['passed', 'failed', 'in the middle', 'longer expectation', 'empty expectation'], ICU),
   U('testing.cpp', 'assert_text_wide', 'the same for UTF-16 and UTF-32 texts', ['passed', 'failed', 'in the middle', 'longer expectation', 'empty expectation'], ICU),
   U('testing.cpp', 'assert_vector', 'vectors <= 3 and expectations <= 2 of integers, one character strings and a type with padding', ['passed', 'failed', 'proper start'], ICU),
   U('testing.cpp', 'assert_pointer', 'null or not', ['null', 'not null'], ICU),
   U('testing.cpp', 'assert_type', 'four dynamic types, eight forms', ['passed', 'failed'], ICU),
   U('testing.cpp', 'assert_throws', 'no, an expected, a derived or another exception with any state; four expectations, four forms', ['passed', 'failed', 'derived', 'wrong state'], ICU),
   U('testing.cpp', 'assert_throws_balau', 'two exception types, texts of one byte', ['passed', 'failed', 'other text'], ICU),
   U('testing.cpp', 'assert_fail', 'texts of two bytes, three forms', ['failed'], ICU),
   U('testing.cpp', 'assert_render', 'texts <= 3 over {a, b, blank, line feed}', ['passed', 'single lines', 'more actual lines', 'more expected lines', 'empty actual', 'empty expected'], ICU, defs={'quick': ('_GLIBCXX_ASSERTIONS',), 'thorough': ('_GLIBCXX_ASSERTIONS', 'AN=4')}),
   U('testing.cpp', 'assert_render_container', 'vectors and lists of <= 2 elements', ['passed', 'rendered'], ICU),
 ]),
 'T02': dict(units=[
   U('runner.cpp', 'run_outcomes', 'two tests of six behaviours, setup and teardown of four behaviours', ['failed', 'succeeded', 'setup fails', 'teardown fails', 'ignored'], RUN),
   U('runner.cpp', 'run_without_generator', 'one passing or failing test', ['failed', 'succeeded'], RUN),
   U('runner.cpp', 'run_selection', 'test lists of up to 2 items with symbolic characters and wildcards, four separators; three tests in two groups', ['all', 'none', 'two', 'one'], RUN, defs={'quick': ('BETA',), 'thorough': ('BETA',)}),
   U('runner.cpp', 'run_models', 'a group that does not support the execution model', ['failed', 'succeeded'], RUN, defs={'quick': ('BETA', 'ONLYPROC'), 'thorough': ('BETA', 'ONLYPROC')}),
   U('runner.cpp', 'run_threads', 'two tests, one of which may ignore itself, on two worker threads, every schedule with up to 2 pre-emptions', ['failed', 'succeeded'], RUN, threads=True),
 ]),
 'K01': dict(units=[
   U('time.cpp', 'clock_units', 'offsets below 2^20 ns (2^24 in the thorough tier) from four instants between 1970 and 2099, each of the six units', ['read', 'next unit'], RUN),
  U('time.cpp', 'clock_today', 'the first and last 2^20 ns (2^24 thorough) of 32 days of four-year spans from 1970, 1996 and 2098', ['leap day', 'last day'], RUN),
  U('time.cpp', 'date_text', 'the 60th day of three years; every hour, every minute, every second', ['written', 'leap day'], RUN),
  U('time.cpp', 'duration_text', 'every duration below a day in seconds', ['written'], RUN),
  U('time.cpp', 'random_integers', 'lower and upper bounds within 2^12 of the limits and of the middle of 32 bit types, three seeds, 2 numbers (12 for neighbouring bounds)', ['drawn'], RUN),
 ]),
 'S03': dict(units=[
   U('strings.cpp', 'strings_trim', 'texts of up to 3 code points', ['both sides', 'kept'], ICU),
   U('strings.cpp', 'strings_trim32', 'up to 4 code points', ['done'], ICU),
   U('strings.cpp', 'strings_pad', 'texts of up to 3 code points, any padding code point, widths up to 5', ['padded', 'four byte padding', 'already wide enough'], ICU),
   U('strings_more.cpp', 'strings_append_forms', 'text <= 2, any code point, up to 3 repetitions', ['wide', 'three'], ICU),
  U('strings.cpp', 'strings_case', 'every code point', ['longer', 'shorter'], ICU),
   U('strings.cpp', 'strings_case_pairs', 'pairs of code points', ['longer'], ICU),
   U('strings.cpp', 'strings_ignorecase', 'texts of up to 2 code points', ['equal', 'different'], ICU),
 ]),
 'S04': dict(units=[
   U('chars.cpp', 'chars_cursor', 'well-formed texts of 1 to 3 code points, every boundary', ['wide'], ICU),
   U('chars.cpp', 'chars_safe', 'byte strings of 1 to 5, every offset', ['well-formed', 'malformed'], ICU),
   U('chars.cpp', 'chars_safe_back', 'byte strings of 1 to 5, every offset', ['well-formed', 'malformed'], ICU),
   U('chars.cpp', 'chars_write', 'every code point between up to one byte on either side', ['wide'], ICU),
   U('chars.cpp', 'chars_digits', 'every 32 bit value', ['ascii', 'wide'], ICU),
 ]),
 'C01': dict(units=[
   U('conv.cpp', 'conv_roundtrip', 'every value of the integer types of up to 16 bits; 32 bit types: every value of magnitude up to 99999 and all values within 100 of the powers of ten and of the limits', ['negative', 'long text'], ICU),
   U('conv.cpp', 'conv_roundtrip64', '64 bit types: all values within 100 of 0, of the powers of ten from 10^9, of 2^31, 2^32, and of the limits, both signs', ['negative', 'long text', 'very long text'], ICU),
   U('conv.cpp', 'conv_parse', 'byte strings <= 4, ten types', ['accepted', 'rejected', 'out of range'], ICU),
   U('conv.cpp', 'conv_limits', 'types up to 32 bits: all digit strings of the length of the type limit and one longer, optional minus; 64 bit types: the last 6 digits free', ['accepted', 'rejected', 'out of range'], ICU),
   U('conv.cpp', 'conv_base', 'byte strings <= 3, bases 2, 8, 16, 36', ['accepted', 'rejected', 'out of range'], ICU),
   U('conv.cpp', 'conv_wide', 'UTF-16 and UTF-32 texts: one code point or two below U+0100 for ten integer types, up to five letters for booleans', ['accepted', 'rejected'], ICU),
  U('conv.cpp', 'conv_bool', 'ASCII strings <= 6', ['true', 'false', 'rejected'], ICU),
 ]),
 'C02': dict(units=[
   U('conv.cpp', 'conv_char', 'every code point, followed by up to one byte', ['byte', 'wide'], ICU),
   U('conv.cpp', 'conv_char_wide', 'UTF-16 and UTF-32 texts of up to 2 code points', ['accepted', 'rejected'], ICU),
  U('conv.cpp', 'conv_char_malformed', 'byte strings of 1 to 4', ['accepted', 'rejected'], ICU),
   U('conv.cpp', 'conv_unicode', 'texts of up to 3 code points', ['two wide characters', 'text'], ICU),
   U('conv.cpp', 'conv_unicode_malformed', 'up to 3 bytes / units / code points', ['kept', 'dropped'], ICU),
 ]),
 'A01': dict(units=[
   U('cmdline.cpp', 'cmdline_space', 'up to 3 arguments of up to 3 characters over {-, a, b, space}; three options; with and without an earlier parse', ['option with a value', 'several final values', 'missing final', 'missing value', 'not found', 'illegal'], ICU),
   U('cmdline.cpp', 'cmdline_equals', 'up to 3 arguments of up to 3 characters over {=, a, b, space}', ['option with a value', 'missing final', 'missing value', 'not found'], ICU),
   U('cmdline.cpp', 'cmdline_detect', 'up to 3 arguments of up to 3 characters over {-, =, a, b}', ['option with a value', 'several final values', 'missing final', 'missing value', 'not found', 'illegal'], ICU),
   U('cmdline.cpp', 'cmdline_numeric', 'ASCII values of 1 to 3 characters, six integer types', ['number', 'rejected'], ICU),
   U('cmdline.cpp', 'cmdline_accessors', 'every integer accessor with and without a default: absent, one digit, or the limit with a free last digit; the three forms of parse', ['number', 'absent', 'rejected'], ICU),
  U('cmdline.cpp', 'cmdline_floating', 'every floating point accessor on seven texts (concrete)', ['number', 'absent', 'rejected', 'default'], ICU),
  U('cmdline.cpp', 'cmdline_limits', 'values sharing the first digits of the type limit, last 2 or 3 digits free, both signs', ['number', 'rejected', 'out of range'], ICU),
   U('cmdline.cpp', 'cmdline_help', 'documentation of 0 to 60 characters (8 lengths), three widths, three indents', ['wrapped', 'no documentation'], ICU),
  U('cmdline.cpp', 'cmdline_help_styles', 'three options with or without long switches, every style and override', ['dashes', 'no dashes'], ICU),
 ]),
 'R01': dict(units=[
   U('uri.cpp', 'uri_bytes', 'byte strings of up to 5', ['parsed', 'refused', 'well-formed'], ICU),
   U('uri.cpp', 'uri_path', 's: followed by up to 7 characters of {a / ? # : @}', ['parsed', 'well-formed'], ICU),
   U('uri.cpp', 'uri_authority', 's:// followed by up to 7 characters of {a 1 : / ? # @}', ['parsed', 'refused', 'port', 'user', 'well-formed'], ICU),
   U('uri.cpp', 'uri_host', 's:// followed by up to 7 characters of {a 1 : / [ ] @}', ['parsed', 'refused', 'port', 'user', 'well-formed'], ICU),
   U('uri.cpp', 'uri_port', 'ports of up to 5 ASCII characters, four tails', ['parsed', 'refused', 'port'], ICU),
   U('uri.cpp', 'uri_normalize', 'paths of up to 8 characters of {a . /}', ['shorter'], ICU),
 ]),
 'N01': dict(units=[
   U('uri.cpp', 'url_decode', 'byte strings of up to 4, both options', ['decoded', 'threw', 'ignored'], ICU),
   U('uri.cpp', 'url_decode_runs', '5 to 6 characters of {% + c 3 a G}, both options', ['decoded', 'threw', 'ignored'], ICU),
   U('uri.cpp', 'url_decode_utf8', 'runs of 1 to 3 percent encoded bytes of every value', ['decoded', 'threw', 'ignored'], ICU),
   U('uri.cpp', 'url_split', '1 to 3 parameters, names of 1 to 2 and values of up to 2 arbitrary bytes (no delimiters)', ['three'], ICU),
 ]),
 'X01': dict(units=[
   U('conc.cpp', 'exec_once', '0 to 3 calling threads, with and without destructor code, stale memory', ['several callers'], ICU, threads=True),
   U('conc.cpp', 'exec_throw', '2 threads of 2 calls, code failing 0 to 2 times', ['done'], ICU, threads=True),
   U('conc.cpp', 'lazy_once', '0 to 3 calling threads, every value', ['several callers'], ICU, threads=True),
   U('conc.cpp', 'tls_default', '2 threads, each using the instance or not, every value', ['both'], ICU, threads=True, defs={'quick': ('TSS',), 'thorough': ('TSS',)}),
   U('conc.cpp', 'tls_function', '2 threads, each using the instance or not, every value', ['both'], ICU, threads=True, defs={'quick': ('TSS',), 'thorough': ('TSS',)}),
   U('conc.cpp', 'tls_argument', '2 threads, each using the instance or not, every value', ['both'], ICU, threads=True, defs={'quick': ('TSS',), 'thorough': ('TSS',)}),
 ]),
 'X02': dict(units=[
   U('conc.cpp', 'semaphore_permits', '3 threads, 1 or 2 permits', ['two permits'], ICU, threads=True),
   U('conc.cpp', 'semaphore_signal', '1 signalling and 2 waiting threads', ['done'], ICU, threads=True),
   U('conc.cpp', 'semaphore_mutex', '3 threads', ['done'], ICU, threads=True),
   U('conc.cpp', 'barrier_two', '2 threads, 2 rounds of 2 barriers', ['done'], ICU, threads=True),
   U('conc.cpp', 'barrier_three', '3 threads, 1 barrier', ['done'], ICU, threads=True),
   U('conc.cpp', 'barrier_reuse', '1 or 2 threads, reconfigured to 1 or 2', ['more', 'fewer'], ICU, threads=True),
 ]),
 'X03': dict(units=[
   U('conc.cpp', 'queue_model', 'every sequence of 4 operations (5 in the thorough tier), capacities 1 to 3, every value', ['full', 'empty', 'done'], ICU, threads=True),
   U('conc.cpp', 'queue_one_one', '1 producer, 1 consumer, 2 elements, capacity 1 or 2, timed and untimed', ['done'], ICU, threads=True),
   U('conc.cpp', 'queue_two_one', '2 producers of 2 elements, 1 consumer, capacity 1; one pre-emption (two in the thorough tier)', ['done'], ICU, threads=True, opts={'quick': ['--preempt', '1'], 'thorough': ['--preempt', '2']}),
   U('conc.cpp', 'queue_one_two', '1 producer of 2 elements, 2 consumers, capacity 1 or 2', ['done'], ICU, threads=True),
   U('conc.cpp', 'queue_timed', 'timed enqueues of 3 elements against 2 timed dequeues', ['refused', 'waited'], ICU, threads=True),
   U('conc.cpp', 'queue_waiters', '2 threads waiting on a queue of capacity 2, 1 thread that serves both', ['producers', 'consumers'], ICU, threads=True, opts={'quick': ['--preempt', '1'], 'thorough': ['--preempt', '2']}),
   U('conc.cpp', 'queue_observed', 'empty and full called during an enqueue and a dequeue', ['done', 'full seen'], ICU, threads=True),
   U('conc.cpp', 'syncqueue_model', 'every sequence of 5 operations (6 in the thorough tier), every value', ['empty', 'done'], ICU, threads=True),
   U('conc.cpp', 'syncqueue_threads', '2 producers of 2 elements, 1 consumer', ['done'], ICU, threads=True),
 ]),
 'X04': dict(units=[
   U('fork.cpp', 'fork_check', 'one of two processes in every state, every exit code and status', ['failed', 'reported', 'running'], ICU, model_env=True),
   U('fork.cpp', 'fork_invalid', 'every non-positive process id', ['done'], ICU, model_env=True),
   U('fork.cpp', 'fork_check_all', 'up to 3 process ids, one of them invalid', ['failed', 'two'], ICU, model_env=True),
   U('fork.cpp', 'fork_terminate', 'one of two processes in every state', ['terminated', 'reported'], ICU, model_env=True),
   U('fork.cpp', 'fork_perform', 'every result of fork and of the function', ['failed', 'parent', 'child', 'exited'], ICU, model_env=True),
 ]),
 'D01': dict(units=[
   U('trie.cpp', 'trie_find', 'tries of up to 3 nodes of every shape, keys over three values, paths of up to 2', ['found', 'nearest only'], ICU),
   U('trie.cpp', 'trie_iterate', 'tries of up to 4 nodes of every shape', ['several'], ICU),
   U('trie.cpp', 'trie_children', 'tries of up to 3 nodes', ['several', 'none'], ICU),
   U('trie.cpp', 'trie_replace', 'tries of up to 2 nodes, nine operations on any node', ['replaced', 'added'], ICU),
   U('trie.cpp', 'trie_find_or_add', 'tries of up to 2 nodes, paths of up to 3', ['created', 'found'], ICU),
   U('trie.cpp', 'trie_cascade', 'pairs of tries of up to 2 nodes, four forms', ['cascaded', 'roots differ'], ICU),
   U('trie.cpp', 'trie_copy', 'tries of up to 3 nodes', ['done'], ICU),
  U('trie_forms.cpp', 'trie_fluent', 'tries of up to 1 node, seven fluent forms with symbolic values', ['done'], ICU),
  U('trie_forms.cpp', 'trie_replace_forms', 'tries of up to 2 nodes, twenty operations', ['replaced', 'added'], ICU),
  U('trie_forms.cpp', 'trie_node_find', 'tries of up to 3 nodes, every node, paths of 2, five creating forms', ['found', 'missing'], ICU),
  U('trie_forms.cpp', 'trie_iterators', 'tries of up to 3 nodes, the four iterators', ['several'], ICU),
  U('trie_forms.cpp', 'trie_node_values', 'tries of up to 2 nodes', ['inner', 'root'], ICU),
 ]),
 'D02': dict(units=[
   U('graph.cpp', 'graph_shapes', 'every graph of up to 3 vertices', ['cyclic', 'largest'], ICU),
   U('graph.cpp', 'graph_ops', '3 vertices, four shapes, every sequence of 2 operations', ['threw', 'cyclic'], ICU),
   U('graph.cpp', 'graph_edge_data', '3 vertices, up to 2 relationships, every weight', ['done'], ICU),
  U('graph.cpp', 'graph_iterators', 'graphs of up to 3 dependencies, one possibly removed, both kinds of iterator', ['some', 'none'], ICU),
 ]),
 'R02': dict(units=[
   U('resource.cpp', 'url_append', 'URLs of four authorities, paths of up to 3 characters of {a / .}, with and without query and fragment; components of 1 or 2 characters', ['done'], RES),
   U('resource.cpp', 'url_resolve', 'the same URLs; references of 1 to 3 characters of {b / .}', ['absolute', 'relative'], RES),
   U('resource.cpp', 'url_absolute', 'references of six schemes followed by 1 or 2 characters of {b /}, with or without a leading blank, against URLs of four authorities and paths of up to 3 characters of {a / .}', ['done'], RES),
 ]),
 'P01': dict(units=[
   U('property.cpp', 'prop_lines', 'texts of up to 5 characters of {a, space, =, #, \\, LF}', ['refused', 'value', 'comment', 'unspecified'], ICU),
   U('property.cpp', 'prop_breaks', 'up to 4 characters of {a, space, \\, CR, LF} after four beginnings', ['value', 'comment', 'refused'], ICU),
   U('property.cpp', 'prop_special', 'texts of up to 5 characters of {a : ! @ { LF}', ['refused', 'value', 'comment', 'unspecified'], ICU),
   U('property.cpp', 'prop_block', 'blocks of up to 4 characters of {a, space, =, {, }, LF}, four endings', ['refused', 'composite', 'value'], ICU),
   U('property.cpp', 'prop_escapes', 'property lines of up to 4 characters of {a \\ # : = { } space}', ['refused', 'value'], ICU),
   U('property.cpp', 'prop_bytes', 'byte strings of 1 to 3', ['malformed', 'wide'], ICU),
   U('property.cpp', 'prop_wide', 'names and values of any one code point above U+3000', ['done'], ICU),
   U('property.cpp', 'prop_normalise', 'texts of up to 6 characters of {a = \\ space CR LF}', ['shorter'], ICU),
   U('property.cpp', 'prop_normalise_wide', 'texts of 1 or 2 code points, escaped or not', ['done'], ICU),
   U('property.cpp', 'prop_normalise_bytes', 'byte strings of 1 to 3', ['same length', 'shorter'], ICU),
   U('property.cpp', 'prop_equal', 'pairs of eight texts', ['equal', 'different'], ICU),
 ]),
 'P02': dict(units=[
   U('property.cpp', 'tok_random', 'every sequence of up to 3 tokens of nine forms', ['done'], ICU),
   U('property.cpp', 'tok_iterate', 'every sequence of up to 2 tokens of nine forms', ['done'], ICU),
   U('property.cpp', 'tok_expect', '1 or 2 tokens of nine forms, up to 2 earlier errors and limits', ['accepted', 'refused'], ICU),
   U('property.cpp', 'tok_modes', 'every sequence of up to 3 tokens of nine forms, eight whitespace modes', ['done'], ICU),
   U('property.cpp', 'tok_scanner', '1 to 3 tokens of four forms, every sequence of 4 operations, two whitespace modes', ['done', 'put back', 'marker', 'reset'], ICU),
 ]),
 'I01': dict(units=[
   U('injector.cpp', 'inj_shared', 'chains of up to 3 injectors (4 in the thorough tier), each with or without a const and a non-const shared binding; a second name at the root', ['const preferred', 'missing', 'only const'], INJ, xflags=MODELS),
   U('injector.cpp', 'inj_reference', 'the same chains with references', ['const preferred', 'missing'], INJ, xflags=MODELS),
   U('injector.cpp', 'inj_new', 'the same chains with values and unique instances of any content', ['value', 'unique'], INJ, xflags=MODELS),
   U('injector.cpp', 'inj_kinds', 'every set of seven kinds of bindings with the same type and name', ['done'], INJ, xflags=MODELS),
   U('injector.cpp', 'inj_duplicates', '2 or 3 bindings of seven kinds and two names in four forms of configuration', ['distinct', 'duplicate'], INJ, xflags=MODELS),
   U('injector.cpp', 'inj_many', '1 to 13 named bindings', ['done'], INJ, xflags=MODELS),
 ]),
 'I02': dict(units=[
   U('injector.cpp', 'inj_graph', '3 singletons, eager or not, with every set of dependencies, created and validated from one configuration, a vector or several, with or without a parent', ['valid', 'cyclic'], INJ, xflags=MODELS),
   U('injector.cpp', 'inj_promotion', '2 singletons, one of them absent, here or in the parent, every form of dependency both ways', ['valid', 'cyclic', 'missing'], INJ, xflags=MODELS),
   U('injector.cpp', 'inj_wanted', '3 singletons, each absent, here or in the parent, a chain of dependencies of every form', ['valid', 'cyclic', 'missing'], INJ, xflags=MODELS),
   U('injector.cpp', 'inj_itself', 'dependencies on the injector from eight kinds of bindings', ['refused', 'injected'], INJ, xflags=MODELS),
 ]),
 'I03': dict(units=[
   U('injector.cpp', 'inj_singletons', 'fourteen forms of shared bindings, used up to 2 times from the injector, a child or a copy', ['used', 'unused'], INJ, xflags=MODELS),
   U('injector.cpp', 'inj_instances', 'ten forms of bindings of new instances, up to 2 uses', ['used'], INJ, xflags=MODELS),
   U('injector.cpp', 'inj_threads', '2 threads, one lazy and one eager singleton', ['done'], INJ, threads=True, xflags=MODELS),
   U('injector.cpp', 'inj_calls', 'up to 2 calls each in up to three configurations, two forms of creation, first or second use of the configuration', ['done', 'second use'], INJ, xflags=MODELS),
   U('injector.cpp', 'inj_late_calls', 'calls registered with the injector by an eager singleton and by a call', ['done'], INJ, xflags=MODELS),
  U('injector.cpp', 'inj_iterate', 'two bindings of six kinds, three in a parent, const and non-const functions, with or without thread local instances', ['some', 'none'], INJ, xflags=MODELS),
 ]),
 'G01': dict(units=[
   U('utils.cpp', 'guard_scope', 'up to 3 operations', ['ran at the end', 'nothing left to run', 'left by an exception'], ICU),
   U('utils.cpp', 'guard_movable', 'up to 3 operations, three kinds of function', ['moved', 'ran at the end of the outer scope', 'left by an exception'], ICU),
 ]),
 'U01': dict(units=[
   U('utils.cpp', 'vec_replace', 'vectors of up to 3 elements', ['appended', 'replaced'], ICU),
   U('utils.cpp', 'vec_append', 'containers of up to 3, 3 and 1 elements', ['both full'], ICU),
   U('utils.cpp', 'vec_contains', 'containers of up to 3 elements, up to 2 values', ['present', 'absent'], ICU),
   U('utils.cpp', 'vec_text', 'up to 3 characters', ['full'], ICU),
   U('utils.cpp', 'vec_push', 'up to 3 arguments', ['done'], ICU),
   U('utils.cpp', 'vec_streams', 'texts of up to 4 characters over {a, b, LF}', ['several lines'], ICU),
 ]),
 'U02': dict(units=[
   U('utils.cpp', 'hex_bytes', 'up to 4 bytes, line lengths 0, 1, 4, 5, 7, 8, group sizes up to 3', ['several lines', 'groups'], ICU),
   U('utils.cpp', 'hex_value', 'every 32 bit value', ['done'], ICU),
 ]),
 'L01': dict(units=[
   U('logging.cpp', 'log_message', 'messages of up to 5 characters of { } a and up to one NUL, 0 to 3 arguments, with and without a location', ['plain', 'NUL', 'missing', 'extra', 'exact'], RES),
   U('logging.cpp', 'log_levels', 'nine spellings of the level and none; ten forms of the five named calls and of log; messages of two arbitrary characters', ['written', 'not written'], RES),
   U('logging.cpp', 'log_format', 'formats of up to 2 of 18 specifiers and literals, quoted or not, with and without a location', ['quoted', 'plain'], RES),
   U('logging.cpp', 'log_date', 'twelve days (year ends, leap days, 1970 to 2100), with and without a fraction of a second', ['dated'], RES, model_env=True),
   U('logging.cpp', 'log_time', 'every hour, two minutes and two seconds of each', ['dated'], RES, model_env=True),
 ]),
 'L02': dict(units=[
   U('logging.cpp', 'log_hierarchy', 'levels of a chain of four namespaces with siblings, four settings of streams, three of flushing; loggers obtained before or after, in two orders', ['before', 'done'], RES),
   U('logging_env.cpp', 'log_environment', 'the settings as environment properties, as text or boolean: levels of three namespaces, three settings of streams, three of flushing, two orders', ['text', 'typed', 'before'], INJ, xflags=MODELS),
  U('logging_env.cpp', 'log_placeholders', 'placeholders in levels, formats and streams, chained or not, named like a default one or not; in a text or in environment properties', ['environment', 'text', 'chained', 'shadowed'], INJ, xflags=MODELS),
  U('logging_env.cpp', 'log_default_placeholders', 'the home directory and executable placeholders in streams; in a text or in environment properties', ['environment', 'text'], INJ, xflags=MODELS),
  U('logging_env.cpp', 'log_file', 'up to 3 messages to a file, existing or not, in a missing folder or not, flushed or not', ['missing folder', 'appended', 'done'], INJ, xflags=MODELS, threads=True),
  U('logging_env.cpp', 'log_fallback', 'a stream of a known, unknown or missing scheme, or quoted, for each level; a scheme registered between two configurations', ['late', 'done'], INJ, xflags=MODELS),
  U('logging.cpp', 'log_includes', 'six levels in an included file or one it includes, at the root or within a namespace', ['done'], RES),
   U('logging.cpp', 'log_reconfigure', 'two successive configurations of levels and streams, then reset, lock (quiet or throwing) or flush', ['reset', 'locked', 'refused', 'obtained after'], RES),
   U('logging.cpp', 'log_streams', 'every set of stream options in the root and in a child namespace', ['own streams', 'inherited streams'], RES),
 ]),
 'L03': dict(units=[
   U('logging.cpp', 'log_while_configured', 'one thread writing two messages, one configuring; inherited or own level, new or known logger; one pre-emption (two in the thorough tier)', ['new format', 'previous format'], RES, threads=True, opts={'quick': ['--preempt', '1'], 'thorough': ['--preempt', '2']}),
   U('logging.cpp', 'log_get_concurrent', 'two threads obtaining loggers, or one with a thread configuring; one pre-emption', ['same', 'different'], RES, threads=True, opts={'quick': ['--preempt', '1'], 'thorough': ['--preempt', '2']}),
 ]),
 'E01': dict(units=[
   U('environment.cpp', 'env_hierarchy', 'four properties of one name at depths 0, 1, 1 and 2, each given with any of three characters, by default or not, specified in a text or in code', ['composite', 'done'], INJ, xflags=MODELS),
   U('environment.cpp', 'env_types', 'the eight integer types, texts of up to 2 or 3 digits with or without a sign, as a value or a default, three separators, or hard wired', ['number', 'out of range'], INJ, xflags=MODELS),
   U('environment.cpp', 'env_texts', 'texts of up to 3 characters of a b = and blank, any printable character, both truths, reals, URIs; as a value, a default or hard wired', ['text', 'character', 'boolean', 'real', 'uri'], INJ, xflags=MODELS),
   U('environment.cpp', 'env_refused', 'nine faulty or incompatible sources at depth 0, 1 or 2, in a text or in code', ['refused', 'ignored'], INJ, xflags=MODELS),
   U('environment.cpp', 'env_again', 'two injectors from one configuration: number or URI, given or not, with or without a default, at depth 0, 1 or 2, specified in a text, in code or at construction', ['first use', 'second use', 'nothing'], INJ, xflags=MODELS),
   U('environment.cpp', 'env_iterate', 'every subset of five properties of four kinds', ['some', 'none'], INJ, xflags=MODELS),
  U('environment.cpp', 'env_iterators', 'iterators over two of three composite properties with up to two properties', ['same', 'other'], INJ, xflags=MODELS),
   U('environment.cpp', 'env_forms', 'a value and a default of any digit through every constructor: texts, URIs, shared URIs, vectors, one or two specifications', ['untyped', 'typed'], INJ, xflags=MODELS),
   U('environment.cpp', 'env_includes', 'values or specifications over four files including each other from two directories, by relative or absolute names, at the root or within a composite property', ['done'], INJ, xflags=MODELS),
   U('environment.cpp', 'env_merge', 'a property at depth 0, 1 or 2 given any digit in none, one or both of two inputs, specified in none to all of two texts and in the code, with and without defaults', ['number', 'text', 'default number', 'default text', 'absent', 'no composite'], INJ, xflags=MODELS),
 ]),
 'Q01': dict(units=[
   U('interprocess.cpp', 'smq_messages', 'up to 3 messages of 1 to 3 chunks, exactly or partly filled, two priorities, two handles, four ways of dequeueing; any content', ['full', 'several'], INJ, xflags=MODELS),
   U('interprocess.cpp', 'smq_chunks', 'up to 3 concurrent messages of 1 to 3 chunks with up to 6 chunks in all (4 messages without attempts), every order of arrival of their chunks, up to 2 attempts to dequeue at any point; any content', ['dequeued early', 'attempt failed', 'done'], INJ, xflags=MODELS),
   U('interprocess.cpp', 'smq_limits', 'capacities up to 3, objects of up to 3 chunks, buffers of 30 to 35 bytes, every constructor', ['buffer size', 'default size', 'oversize', 'existing', 'full'], INJ, xflags=MODELS),
   U('interprocess.cpp', 'smq_concurrent', 'two producers and a consumer, messages of 1 to 3 chunks, capacity 1 or 2; one pre-emption (two in the thorough tier)', ['done'], INJ, xflags=MODELS, threads=True, opts={'quick': ['--preempt', '1'], 'thorough': ['--preempt', '2']}),
 ]),
 'Q02': dict(units=[
   U('interprocess.cpp', 'shm_managed', 'two or three handles of one name, every way to create and to open, with and without moves, any values', ['absent', 'shared', 'replaced'], INJ, xflags=MODELS),
   U('interprocess.cpp', 'shm_unmanaged', 'two or three handles of one name, every way to create and to open, with and without moves, any values', ['absent', 'shared', 'replaced'], INJ, xflags=MODELS),
 ]),
}
# deeper bounds of the thorough tier, per harness file (units may set their own)
THOROUGH = {'time.cpp': ('OFFBITS=24',), 'testing.cpp': ('AN=4',), 'logging.cpp': ('LM=6', 'LF=3'), 'utils.cpp': ('GO=4', 'VN=4', 'HB=5'), 'strings.cpp': ('LS=6', 'LP=4', 'CPN=4'), 'conv.cpp': ('TX=5', 'UNI=4', 'FREE=8', 'SMALL=999999'), 'chars.cpp': ('CP=4', 'RAW=6'), 'cmdline.cpp': ('AL=4',), 'trie.cpp': ('TN=4',), 'trie_forms.cpp': ('TN=4',), 'graph.cpp': ('GN=4',), 'uri.cpp': ('UL=8', 'NP=10', 'DL=6'), 'property.cpp': ('PL=6', 'PB=5'), 'injector.cpp': ('LV=4', 'MANY=20')}
for _p in PROPS.values():
    for _u in _p['units']:
        if 'defs' not in _u and _u['cpp'] in THOROUGH: _u['defs'] = {'quick': (), 'thorough': THOROUGH[_u['cpp']]}
