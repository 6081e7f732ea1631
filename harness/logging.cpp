// The logging system: messages, levels, formats, inheritance of the configuration, streams.
#include "common.hpp"
#include "scratch.hpp"
#include <algorithm>
#include <array>
#include <functional>
#include <map>
#include <thread>
#include <Balau/Type/FromString.hpp>
#include <Balau/Type/ToString.hpp>
#include <Balau/Resource/ByteReadResource.hpp>
#include <Balau/Resource/ByteWriteResource.hpp>
#include <Balau/Resource/Utf8To32ReadResource.hpp>
#include <Balau/Resource/Utf32To8WriteResource.hpp>
#include <Balau/Util/Vectors.hpp>
#include <Balau/Logging/Logger.hpp>
#include <Balau/Logging/LoggerMacros.hpp>
#include <Balau/Logging/Logger.cpp>
#include <Balau/Logging/Impl/LoggerAllocator.cpp>
#include <Balau/Logging/Impl/LoggerHolder.cpp>
#include <Balau/Logging/Impl/LoggerItems.cpp>
#include <Balau/Logging/Impl/LoggingStreams.cpp>
#include <Balau/Logging/Impl/LoggingState.cpp>
static int64_t clockNow = 0; // the time of the system clock
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(duration(clockNow)); }
using Balau::Logger; using Balau::LoggingLevel;
#ifndef LM
#define LM 5
#endif
#ifndef LEVELS_CHILD
#define LEVELS_CHILD 64
#endif
#ifndef GETTERS
#define GETTERS 1
#endif
#ifndef LF
#define LF 2
#endif
struct Line { std::string uri, text; };
static bool quiet = false; static std::vector<Line> lines; static std::vector<std::string> flushed;
struct Recorder : Balau::LoggingStream {
  std::string uri; explicit Recorder(std::string_view u) : uri(u) {}
  void write(const Balau::LoggingSystem::LoggerString& s) override { lines.push_back({uri, std::string(s.data(), s.size())}); }
  void flush() override { if (!quiet) flushed.push_back(uri); }
};
static void start() { lines.clear(); flushed.clear(); Logger::registerLoggingStreamFactory("rec", [](std::string_view u) { return static_cast<Balau::LoggingStream*>(new Recorder(u)); }); }
static void configure(const std::string& text) { Logger::configure(text); lines.clear(); flushed.clear(); }
static const std::array<LoggingLevel, 6> LEVELS { LoggingLevel::NONE, LoggingLevel::ERROR, LoggingLevel::WARN, LoggingLevel::INFO, LoggingLevel::DEBUG, LoggingLevel::TRACE };
static const std::array<const char*, 6> NAMES { "none", "error", "warn", "info", "debug", "trace" };
static const std::array<const char*, 6> UPPER { "NONE", "ERROR", "WARN", "INFO", "DEBUG", "TRACE" };
// the text that should be logged: placeholders replaced from left to right
static std::string expanded(std::string_view m, const std::vector<std::string>& args) { std::string out; size_t next = 0; for (size_t i = 0; i < m.size(); i++) { if (m[i] == '{' && i + 1 < m.size() && m[i + 1] == '}') { out += next < args.size() ? args[next] : "????"; next++; i++; } else out += m[i]; } if (next > args.size()) vp_reach("missing"); else if (next && next < args.size()) vp_reach("extra"); else if (next) vp_reach("exact"); return out; }
static void one(const std::string& uri, const std::string& text, const char* what) { vp_assert(lines.size() == 1 && lines[0].uri == uri, "an enabled message is written once, to the stream of its level"); vp_assert(sameText(lines[0].text, text), what); lines.clear(); }
extern "C" void log_message() {
  start(); bool path = vp_choose(2, "path in the format"), located = vp_choose(2, "location"); configure(std::string(". {\n level = trace\n stream = rec:all\n format = <") + (path ? "%filepath|" : "") + "%message>\n}\n");
  const Logger& log = Logger::getLogger("a"); std::string head = path ? located ? "<f|" : "<|" : "<";
  SymBytes m(symLen(LM, "length"), "message"); allOf(m, "{}a"); if (m.n && vp_choose(2, "NUL")) { m.p[vp_choose(m.n, "position")] = 0; vp_reach("NUL"); }
  std::string_view sv = m.view(); unsigned n = vp_choose(4, "arguments"); std::string x(1, vp_value<char>("x")), y(1, vp_value<char>("y")); std::vector<std::string> args; Balau::SourceCodeLocation at("f");
  switch (n) {
    case 0: if (located) log.info(at, sv); else log.info(sv); one("rec:all", head + std::string(sv) + ">\n", "a message without arguments is written as it is"); vp_reach("plain"); return;
    case 1: args = { x }; if (located) log.warn(at, sv, x); else log.warn(sv, x); break;
    case 2: args = { x, "-42" }; if (located) log.debug(at, sv, x, -42); else log.debug(sv, x, -42); break;
    default: args = { x, y, "true" }; if (located) log.log(LoggingLevel::ERROR, at, sv, x, y, true); else log.log(LoggingLevel::ERROR, sv, x, y, true); }
  one("rec:all", head + expanded(sv, args) + ">\n", "every placeholder is replaced, in order, by the text of an argument");
}
// ------------------------------------------------------------ levels
struct Counted { int* n; };
static void call(const Logger& log, unsigned level, unsigned form, bool named, const std::string& s, int* calls) {
  LoggingLevel l = LEVELS[level]; Balau::SourceCodeLocation at("f:1"); std::function<std::string ()> fn = [calls, &s] { ++*calls; return s; }; std::string_view sv = s; const char* c = s.c_str();
  #define EACH(...) switch (named ? level : 0) { case 0: log.log(l, __VA_ARGS__); break; case 1: log.error(__VA_ARGS__); break; case 2: log.warn(__VA_ARGS__); break; case 3: log.info(__VA_ARGS__); break; case 4: log.debug(__VA_ARGS__); break; default: log.trace(__VA_ARGS__); }
  switch (form) { case 0: EACH(c) break; case 1: EACH(sv) break; case 2: EACH("{}", sv) break; case 3: EACH(std::string_view("{}"), s) break; case 4: EACH(fn) break; case 5: EACH(at, c) break; case 6: EACH(at, sv) break; case 7: EACH(at, "{}", sv) break; case 8: EACH(at, std::string_view("{}"), s) break; default: EACH(at, fn) }
}
extern "C" void log_levels() {
  start(); static const std::array<const char*, 9> words { "none", "error", "warn", "info", "debug", "trace", "WARN", "Trace", "verbose" }; static const std::array<unsigned, 9> means { 0, 1, 2, 3, 4, 5, 2, 5, 3 };
  unsigned w = vp_choose(10, "configured level"), set = w == 9 ? 3 : means[w]; configure(std::string(". {\n error-stream = rec:1\n warn-stream = rec:2\n info-stream = rec:3\n debug-stream = rec:4\n trace-stream = rec:5\n format = %level %LEVEL %message\n") + (w == 9 ? "" : std::string(" level = ") + words[w] + "\n") + "}\n");
  const Logger& log = Logger::getLogger("x.y"); unsigned form = vp_choose(10, "form"); std::string s(2, 'a'); vp_symbolic(&s[0], 1, "text"); vp_symbolic(&s[1], 1, "text"); for (char ch : s) vp_assume((ch != 0) & (ch != '{')); int calls = 0, want = 0;
  vp_assert(log.getLevel() == LEVELS[set], "the level of a logger is the configured one"); vp_assert(log.traceEnabled() == (set >= 5) && log.debugEnabled() == (set >= 4) && log.infoEnabled() == (set >= 3) && log.warnEnabled() == (set >= 2) && log.errorEnabled() == (set >= 1), "the enabled queries agree with the level");
  for (unsigned level = 1; level <= 5; level++) for (int named = 0; named < 2; named++) {
    bool on = level <= set; vp_assert(log.enabled(LEVELS[level]) == on, "enabled agrees with the level"); call(log, level, form, named, s, &calls); if (on && form % 5 == 4) want++;
    vp_assert(calls == want, "the function that makes a message is called once when the level is enabled, and not otherwise");
    if (on) { one(std::string("rec:") + (char)('0' + level), std::string(NAMES[level]) + " " + UPPER[level] + " " + s + "\n", "the line has the level and the text of the message"); vp_reach("written"); } else { vp_assert(lines.empty(), "a message of a disabled level is not written"); vp_reach("not written"); } }
}
// ------------------------------------------------------------ formats
struct Token { const char* spec; const char* text; };
static const std::array<Token, 18> TOKENS { Token { "%level", "warn" }, { "%LEVEL", "WARN" }, { "%namespace", "ab.cd.ef" }, { "%ns", "a.c.ef" }, { "%filename", "f.cpp:7" }, { "%filepath", "/d/f.cpp:7" }, { "%message", nullptr }, { "%%", "%" }, { "%\"", "\"" }, { "x", "x" }, { " - ", " - " }, { "%q", "%q" }, { "[%thread]", "[main]" }, { "name", "name" }, { "%", "%" }, { "s", "s" }, { "%leve", "%leve" }, { "message", "message" } };
extern "C" void log_format() {
  start(); Balau::System::ThreadName::setName("main"); unsigned n = symLen(1, LF, "tokens"); std::string spec, want; bool quoted = vp_choose(2, "quoted"), located = vp_choose(2, "location"); std::string m(1, vp_value<char>("message"));
  std::vector<unsigned> tokens; for (unsigned i = 0; i < n; i++) tokens.push_back(vp_choose(TOKENS.size(), "token")); for (unsigned t : tokens) spec += TOKENS[t].spec;
  // the reference reads the format from left to right, the longest specifier first where several match
  static const std::array<const char*, 10> order { "%namespace", "%filename", "%filepath", "%message", "%thread", "%LEVEL", "%level", "%ns", "%%", "%\"" };
  for (size_t i = 0; i < spec.size();) { bool hit = false; for (auto* o : order) { std::string k = o; if (spec.compare(i, k.size(), k) == 0) { hit = true; i += k.size(); if (k == "%message") want += m; else if (k == "%thread") want += "main"; else if (k == "%%") want += "%"; else if (k == "%\"") want += "\""; else if ((k == "%filename" || k == "%filepath") && !located) {} else for (auto& t : TOKENS) if (k == t.spec) want += t.text; break; } } if (!hit) { if (spec[i] == '%') vp_assume(i + 1 == spec.size() || !strchr("mYydHMS", spec[i + 1])); want += spec[i++]; } }
  configure(std::string(". {\n stream = rec:s\n format = ") + (quoted ? "\"" : "<") + spec + (quoted ? "\"" : ">") + "\n}\n"); const Logger& log = Logger::getLogger("ab.cd.ef"); if (!quoted) want = "<" + want + ">";
  if (located) log.warn(Balau::SourceCodeLocation("/d/f.cpp:7"), m); else log.warn(m);
  one("rec:s", want + "\n", "a line is the format with its specifiers replaced"); vp_reach(quoted ? "quoted" : "plain");
}

static std::string two(unsigned v) { std::string r; r += (char)('0' + v / 10 % 10); r += (char)('0' + v % 10); return r; }
// the civil date of a day, counted from 1970-01-01, by stepping through years and months
static void civil(int64_t day, int& y, unsigned& m, unsigned& d) {
  auto leap = [](int y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }; static const unsigned len[] = { 31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31 };
  y = 1970; while (day < 0) { y--; day += leap(y) ? 366 : 365; } for (;;) { int n = leap(y) ? 366 : 365; if (day < n) break; day -= n; y++; }
  for (m = 0; ; m++) { unsigned n = len[m] + (m == 1 && leap(y)); if ((uint64_t)day < n) break; day -= n; } m++; d = day + 1;
}
static const std::array<int64_t, 12> DAYS { 0, 58, 59, 364, 789, 790, 10956, 11016, 11017, 47540, 47541, 19999 };
static void dateLine(int64_t day, unsigned secs, unsigned nanos) {
  clockNow = (day * 86400 + secs) * 1000000000LL + nanos; configure(". {\n stream = rec:s\n format = %Y-%m-%d %y %H:%M:%S %%Y\n}\n"); const Logger& log = Logger::getLogger("t"); log.info("m"); vp_assert(lines.size() == 1, "a line is written"); int y; unsigned m, d; civil(day, y, m, d);
  std::string want = two(y / 100) + two(y % 100) + "-" + two(m) + "-" + two(d) + " " + two(y % 100) + " " + two(secs / 3600) + ":" + two(secs / 60 % 60) + ":" + two(secs % 60); const std::string& got = lines[0].text; size_t n = want.size();
  vp_assert(got.size() >= n + 4 && sameText(std::string_view(got).substr(0, n), want), "a line has the date and the time of the clock"); vp_assert(sameText(std::string_view(got).substr(got.size() - 4), std::string(" %Y\n")), "a line ends as its format does");
  vp_assert(got.size() == n + 4 || got[n] == '.', "the seconds have at most a fraction"); vp_reach("dated");
}
extern "C" void log_date() { start(); dateLine(DAYS[vp_choose(DAYS.size(), "day")], 86398, vp_choose(2, "fraction") ? 999999999 : 0); }
extern "C" void log_time() { start(); unsigned h = vp_choose(24, "hour"), m = vp_choose(2, "minute") ? 59 : 0, s = vp_choose(2, "second") ? 59 : 9; dateLine(11016, h * 3600 + m * 60 + s, 0); }
// ------------------------------------------------------------ configuration of a hierarchy
struct Node { const char* name; int parent; };
static const std::array<Node, 6> NODES { Node { "", -1 }, { "a", 0 }, { "a.b", 1 }, { "a.b.c", 2 }, { "b", 0 }, { "ab", 0 } };
// the settings of one configuration: a level and a stream per node, -1 where unset
struct Settings { std::array<int, 6> level, stream, flush; Settings() { level.fill(-1); stream.fill(-1); flush.fill(-1); }
  std::string text() const { std::string t; for (size_t i = 0; i < NODES.size(); i++) if (level[i] >= 0 || stream[i] >= 0 || flush[i] >= 0) { t += i ? NODES[i].name : "."; t += " {\n"; if (level[i] >= 0) t += std::string(" level = ") + NAMES[level[i]] + "\n"; if (stream[i] >= 0) t += std::string(" stream = rec:") + (char)('0' + stream[i]) + "\n"; if (flush[i] >= 0) t += std::string(" flush = ") + (flush[i] ? "true" : "false") + "\n"; if (i == 0) t += " format = %namespace:%message\n"; t += "}\n"; } return t; }
  static int nearest(const std::array<int, 6>& v, int node, int otherwise) { for (; node >= 0; node = NODES[node].parent) if (v[node] >= 0) return v[node]; return otherwise; } };
static void checkNode(const Logger& log, int i, const Settings& s) {
  int level = Settings::nearest(s.level, i, 3), flush = Settings::nearest(s.flush, i, 1), stream = Settings::nearest(s.stream, i, -1);
  vp_assert(log.getNamespace() == NODES[i].name, "a logger has the namespace it was obtained with"); vp_assert(log.getLevel() == LEVELS[level], "a logger has the level of the nearest configured namespace"); vp_assert(log.flushes() == (bool)flush, "a logger flushes as the nearest configured namespace does");
  lines.clear(); flushed.clear(); if (stream < 0) return;
  for (unsigned l = 1; l <= 5; l++) { log.log(LEVELS[l], std::string_view("m")); std::string uri = std::string("rec:") + (char)('0' + stream); if ((int)l <= level) { vp_assert(lines.size() == 1 && lines[0].uri == uri && lines[0].text == std::string(NODES[i].name) + ":m\n", "a message goes to the stream of the nearest configured namespace"); vp_assert(flushed.size() == (flush ? 1u : 0u) && (!flush || flushed[0] == uri), "the stream is flushed after a message when the logger is configured so"); } else vp_assert(lines.empty(), "a message below the level is not written"); lines.clear(); flushed.clear(); }
}
extern "C" void log_hierarchy() {
  start(); Settings s; s.stream[0] = 0; s.level[0] = vp_choose(2, "root level") ? 2 : -1; for (int i = 1; i <= 3; i++) { s.level[i] = std::array<int, 3>{ -1, 1, 5 }[vp_choose(3, "level")]; }
  switch (vp_choose(4, "streams")) { case 1: s.stream[1] = 1; break; case 2: s.stream[2] = 2; break; case 3: s.stream[1] = 1; s.stream[3] = 3; break; default: break; }
  switch (vp_choose(3, "flush")) { case 1: s.flush[0] = 0; break; case 2: s.flush[1] = 0; s.flush[2] = 1; break; default: break; }
  unsigned before = vp_choose(4, "obtained before"); std::vector<const Logger*> early; if (before) early.push_back(&Logger::getLogger(NODES[before].name));
  configure(s.text()); if (before) { checkNode(*early[0], before, s); vp_assert(early[0] == &Logger::getLogger(NODES[before].name), "the logger of a namespace is always the same"); vp_reach("before"); }
  unsigned order = vp_choose(2, "order"); for (int k = 0; k < 6; k++) { int i = order ? 5 - k : k; const Logger& log = Logger::getLogger(NODES[i].name); checkNode(log, i, s); vp_assert(&log == &Logger::getLogger(NODES[i].name), "the logger of a namespace is always the same"); }
  vp_assert(&Logger::getLogger(".") == &Logger::getLogger("") && &Logger::globalLogger() == &Logger::getLogger("."), "the global logger is the root"); vp_reach("done");
}
extern "C" void log_reconfigure() {
  start(); std::array<Settings, 2> s; const Logger* all[6]; bool get = vp_choose(2, "all obtained before"); if (get) for (int i = 0; i < 6; i++) all[i] = &Logger::getLogger(NODES[i].name);
  for (int k = 0; k < 2; k++) { s[k].stream[0] = k; for (int i = 1; i <= 2; i++) s[k].level[i] = std::array<int, 3>{ -1, 1, 5 }[vp_choose(3, "level")]; int at = vp_choose(4, "stream"); if (at) s[k].stream[at] = 5 + k; configure(s[k].text()); if (get) for (int i = 0; i < 6; i++) checkNode(*all[i], i, s[k]); }
  if (!get) { vp_reach("obtained after"); for (int i = 5; i >= 0; i--) { all[i] = &Logger::getLogger(NODES[i].name); checkNode(*all[i], i, s[1]); } }
  switch (vp_choose(4, "then")) {
    case 0: Logger::resetConfiguration(); for (auto* l : all) vp_assert(l->getLevel() == LoggingLevel::INFO && l->flushes(), "a reset restores the default level"); vp_reach("reset"); break;
    case 1: Logger::lockConfiguration(); configure(s[0].text()); Logger::resetConfiguration(); for (int i = 0; i < 6; i++) checkNode(*all[i], i, s[1]); vp_reach("locked"); break;
    case 2: { Logger::lockConfiguration(true); int threw = 0; try { Logger::configure(s[0].text()); } catch (const Balau::Exception::LoggingConfigurationException&) { threw++; } try { Logger::resetConfiguration(); } catch (const Balau::Exception::LoggingConfigurationException&) { threw++; } vp_assert(threw == 2, "the configuration of a locked logging system is refused"); for (int i = 0; i < 6; i++) checkNode(*all[i], i, s[1]); vp_reach("refused"); break; }
    default: flushed.clear(); Logger::flushAll(); { auto f = flushed; std::sort(f.begin(), f.end()); vp_assert(std::adjacent_find(f.begin(), f.end()) == f.end() && std::find(f.begin(), f.end(), "rec:1") != f.end(), "flushAll flushes every stream once"); } flushed.clear(); all[0]->flush(); vp_assert(flushed.size() == 1 && flushed[0] == "rec:1", "flush flushes each stream of the logger once"); break; }
}
extern "C" void log_streams() {
  start(); static const std::array<const char*, 6> KEYS { "stream", "error-stream", "warn-stream", "info-stream", "debug-stream", "trace-stream" };
  unsigned root = vp_choose(64, "streams of the root"), child = vp_choose(LEVELS_CHILD, "streams of the child"); std::string text; for (int k = 0; k < 2; k++) { unsigned set = k ? child : root; text += k ? "x.y {\n" : ". {\n level = trace\n format = %message\n"; for (int i = 0; i < 6; i++) if (set >> i & 1) text += std::string(" ") + KEYS[i] + " = rec:" + (char)((k ? 'a' : 'A') + i) + "\n"; text += "}\n"; }
  configure(text); for (int k = 0; k < 2; k++) { unsigned set = k && child ? child : root; char base = k && child ? 'a' : 'A'; if (!set) continue; const Logger& log = Logger::getLogger(k ? "x.y.z" : ".");
    for (int l = 1; l <= 5; l++) { int use = 0; if (set >> l & 1) use = l; else if (set & 1) use = 0; else { for (int i = l - 1; i >= 1 && !use; i--) if (set >> i & 1) use = i; for (int i = l + 1; i <= 5 && !use; i++) if (set >> i & 1) use = i; }
      log.log(LEVELS[l], std::string_view("m")); one(std::string("rec:") + (char)(base + use), "m\n", "the message"); } }
  if (child) vp_reach("own streams"); else vp_reach("inherited streams");
}
// ------------------------------------------------------------ concurrent use
template <class F> static void parallel(size_t n, F f) { std::thread t[4]; for (size_t i = 0; i < n; i++) t[i] = std::thread([&f, i] { f(i); }); for (size_t i = 0; i < n; i++) t[i].join(); }
static std::string pass(char c, const char* level, bool child) { return std::string(". {\n level = ") + (child ? "error" : level) + "\n stream = rec:" + c + "\n format = " + c + "%message" + c + "\n}\n" + (child ? std::string("a.b {\n level = ") + level + "\n}\n" : ""); }
extern "C" void log_while_configured() {
  start(); bool child = vp_choose(2, "level of the child"), fresh = vp_choose(2, "new logger"); const char* second = vp_choose(2, "second level") ? "info" : "error"; configure(pass('1', "info", child)); const Logger* log = fresh ? nullptr : &Logger::getLogger("a.b"); std::string m(1, vp_value<char>("message"));
  quiet = true; parallel(2, [&](size_t i) { if (i == 0) Logger::configure(pass('2', second, child)); else { const Logger& l = log ? *log : Logger::getLogger("a.b"); l.error(std::string_view(m)); l.info(std::string_view(m)); } });
  size_t n = lines.size(); vp_assert(n == 2 || (n == 1 && *second == 'e'), "a message whose level is enabled before and after is written once"); bool changed = false;
  for (auto& l : lines) { vp_assert(l.uri == "rec:1" || l.uri == "rec:2", "the stream is the previous or the new one"); vp_assert(l.text.size() == 4 && l.text[0] == l.text[2] && (l.text[0] == '1' || l.text[0] == '2') && l.text[1] == m[0], "the format is the previous or the new one, never a mixture"); if (l.text[0] == '2') changed = true; vp_assert(l.text[0] == '2' || !changed || l.text[0] == '1', "formats"); }
  lines.clear(); const Logger& l = Logger::getLogger("a.b"); l.error(std::string_view(m)); one("rec:2", "2" + m + "2\n", "after the configuration the new one is used"); if (changed) vp_reach("new format"); else vp_reach("previous format");
}
extern "C" void log_get_concurrent() {
  start(); configure(". {\n level = warn\n stream = rec:s\n}\na.b {\n level = debug\n}\n"); static const std::array<const char*, 4> names { "a.b.c", "a.b", "a.b.c.d", "b" }; const Logger* got[2]; unsigned which[2]; which[0] = vp_choose(4, "name"); bool again = vp_choose(2, "configured again"); unsigned n = again ? GETTERS : 2; which[1] = n == 2 ? vp_choose(4, "name") : which[0];
  quiet = true; parallel(again ? n + 1 : n, [&](size_t i) { if (i == n) Logger::configure(". {\n level = warn\n stream = rec:s\n}\na.b {\n level = trace\n}\n"); else { got[i] = &Logger::getLogger(names[which[i]]); vp_assert(got[i]->getNamespace() == names[which[i]], "the logger has the namespace asked for"); } }); if (n == 1) got[1] = got[0];
  for (int i = 0; i < 2; i++) { vp_assert(got[i] == &Logger::getLogger(names[which[i]]), "the logger of a namespace is always the same"); vp_assert(got[i]->getLevel() == (which[i] == 3 ? LoggingLevel::WARN : again ? LoggingLevel::TRACE : LoggingLevel::DEBUG), "the logger is configured"); } vp_assert((got[0] == got[1]) == (which[0] == which[1]), "one logger for each namespace"); vp_reach(which[0] == which[1] ? "same" : "different");
}
// a configuration text that includes a file, which may include another one
extern "C" void log_includes() {
  start(); unsigned level = vp_choose(6, "level"); int deep = vp_choose(2, "nested"), inside = vp_choose(2, "within a namespace"), after = vp_choose(2, "followed"); Scratch d; d.sub("s"); std::string body = inside ? std::string("level = ") + NAMES[level] + "\n" : std::string("a {\n level = ") + NAMES[level] + "\n}\n";
  if (deep) { d.put("s/two", body); d.put("two", inside ? "level = none\n" : "b {\n level = none\n}\n"); d.put("s/one", "@two\n"); } else d.put("s/one", body);
  std::string inc = "@file://" + d.dir + "/s/one\n"; configure(std::string(". {\n level = info\n stream = rec:all\n format = %message\n}\n") + (inside ? "a {\n" + inc + "}\n" : inc) + (after ? "c {\n level = debug\n}\n" : ""));
  for (unsigned l = 1; l < 6; l++) { Logger::getLogger("a").log(LEVELS[l], "m"); vp_assert(lines.size() == (l <= level), "the included levels are those of their namespaces"); lines.clear(); Logger::getLogger("c").log(LEVELS[l], "m"); vp_assert(lines.size() == (l <= (after ? 4u : 3u)), "what follows an include is read"); lines.clear(); } vp_reach("done");
}
