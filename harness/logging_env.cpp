// The logging system configured from environment properties, with placeholders, and with fallback streams.
#include "logging.cpp"
#include <Balau/Resource/StringUri.hpp>
#include <Balau/Application/Injector.hpp>
#include <Balau/Application/EnvironmentConfiguration.hpp>
#include <Balau/Application/EnvironmentProperties.hpp>
using Balau::EnvironmentProperties;
struct LogEnv : Balau::EnvironmentConfiguration { bool typed; LogEnv(const std::vector<std::shared_ptr<Balau::Resource::Uri>>& in, bool t) : EnvironmentConfiguration(in), typed(t) {}
  void configure() const override { if (typed) group("logging", group("a", value<bool>("flush")), group("a.b", value<bool>("flush"))); } };
static std::shared_ptr<EnvironmentProperties> properties(const std::string& text, bool typed = false) { std::vector<std::shared_ptr<Balau::Resource::Uri>> in { std::make_shared<Balau::Resource::StringUri>("logging {\n" + text + "}\n") }; LogEnv conf(in, typed); auto inj = Balau::Injector::create(conf); return inj->getShared<EnvironmentProperties>("logging"); }
static void configureFrom(const std::shared_ptr<EnvironmentProperties>& p, const std::map<std::string, std::string>& ph = {}) { Logger::configure(p, ph); lines.clear(); flushed.clear(); }
// the settings of the environment have the effect of the same settings in a text
extern "C" void log_environment() {
  Settings s; s.stream[0] = 0; s.level[0] = vp_choose(2, "root level") ? 2 : -1; for (int i = 1; i <= 2; i++) s.level[i] = std::array<int, 3>{ -1, 1, 5 }[vp_choose(3, "level")]; s.level[4] = vp_choose(2, "sibling level") ? 4 : -1; switch (vp_choose(3, "streams")) { case 1: s.stream[1] = 1; break; case 2: s.stream[2] = 2; break; default: break; } bool typed = false;
  switch (vp_choose(3, "flush")) { case 1: s.flush[1] = 0; break; case 2: s.flush[1] = 0; s.flush[2] = 1; typed = vp_choose(2, "typed"); break; default: break; }
  bool early = vp_choose(2, "obtained before"); start(); auto p = properties(s.text(), typed); if (early) Logger::getLogger("a.b"); configureFrom(p); unsigned order = vp_choose(2, "order"); for (int k = 0; k < 6; k++) { int i = order ? 5 - k : k; checkNode(Logger::getLogger(NODES[i].name), i, s); }
  vp_reach(typed ? "typed" : "text"); if (early) vp_reach("before"); }
// placeholders in the values, in a text or in the environment
extern "C" void log_placeholders() {
  bool env = vp_choose(2, "environment"), chained = vp_choose(2, "chained"), shadow = vp_choose(2, "named like a default"); unsigned level = 1 + vp_choose(5, "level"); char c = vp_value<char>("character"); vp_assume(c >= 'a' && c <= 'z'); unsigned where = vp_choose(3, "where");
  static const char* W[] = { "rec:${v}", "rec:x${v}", "rec:${v}${v}" }; std::string v(1, c), uri = where == 0 ? v : where == 1 ? "x" + v : v + v; std::string text = std::string(". {\n level = ${lvl}\n format = %message${") + (shadow ? "executable" : "end") + "}\n stream = " + W[where] + "\n}\na {\n stream = rec:${other}\n}\n";
  std::map<std::string, std::string> ph { { "lvl", NAMES[level] }, { "v", chained ? "${w}" : v }, { shadow ? "executable" : "end", "!" } }; if (chained) ph["w"] = v; start(); if (env) configureFrom(properties(text), ph); else { Logger::configure(text, ph); lines.clear(); }
  const Logger& log = Logger::getLogger("b"); vp_assert(log.getLevel() == LEVELS[level], "a placeholder in a level is replaced"); log.error(std::string_view("m")); one("rec:" + uri, "m!\n", "placeholders in the stream and the format are replaced"); Logger::getLogger("a").error(std::string_view("m")); one("rec:${other}", "m!\n", "an unknown placeholder is kept");
  vp_reach(env ? "environment" : "text"); if (chained) vp_reach("chained"); if (shadow) vp_reach("shadowed"); }
// streams of an unknown scheme, and quoted ones
extern "C" void log_fallback() {
  start(); Logger::registerLoggingStreamFactory("stderr", [](std::string_view u) { return static_cast<Balau::LoggingStream*>(new Recorder("fallback:" + std::string(u))); }); unsigned form = vp_choose(4, "form"), level = 1 + vp_choose(5, "stream of"); static const char* F[] = { "nothing:x", "\"rec:x\"", "rec:x", "rex" }; static const char* U[] = { "fallback:nothing:x", "rec:x", "rec:x", "fallback:rex" };
  bool later = vp_choose(2, "registered later"); std::string text = std::string(". {\n level = trace\n format = %message\n stream = rec:all\n ") + NAMES[level] + "-stream = " + F[form] + "\n}\n"; configure(text); if (later) { Logger::registerLoggingStreamFactory("late", [](std::string_view u) { return static_cast<Balau::LoggingStream*>(new Recorder(std::string(u))); }); configure(". {\n level = trace\n format = %message\n stream = late:1\n}\n"); vp_reach("late"); }
  for (unsigned l = 1; l <= 5; l++) { Logger::getLogger("a").log(LEVELS[l], std::string_view("m")); one(later ? "late:1" : l == level ? U[form] : "rec:all", "m\n", "the message"); } vp_reach("done"); }
// the default placeholders
extern "C" void log_default_placeholders() {
  bool env = vp_choose(2, "environment"); unsigned which = vp_choose(3, "placeholder"); std::string exe = boost::dll::program_location().filename().string(), home = Balau::User::getHomeDirectory().toUriString(); static const char* P[] = { "${user.home}", "${executable}", "${user.home}/${executable}.log" }; std::string want = which == 0 ? home : which == 1 ? exe : home + "/" + exe + ".log";
  std::string text = std::string(". {\n format = %message\n stream = rec:") + P[which] + "\n}\n"; start(); if (env) configureFrom(properties(text)); else configure(text); Logger::getLogger("a").error(std::string_view("m")); one("rec:" + want, "m\n", "the message"); vp_reach(env ? "environment" : "text"); }
// messages written to a file, by one thread or two
static std::string contents(const std::string& path) { std::string r; int fd = open(path.c_str(), O_RDONLY); if (fd < 0) return "(no file)"; char b[256]; ssize_t n; while ((n = read(fd, b, sizeof b)) > 0) r.append(b, (size_t)n); close(fd); return r; }
extern "C" void log_file() {
  bool deep = vp_choose(2, "missing folder"), old = !deep && vp_choose(2, "existing file"), flushing = vp_choose(2, "flush"); unsigned n = vp_choose(4, "messages"); char c = (char)('a' + vp_choose(2, "character")); Scratch d; std::string path = d.dir + (deep ? "/s/log" : "/log"); if (old) d.put("log", "before\n");
  configure(std::string(". {\n level = info\n format = %message\n flush = ") + (flushing ? "true" : "false") + "\n stream = file://" + path + "\n}\n"); std::string want = old ? "before\n" : ""; const Logger& log = Logger::getLogger("a"); for (unsigned i = 0; i < n; i++) { std::string m = std::string(i + 1, c); log.info(std::string_view(m)); log.debug(std::string_view("hidden")); want += m + "\n"; if (flushing) vp_assert(contents(path) == want, "a flushed message is in the file"); }
  if (!flushing) { if (n % 2) Logger::flushAll(); else log.flush(); } vp_assert(contents(path) == want, "the messages are appended to the file in order"); if (deep) { d.files.push_back(path); d.dirs.push_back(d.dir + "/s"); vp_reach("missing folder"); } else d.files.push_back(path); if (old) vp_reach("appended"); vp_reach("done"); }
