// Command line parsing.
#include "common.hpp"
#include <Balau/Application/CommandLine.hpp>
#include <Balau/Type/FromString.hpp>
using namespace Balau;
#ifndef ARGS
#define ARGS 3
#endif
#ifndef AL
#define AL 3
#endif
// options: 1 = "a" / "bb" with a value, 2 = "b" without a value, 3 = "-" style names are not used; 4 = help "h" / "help"
enum What { Ok, MissingFinal, MissingValue, NotFound, Illegal };
struct Ref { What what = Ok; int has[5] = {0, 0, 0, 0, 0}; std::string val[5]; std::vector<std::string> finals; };
static std::string trimmed(const std::string& s) { size_t a = 0, e = s.size(); while (a < e && s[a] == ' ') a++; while (e > a && s[e - 1] == ' ') e--; return s.substr(a, e - a); }
static int keyOf(const std::string& s) { if (s == "a" || s == "bb") return 1; if (s == "b") return 2; if (s == "h" || s == "help") return 4; return 0; }
static Ref refSpace(const std::vector<std::string>& a, int fin) { Ref r;
  if (a.empty()) { r.what = fin == 1 ? MissingFinal : Ok; return r; }
  for (size_t i = 0; i < a.size(); i++) { std::string s = trimmed(a[i]); if (s.size() > 1 && s[0] == '-' && s[1] == '-') s = s.substr(2); else if (s.size() && s[0] == '-') s = s.substr(1); else { if (fin == 0) { r.what = Illegal; return r; } r.finals.push_back(s); continue; }
    int k = keyOf(s); if (!k) { r.what = NotFound; return r; } r.has[k] = 1; if (k != 1) { continue; }
    if (fin == 1 && r.finals.empty() && i + 2 == a.size()) { r.what = MissingFinal; return r; } if (i + 1 == a.size()) { r.what = MissingValue; return r; } r.val[k] = trimmed(a[++i]); }
  if (fin == 1 && r.finals.empty()) r.what = MissingFinal; return r; }
static Ref refEquals(const std::vector<std::string>& a, int fin) { Ref r; std::vector<std::string> t; if (a.empty()) { r.what = fin == 1 ? MissingFinal : Ok; return r; }
  for (auto& x : a) { size_t e = 0; while (e < x.size() && x[e] != '=') e++; t.push_back(trimmed(x.substr(0, e))); if (e < x.size()) t.push_back(trimmed(x.substr(e + 1))); }
  size_t end = fin == 1 ? t.size() - 1 : t.size();
  for (size_t i = 0; i < end; i++) { int k = keyOf(t[i]); if (!k) { r.what = NotFound; return r; } r.has[k] = 1; if (k != 1) continue; if (i + 1 >= end) { r.what = fin == 1 ? MissingFinal : MissingValue; return r; } r.val[k] = t[++i]; }
  if (fin == 1) r.finals.push_back(t.back()); return r; }
static void run(CommandLineStyle style, const char* set, const char* const* menu) {
  int fin = (int)vp_choose(style == CommandLineStyle::SwitchEqualsValue ? 2 : 3, "final values"); size_t n = symLen(ARGS, "count"); std::vector<std::string> a; // up to two free arguments; of three or more, one is free and the others come from a menu
  size_t freeAt = n > 2 ? vp_choose(n, "free") : 0; for (size_t i = 0; i < n; i++) { if (n > 2 && i != freeAt) { a.push_back(menu[vp_choose(4, "menu")]); continue; } SymBytes s(symLen(AL, "length"), "argument"); allOf(s, set); a.push_back(s.str()); }
  CommandLine<int> c(style); c.withOption(1, "a", "bb", true, "doc").withOption(2, "b", false, "doc").withHelpOption(4, "h", "help", "doc"); if (fin == 1) c.withFinalValue(); else if (fin == 2) c.withOptionalFinalValue();
  bool before = n < 2 && vp_choose(2, "parsed before"); if (before) { std::vector<std::string> old = style == CommandLineStyle::SwitchEqualsValue ? std::vector<std::string>{"a=old", "h"} : std::vector<std::string>{"-a", "old", "-h"}; if (fin) old.push_back("last"); c.parse(old, false); if (fin != 2 || style != CommandLineStyle::SwitchEqualsValue) vp_assert(c.getOption(1) == "old" && c.hasOption(4) && c.getFinalValueCount() == (fin ? 1u : 0u), "a plain command line parses"); }
  bool skip = n < 2 && vp_choose(2, "skip first"); std::vector<std::string> args = a; if (skip) args.insert(args.begin(), "-program");
  bool eq = style == CommandLineStyle::SwitchEqualsValue; if (style == CommandLineStyle::Detect && n) { eq = !(a[0].size() && a[0][0] == '-') && !(fin == 1 && n == 1); if (eq && fin == 2) vp_done(); }
  Ref r = eq ? refEquals(a, fin) : refSpace(a, fin); What got = Ok; try { c.parse(args, skip); } catch (const Exception::MissingFinalValueException&) { got = MissingFinal; } catch (const Exception::MissingOptionValueException&) { got = MissingValue; } catch (const Exception::OptionNotFoundException&) { got = NotFound; } catch (const Exception::IllegalArgumentException&) { got = Illegal; }
  vp_assert((got == Ok) == (r.what == Ok), "a command line is accepted iff every option is known and no value is missing"); vp_assert(got == r.what, "the exception names the defect of the command line");
  if (got != Ok) { vp_reach(got == MissingFinal ? "missing final" : got == MissingValue ? "missing value" : got == NotFound ? "not found" : "illegal"); return; }
  for (int k = 1; k < 5; k++) { vp_assert(c.hasOption(k) == (bool)r.has[k], "exactly the supplied options are present"); vp_assert(c.getOptionOrDefault(k, "dflt") == (r.has[k] ? r.val[k] : "dflt"), "an option has the supplied value, or the default"); bool th = false; try { vp_assert(c.getOption(k) == r.val[k], "an option has the supplied value"); } catch (const Exception::OptionNotFoundException&) { th = true; } vp_assert(th == !r.has[k], "an absent option throws"); }
  vp_assert(c.getFinalValueCount() == r.finals.size(), "the final values are those of this command line"); for (size_t i = 0; i <= r.finals.size(); i++) { bool in = i < r.finals.size(); vp_assert(c.getFinalValueOrDefault("dflt", i) == (in ? r.finals[i] : "dflt"), "the final values keep their order"); bool th = false; try { c.getFinalValue(i); } catch (const Exception::OptionNotFoundException&) { th = true; } vp_assert(th == !in, "an absent final value throws"); }
  { bool in = !r.finals.empty(), th = false; std::string first; vp_assert(c.getFinalValueOrDefault("dflt") == (in ? r.finals[0] : "dflt"), "the first final value is the default one"); try { first = c.getFinalValue(); } catch (const Exception::OptionNotFoundException&) { th = true; } vp_assert(th == !in && (th || first == r.finals[0]), "the first final value is the default one"); }
  vp_observe("has", r.has[1] * 4 + r.has[2] * 2 + r.has[4]); vp_observe("finals", r.finals.size()); if (r.has[1]) vp_reach("option with a value"); if (r.finals.size() > 1) vp_reach("several final values"); }
static const char* const spaceMenu[] = {"-a", "--bb", "-b", "x"}; static const char* const equalsMenu[] = {"a=b", "bb=", "b", "a"};
extern "C" void cmdline_space() { run(CommandLineStyle::SwitchSpaceValue, "-ab ", spaceMenu); }
extern "C" void cmdline_equals() { run(CommandLineStyle::SwitchEqualsValue, "=ab ", equalsMenu); }
extern "C" void cmdline_detect() { run(CommandLineStyle::Detect, "-=ab", vp_choose(2, "menu style") ? spaceMenu : equalsMenu); }
// numeric options
static int dg(unsigned char c) { return c >= '0' && c <= '9' ? c - '0' : 99; }
template <class T, class F> static void num(CommandLine<int>& c, const std::string& s, F get) {
  const char* p = s.data(); size_t n = s.size(), i = 0; bool neg = false, ok = true; while (i < n && (p[i] == ' ' || (p[i] >= '\t' && p[i] <= '\r'))) i++; if (i < n && (p[i] == '-' || p[i] == '+')) { neg = p[i] == '-'; i++; } if (i == n) ok = false; __int128 m = 0; for (; i < n && ok; i++) { if (dg(p[i]) > 9) ok = false; m = m * 10 + dg(p[i]); } if (neg) m = -m;
  bool valid = ok && !(neg && std::is_unsigned<T>::value) && m >= std::numeric_limits<T>::min() && m <= std::numeric_limits<T>::max(); T got = 77; bool th = false; try { got = get(); } catch (const Exception::OptionValueException&) { th = true; }
  vp_assert(th == !valid, "a numeric option is accepted iff its text is a number in the range of the type"); if (valid) { vp_assert(got == (T)m, "a numeric option has the value written"); vp_reach("number"); } else { vp_reach("rejected"); if (ok) vp_reach("out of range"); } vp_observe("valid", valid); }
static void numeric(const std::string& s, unsigned long t) {
  CommandLine<int> c(CommandLineStyle::SwitchSpaceValue); c.withOption(1, "a", "aa", true, "").withOption(2, "b", "bb", true, ""); c.parse(std::vector<std::string>{"-a", s}, false); std::string v = c.getOption(1);
  switch (t) { case 0: num<short>(c, v, [&] { return c.getOptionAsShort(1); }); break; case 1: num<unsigned short>(c, v, [&] { return c.getOptionAsUnsignedShort(1); }); break; case 2: num<int>(c, v, [&] { return c.getOptionAsIntOrDefault(1, 5); }); break; case 3: num<unsigned>(c, v, [&] { return c.getOptionAsUnsignedIntOrDefault(1, 5); }); break; case 4: num<long long>(c, v, [&] { return c.getOptionAsLong(1); }); break; default: num<unsigned long long>(c, v, [&] { return c.getOptionAsUnsignedLong(1); }); }
  vp_assert(c.getOptionAsShortOrDefault(2, 7) == 7 && c.getOptionAsUnsignedLongOrDefault(2, 9) == 9 && c.getOptionAsIntOrDefault(2, -3) == -3, "an absent numeric option yields the default"); }
extern "C" void cmdline_numeric() { unsigned long t = vp_choose(6, "type"); SymBytes s(symLen(1, 3, "length"), "value"); for (size_t i = 0; i < s.n; i++) vp_assume((unsigned char)s.p[i] < 128); numeric(s.str(), t); }
extern "C" void cmdline_limits() { unsigned long t = vp_choose(6, "type"); static const char* lim[] = {"327", "655", "21474836", "42949672", "92233720368547758", "184467440737095516"}; std::string s = vp_choose(2, "negative") ? "-" : ""; s += lim[t]; SymBytes d(symLen(2, 3, "digits"), "digit"); for (size_t i = 0; i < d.n; i++) vp_assume(d.p[i] >= '0' && d.p[i] <= '9'); s += d.str(); numeric(s, t); }
// the help text holds every option and the whole documentation, one option per line group
extern "C" void cmdline_help() {
  size_t indent = vp_choose(3, "indent"), width = vp_choose(3, "width") * 15; static const size_t dl[] = {0, 1, 19, 24, 25, 30, 31, 60}; std::string doc; size_t n = dl[vp_choose(8, "documentation length")]; SymBytes d(n, "documentation"); for (size_t i = 0; i < n; i++) vp_assume(d.p[i] > ' '); doc = d.str();
  CommandLine<int> c(vp_choose(2, "style") ? CommandLineStyle::SwitchSpaceValue : CommandLineStyle::SwitchEqualsValue); bool dash = false; c.withOption(1, "k", "key", true, doc).withOption(2, "z", false, "Z"); std::string h = c.getHelpText(indent, width); (void)dash;
  std::string first, rest, all; size_t lines = 0, at = 0; std::vector<std::string> ls; while (at < h.size()) { size_t e = at; while (e < h.size() && h[e] != '\n') e++; ls.push_back(h.substr(at, e - at)); vp_assert(e < h.size(), "every line of the help text is terminated"); at = e + 1; lines++; }
  vp_assert(ls.size() >= 2, "every option starts a line"); size_t w = 0; { std::string& l = ls[0]; size_t p = indent; vp_assert(l.substr(0, indent) == std::string(indent, ' '), "lines are indented"); size_t dashAt = l.find(" - ", p); vp_assert(dashAt != std::string::npos, "the switches are followed by a dash"); w = dashAt + 3; }
  for (size_t i = 0; i + 1 < ls.size(); i++) { vp_assert(ls[i].size() >= w, "continuation lines are aligned"); if (i) vp_assert(ls[i].substr(0, w) == std::string(w, ' '), "continuation lines are indented"); std::string part = ls[i].substr(w); all += part; }
  vp_assert(sameText(all, doc), "the documentation is printed completely and in order"); vp_assert(ls.back().find("z") != std::string::npos && ls.back().substr(w) == "Z", "the next option is on its own line"); vp_observe("lines", lines); if (lines > 3) vp_reach("wrapped"); if (n == 0) vp_reach("no documentation"); }
// the help text is in the style asked for, or that of the parser, or with dashes
extern "C" void cmdline_help_styles() {
  static const CommandLineStyle S[] = { CommandLineStyle::Detect, CommandLineStyle::SwitchSpaceValue, CommandLineStyle::SwitchEqualsValue }; int own = vp_choose(3, "style"), over = vp_choose(3, "override"), dashes = over ? over == 1 : own != 2; size_t indent = vp_choose(3, "indent"); bool longs[3]; for (bool& l : longs) l = vp_choose(2, "long switch");
  CommandLine<int> c(S[own]); static const char* K[] = { "a", "bc", "z" }; static const char* L[] = { "first", "second-one", "z3" }; for (int i = 0; i < 3; i++) if (longs[i]) c.withOption(i, K[i], L[i], i == 1, std::string(1, 'A' + i)); else c.withOption(i, K[i], i == 1, std::string(1, 'A' + i));
  std::string h = over || vp_choose(2, "explicit") ? c.getHelpText(indent, 40, S[over]) : c.getHelpText(indent, 40), want, sw[3]; size_t w = 0; for (int i = 0; i < 3; i++) { sw[i] = (dashes ? "-" : "") + std::string(K[i]); if (longs[i]) sw[i] += std::string(dashes ? ", --" : ", ") + L[i]; w = std::max(w, sw[i].size()); } for (int i = 0; i < 3; i++) want += std::string(indent, ' ') + sw[i] + std::string(w - sw[i].size(), ' ') + " - " + char('A' + i) + "\n"; vp_assert(h == want, "every option is on a line with its switches in the style of the help text"); vp_reach(dashes ? "dashes" : "no dashes"); }
// every numeric accessor, with and without a default, and the two argc / argv forms
template <class T, class F, class D> static void both(const std::string& v, F get, D orDefault, bool there, __int128 m, bool ok) {
  bool valid = there && ok && m >= std::numeric_limits<T>::min() && m <= std::numeric_limits<T>::max(); T got = 77, got2 = 77; int th = 0, th2 = 0; try { got = get(); } catch (const Exception::OptionValueException&) { th = 1; } catch (const Exception::OptionNotFoundException&) { th = 2; } try { got2 = orDefault((T)55); } catch (const Exception::OptionValueException&) { th2 = 1; } catch (const Exception::OptionNotFoundException&) { th2 = 2; }
  vp_assert(th == (there ? valid ? 0 : 1 : 2), "a numeric option is refused exactly when it is absent, malformed or out of range"); vp_assert(th2 == (there && !valid), "a numeric option with a default is refused exactly when it is malformed or out of range"); if (valid) { vp_assert(got == (T)m && got2 == (T)m, "a numeric option has the value written"); vp_reach("number"); } else if (!there) { vp_assert(got2 == 55, "an absent numeric option yields the default"); vp_reach("absent"); } else vp_reach("rejected"); }
extern "C" void cmdline_accessors() {
  unsigned long t = vp_choose(6, "type"), form = vp_choose(3, "form"); int there = vp_choose(5, "present") > 0; static const char* lim[] = {"3276", "6553", "214748364", "429496729", "922337203685477580", "1844674407370955161"}; std::string v; __int128 m = 0; bool ok = true;
  if (there) { bool neg = vp_choose(2, "negative"), big = vp_choose(2, "large"); SymBytes d(1, "digit"); vp_assume((d.p[0] >= '0' && d.p[0] <= '9') || d.p[0] == 'x'); v = std::string(neg ? "-" : "") + (big ? lim[t] : "") + d.p[0]; if (d.p[0] == 'x') ok = false; else { for (const char* c = big ? lim[t] : ""; *c; c++) m = m * 10 + (*c - '0'); m = m * 10 + (d.p[0] - '0'); if (neg) { m = -m; if (t % 2) ok = false; } } }
  CommandLine<int> c(CommandLineStyle::SwitchSpaceValue); c.withOption(1, "a", "aa", true, "").withOption(2, "b", "bb", false, ""); std::vector<std::string> args { "prog", "-b" }; if (there) { args.push_back("--aa"); args.push_back(v); } std::vector<char*> av; std::vector<const char*> cv; for (auto& a : args) { av.push_back(&a[0]); cv.push_back(a.c_str()); }
  if (form == 0) c.parse((int)av.size(), av.data(), true); else if (form == 1) c.parse((int)cv.size(), cv.data(), true); else c.parse(args, true); vp_assert(c.hasOption(2) && c.hasOption(1) == (bool)there, "the options of argc and argv are those of the arguments"); if (there) vp_assert(sameText(c.getOption(1), v), "the values of argc and argv are those of the arguments");
  switch (t) { case 0: both<short>(v, [&] { return c.getOptionAsShort(1); }, [&](short d) { return c.getOptionAsShortOrDefault(1, d); }, there, m, ok); break; case 1: both<unsigned short>(v, [&] { return c.getOptionAsUnsignedShort(1); }, [&](unsigned short d) { return c.getOptionAsUnsignedShortOrDefault(1, d); }, there, m, ok); break; case 2: both<int>(v, [&] { return c.getOptionAsInt(1); }, [&](int d) { return c.getOptionAsIntOrDefault(1, d); }, there, m, ok); break;
    case 3: both<unsigned int>(v, [&] { return c.getOptionAsUnsignedInt(1); }, [&](unsigned int d) { return c.getOptionAsUnsignedIntOrDefault(1, d); }, there, m, ok); break; case 4: both<long long>(v, [&] { return c.getOptionAsLong(1); }, [&](long long d) { return c.getOptionAsLongOrDefault(1, d); }, there, m, ok); break; default: both<unsigned long long>(v, [&] { return c.getOptionAsUnsignedLong(1); }, [&](unsigned long long d) { return c.getOptionAsUnsignedLongOrDefault(1, d); }, there, m, ok); } }
// floating point values, in options and final values: the texts are fixed
extern "C" void cmdline_floating() {
  static const struct { const char* s; double v; int ok; } X[] = { {"1.5", 1.5, 1}, {"-2.5e3", -2500, 1}, {"0", 0, 1}, {"1.5x", 0, 0}, {"x", 0, 0}, {"1e999", 0, 0}, {"1e39", 1e39, 2} }; const auto& x = X[vp_choose(7, "text")]; bool single = vp_choose(2, "single precision"), final = vp_choose(2, "final value"), dflt = vp_choose(2, "with a default"), there = vp_choose(2, "present"); if (final && x.s[0] == (char)45) vp_done(); bool ok = x.ok == 1 || (x.ok == 2 && !single);
  CommandLine<int> c(CommandLineStyle::SwitchSpaceValue); c.withOption(1, "a", "aa", true, "").withOption(2, "b", "bb", false, ""); c.withOptionalFinalValue(); std::vector<std::string> args { "-b" }; if (there) { if (!final) args.push_back("-a"); args.push_back(x.s); } c.parse(args, false); double got = 77; int th = 0;
  try { if (final) got = single ? dflt ? c.getFinalValueAsFloatOrDefault(5.5f) : c.getFinalValueAsFloat() : dflt ? c.getFinalValueAsDoubleOrDefault(5.5) : c.getFinalValueAsDouble(); else got = single ? dflt ? c.getOptionAsFloatOrDefault(1, 5.5f) : c.getOptionAsFloat(1) : dflt ? c.getOptionAsDoubleOrDefault(1, 5.5) : c.getOptionAsDouble(1); } catch (const Exception::OptionValueException&) { th = 1; } catch (const Exception::OptionNotFoundException&) { th = 2; }
  vp_assert(th == (there ? ok ? 0 : 1 : dflt ? 0 : 2), "a floating point value is refused exactly when it is absent without a default, malformed or out of range"); if (!th) vp_assert(got == (there ? x.v : 5.5), "a floating point value is the one written, or the default"); vp_reach(there ? th ? "rejected" : "number" : th ? "absent" : "default"); }
