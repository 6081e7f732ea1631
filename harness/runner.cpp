// The test runner: exactly the selected tests are run, each outcome is reported, and the run succeeds exactly when no test failed.
#include "common.hpp"
#include <iostream>
#include <atomic>
#include <Balau/Type/ToString.hpp>
#include <Balau/Resource/ByteReadResource.hpp>
#include <Balau/Resource/ByteWriteResource.hpp>
#include <Balau/Resource/Utf8To32ReadResource.hpp>
#include <Balau/Resource/Utf32To8WriteResource.hpp>
#include <Balau/Serialization/SerializationMacros.hpp>
#include <Balau/Util/Strings.hpp>
#include <Balau/Testing/TestRunner.hpp>
namespace T = Balau::Testing; using Result = T::Impl::TestResult::Result;
enum Act { Pass, Fails, Throws, ThrowsInt, Ignores, IgnoresThenFails };
static unsigned long acts[4], setupAct, teardownAct; static std::atomic<int> setups, teardowns; static int runs[4];
static void act(unsigned long a) { switch (a) { case Fails: T::assertFail("wrong"); break; case Throws: throw std::runtime_error("thrown"); case ThrowsInt: throw 5; } }
struct Alpha : T::TestGroup<Alpha> {
  Alpha() { RegisterTestCase(one); RegisterTestCase(two); }
  void setup() override { setups++; act(setupAct); } void teardown() override { teardowns++; act(teardownAct); }
  void go(int i) { runs[i]++; if (acts[i] == Ignores || acts[i] == IgnoresThenFails) ignore(); if (acts[i] == IgnoresThenFails) T::assertFail("late"); act(acts[i]); }
  void one() { go(0); } void two() { go(1); } };
#ifdef BETA
struct Beta : T::TestGroup<Beta> { // not for single threaded runs
#ifdef ONLYPROC
  Beta() : TestGroup(T::WorkerProcesses | T::ProcessPerTest) {
#else
  Beta() {
#endif
    RegisterTestCase(one); }
  void one() { runs[2]++; } };
#endif
struct Got { std::string name; Result result; }; static std::vector<Got> got; static int groups; static std::string text;
struct Generator : T::Impl::TestReportGenerator { void generate(const T::Impl::TestGroupBase& g, const std::chrono::nanoseconds&, const std::vector<const T::Impl::TestResult*>& r) override { groups++; for (auto* x : r) got.push_back({x->testName, x->result}); } };
struct Writer : T::TestWriter { void writeString(const std::string& s) override { text += s; } std::unique_ptr<TestWriter> clone() const override { return std::unique_ptr<TestWriter>(new Writer()); } };
static int has(const std::string& m, std::string_view part) { return m.find(part) != std::string::npos; }
static int runWith(std::vector<std::string> args, bool generator = true) {
  std::vector<char*> v; for (auto& a : args) v.push_back(&a[0]); v.push_back(nullptr); std::shared_ptr<T::Impl::TestReportGenerator> g; if (generator) g.reset(new Generator());
  return T::TestRunner::run((int)args.size(), v.data(), true, g, Writer()); }
static Result outcomeOf(unsigned long s, unsigned long t, unsigned long d) { // the outcome of one test
  auto of = [](unsigned long a) { return a == Pass ? Result::Success : a == Ignores ? Result::Ignored : a == Fails || a == IgnoresThenFails ? Result::Failure : Result::Error; };
  Result r = s != Pass ? of(s) : of(t); if (d != Pass) { Result x = of(d); if (x == Result::Error || r != Result::Error) r = x; } return r; }
static std::string count(size_t n) { std::string s = std::to_string(n); return std::string(6 - s.size(), ' ') + s; }
static void checkReport(int code, const std::vector<Got>& want) {
  size_t n[4] = {0, 0, 0, 0}; for (auto& w : want) n[(int)w.result]++;
  bool ok = !n[(int)Result::Failure] && !n[(int)Result::Error]; vp_assert(code == (ok ? 0 : 1), "a test run succeeds exactly when no test failed"); vp_assert(got.size() == want.size(), "every test of a group is reported once");
  for (auto& w : want) { int found = 0; for (auto& g : got) found += g.name == w.name && g.result == w.result; vp_assert(found == 1, "each test is reported with its outcome"); if (w.result == Result::Failure || w.result == Result::Error) vp_assert(has(text, "      " + w.name + "\n"), "failed tests are listed at the end of the run"); else vp_assert(!has(text, "      " + w.name + "\n"), "only failed tests are listed at the end of the run"); }
  vp_assert(has(text, ok ? "ALL TESTS PASSED" : "THERE WERE TEST FAILURES") && !has(text, ok ? "THERE WERE TEST FAILURES" : "ALL TESTS PASSED"), "the report states whether tests failed");
  vp_assert(has(text, "tests passed:  " + count(n[(int)Result::Success]) + "\n") && has(text, "tests ignored: " + count(n[(int)Result::Ignored]) + "\n"), "the report counts the passed and ignored tests"); if (!ok) vp_assert(has(text, "tests failed:  " + count(n[(int)Result::Failure]) + "\n") && has(text, "tests errored: " + count(n[(int)Result::Error]) + "\n"), "the report counts the failed tests and the errors"); }
static void outcomes(const char* model) {
  setupAct = vp_choose(4, "setup"); teardownAct = vp_choose(4, "teardown"); acts[0] = vp_choose(6, "first test"); acts[1] = vp_choose(6, "second test"); int code = runWith({"prog", "-e", model});
  vp_assert(setups == 2 && teardowns == 2, "setup and teardown run once for each test"); for (int i = 0; i < 2; i++) vp_assert(runs[i] == (setupAct == Pass), "a test runs once, unless its setup fails");
  std::vector<Got> want{{"Alpha::one", outcomeOf(setupAct, acts[0], teardownAct)}, {"Alpha::two", outcomeOf(setupAct, acts[1], teardownAct)}}; checkReport(code, want); vp_assert(groups == 1, "a group is reported once");
  vp_observe("code", code); vp_reach(code ? "failed" : "succeeded"); if (setupAct) vp_reach("setup fails"); if (teardownAct) vp_reach("teardown fails"); if (want[0].result == Result::Ignored) vp_reach("ignored"); }
extern "C" void run_outcomes() { outcomes("SingleThreaded"); }
extern "C" void run_without_generator() { acts[0] = vp_choose(2, "first test"); int code = runWith({"prog"}, false); vp_assert(code == (acts[0] == Fails), "a run without report generator succeeds exactly when no test failed"); vp_assert(runs[0] == 1 && runs[1] == 1 && setups == 2, "a run without report generator runs every test"); vp_reach(code ? "failed" : "succeeded"); }
// ------------------------------------------------------------ selection
static bool wild(std::string_view p, std::string_view t) { if (p.empty()) return t.empty(); if (p[0] == '*') { for (size_t i = 0; i <= t.size(); i++) if (wild(p.substr(1), t.substr(i))) return true; return false; } return !t.empty() && (p[0] == '?' || p[0] == t[0]) && wild(p.substr(1), t.substr(1)); }
extern "C" void run_selection() {
  static const char* names[3] = {"Alpha::one", "Alpha::two", "Beta::one"}; std::vector<std::string> args{"prog"}, items; size_t k = symLen(2, "items");
  for (size_t i = 0; i < k; i++) { SymBytes c(2, "pattern"); oneOf(c.p[0], "AB?*x"); oneOf(c.p[1], "on?*"); std::string p; p += c.p[0]; switch (i ? 0 : vp_choose(3, "shape")) { case 0: p += "*::"; p += c.p[1]; p += "*"; break; case 1: p += "lpha::"; p += c.p[1]; p += "ne"; break; default: p += "eta::on"; p += c.p[1]; } items.push_back(p); }
  if (k == 1) args.push_back(items[0]); if (k == 2) switch (vp_choose(4, "separator")) { case 0: args.push_back(items[0]); args.push_back(items[1]); break; case 1: args.push_back(items[0] + "," + items[1]); break; case 2: args.push_back(items[0] + " , " + items[1]); break; default: args.push_back(items[0] + "  " + items[1]); }
  std::vector<Got> want; int sel[3]; for (int i = 0; i < 3; i++) { sel[i] = !k; for (auto& p : items) sel[i] |= wild(p, names[i]); if (sel[i]) want.push_back({names[i], Result::Success}); }
  int code = runWith(args); for (int i = 0; i < 3; i++) vp_assert(runs[i] == sel[i], "exactly the tests that match the test list run"); vp_assert(setups == sel[0] + sel[1] && teardowns == setups, "setup and teardown run for the selected tests only"); checkReport(code, want); vp_assert(groups == (sel[0] || sel[1]) + sel[2], "exactly the groups with selected tests are reported"); if (want.empty()) vp_assert(has(text, "No tests to run"), "a run without tests says so");
  vp_observe("count", want.size()); if (want.size() == 3) vp_reach("all"); if (want.empty()) vp_reach("none"); if (want.size() == 2) vp_reach("two"); if (want.size() == 1) vp_reach("one"); }
extern "C" void run_models() { acts[0] = vp_choose(2, "first test"); int code = runWith({"prog"}); vp_assert(runs[2] == 0 && runs[0] == 1 && runs[1] == 1, "tests that do not support the execution model do not run"); checkReport(code, {{"Alpha::one", acts[0] ? Result::Failure : Result::Success}, {"Alpha::two", Result::Success}, {"Beta::one", Result::Ignored}}); vp_reach(code ? "failed" : "succeeded"); }
// ------------------------------------------------------------ several threads
extern "C" void run_threads() { acts[0] = vp_choose(3, "first test"); acts[1] = vp_choose(2, "second test") ? Ignores : Pass; int code = runWith({"prog", "-e", "WorkerThreads", "-c", "2"}); vp_assert(runs[0] == 1 && runs[1] == 1, "each test runs exactly once whatever the number of threads"); checkReport(code, {{"Alpha::one", outcomeOf(Pass, acts[0], Pass)}, {"Alpha::two", outcomeOf(Pass, acts[1], Pass)}}); vp_assert(groups == 1, "a group is reported once"); vp_reach(code ? "failed" : "succeeded"); vp_done(); }
