// Process control against a modelled kernel: waitid, kill and fork are stand-ins with symbolic results that only record what they are asked.
#include "common.hpp"
#include <functional>
#include <Balau/Concurrent/Fork.hpp>
#include <cerrno>
#include <csignal>
using namespace Balau; using Balau::Concurrent::Fork;
struct Proc { int pid, state, code, status; bool reaped; int signals; }; // state: 0 running, 1 ended, 2 not a child
static Proc procs[2]; static int calls, blocking, foreign; static int waitErr, waitErrno;
extern "C" int waitid(idtype_t t, id_t id, siginfo_t* info, int options) {
  ++calls; vp_assert(t == P_PID, "one process is waited for"); vp_assert(options & WEXITED, "terminated processes are waited for"); vp_assert((int)id > 0, "only valid process ids reach the kernel");
  for (auto& p : procs) if (p.pid == (int)id) {
    if (p.state == 2 || p.reaped) { errno = ECHILD; return -1; }
    if (p.state == 0 && (options & WNOHANG)) { if (info) { info->si_pid = 0; info->si_signo = 0; } return 0; }
    if (p.state == 0) { ++blocking; p.state = 1; }
    if (info) { info->si_pid = p.pid; info->si_code = p.code; info->si_status = p.status; info->si_signo = SIGCHLD; } if (!(options & WNOWAIT)) p.reaped = true; return 0; }
  errno = ECHILD; return -1; }
extern "C" int kill(pid_t pid, int sig) { bool found = false; for (auto& p : procs) if (p.pid == pid) { found = true; vp_assert(!p.reaped && p.state == 0, "only a running child is signalled"); vp_assert(sig == SIGKILL || sig == SIGTERM, "a terminating signal"); ++p.signals; } if (!found) { ++foreign; vp_fail("a process that was not named is signalled"); } return 0; }
static void setup() { int codes[] = {CLD_EXITED, CLD_KILLED, CLD_DUMPED}; for (int i = 0; i < 2; i++) { Proc& p = procs[i]; p = Proc{vp_range<int>(1, 1 << 22, "pid"), (int)vp_choose(3, "state"), codes[vp_choose(3, "code")], vp_value<int>("status"), false, 0}; } vp_assume(procs[0].pid != procs[1].pid); calls = blocking = foreign = 0; }
static int isReport(const Fork::TerminationReport& r, const Proc& p) { return (r.pid == p.pid) & (r.code == p.code) & (r.exitStatus == p.status); }
static int isEmpty(const Fork::TerminationReport& r) { return (r.pid == 0) & (r.code == 0) & (r.exitStatus == 0); }
extern "C" void fork_check() { setup(); Proc& p = procs[0]; int was = p.state; bool threw = false; Fork::TerminationReport r; bool wait = vp_choose(2, "wait") != 0;
  try { r = wait ? Fork::waitOnProcess(p.pid) : Fork::checkForTermination(p.pid); } catch (const Exception::WaitException&) { threw = true; }
  vp_assert(threw == (was == 2), "the wait exception is thrown exactly when the call fails"); if (threw) { vp_reach("failed"); return; }
  if (was == 1 || wait) { vp_assert(isReport(r, p), "the report is that of the process"); vp_reach("reported"); } else { vp_assert(isEmpty(r), "a running process has no report"); vp_reach("running"); }
  vp_assert(blocking == (wait && was == 0), "only the waiting call blocks"); vp_assert(calls == 1 && procs[1].reaped == false, "no other process is touched"); }
extern "C" void fork_invalid() { setup(); int pid = vp_value<int>("invalid"); vp_assume(pid <= 0); Fork::TerminationReport r; switch (vp_choose(3, "call")) { case 0: r = Fork::waitOnProcess(pid); break; case 1: r = Fork::checkForTermination(pid); break; default: r = Fork::terminateProcess(pid); } vp_assert(isEmpty(r) && calls == 0 && foreign == 0, "an invalid process id gives an empty report and no system call"); vp_reach("done"); }
extern "C" void fork_check_all() { setup(); std::vector<int> pids; size_t n = symLen(3, "count"); for (size_t i = 0; i < n; i++) pids.push_back(i < 2 ? procs[i].pid : (int)(0 - (int)vp_choose(2, "invalid"))); if (n == 3 && vp_choose(2, "invalid first")) std::swap(pids[0], pids[2]);
  bool bad = false, threw = false; for (size_t i = 0; i < n && i < 2; i++) bad |= procs[i].state == 2; std::vector<Fork::TerminationReport> r;
  try { r = Fork::checkForTermination(pids); } catch (const Exception::WaitException&) { threw = true; } vp_assert(threw == bad, "the wait exception is thrown exactly when a call fails"); if (threw) { vp_reach("failed"); return; }
  size_t k = 0; for (int pid : pids) for (auto& p : procs) if (p.pid == pid && p.state == 1) { vp_assert(k < r.size() && isReport(r[k], p), "each terminated process is reported once, in order"); k++; } vp_assert(k == r.size(), "no other reports"); vp_assert(blocking == 0, "checking does not block"); if (k == 2) vp_reach("two"); }
extern "C" void fork_terminate() { setup(); Proc& p = procs[0]; int was = p.state; bool threw = false; Fork::TerminationReport r; try { r = Fork::terminateProcess(p.pid); } catch (const Exception::WaitException&) { threw = true; }
  vp_assert(threw == (was == 2), "the wait exception is thrown exactly when the call fails"); vp_assert(procs[1].signals == 0 && !procs[1].reaped, "no other process is touched");
  if (was == 0) { vp_assert(p.signals == 1, "a running process is terminated"); vp_assert(isEmpty(r), "an empty report for a process that was running"); vp_reach("terminated"); } else vp_assert(p.signals == 0, "a terminated process is not signalled"); if (was == 1) { vp_assert(isReport(r, p), "the report of an already terminated process"); vp_reach("reported"); } }
// fork: the parent sees the pid, the child runs the function once and exits with its status, failure throws
static int forkResult, ran, exited; static unsigned exitCode;
extern "C" pid_t fork() { if (forkResult < 0) errno = EAGAIN; return forkResult; }
extern "C" void _Exit(int c) { vp_assert(forkResult == 0 && ran == 1, "only the child exits, after its function"); vp_assert((unsigned)c == exitCode, "the exit status is that of the function"); vp_reach("exited"); vp_done(); __builtin_unreachable(); }
extern "C" void fork_perform() { forkResult = vp_value<int>("fork result"); vp_assume(forkResult >= -1); int status = vp_value<int>("status"); exitCode = status; ran = 0; size_t form = vp_choose(3, "form"); bool threw = false; int r = 0; auto f = [&] { ++ran; return status; };
  try { r = form == 0 ? Fork::performFork(f) : Fork::performFork(f, form == 2); } catch (const Exception::ForkException&) { threw = true; }
  vp_assert(threw == (forkResult < 0), "a failed fork throws"); if (threw) { vp_assert(!ran, "nothing runs when the fork failed"); vp_reach("failed"); return; }
  if (forkResult > 0) { vp_assert(r == forkResult && !ran, "the parent gets the process id"); vp_reach("parent"); } else { vp_assert(ran == 1 && form != 2 && r == (form == 0 ? 0 : status), "the child runs the function once"); vp_reach("child"); } }
