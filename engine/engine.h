#pragma once
#include "solver.h"
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <atomic>
#include <functional>
#include <map>
#include <semaphore.h>
#include <set>
#include <string>
#include <typeinfo>
#include <unordered_map>
#include <unordered_set>
#include <vector>

struct Slot { u128 v; Expr* e; u64 pad; };

enum Op : u16 { I_NOP, I_BIN, I_FBIN, I_FNEG, I_ICMP, I_FCMP, I_SELECT, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_ZEXT, I_SEXT, I_TRUNC, I_COPY, I_FPCAST,
  I_BR, I_CBR, I_SWITCH, I_RET, I_UNREACHABLE, I_CALL, I_LANDINGPAD, I_RESUME, I_ATOMICRMW, I_CMPXCHG, I_FENCE, I_INTRIN, I_UNSUPPORTED };
enum Kind : u8 { K_INT, K_PTR, K_F32, K_F64, K_F80, K_BYVAL };
struct Leaf { u32 off; u16 bits; Kind kind; };
struct Func; struct Thread;

struct Edge { int bb; int copies; }; // copies: index in f->copies, -1 none
struct GepIdx { int op; int width; u64 scale; };
struct CallSite { Func* direct = nullptr; int callee = 0; std::vector<int> args; std::vector<Leaf> kinds; std::vector<u64> byval; std::vector<Leaf> ret; bool vararg = false; bool invoke = false; Edge normal{-1,-1}, unwind{-1,-1}; int intrin = 0; };
struct SwitchI { std::vector<std::pair<u128, Edge>> cases; Edge def; };
struct LPad { bool cleanup; struct C { bool filter; std::vector<u64> tis; }; std::vector<C> clauses; };
struct Inst { u16 op; u16 w; u16 w2; u8 aux; u8 flags; int dst; int a, b, c; int n; u64 imm; const void* p; const llvm::Instruction* src; };

struct CallInfo;
typedef void (*Builtin)(CallInfo&);

struct Func {
  std::string name; llvm::Function* F = nullptr; Builtin builtin = nullptr; void* native = nullptr; u64 tramp = 0; u32 idx = 0;
  bool lowered = false; bool nativeOk = false;
  std::vector<Inst> code; std::vector<int> bbStart; std::vector<Slot> consts; std::vector<std::vector<std::pair<int,int>>> copies;
  int nslots = 0; int nargs = 0; std::vector<Leaf> argKinds; std::vector<Leaf> retKinds; std::vector<u64> argByval; std::vector<int> pureTable;
  std::vector<std::vector<GepIdx>*> geps;
};
struct Frame { Func* f; Slot* r; int pc; u64 sp; u64 lpExc; u32 lpSel; bool marker; bool atexit; size_t slotBase; Slot markerRet[4]; std::vector<Slot>* varargs; };
enum TState { T_RUN, T_MUTEX, T_COND, T_JOIN, T_DONE, T_ONCE };
struct Thread {
  int id; TState st = T_RUN; std::vector<Frame> frames; std::vector<Slot> dummy; Slot* slots; size_t slotTop = 0, slotCap = 0; u64 sp, stackLo, stackHi;
  std::vector<u64> caught; int uncaught = 0; std::unordered_map<const void*, u64> tls; u64 waitAddr = 0, waitMutex = 0; bool timed = false, signaled = false, resumed = false; int joinTid = -1; int wakeResult = 0; u64 deadline = 0;
  u64 startArg = 0; bool schedDone = false; std::vector<u32> vc, relVC, acqVC; bool detached = false; int phase = 0;
  std::vector<std::pair<u64,u64>> tlsDtors;
};
struct CallInfo { struct Engine* E; Thread* T; Func* f; const CallSite* cs; std::vector<Slot> args; Slot ret[4]; bool pushed = false; bool retry = false; bool thrown = false;
  u64 argc(int i); // concretised argument
};
