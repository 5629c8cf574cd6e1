#pragma once
#include "decode.h"
#include "solver.h"
#include <set>

enum { MAXT = 6 };
struct VC { uint32_t c[MAXT] = {0}; void join(const VC& o) { for (int i = 0; i < MAXT; i++) if (o.c[i] > c[i]) c[i] = o.c[i]; } };

struct Frame { FuncInfo* f; u32 pc; u32 base; u64 spLo; u64 spBase; u64 va; };
enum TStatus : u8 { T_RUN, T_BLOCKED, T_TIMED, T_DONE };
struct Thread {
  std::vector<Frame> fr; std::vector<Val> regs; u64 sp; TStatus st = T_RUN; u64 waitAddr = 0; bool passed = false; bool timedOut = false; bool yielded = false;
  u64 tlsBase = 0; VC vc; u64 excObj = 0; u32 excSel = 0; u64 unwinding = 0; u32 spin = 0;
};
struct ExcInfo { u64 obj, ti, dtor; int caught; };
struct Input { std::string name; std::vector<Expr*> e; u64 lo = 0; bool choice = false; };
struct Obs { std::string name; std::vector<Val> v; bool isInt; };

struct ShadowCell { u8 wt; u8 nr; uint16_t pad; uint32_t wc; uint32_t rc[MAXT]; };
struct Shadow { ShadowCell c[PG]; };

struct State {
  Mem mem; PathCond pc; std::vector<Thread> th; int cur = 0; u64 heapTop = Program::HEAP; u64 aliasTop = Mem::ALIAS_LO; std::vector<Input> inputs; std::vector<Obs> obs;
  u64 steps = 0; int preempt = 0; std::vector<u8> sched; std::map<u64, VC> sync; std::vector<ExcInfo> exc; u64 allocBytes = 0;
  bool crashArmed = false, crashWhole = false, crashPassed = false, pendingCrash = false; int crashEvents = 0; u64 crashPartial = 0; int tryDepth = -1; int crashAt = -1; std::vector<std::pair<int, u64>> crashLog;
  std::map<u64, std::shared_ptr<Shadow>> shadow; bool raceOn = false;
  u64 nforks = 0; u64 id = 0; std::vector<std::string> reach; bool vfuzz = false; u64 allocFailAt = 0; int atomicDepth = 0;
};

struct PathEnd { int kind; std::string msg; };  // 0 normal, 1 violation, 2 infeasible (silent), 3 unsupported, 4 limit

struct Machine;
void registerBuiltins();
Builtin findBuiltin(const std::string& name);
