#pragma once
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <set>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include "llvm/IR/Constants.h"
#include "llvm/IR/DataLayout.h"
#include "llvm/IR/DebugInfoMetadata.h"
#include "llvm/IR/GetElementPtrTypeIterator.h"
#include "llvm/IR/GlobalVariable.h"
#include "llvm/IR/InlineAsm.h"
#include "llvm/IR/InstrTypes.h"
#include "llvm/IR/Instructions.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/LLVMContext.h"
#include "llvm/IR/Module.h"
#include "expr.h"
#include "mem.h"

struct Val {
  uint64_t c = 0;
  E e = nullptr;
};

struct LeafT { uint64_t off; uint16_t w; bool fp; };

enum IK : uint8_t {
  K_BIN, K_ICMP, K_FCMP, K_CAST, K_BITCAST, K_LOAD, K_STORE, K_GEP, K_ALLOCA, K_SELECT,
  K_BR, K_CBR, K_SWITCH, K_RET, K_CALL, K_UNREACHABLE, K_COPY, K_EXTRACTE, K_INSERTE,
  K_RMW, K_CMPXCHG, K_NOP, K_FNEG, K_UNSUPPORTED,
};

struct FuncInfo;
struct Edge { uint32_t target; std::vector<std::pair<int, int>> copies; };
struct GepTerm { int slot; uint16_t w; int64_t scale; };

struct Inst {
  IK k;
  uint8_t sub = 0;     // opcode / predicate
  uint16_t w = 0, w2 = 0;
  uint32_t n = 1;      // element count
  int dst = -1, a = 0, b = 0, c = 0;
  uint64_t imm = 0;
  uint32_t aux = 0;    // index in side tables
  bool atomic = false;
  const llvm::Instruction* I = nullptr;
};

struct SwitchInfo { std::vector<std::pair<uint64_t, uint32_t>> cases; uint32_t def; };
typedef int BuiltinId;
struct CallInfo {
  std::vector<int> args;          // flattened slots
  std::vector<uint16_t> argW;
  std::vector<std::pair<uint64_t, uint64_t>> byval;  // index -> size
  const llvm::Function* F = nullptr;
  FuncInfo* fi = nullptr;
  unsigned intrinsic = 0;
  int builtin = -1;
  int calleeSlot = 0;
  uint32_t normalEdge = ~0u;
  const llvm::InlineAsm* ia = nullptr;
};

struct FuncInfo {
  const llvm::Function* F = nullptr;
  std::string name, pretty;
  uint64_t addr = 0;
  bool decoded = false;
  bool covered = false;
  uint32_t nSlots = 0;
  std::vector<int> argSlots;
  std::vector<uint16_t> argW;
  unsigned nFixed = 0;
  std::vector<Inst> insts;
  std::vector<Val> consts;
  std::vector<Edge> edges;
  std::vector<SwitchInfo> sw;
  std::vector<CallInfo> calls;
  std::vector<std::vector<LeafT>> leafs;
  std::vector<std::vector<GepTerm>> geps;
  std::vector<std::vector<int>> copies;
  int builtin = -1;
};

struct Frame {
  FuncInfo* f;
  uint32_t pc;
  int retDst;         // destination slot in the caller, -1 for none
  uint32_t retEdge;   // invoke normal edge in the caller
  uint64_t spSave;
  uint64_t vaArea = 0;
  int mergeId = 0;    // > 0: returning here ends a merge region
  std::vector<Val> r;
};

struct InputRec { E v; uint16_t w; uint32_t nameId; };

struct Thread {
  std::vector<Frame> st;
  uint64_t sp;
  bool done = false;
  bool blocked = false;   // spinning: runnable again once another thread wrote
  bool joining = false;
  bool schedDone = false; // the schedule point of the next atomic was taken
  std::map<const llvm::GlobalVariable*, uint64_t> tls;
};

struct State {
  uint64_t id = 0;
  Memory mem;
  std::vector<Thread> th;
  unsigned cur = 0;
  std::vector<E> pc;
  Model model;
  std::vector<InputRec> inputs;
  std::map<std::string, int> nameCount;
  std::unordered_set<uint32_t> fixed;
  std::unordered_map<E, std::pair<uint64_t, uint64_t>> iv;   // known ranges of subexpressions
  uint64_t ivVer = 0;
  uint64_t heap = 0;
  std::map<uint64_t, uint64_t> blocks;
  std::vector<std::pair<uint32_t, E>> obs;   // observations
  int expectCrash = 0;
  unsigned preempts = 0;
  int atomicRegion = 0;
  uint64_t steps = 0;
  uint32_t forks = 0;
  bool initPhase = false;
};
