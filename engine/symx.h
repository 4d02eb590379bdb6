// symx: a symbolic executor for LLVM bitcode with nested processes over a virtual file system.
#pragma once
#include "expr.h"
#include <map>
#include <memory>
#include <set>
#include <z3.h>

struct Val { u64 v; EP e; };
inline Val VC(u64 v) { return Val{v, nullptr}; }

// ---------------------------------------------------------------- decoded code
enum Op : u16 { O_NOP, O_BIN, O_ICMP, O_ZEXT, O_SEXT, O_TRUNC, O_SELECT, O_LOAD, O_STORE, O_GEP, O_BR, O_CONDBR, O_SWITCH,
  O_CALL, O_RET, O_ALLOCA, O_FBIN, O_FCMP, O_FNEG, O_SI2F, O_UI2F, O_F2SI, O_F2UI, O_BITCAST_FI, O_BITCAST_IF, O_COPY, O_UNREACHABLE, O_UNSUP,
  O_MEMCPY, O_MEMSET, O_VASTART, O_VACOPY, O_MINMAX, O_ABS, O_FABS, O_FFLOOR, O_FCEIL, O_FTRUNC, O_BSWAP, O_CTPOP, O_FSH, O_SATSUB, O_CTLZ };
struct Edge { u32 target; u32 first, count; bool back; };      // phi copies
struct PhiCopy { int dst, src; };
struct GepTerm { int idx; i64 scale; u8 w; };
struct Inst { Op op; u8 w; u8 sub; int dst, a, b, c; i64 imm; u32 x, y; }; // conditional branch: imm = pc of its join block, -1 when the sides only join after the function
struct DFn;
struct CallInfo { DFn *fn; int builtin; int indirect; bool isFp; u8 retw; std::vector<int> args; std::vector<u8> aw; std::vector<u32> byval; };
struct SwitchInfo { std::vector<u64> vals; std::vector<u32> edges; u32 def; std::unordered_map<u64, u32> m; };
struct DFn {
  std::string name; void *llvm; u32 id; bool decoded = false, declared = false, vararg = false; int builtin = -1; bool fast = false;
  u32 nregs = 0, nargs = 0; std::vector<Inst> code; std::vector<Val> consts; std::vector<Edge> edges; std::vector<PhiCopy> phis; std::vector<GepTerm> geps;
  std::vector<CallInfo> calls; std::vector<SwitchInfo> switches; bool retFp = false; u8 retw = 0; bool executed = false;
};

// ---------------------------------------------------------------- memory
enum { PS = 1024 };
struct Page { u32 rc; u32 nsym; EP *sym; u8 data[PS]; };
struct Obj { u32 rc; u32 np; u64 size; u8 kind, fill; bool dead, ro; Page **pages; };
enum { K_GLOBAL, K_STACK, K_HEAP };
struct Chunk { u32 rc; Obj *o[64]; };
struct MemTable {
  std::vector<Chunk *> ch; u32 n = 1; std::vector<u32> freeStack; u64 heapLive = 0;
  MemTable() {}
  MemTable(const MemTable &o) : ch(o.ch), n(o.n), freeStack(o.freeStack), heapLive(o.heapLive) { for (auto c : ch) if (c) c->rc++; }
  MemTable &operator=(const MemTable &o);
  MemTable(MemTable &&o) : ch(std::move(o.ch)), n(o.n), freeStack(std::move(o.freeStack)), heapLive(o.heapLive) { o.ch.clear(); }
  MemTable &operator=(MemTable &&o) { if (this != &o) { drop(); ch = std::move(o.ch); n = o.n; freeStack = std::move(o.freeStack); heapLive = o.heapLive; o.ch.clear(); } return *this; }
  ~MemTable() { drop(); }
  void drop();
  Obj *get(u32 id) const { u32 c = id >> 6; if (c >= ch.size() || !ch[c]) return nullptr; return ch[c]->o[id & 63]; }
  Obj *own(u32 id);
  u32 add(Obj *o);
  void set(u32 id, Obj *o);
};
Obj *newObj(u64 size, u8 kind, u8 fill);
Page *ownPage(Obj *o, u32 p);

// ---------------------------------------------------------------- modules, files, processes
struct Mod {
  std::string name; void *llvm; std::vector<DFn *> fns; std::map<std::string, DFn *> byName; MemTable init; bool initDone = false;
  std::unordered_map<const void *, u32> gid; std::vector<std::string> gname;
};
struct FileData { std::vector<u8> d; std::vector<EP> s; // s empty if all concrete; s[i]->w==32 is a pending signed decimal number
  bool sym() const { return !s.empty(); } };
typedef std::shared_ptr<FileData> FileP;
struct Handle { std::string name; FileP f; u64 pos = 0; bool open = false, wr = false, rd = false, app = false, eof = false; };
struct Frame { DFn *fn; u32 pc; int retDst; std::vector<Val> regs; std::vector<u32> allocas; std::vector<Val> varargs; std::vector<u8> vafp; };
struct Proc { Mod *m; MemTable mem; std::vector<Frame> fr; std::vector<Handle> fh; std::string outName; int runDst; u64 steps = 0; };
struct Cons { EP e; std::shared_ptr<Cons> prev; u32 n; };
typedef std::shared_ptr<Cons> ConsP;
struct Event { int kind; std::string name; u64 v; EP e; FileP f; }; // 0 run exit code, 1 get file, 2 value
struct State {
  std::vector<Proc> pr; std::map<std::string, FileP> fs; ConsP pc; std::vector<u64> model; std::map<std::string, u32> names; std::vector<std::pair<std::string, EP>> inputs;
  std::vector<Event> log; std::set<std::string> reached; u64 steps = 0; u32 forks = 0; u32 pathChoices = 0;
};
