// LLVM IR -> compact register code
#include "symx.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Analysis/PostDominators.h>
#include <llvm/IR/Dominators.h>
using namespace llvm;
static LLVMContext g_ctx;
extern u8 g_heapFill, g_stackFill;
int builtinId(const std::string &name);
bool isFastBuiltin(const std::string &name);

static Module *M(Mod *m) { return (Module *)m->llvm; }
Mod *loadModule(const std::string &name, const std::string &path) {
  SMDiagnostic err; auto mod = parseIRFile(path, err, g_ctx);
  if (!mod) { fprintf(stderr, "symx: cannot load %s: %s\n", path.c_str(), err.getMessage().str().c_str()); exit(3); }
  Mod *m = new Mod; m->name = name; Module *lm = mod.release(); m->llvm = lm;
  u32 gid = 1; m->gname.push_back("");
  for (auto &g : lm->globals()) { m->gid[&g] = gid++; m->gname.push_back(g.getName().str()); }
  for (auto &f : lm->functions()) { DFn *d = new DFn; d->name = f.getName().str(); d->llvm = &f; d->id = m->fns.size(); d->declared = f.isDeclaration(); d->vararg = f.isVarArg();
    if (d->declared) d->builtin = builtinId(d->name); else if (isFastBuiltin(d->name)) { d->fast = true; d->builtin = builtinId(d->name); }
    m->fns.push_back(d); m->byName[d->name] = d; m->gid[&f] = d->id; }
  return m;
}
static u64 fnAddr(u32 idx) { return (u64)(0x70000000u + idx) << 32; }
static unsigned tw(Type *t) { if (t->isPointerTy()) return 64; if (t->isDoubleTy()) return 64; if (t->isFloatTy()) return 32; if (t->isIntegerTy()) return t->getIntegerBitWidth(); return 0; }

static bool constVal(Mod *m, const Constant *c, u64 &out) {
  const DataLayout &dl = M(m)->getDataLayout();
  if (auto *ci = dyn_cast<ConstantInt>(c)) { if (ci->getBitWidth() > 64) return false; out = ci->getZExtValue(); return true; }
  if (isa<ConstantPointerNull>(c) || isa<UndefValue>(c)) { out = 0; return true; }
  if (auto *f = dyn_cast<ConstantFP>(c)) { if (!f->getType()->isDoubleTy()) return false; out = f->getValueAPF().bitcastToAPInt().getZExtValue(); return true; }
  if (auto *g = dyn_cast<GlobalVariable>(c)) { out = (u64)m->gid[g] << 32; return true; }
  if (auto *f = dyn_cast<Function>(c)) { out = fnAddr(m->gid[f]); return true; }
  if (auto *a = dyn_cast<GlobalAlias>(c)) return constVal(m, a->getAliasee(), out);
  if (auto *ce = dyn_cast<ConstantExpr>(c)) {
    u64 x, y;
    switch (ce->getOpcode()) {
    case Instruction::GetElementPtr: { if (!constVal(m, ce->getOperand(0), x)) return false; APInt off(64, 0); if (!cast<GEPOperator>(ce)->accumulateConstantOffset(dl, off)) return false; out = x + off.getZExtValue(); return true; }
    case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::Trunc: if (!constVal(m, ce->getOperand(0), x)) return false; out = x & maskw(tw(ce->getType())); return true;
    case Instruction::Sub: if (!constVal(m, ce->getOperand(0), x) || !constVal(m, ce->getOperand(1), y)) return false; out = (x - y) & maskw(tw(ce->getType())); return true;
    case Instruction::Add: if (!constVal(m, ce->getOperand(0), x) || !constVal(m, ce->getOperand(1), y)) return false; out = (x + y) & maskw(tw(ce->getType())); return true;
    default: return false;
    }
  }
  return false;
}
static void initConst(Mod *m, Obj *o, const Constant *c, u64 off) {
  const DataLayout &dl = M(m)->getDataLayout();
  auto put = [&](u64 v, unsigned n) { for (unsigned i = 0; i < n; i++) { u64 p = off + i; ownPage(o, p / PS)->data[p % PS] = (u8)(v >> (8 * i)); } };
  if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
  if (auto *cd = dyn_cast<ConstantDataSequential>(c)) { StringRef s = cd->getRawDataValues(); for (size_t i = 0; i < s.size(); i++) { u64 p = off + i; ownPage(o, p / PS)->data[p % PS] = (u8)s[i]; } return; }
  if (auto *ca = dyn_cast<ConstantArray>(c)) { u64 sz = dl.getTypeAllocSize(ca->getType()->getElementType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initConst(m, o, ca->getOperand(i), off + sz * i); return; }
  if (auto *cs = dyn_cast<ConstantStruct>(c)) { auto *sl = dl.getStructLayout(cs->getType()); for (unsigned i = 0; i < cs->getNumOperands(); i++) initConst(m, o, cs->getOperand(i), off + sl->getElementOffset(i)); return; }
  u64 v; if (!constVal(m, c, v)) { fprintf(stderr, "symx: unsupported global initialiser\n"); exit(3); }
  put(v, dl.getTypeStoreSize(c->getType()));
}
void initModule(Mod *m) {
  if (m->initDone) return; m->initDone = true; const DataLayout &dl = M(m)->getDataLayout();
  for (auto &g : M(m)->globals()) {
    u64 sz = dl.getTypeAllocSize(g.getValueType()); Obj *o = newObj(sz, K_GLOBAL, 0); o->ro = g.isConstant(); u32 id = m->init.add(o);
    if (id != m->gid[&g]) { fprintf(stderr, "symx: global id mismatch\n"); exit(3); }
    if (g.hasInitializer()) initConst(m, o, g.getInitializer(), 0);
  }
}

struct Dec {
  Mod *m; DFn *d; Function *f; std::unordered_map<const Value *, int> reg; std::map<u64, int> cmap; std::unordered_map<const BasicBlock *, u32> bb;
  int cst(u64 v) { auto it = cmap.find(v); if (it != cmap.end()) return it->second; d->consts.push_back(VC(v)); int r = -(int)d->consts.size(); cmap[v] = r; return r; }
  bool bad = false; DominatorTree *dt = nullptr;
  int opnd(const Value *v) { if (auto *c = dyn_cast<Constant>(v)) { u64 x; if (!constVal(m, c, x)) { bad = true; return cst(0); } return cst(x); }
    if (isa<MetadataAsValue>(v)) return cst(0);
    auto it = reg.find(v); if (it == reg.end()) { bad = true; return cst(0); } return it->second; }
  u32 edge(const BasicBlock *from, const BasicBlock *to) {
    Edge e; e.first = d->phis.size(); e.count = 0; e.target = (u32)(size_t)0; e.back = dt && dt->dominates(to, from);
    for (auto &phi : to->phis()) { int s = opnd(phi.getIncomingValueForBlock(from)); d->phis.push_back({reg[&phi], s}); e.count++; }
    d->edges.push_back(e); pend.push_back({(u32)d->edges.size() - 1, to}); return d->edges.size() - 1;
  }
  std::vector<std::pair<u32, const BasicBlock *>> pend, joins;
  Inst I(Op op, unsigned w = 0) { Inst i; memset(&i, 0, sizeof i); i.op = op; i.w = w; i.dst = -1; return i; }
  void gep(const GEPOperator *g, int dst) {
    const DataLayout &dl = M(m)->getDataLayout(); Inst in = I(O_GEP, 64); in.dst = dst; in.a = opnd(g->getPointerOperand()); in.x = d->geps.size(); i64 off = 0; u32 n = 0;
    for (auto it = gep_type_begin(g), e = gep_type_end(g); it != e; ++it) {
      const Value *ix = it.getOperand();
      if (StructType *st = it.getStructTypeOrNull()) { off += dl.getStructLayout(st)->getElementOffset(cast<ConstantInt>(ix)->getZExtValue()); continue; }
      i64 sz = dl.getTypeAllocSize(it.getIndexedType());
      if (auto *ci = dyn_cast<ConstantInt>(ix)) { off += sz * ci->getSExtValue(); continue; }
      d->geps.push_back({opnd(ix), sz, (u8)tw(ix->getType())}); n++;
    }
    in.imm = off; in.y = n; d->code.push_back(in);
  }
  void call(CallBase *ci) {
    Function *cf = dyn_cast<Function>(ci->getCalledOperand()->stripPointerCasts());
    int dst = ci->getType()->isVoidTy() ? -1 : reg[ci];
    if (cf && cf->isIntrinsic()) {
      Inst in = I(O_NOP); in.dst = dst; auto A = [&](int i) { return opnd(ci->getArgOperand(i)); }; in.w = tw(ci->getType());
      switch (cf->getIntrinsicID()) {
      case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_value: case Intrinsic::dbg_declare: case Intrinsic::dbg_label: case Intrinsic::assume: case Intrinsic::vaend: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::donothing: return;
      case Intrinsic::memcpy: case Intrinsic::memmove: in.op = O_MEMCPY; in.a = A(0); in.b = A(1); in.c = A(2); break;
      case Intrinsic::memset: in.op = O_MEMSET; in.a = A(0); in.b = A(1); in.c = A(2); break;
      case Intrinsic::vastart: in.op = O_VASTART; in.a = A(0); break;
      case Intrinsic::vacopy: in.op = O_VACOPY; in.a = A(0); in.b = A(1); break;
      case Intrinsic::umin: case Intrinsic::umax: case Intrinsic::smin: case Intrinsic::smax: in.op = O_MINMAX; in.a = A(0); in.b = A(1); in.sub = cf->getIntrinsicID() == Intrinsic::umin ? 0 : cf->getIntrinsicID() == Intrinsic::umax ? 1 : cf->getIntrinsicID() == Intrinsic::smin ? 2 : 3; break;
      case Intrinsic::abs: in.op = O_ABS; in.a = A(0); break;
      case Intrinsic::fabs: in.op = O_FABS; in.a = A(0); break;
      case Intrinsic::floor: in.op = O_FFLOOR; in.a = A(0); break;
      case Intrinsic::ceil: in.op = O_FCEIL; in.a = A(0); break;
      case Intrinsic::trunc: in.op = O_FTRUNC; in.a = A(0); break;
      case Intrinsic::bswap: in.op = O_BSWAP; in.a = A(0); break;
      case Intrinsic::ctpop: in.op = O_CTPOP; in.a = A(0); break;
      case Intrinsic::ctlz: in.op = O_CTLZ; in.a = A(0); in.sub = 0; break;
      case Intrinsic::cttz: in.op = O_CTLZ; in.a = A(0); in.sub = 1; break;
      case Intrinsic::fshl: case Intrinsic::fshr: in.op = O_FSH; in.a = A(0); in.b = A(1); in.c = A(2); in.sub = cf->getIntrinsicID() == Intrinsic::fshr; break;
      case Intrinsic::usub_sat: in.op = O_SATSUB; in.a = A(0); in.b = A(1); break;
      case Intrinsic::expect: in.op = O_COPY; in.a = A(0); break;
      case Intrinsic::trap: in.op = O_UNREACHABLE; break;
      default: in.op = O_UNSUP; fprintf(stderr, "symx: note: unsupported intrinsic %s in %s\n", cf->getName().str().c_str(), d->name.c_str()); break;
      }
      d->code.push_back(in); return;
    }
    CallInfo c; c.fn = nullptr; c.builtin = -1; c.indirect = 0; c.isFp = ci->getType()->isDoubleTy(); c.retw = ci->getType()->isVoidTy() ? 0 : tw(ci->getType());
    if (cf) { c.fn = m->fns[m->gid[cf]]; if (c.fn->declared) c.builtin = c.fn->builtin; } else c.indirect = opnd(ci->getCalledOperand());
    for (unsigned i = 0; i < ci->arg_size(); i++) {
      Value *a = ci->getArgOperand(i); c.args.push_back(opnd(a)); c.aw.push_back(a->getType()->isDoubleTy() ? 128 : tw(a->getType()));
      u32 bv = 0; if (ci->isByValArgument(i)) bv = M(m)->getDataLayout().getTypeAllocSize(ci->getParamByValType(i)); c.byval.push_back(bv);
    }
    Inst in = I(O_CALL, c.retw); in.dst = dst; in.x = d->calls.size(); in.sub = cf ? 0 : 1; d->calls.push_back(c); d->code.push_back(in);
  }
  void inst(Instruction &ins) {
    bad = false; size_t before = d->code.size();
    int dst = ins.getType()->isVoidTy() ? -1 : reg[&ins]; unsigned w = tw(ins.getType()); Inst in = I(O_NOP, w); in.dst = dst;
    const DataLayout &dl = M(m)->getDataLayout();
    switch (ins.getOpcode()) {
#define B(L, E) case Instruction::L: in.op = O_BIN; in.sub = E; in.a = opnd(ins.getOperand(0)); in.b = opnd(ins.getOperand(1)); d->code.push_back(in); break;
      B(Add, E_ADD) B(Sub, E_SUB) B(Mul, E_MUL) B(UDiv, E_UDIV) B(SDiv, E_SDIV) B(URem, E_UREM) B(SRem, E_SREM) B(Shl, E_SHL) B(LShr, E_LSHR) B(AShr, E_ASHR) B(And, E_AND) B(Or, E_OR) B(Xor, E_XOR)
#define F(L, E) case Instruction::L: in.op = O_FBIN; in.sub = E; in.a = opnd(ins.getOperand(0)); in.b = opnd(ins.getOperand(1)); if (!ins.getType()->isDoubleTy()) bad = true; d->code.push_back(in); break;
      F(FAdd, E_FADD) F(FSub, E_FSUB) F(FMul, E_FMUL) F(FDiv, E_FDIV)
    case Instruction::FNeg: in.op = O_FNEG; in.a = opnd(ins.getOperand(0)); if (!ins.getType()->isDoubleTy()) bad = true; d->code.push_back(in); break;
    case Instruction::FCmp: { auto *c = cast<FCmpInst>(&ins); in.op = O_FCMP; in.sub = c->getPredicate(); in.a = opnd(c->getOperand(0)); in.b = opnd(c->getOperand(1)); if (!c->getOperand(0)->getType()->isDoubleTy()) bad = true; d->code.push_back(in); break; }
    case Instruction::ICmp: { auto *c = cast<ICmpInst>(&ins); in.op = O_ICMP; in.w = tw(c->getOperand(0)->getType()); in.a = opnd(c->getOperand(0)); in.b = opnd(c->getOperand(1)); 
      switch (c->getPredicate()) { case CmpInst::ICMP_EQ: in.sub = 0; break; case CmpInst::ICMP_NE: in.sub = 1; break; case CmpInst::ICMP_ULT: in.sub = 2; break; case CmpInst::ICMP_ULE: in.sub = 3; break; case CmpInst::ICMP_UGT: in.sub = 2; std::swap(in.a, in.b); break; case CmpInst::ICMP_UGE: in.sub = 3; std::swap(in.a, in.b); break;
        case CmpInst::ICMP_SLT: in.sub = 4; break; case CmpInst::ICMP_SLE: in.sub = 5; break; case CmpInst::ICMP_SGT: in.sub = 4; std::swap(in.a, in.b); break; default: in.sub = 5; std::swap(in.a, in.b); break; }
      d->code.push_back(in); break; }
    case Instruction::ZExt: in.op = O_ZEXT; in.a = opnd(ins.getOperand(0)); in.sub = tw(ins.getOperand(0)->getType()); d->code.push_back(in); break;
    case Instruction::SExt: in.op = O_SEXT; in.a = opnd(ins.getOperand(0)); in.sub = tw(ins.getOperand(0)->getType()); d->code.push_back(in); break;
    case Instruction::Trunc: in.op = O_TRUNC; in.a = opnd(ins.getOperand(0)); in.sub = tw(ins.getOperand(0)->getType()); d->code.push_back(in); break;
    case Instruction::PtrToInt: in.op = w < 64 ? O_TRUNC : O_COPY; in.sub = 64; in.a = opnd(ins.getOperand(0)); d->code.push_back(in); break;
    case Instruction::IntToPtr: { unsigned sw = tw(ins.getOperand(0)->getType()); in.op = sw < 64 ? O_ZEXT : O_COPY; in.sub = sw; in.a = opnd(ins.getOperand(0)); d->code.push_back(in); break; }
    case Instruction::BitCast: { Type *s = ins.getOperand(0)->getType(), *t = ins.getType(); in.op = (s->isDoubleTy() && t->isIntegerTy()) ? O_BITCAST_FI : (s->isIntegerTy() && t->isDoubleTy()) ? O_BITCAST_IF : O_COPY; in.a = opnd(ins.getOperand(0)); d->code.push_back(in); break; }
    case Instruction::Freeze: in.op = O_COPY; in.a = opnd(ins.getOperand(0)); d->code.push_back(in); break;
    case Instruction::SIToFP: in.op = O_SI2F; in.sub = tw(ins.getOperand(0)->getType()); in.a = opnd(ins.getOperand(0)); if (!ins.getType()->isDoubleTy()) bad = true; d->code.push_back(in); break;
    case Instruction::UIToFP: in.op = O_UI2F; in.sub = tw(ins.getOperand(0)->getType()); in.a = opnd(ins.getOperand(0)); if (!ins.getType()->isDoubleTy()) bad = true; d->code.push_back(in); break;
    case Instruction::FPToSI: in.op = O_F2SI; in.a = opnd(ins.getOperand(0)); if (!ins.getOperand(0)->getType()->isDoubleTy()) bad = true; d->code.push_back(in); break;
    case Instruction::FPToUI: in.op = O_F2UI; in.a = opnd(ins.getOperand(0)); if (!ins.getOperand(0)->getType()->isDoubleTy()) bad = true; d->code.push_back(in); break;
    case Instruction::Select: in.op = O_SELECT; in.a = opnd(ins.getOperand(0)); in.b = opnd(ins.getOperand(1)); in.c = opnd(ins.getOperand(2)); in.sub = ins.getType()->isDoubleTy(); d->code.push_back(in); break;
    case Instruction::Load: in.op = O_LOAD; in.a = opnd(ins.getOperand(0)); in.sub = ins.getType()->isDoubleTy(); in.x = dl.getTypeStoreSize(ins.getType()); if (!w || (ins.getType()->isFloatTy())) bad = true; d->code.push_back(in); break;
    case Instruction::Store: { Type *t = ins.getOperand(0)->getType(); in.op = O_STORE; in.a = opnd(ins.getOperand(1)); in.b = opnd(ins.getOperand(0)); in.sub = t->isDoubleTy(); in.w = tw(t); in.x = dl.getTypeStoreSize(t); if (!in.w || t->isFloatTy()) bad = true; d->code.push_back(in); break; }
    case Instruction::GetElementPtr: gep(cast<GEPOperator>(&ins), dst); break;
    case Instruction::Alloca: { auto *a = cast<AllocaInst>(&ins); in.op = O_ALLOCA; in.imm = dl.getTypeAllocSize(a->getAllocatedType()); in.a = opnd(a->getArraySize()); d->code.push_back(in); break; }
    case Instruction::Br: { auto *b = cast<BranchInst>(&ins); if (b->isUnconditional()) { in.op = O_BR; in.x = edge(ins.getParent(), b->getSuccessor(0)); } else { in.op = O_CONDBR; in.a = opnd(b->getCondition()); in.x = edge(ins.getParent(), b->getSuccessor(0)); in.y = edge(ins.getParent(), b->getSuccessor(1)); in.imm = -1; joins.push_back({(u32)d->code.size(), ins.getParent()}); } d->code.push_back(in); break; }
    case Instruction::Switch: { auto *s = cast<SwitchInst>(&ins); SwitchInfo si; si.def = edge(ins.getParent(), s->getDefaultDest()); for (auto &c : s->cases()) { u64 v = c.getCaseValue()->getZExtValue(); u32 e = edge(ins.getParent(), c.getCaseSuccessor()); si.vals.push_back(v); si.edges.push_back(e); si.m[v] = e; }
      in.op = O_SWITCH; in.w = tw(s->getCondition()->getType()); in.a = opnd(s->getCondition()); in.x = d->switches.size(); d->switches.push_back(si); d->code.push_back(in); break; }
    case Instruction::Ret: in.op = O_RET; in.sub = 0; if (ins.getNumOperands()) { in.a = opnd(ins.getOperand(0)); in.sub = 1; } d->code.push_back(in); break;
    case Instruction::Unreachable: in.op = O_UNREACHABLE; d->code.push_back(in); break;
    case Instruction::Call: call(cast<CallBase>(&ins)); break;
    case Instruction::PHI: break;
    default: in.op = O_UNSUP; d->code.push_back(in); break;
    }
    if (bad) { d->code.resize(before); Inst u = I(O_UNSUP); d->code.push_back(u); std::string s; raw_string_ostream os(s); ins.print(os); if (getenv("SYMX_NOTES")) fprintf(stderr, "symx: note: unsupported instruction in %s: %s\n", d->name.c_str(), s.c_str()); }
  }
  void run() {
    DominatorTree dom(*f); dt = &dom; u32 n = 0; for (auto &a : f->args()) reg[&a] = n++; d->nargs = n;
    for (auto &b : *f) for (auto &i : b) if (!i.getType()->isVoidTy()) reg[&i] = n++;
    d->nregs = n; d->retFp = f->getReturnType()->isDoubleTy();
    for (auto &b : *f) { bb[&b] = d->code.size(); for (auto &i : b) inst(i); }
    for (auto &p : pend) d->edges[p.first].target = bb[p.second];
    if (!joins.empty()) { PostDominatorTree pdt(*f); for (auto &j : joins) { auto *nd = pdt.getNode(const_cast<BasicBlock *>(j.second)); auto *id = nd ? nd->getIDom() : nullptr; if (id && id->getBlock()) d->code[j.first].imm = bb[id->getBlock()]; } }
  }
};
void decodeFn(Mod *m, DFn *d) { d->decoded = true; Dec x; x.m = m; x.d = d; x.f = (Function *)d->llvm; x.run(); }
