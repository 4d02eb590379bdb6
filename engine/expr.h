// Symbolic expressions: hash-consed bit-vector DAG with interval analysis and simplification.
#pragma once
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <algorithm>

typedef uint64_t u64; typedef int64_t i64; typedef uint32_t u32; typedef uint16_t u16; typedef uint8_t u8;
typedef __int128 i128; typedef unsigned __int128 u128;

enum EOp : u8 { E_CONST, E_VAR, E_ADD, E_SUB, E_MUL, E_UDIV, E_SDIV, E_UREM, E_SREM, E_SHL, E_LSHR, E_ASHR,
  E_AND, E_OR, E_XOR, E_EQ, E_ULT, E_ULE, E_SLT, E_SLE, E_ZEXT, E_SEXT, E_EXTRACT, E_CONCAT, E_ITE,
  // double-valued (fp==true)
  E_FI2D,   // exact conversion of a signed 64-bit integer of magnitude <= 2^53
  E_FQUOT,  // correctly rounded quotient of two exact integers (a / b), b != 0
  E_FITE,   // ite over doubles
  E_FHALF,  // exact dyadic: a / 2^aux  (|a| <= 2^53)
  E_FADD, E_FSUB, E_FMUL, E_FDIV, // general IEEE double operations (decided by z3's FP theory)
  E_FFLOOR, E_FCEIL, E_FTRUNC, E_FCONST,
  // bit-vectors from doubles
  E_FBITS,  // the 64 bits of a double
  E_FLT, E_FLE, E_FEQ, // general comparisons
  E_F2SI    // truncation to a signed 64-bit integer (general)
};

struct Expr {
  EOp op; u8 w; bool fp; u8 aux2; u32 id; u32 depth; u32 aux; // aux: extract low bit / var index
  u64 val;
  Expr *a, *b, *c;
  u64 ulo, uhi; i64 slo, shi;
  u64 sup0, sup1; // over-approximate support (variable id mod 128)
  double flo, fhi; // bounds of a double-valued node
  u32 evalEpoch; u64 evalVal;
  void *z3; u32 nodes;
};
typedef Expr *EP;

inline u64 maskw(unsigned w) { return w >= 64 ? ~0ULL : ((1ULL << w) - 1); }
inline i64 sextw(u64 v, unsigned w) { if (w >= 64) return (i64)v; u64 m = 1ULL << (w - 1); v &= maskw(w); return (i64)((v ^ m) - m); }

struct VarInfo { std::string name; u8 w; u64 lo, hi; u32 seq; EP e; };
extern std::vector<VarInfo> g_vars;

EP mkConst(u64 v, unsigned w);
EP mkVar(const std::string &name, u32 seq, unsigned w, u64 lo, u64 hi);
EP mkBin(EOp op, EP a, EP b);
EP mkZExt(EP a, unsigned w);
EP mkSExt(EP a, unsigned w);
EP mkExtract(EP a, unsigned hi, unsigned lo);
EP mkRawExtract(EP a, unsigned hi, unsigned lo); // not simplified: memory cells keep the value they are part of
EP mkConcat(EP hi, EP lo);
EP mkIte(EP c, EP t, EP f);
EP mkEq(EP a, EP b);
EP mkNot(EP a); // 1-bit
EP mkFI2D(EP e64);
EP mkFBits(EP f);
EP mkFNode(EOp op, EP a, EP b, EP c = nullptr, u64 val = 0);
inline bool isC(EP e) { return e->op == E_CONST; }
inline EP mkAnd1(EP a, EP b) { return mkBin(E_AND, a, b); }
inline EP mkOr1(EP a, EP b) { return mkBin(E_OR, a, b); }
u64 evalE(EP e, const std::vector<u64> &model); // doubles are returned as their bits
extern u32 g_evalEpoch;
std::string exprStr(EP e, int depth = 6);
unsigned trailingZeros(EP e);
u64 sumDivisor(EP e, int depth = 0); EP sumQuotient(EP e, u64 g);
inline double asD(u64 b) { double d; memcpy(&d, &b, 8); return d; }
inline u64 fromD(double d) { u64 b; memcpy(&b, &d, 8); return b; }
