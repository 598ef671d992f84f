#pragma once
#include "expr.h"
#include <string>
#include <vector>
#include <unordered_map>
namespace llvm {
class Function;
class Instruction;
class GlobalVariable;
class Module;
} // namespace llvm
struct Val {
    Expr* e = nullptr;
    u64 c = 0;
};
inline Val CV(u64 c) {
    Val v;
    v.c = c;
    return v;
}
inline Val EV(Expr* e) {
    Val v;
    if(e->isC())
        v.c = e->c;
    else
        v.e = e;
    return v;
}
inline Expr* toE(const Val& v, unsigned w) { return v.e ? v.e : (w <= 64 ? mkConst(v.c, w) : mkConstWide(v.c, w)); }
enum IOp : u8 {
    I_ADD,
    I_SUB,
    I_MUL,
    I_UDIV,
    I_SDIV,
    I_UREM,
    I_SREM,
    I_AND,
    I_OR,
    I_XOR,
    I_SHL,
    I_LSHR,
    I_ASHR,
    I_ICMP,
    I_FCMP,
    I_FBIN,
    I_FNEG,
    I_TRUNC,
    I_ZEXT,
    I_SEXT,
    I_COPY,
    I_FCONV,
    I_SELECT,
    I_GEP,
    I_LOAD,
    I_STORE,
    I_ALLOCA,
    I_CALL,
    I_BR,
    I_CBR,
    I_SWITCH,
    I_RET,
    I_UNREACH,
    I_RESUME,
    I_LPAD,
    I_CMPXCHG,
    I_RMW,
    I_FENCE,
    I_UNSUP
};
struct Ins {
    IOp op;
    u8 sub = 0;
    u16 w = 0;
    u16 w2 = 0;
    int d = 0, a = 0, b = 0, c = 0;
    i64 imm = 0;
    u32 x = 0;
    bool hs = false;
    const llvm::Instruction* src = nullptr;
};
struct Copy {
    int src, dst;
};
struct Edge {
    u32 target;
    std::vector<Copy> cp;
};
struct GepIdx {
    int op;
    i64 scale;
    u16 w;
};
struct Fn;
struct CallInfo {
    Fn* callee = nullptr;
    int calleeOp = 0;
    std::vector<int> args;
    std::vector<u16> argW;
    std::vector<u64> byval;
    int nret = 0;
    u16 retW = 0;
    bool invoke = false;
    Edge normal, unwind;
    std::vector<std::pair<int, u32>> byvalIdx;
};
struct SwitchInfo {
    std::vector<std::pair<u64, Edge>> cases;
    Edge def;
};
struct LpInfo {
    bool cleanup;
    std::vector<u64> clauses;
    bool filter = false;
};
struct Fn {
    std::string name, pretty;
    const llvm::Function* f = nullptr;
    u32 id = 0;
    bool decl = false, lowered = false;
    int nargs = 0, nslots = 0;
    std::vector<u16> argW;
    std::vector<Ins> code;
    std::vector<Val> consts;
    std::vector<CallInfo> calls;
    std::vector<Edge> edges;
    std::vector<SwitchInfo> sw;
    std::vector<std::vector<GepIdx>> geps;
    std::vector<LpInfo> lps;
    int ext = -1;
    u64 execs = 0;
    int nret = 0;
    bool repo = false;
    std::string file;
};
extern std::vector<Fn*> g_fns;
extern std::unordered_map<std::string, Fn*> g_fnByName;
static const u64 FN_BASE = 0x7f00000000000000ull;
struct GlobalInit {
    u64 addr;
    u64 size;
    std::string name;
    bool constant;
    std::vector<u8> bytes;
    bool ext;
};
extern std::vector<GlobalInit> g_globals; // object id = index
extern std::unordered_map<std::string, u64> g_globalByName;
extern std::vector<std::pair<u32, Fn*>> g_ctors;
void loadProgram(const std::string& file);
void lower(Fn* f);
std::string insLoc(const llvm::Instruction*);
std::string demangle(const std::string&);
