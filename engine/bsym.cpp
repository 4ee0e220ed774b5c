// bsym: symbolic executor for LLVM IR, used to decide the properties of /verif/properties.jsonl
// on the code of /repo (compiled to IR by clang on every run).
//
//   bsym --bc file.bc --job NAME --out result.json [--mode real|fp] [--sched det|all] ...
//
// Semantics:  `real`  floating point values are exact real numbers, held as rational functions of the
//                     symbolic inputs (ratfun.hpp); comparisons become SMT constraints over Real.
//             `fp`    concrete floating point values are IEEE; symbolic ones are SMT FloatingPoint
//                     terms, comparisons are bit precise, arithmetic results are over-approximated
//                     first and refined to the exact operation before anything is reported.
// Integers are bit vectors, memory is byte addressed with bounds, lifetime and initialisation state.
#include <llvm/Demangle/Demangle.h>
#include <llvm/Bitcode/BitcodeWriter.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/InstrTypes.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Operator.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <z3++.h>

#include <sys/resource.h>
#include <unistd.h>
#include <chrono>
#include <cmath>
#include <cstring>
#include <deque>
#include <functional>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>
#include <unordered_set>

#include "ratfun.hpp"

using namespace llvm;
using std::string;
using std::vector;
using rf::RFp;

// ------------------------------------------------------------------------------------ options
static string optBC, optJob, optOut, optMode = "real", optSched = "det";
static bool optFpMode = false;
static string optTrunc = "err";
static double optTime = 300;
static uint64_t optMaxPaths = 200000, optMaxSteps = 4000000000ull, optMaxViol = 3;
static unsigned optTimeoutMs = 60000;
static bool optLeak = true, optVerbose = false, optRace = false, optDedupe = true;
static std::string optInstr;
static bool optTsan;
static int optPreempt = -1;  // bound on preemptions, -1: none
static int optSpurious = 0;

static double now() {
    using namespace std::chrono;
    return duration<double>(steady_clock::now().time_since_epoch()).count();
}
static double T0;

// ------------------------------------------------------------------------------------ values
struct Val;
struct Slice;  // memory contents
static z3::context* Z;
struct Val {
    enum K : uint8_t { Undef, Int, SInt, Real, Fp, SFp, Agg, Pieces } k = Undef;
    uint16_t bits = 0;
    uint64_t u = 0;  // Int: value; Fp: bits of the double; SInt: provenance base address (or 0)
    std::shared_ptr<const void> p;
    const RFp real() const { return std::static_pointer_cast<const rf::RF>(p); }
    const z3::expr& ex() const { return *static_cast<const z3::expr*>(p.get()); }
    const vector<Val>& agg() const { return *static_cast<const vector<Val>*>(p.get()); }
    const Slice& pieces() const { return *static_cast<const Slice*>(p.get()); }
    double fp() const { double d; memcpy(&d, &u, 8); return d; }
};
static inline uint64_t maskb(unsigned b) { return b >= 64 ? ~0ull : ((1ull << b) - 1); }
static inline int64_t sext(uint64_t v, unsigned b) { return b >= 64 ? (int64_t)v : (int64_t)(v << (64 - b)) >> (64 - b); }
static Val vInt(uint64_t v, unsigned b) { Val r; r.k = Val::Int; r.bits = b; r.u = v & maskb(b); return r; }
static Val vUndef(unsigned b = 0) { Val r; r.bits = b; return r; }
static Val vReal(RFp x, unsigned b = 64) { Val r; r.k = Val::Real; r.bits = b; r.p = x; return r; }
static Val vEx(Val::K k, const z3::expr& e, unsigned b, uint64_t prov = 0) { Val r; r.k = k; r.bits = b; r.u = prov; r.p = std::make_shared<z3::expr>(e); return r; }
static Val vFp(double d, unsigned b = 64) { Val r; r.k = Val::Fp; r.bits = b; memcpy(&r.u, &d, 8); return r; }
static Val vAgg(vector<Val> v) { Val r; r.k = Val::Agg; r.p = std::make_shared<vector<Val>>(std::move(v)); return r; }
static Val vBool(const z3::expr& e) {
    z3::expr s = e.simplify();
    if (s.is_true()) return vInt(1, 1);
    if (s.is_false()) return vInt(0, 1);
    return vEx(Val::SInt, s, 1);
}
static z3::expr toBV(const Val& v) {
    if (v.k == Val::Int) return v.bits == 1 ? Z->bool_val(v.u & 1) : Z->bv_val((uint64_t)v.u, v.bits);
    if (v.k == Val::SFp) return z3::expr(*Z, Z3_mk_fpa_to_ieee_bv(*Z, v.ex()));  // the bits of a floating point term (any pattern for a NaN)
    return v.ex();
}
static Val vBV(const z3::expr& e, unsigned b, uint64_t prov = 0) {
    z3::expr s = e.simplify();
    if (b == 1) return vBool(s);
    uint64_t x;
    if (s.is_numeral_u64(x)) return vInt(x, b);
    return vEx(Val::SInt, s, b, prov);
}

struct Slice {
    vector<uint8_t> d, fl;  // fl: 0 uninitialised, 1 concrete, 2 cell start, 3 inside cell
    std::map<uint32_t, Val> cells;
    explicit Slice(size_t n = 0) : d(n), fl(n) {}
};

// ------------------------------------------------------------------------------------ errors
struct Unsupported { string msg; };
struct PathEnd {};          // path infeasible / terminated quietly
[[noreturn]] static void unsup(const string& m) { throw Unsupported{m}; }

// ------------------------------------------------------------------------------------ memory
enum ObjKind : uint8_t { OStack, OHeapNew, OHeapArr, OHeapMalloc, OGlobal, OConst, OExc, OTls };
struct Obj {
    uint64_t base, size;
    Slice m;
    ObjKind kind;
    bool sync = false;
    uint32_t site = 0;
    Obj(uint64_t b, uint64_t s, ObjKind k) : base(b), size(s), m(s), kind(k) {}
};
using ObjP = std::shared_ptr<Obj>;

static bool realToBits(const Val& v, uint64_t& out) {  // concrete fp value -> bit pattern
    if (v.k == Val::Fp) {
        if (v.bits == 32) { float f = (float)v.fp(); uint32_t w; memcpy(&w, &f, 4); out = w; }
        else out = v.u;
        return true;
    }
    if (v.k == Val::Real) {
        auto r = v.real();
        double d;
        if (r->sp) d = r->sp == rf::RF::NANV ? NAN : r->sp == rf::RF::PINF ? INFINITY : -INFINITY;
        else if (!r->c) return false;
        else { d = r->v.get_d(); if (mpq_class(d) != r->v) return false; }
        if (v.bits == 32) { float f = (float)d; if ((double)f != d && d == d) return false; uint32_t w; memcpy(&w, &f, 4); out = w; }
        else memcpy(&out, &d, 8);
        return true;
    }
    return false;
}
static Val bitsToFp(uint64_t b, unsigned bits) {
    double d;
    if (bits == 32) { uint32_t w = (uint32_t)b; float f; memcpy(&f, &w, 4); d = f; }
    else memcpy(&d, &b, 8);
    if (optFpMode) return vFp(d, bits);
    if (std::isnan(d)) return vReal(rf::mksp(rf::RF::NANV), bits);
    if (std::isinf(d)) return vReal(rf::mksp(d > 0 ? rf::RF::PINF : rf::RF::NINF), bits);
    return vReal(rf::mkc(mpq_class(d)), bits);
}
static void sliceKill(Slice& m, uint64_t off, uint64_t n) {  // destroy cells overlapping [off,off+n)
    if (m.cells.empty()) return;
    auto it = m.cells.lower_bound((uint32_t)(off >= 15 ? off - 15 : 0));
    while (it != m.cells.end() && it->first < off + n) {
        uint32_t o = it->first, sz = it->second.bits / 8;
        if (o + sz > off) {
            uint64_t raw;
            bool ok = realToBits(it->second, raw);
            for (uint32_t k = 0; k < sz; ++k) {
                m.fl[o + k] = ok ? 1 : 0;
                if (ok) m.d[o + k] = (uint8_t)(raw >> (8 * k));
            }
            it = m.cells.erase(it);
        } else ++it;
    }
}
static void sliceStore(Slice& m, uint64_t off, unsigned n, const Val& v) {
    sliceKill(m, off, n);
    switch (v.k) {
        case Val::Undef: for (unsigned i = 0; i < n; ++i) m.fl[off + i] = 0; break;
        case Val::Int:
            for (unsigned i = 0; i < n; ++i) { m.d[off + i] = i < 8 ? (uint8_t)(v.u >> (8 * i)) : 0; m.fl[off + i] = 1; }
            break;
        case Val::Pieces: {
            const Slice& p = v.pieces();
            for (unsigned i = 0; i < n; ++i) {
                if (i < p.d.size()) { m.d[off + i] = p.d[i]; m.fl[off + i] = p.fl[i]; }
                else { m.d[off + i] = 0; m.fl[off + i] = 1; }
            }
            for (auto& c : p.cells) if (c.first < n) m.cells[(uint32_t)off + c.first] = c.second;
            break;
        }
        default:
            m.fl[off] = 2;
            for (unsigned i = 1; i < n; ++i) m.fl[off + i] = 3;
            { Val w = v; w.bits = n * 8; m.cells[(uint32_t)off] = w; }
    }
}
static Slice sliceGet(const Slice& m, uint64_t off, uint64_t n) {
    Slice r(n);
    memcpy(r.d.data(), m.d.data() + off, n);
    memcpy(r.fl.data(), m.fl.data() + off, n);
    if (!m.cells.empty()) {
        auto it = m.cells.lower_bound((uint32_t)(off >= 15 ? off - 15 : 0));
        for (; it != m.cells.end() && it->first < off + n; ++it) {
            uint32_t o = it->first, sz = it->second.bits / 8;
            if (o + sz <= off) continue;
            if (o >= off && o + sz <= off + n) r.cells[o - (uint32_t)off] = it->second;
            else {
                uint64_t raw;
                bool ok = realToBits(it->second, raw);
                for (uint32_t k = 0; k < sz; ++k)
                    if (o + k >= off && o + k < off + n) {
                        r.fl[o + k - off] = ok ? 1 : 0;
                        if (ok) r.d[o + k - off] = (uint8_t)(raw >> (8 * k));
                    }
            }
        }
    }
    return r;
}
static void slicePut(Slice& m, uint64_t off, const Slice& s) {
    size_t n = s.d.size();
    if (!n) return;
    sliceKill(m, off, n);
    memcpy(m.d.data() + off, s.d.data(), n);
    memcpy(m.fl.data() + off, s.fl.data(), n);
    for (auto& c : s.cells) m.cells[(uint32_t)off + c.first] = c.second;
}
static Val sliceLoad(const Slice& m, uint64_t off, unsigned n, bool isfp) {
    bool all1 = true, all0 = true;
    for (unsigned i = 0; i < n; ++i) { if (m.fl[off + i] != 1) all1 = false; if (m.fl[off + i] != 0) all0 = false; }
    if (all1) {
        if (n <= 8) {
            uint64_t v = 0;
            for (unsigned i = 0; i < n; ++i) v |= (uint64_t)m.d[off + i] << (8 * i);
            return isfp ? bitsToFp(v, n * 8) : vInt(v, n * 8);
        }
    }
    if (all0) return vUndef(n * 8);
    if (m.fl[off] == 2) {
        auto it = m.cells.find((uint32_t)off);
        if (it != m.cells.end() && it->second.bits == n * 8) {
            if (isfp && it->second.k == Val::SInt) unsup("integer term reinterpreted as floating point");
            return it->second;
        }
    }
    if (isfp) {
        Slice s = sliceGet(m, off, n);
        for (auto f : s.fl) if (f == 0) return vUndef(n * 8);
        bool c = true;
        for (auto f : s.fl) if (f != 1) c = false;
        if (c) { uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v |= (uint64_t)s.d[i] << (8 * i); return bitsToFp(v, n * 8); }
        return vUndef(n * 8);
    }
    Slice s = sliceGet(m, off, n);
    bool c = n <= 8;
    for (auto f : s.fl) if (f != 1) c = false;
    if (c) { uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v |= (uint64_t)s.d[i] << (8 * i); return vInt(v, n * 8); }
    Val r;
    r.k = Val::Pieces;
    r.bits = n * 8;
    r.p = std::make_shared<Slice>(std::move(s));
    return r;
}
static Val piecesNorm(Slice s, unsigned bits) {
    Val r;
    unsigned n = s.d.size();
    bool c = n <= 8, z = true;
    for (auto f : s.fl) { if (f != 1) c = false; if (f) z = false; }
    if (z) return vUndef(bits);
    if (c) { uint64_t v = 0; for (unsigned i = 0; i < n; ++i) v |= (uint64_t)s.d[i] << (8 * i); return vInt(v, bits); }
    if (s.fl[0] == 2) { auto it = s.cells.find(0); if (it != s.cells.end() && it->second.bits == n * 8) return it->second; }
    r.k = Val::Pieces; r.bits = bits; r.p = std::make_shared<Slice>(std::move(s));
    return r;
}
static Val toPieces(const Val& v) {
    if (v.k == Val::Pieces) return v;
    Slice s(v.bits / 8);
    sliceStore(s, 0, v.bits / 8, v);
    Val r; r.k = Val::Pieces; r.bits = v.bits; r.p = std::make_shared<Slice>(std::move(s));
    return r;
}

// ------------------------------------------------------------------------------------ program
enum TK : uint8_t { TVoid, TInt, TF32, TF64, TPtr, TAgg };
struct TyInfo { TK k; unsigned bits; unsigned bytes; };
struct Op { int reg = -1; Val c; };
struct FInfo;
struct IInfo {
    Instruction* I;
    unsigned opc;
    int dst = -1;
    vector<Op> ops;
    TyInfo ty{TVoid, 0, 0};      // result (or stored value)
    Type* T = nullptr;           // memory type
    int64_t goff = 0;            // gep
    vector<std::pair<int, int64_t>> gidx;
    int b0 = -1, b1 = -1;        // branch targets
    Function* callee = nullptr;
    FInfo* cf = nullptr;
    int handler = -1;
};
struct BInfo { vector<IInfo> in; BasicBlock* B; };
struct FInfo {
    Function* F;
    vector<BInfo> bb;
    std::unordered_map<const BasicBlock*, int> bidx;
    int nregs = 0;
    uint64_t calls = 0;
    bool built = false;
    vector<vector<bool>> liveIn;                                    // per block, before its first non-phi instruction
    std::unordered_map<uint64_t, vector<int>> liveAt;               // (block, instruction) -> registers still needed
};
// registers whose value can still be used by the function from this point on
static const vector<int>& liveRegs(FInfo* f, int bb, int ip) {
    uint64_t k = (uint64_t)bb << 32 | (uint32_t)ip;
    auto it = f->liveAt.find(k);
    if (it != f->liveAt.end()) return it->second;
    auto succ = [&](int b) {
        vector<int> r;
        if (f->bb[b].in.empty()) return r;
        auto& t = f->bb[b].in.back();
        if (t.opc == Instruction::Br || t.opc == Instruction::Invoke || t.opc == Instruction::Switch) {
            if (t.b0 >= 0) r.push_back(t.b0);
            if (t.b1 >= 0) r.push_back(t.b1);
            if (t.opc == Instruction::Switch) for (auto& g : t.gidx) r.push_back(g.first);
        }
        return r;
    };
    auto scan = [&](int b, int from) {  // live before instruction `from` of block b
        vector<bool> L(f->nregs);
        for (int x : succ(b)) {
            for (int i = 0; i < f->nregs; ++i) if (f->liveIn[x][i]) L[i] = true;
            for (auto& in : f->bb[x].in) { if (in.opc != Instruction::PHI) break; for (size_t i = 0; i < in.ops.size(); ++i) if (in.gidx[i].first == b && in.ops[i].reg >= 0) L[in.ops[i].reg] = true; }
        }
        for (int i = (int)f->bb[b].in.size() - 1; i >= std::max(from, 0); --i) {
            auto& in = f->bb[b].in[i];
            if (in.dst >= 0) L[in.dst] = false;
            if (in.opc != Instruction::PHI) for (auto& o : in.ops) if (o.reg >= 0) L[o.reg] = true;
        }
        return L;
    };
    if (f->liveIn.empty()) {
        f->liveIn.assign(f->bb.size(), vector<bool>(f->nregs));
        for (bool ch = true; ch;) {
            ch = false;
            for (int b = (int)f->bb.size() - 1; b >= 0; --b) { auto L = scan(b, 0); if (L != f->liveIn[b]) { f->liveIn[b] = L; ch = true; } }
        }
    }
    auto L = scan(bb, ip);
    vector<int> r;
    for (int i = 0; i < f->nregs; ++i) if (L[i]) r.push_back(i);
    return f->liveAt[k] = r;
}

static LLVMContext LC;
static std::unique_ptr<Module> M;
static const DataLayout* DL;
static std::unordered_map<const Function*, FInfo*> FI;
static std::unordered_map<const GlobalValue*, uint64_t> GA;
static std::unordered_map<uint64_t, Function*> FA;
static std::map<uint64_t, ObjP> GOBJ;
static uint64_t gnext = 0x10000000ull;
static std::unordered_map<uint64_t, string> TIname;   // typeinfo address -> symbol
static std::unordered_map<const GlobalValue*, bool> TLSG;

static TyInfo tyInfo(Type* T) {
    if (T->isVoidTy()) return {TVoid, 0, 0};
    if (T->isIntegerTy()) return {TInt, T->getIntegerBitWidth(), (T->getIntegerBitWidth() + 7) / 8};
    if (T->isFloatTy()) return {TF32, 32, 4};
    if (T->isDoubleTy()) return {TF64, 64, 8};
    if (T->isPointerTy()) return {TPtr, 64, 8};
    if (T->isAggregateType() || isa<FixedVectorType>(T)) return {TAgg, 0, (unsigned)DL->getTypeAllocSize(T)};
    if (T->isX86_FP80Ty()) return {TAgg, 80, 16};
    return {TVoid, 0, 0};
}
static uint64_t globalAddr(const GlobalValue* g);
static Val constVal(const Constant* C);
static Val undefOf(Type* T) {
    if (T->isAggregateType() || isa<FixedVectorType>(T)) {
        vector<Val> v;
        unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
        for (unsigned i = 0; i < n; ++i) v.push_back(undefOf(T->isStructTy() ? T->getStructElementType(i) : T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType()));
        return vAgg(v);
    }
    return vUndef(tyInfo(T).bits);
}
static Val zeroOf(Type* T) {
    if (T->isAggregateType() || isa<FixedVectorType>(T)) {
        vector<Val> v;
        unsigned n = T->isStructTy() ? T->getStructNumElements() : T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
        for (unsigned i = 0; i < n; ++i) v.push_back(zeroOf(T->isStructTy() ? T->getStructElementType(i) : T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType()));
        return vAgg(v);
    }
    TyInfo t = tyInfo(T);
    if (t.k == TF32 || t.k == TF64) return bitsToFp(0, t.bits);
    return vInt(0, t.bits);
}
static Val constVal(const Constant* C) {
    Type* T = C->getType();
    if (auto* ci = dyn_cast<ConstantInt>(C)) {
        if (ci->getBitWidth() > 64) {
            Slice s(16);
            for (unsigned i = 0; i < 16; ++i) { s.fl[i] = 1; s.d[i] = (uint8_t)ci->getValue().extractBitsAsZExtValue(8, i * 8); }
            Val r; r.k = Val::Pieces; r.bits = 128; r.p = std::make_shared<Slice>(s);
            return r;
        }
        return vInt(ci->getZExtValue(), ci->getBitWidth());
    }
    if (auto* cf = dyn_cast<ConstantFP>(C)) {
        if (T->isDoubleTy() || T->isFloatTy())
            return bitsToFp(cf->getValueAPF().bitcastToAPInt().getZExtValue(), T->isDoubleTy() ? 64 : 32);
        return vUndef(80);
    }
    if (isa<ConstantPointerNull>(C)) return vInt(0, 64);
    if (isa<UndefValue>(C)) return undefOf(T);
    if (isa<ConstantAggregateZero>(C)) return zeroOf(T);
    if (auto* gv = dyn_cast<GlobalValue>(C)) return vInt(globalAddr(gv), 64);
    if (auto* ca = dyn_cast<ConstantAggregate>(C)) {
        vector<Val> v;
        for (auto& o : ca->operands()) v.push_back(constVal(cast<Constant>(o)));
        return vAgg(v);
    }
    if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
        vector<Val> v;
        for (unsigned i = 0; i < cd->getNumElements(); ++i) v.push_back(constVal(cd->getElementAsConstant(i)));
        return vAgg(v);
    }
    if (auto* ce = dyn_cast<ConstantExpr>(C)) {
        switch (ce->getOpcode()) {
            case Instruction::GetElementPtr: {
                Val b = constVal(ce->getOperand(0));
                APInt off(64, 0);
                if (!cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off)) unsup("constant gep");
                return vInt(b.u + off.getSExtValue(), 64);
            }
            case Instruction::PtrToInt: { Val b = constVal(ce->getOperand(0)); return vInt(b.u, T->getIntegerBitWidth()); }
            case Instruction::IntToPtr:
            case Instruction::BitCast:
            case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
            case Instruction::Sub: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return vInt(a.u - b.u, a.bits); }
            case Instruction::Add: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return vInt(a.u + b.u, a.bits); }
            case Instruction::Trunc: { Val a = constVal(ce->getOperand(0)); return vInt(a.u, T->getIntegerBitWidth()); }
            default: unsup(string("constant expression ") + ce->getOpcodeName());
        }
    }
    unsup("constant kind");
}
static void storeTyped(Slice& m, uint64_t off, Type* T, const Val& v) {
    TyInfo t = tyInfo(T);
    if (t.k == TAgg && v.k == Val::Agg) {
        auto& a = v.agg();
        if (auto* st = dyn_cast<StructType>(T)) {
            auto* sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < a.size(); ++i) storeTyped(m, off + sl->getElementOffset(i), st->getElementType(i), a[i]);
        } else {
            Type* e = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
            uint64_t es = DL->getTypeAllocSize(e);
            for (unsigned i = 0; i < a.size(); ++i) storeTyped(m, off + i * es, e, a[i]);
        }
        return;
    }
    sliceStore(m, off, t.bytes, v);
}
static Val loadTyped(const Slice& m, uint64_t off, Type* T) {
    TyInfo t = tyInfo(T);
    if (t.k == TAgg && t.bits == 0) {
        vector<Val> a;
        if (auto* st = dyn_cast<StructType>(T)) {
            auto* sl = DL->getStructLayout(st);
            for (unsigned i = 0; i < st->getNumElements(); ++i) a.push_back(loadTyped(m, off + sl->getElementOffset(i), st->getElementType(i)));
        } else {
            Type* e = T->isArrayTy() ? T->getArrayElementType() : cast<FixedVectorType>(T)->getElementType();
            unsigned n = T->isArrayTy() ? T->getArrayNumElements() : cast<FixedVectorType>(T)->getNumElements();
            uint64_t es = DL->getTypeAllocSize(e);
            for (unsigned i = 0; i < n; ++i) a.push_back(loadTyped(m, off + i * es, e));
        }
        return vAgg(a);
    }
    Val v = sliceLoad(m, off, t.bytes, t.k == TF32 || t.k == TF64);
    if (t.k == TInt && t.bits < 8 * t.bytes) {  // i1 and odd widths
        if (v.k == Val::Int) return vInt(v.u, t.bits);
        if (v.k == Val::SInt) return t.bits == 1 ? vBool(v.ex().extract(0, 0) == Z->bv_val(1, 1)) : vBV(v.ex().extract(t.bits - 1, 0), t.bits);
    }
    return v;
}
static uint64_t globalAddr(const GlobalValue* g0) {
    const GlobalValue* g = g0;
    if (auto* ga = dyn_cast<GlobalAlias>(g)) return constVal(ga->getAliasee()).u;
    auto it = GA.find(g);
    if (it != GA.end()) return it->second;
    uint64_t a;
    if (auto* f = dyn_cast<Function>(g)) {
        a = gnext;
        gnext += 64;
        GA[g] = a;
        FA[a] = const_cast<Function*>(f);
        return a;
    }
    auto* v = cast<GlobalVariable>(g);
    uint64_t sz = v->isDeclaration() ? 64 : DL->getTypeAllocSize(v->getValueType());
    gnext = (gnext + 63) & ~63ull;
    a = gnext;
    gnext += ((sz + 63) & ~63ull) + 4096;
    GA[g] = a;
    auto o = std::make_shared<Obj>(a, sz, v->isConstant() ? OConst : OGlobal);
    if (v->getName().starts_with("_ZTI")) TIname[a] = v->getName().str();
    GOBJ[a] = o;
    if (!v->isDeclaration()) storeTyped(o->m, 0, v->getValueType(), constVal(v->getInitializer()));
    else for (auto& f : o->m.fl) f = 1;  // opaque external object: zero
    if (!v->isDeclaration()) {
        // padding of globals is zero
        for (size_t i = 0; i < o->m.fl.size(); ++i) if (o->m.fl[i] == 0) { o->m.fl[i] = 1; o->m.d[i] = 0; }
    }
    return a;
}
static int handlerId(const string& name);

static FInfo* finfo(Function* F) {
    auto it = FI.find(F);
    FInfo* fi;
    if (it != FI.end()) fi = it->second;
    else { fi = new FInfo; fi->F = F; FI[F] = fi; }
    if (fi->built || F->isDeclaration()) return fi;
    fi->built = true;
    std::unordered_map<const Value*, int> reg;
    for (auto& a : F->args()) reg[&a] = fi->nregs++;
    int bi = 0;
    for (auto& B : *F) { fi->bidx[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) reg[&I] = fi->nregs++; }
    auto mk = [&](Value* v) {
        Op o;
        if (auto* c = dyn_cast<Constant>(v)) o.c = constVal(c);
        else if (reg.count(v)) o.reg = reg[v];
        return o;
    };
    fi->bb.resize(bi);
    bi = 0;
    for (auto& B : *F) {
        auto& b = fi->bb[bi++];
        b.B = &B;
        for (auto& I : B) {
            if (isa<DbgInfoIntrinsic>(I)) continue;
            IInfo x;
            x.I = &I;
            x.opc = I.getOpcode();
            if (!I.getType()->isVoidTy()) { x.dst = reg[&I]; x.ty = tyInfo(I.getType()); }
            if (auto* ph = dyn_cast<PHINode>(&I)) {
                for (unsigned i = 0; i < ph->getNumIncomingValues(); ++i) {
                    x.ops.push_back(mk(ph->getIncomingValue(i)));
                    x.gidx.push_back({fi->bidx[ph->getIncomingBlock(i)], 0});
                }
            } else if (auto* g = dyn_cast<GetElementPtrInst>(&I)) {
                if (g->getType()->isVectorTy()) { x.opc = 9999; b.in.push_back(x); continue; }
                x.ops.push_back(mk(g->getPointerOperand()));
                for (auto gi = gep_type_begin(g), ge = gep_type_end(g); gi != ge; ++gi) {
                    Value* idx = gi.getOperand();
                    if (StructType* st = gi.getStructTypeOrNull()) {
                        x.goff += DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
                    } else {
                        int64_t es = DL->getTypeAllocSize(gi.getIndexedType());
                        if (auto* ci = dyn_cast<ConstantInt>(idx)) x.goff += ci->getSExtValue() * es;
                        else { x.gidx.push_back({(int)x.ops.size(), es}); x.ops.push_back(mk(idx)); }
                    }
                }
            } else if (auto* br = dyn_cast<BranchInst>(&I)) {
                if (br->isConditional()) { x.ops.push_back(mk(br->getCondition())); x.b0 = fi->bidx[br->getSuccessor(0)]; x.b1 = fi->bidx[br->getSuccessor(1)]; }
                else x.b0 = fi->bidx[br->getSuccessor(0)];
            } else if (auto* sw = dyn_cast<SwitchInst>(&I)) {
                x.ops.push_back(mk(sw->getCondition()));
                x.b0 = fi->bidx[sw->getDefaultDest()];
                for (auto& c : sw->cases()) x.gidx.push_back({fi->bidx[c.getCaseSuccessor()], (int64_t)c.getCaseValue()->getZExtValue()});
            } else if (auto* cb = dyn_cast<CallBase>(&I)) {
                for (auto& a : cb->args()) {
                    if (a->getType()->isMetadataTy()) x.ops.push_back(Op{});
                    else x.ops.push_back(mk(a));
                }
                Value* cv = cb->getCalledOperand()->stripPointerCasts();
                if (auto* al = dyn_cast<GlobalAlias>(cv)) cv = al->getAliasee()->stripPointerCasts();
                if (auto* f = dyn_cast<Function>(cv)) x.callee = f;
                else x.ops.push_back(mk(cb->getCalledOperand()));
                if (auto* iv = dyn_cast<InvokeInst>(&I)) { x.b0 = fi->bidx[iv->getNormalDest()]; x.b1 = fi->bidx[iv->getUnwindDest()]; }
                if (x.callee) x.handler = handlerId(x.callee->getName().str());
            } else {
                for (auto& o : I.operands()) x.ops.push_back(mk(o));
                if (auto* s = dyn_cast<StoreInst>(&I)) { x.T = s->getValueOperand()->getType(); x.ty = tyInfo(x.T); }
                if (auto* a = dyn_cast<AllocaInst>(&I)) x.T = a->getAllocatedType();
                if (auto* l = dyn_cast<LoadInst>(&I)) x.T = l->getType();
            }
            b.in.push_back(std::move(x));
        }
    }
    return fi;
}

// ------------------------------------------------------------------------------------ state
struct Frame {
    FInfo* f;
    int bb = 0, ip = 0, prev = -1;
    bool again = false;      // on return the caller executes its call instruction once more
    vector<Val> regs;
    vector<uint64_t> allocas;
};
using VC = vector<uint32_t>;
struct Thread {
    vector<Frame> fr;
    enum St : uint8_t { Run, Wait, Done } st = Run;
    uint64_t waddr = 0;      // blocked until *(u32*)waddr == wval (or != if wneg)
    uint32_t wval = 0;
    bool wneg = false;
    bool pass = false;       // preemption already granted at this point
    uint64_t hnext = 0, snext = 0;  // allocation cursors
    std::map<const GlobalValue*, uint64_t> tls;
    vector<std::pair<uint64_t, uint64_t>> caught;  // (exception object, count)
    uint64_t curExc = 0;
    VC vc;
};
struct ExcInfo { uint64_t ti; uint64_t dtor; int handlers = 0; };
struct Acc { uint32_t tid; uint32_t clk; uint32_t where; };
struct Shadow { Acc w{~0u, 0, 0}; vector<Acc> r; };
struct State {
    vector<Thread> th;
    int cur = 0;
    std::map<uint64_t, ObjP> mem;
    vector<z3::expr> pc;
    vector<z3::expr> lems;      // fp mode: cheap facts about over-approximated results
    vector<z3::expr> defs;      // fp mode: exact definitions of over-approximated results
    vector<std::pair<uint64_t, uint64_t>> atexit;  // (fn, arg)
    std::map<uint64_t, ExcInfo> exc;
    vector<string> sched;       // schedule/choice trace
    int preemptions = 0;
    std::map<uint64_t, VC> syncvc;
    std::shared_ptr<std::map<uint64_t, Shadow>> shadow;
    int phase = 0;
    long roundTail = 64;        // integer parts beyond this are one symbolic case
    bool divOk = false;         // denominators are assumed nonzero instead of decided
    vector<int> choices;
    int forced = -1;            // value of the next sym_choice
    int64_t node = -1;          // last node of the schedule graph
    std::unordered_map<uint64_t, ObjP> cache_;
    Frame& top() { return th[cur].fr.back(); }
};
static vector<std::unique_ptr<State>> work;

// symbolic inputs
struct Input { string name; char kind; uint32_t var; z3::expr e; };  // kind r real, i integer-valued real, u bv64, f fp
static vector<Input> inputs;
static std::map<string, size_t> inputIdx;
static vector<z3::expr> varEx;    // rf variable -> z3 Real expr
static vector<bool> varInt;
static vector<z3::expr> globalAx; // constraints on variables that hold by definition
static uint64_t freshCnt = 0;

// ------------------------------------------------------------------------------------ statistics
static uint64_t nPaths, nSteps, nQueries, nSat, nUnsat, nUnknown, nForks, nStates, nDedup;
static double tSolver;
static std::map<string, uint64_t> checkCount;      // id -> discharged queries
static std::map<string, uint64_t> checkSyntactic;  // of which the negated claim was already `false` after rewriting
static std::map<string, uint64_t> reach;
struct Viol { string kind, id, msg; std::map<string, string> in; vector<string> stack, sched; };
static vector<Viol> viols;
static string incomplete;
static uint64_t nDivAssumed;
static std::map<string, string> witness;  // inputs of one completed path, for validation against the real code

// ------------------------------------------------------------------------------------ solver
static z3::solver* S;
static vector<unsigned> pushed;
static vector<z3::expr> pushedEx;
static size_t axPushed = 0;
static void syncSolver(State& s) {
    size_t i = 0;
    while (i < pushed.size() && i < s.pc.size() && pushed[i] == Z3_get_ast_id(*Z, s.pc[i])) ++i;
    if (pushed.size() > i) { S->pop(pushed.size() - i); pushed.resize(i); pushedEx.resize(i, Z->bool_val(true)); }
    for (; i < s.pc.size(); ++i) {
        S->push();
        S->add(s.pc[i]);
        pushed.push_back(Z3_get_ast_id(*Z, s.pc[i]));
        pushedEx.push_back(s.pc[i]);
    }
}
static z3::check_result doCheck(z3::solver& sol) {
    double t = now();
    z3::check_result r;
    try { r = sol.check(); } catch (z3::exception& e) { r = z3::unknown; }
    tSolver += now() - t;
    ++nQueries;
    if (r == z3::sat) ++nSat; else if (r == z3::unsat) ++nUnsat; else ++nUnknown;
    return r;
}
static std::unique_ptr<z3::model> lastModel;
// satisfiability of the path together with e
static z3::check_result query(State& s, const z3::expr& e, bool wantModel = false) {
    syncSolver(s);
    S->push();
    for (auto& a : globalAx) S->add(a);
    S->add(e);
    auto r = doCheck(*S);
    if (wantModel && r == z3::sat) lastModel = std::make_unique<z3::model>(S->get_model());
    S->pop();
    if (r == z3::unknown) {
        z3::solver s2 = z3::tactic(*Z, "qfnra-nlsat").mk_solver();
        z3::params p(*Z);
        p.set("timeout", optTimeoutMs);
        bool ok = true;
        try {
            s2.set(p);
            for (auto& c : s.pc) s2.add(c);
            for (auto& a : globalAx) s2.add(a);
            s2.add(e);
        } catch (...) { ok = false; }
        if (ok) {
            auto r2 = doCheck(s2);
            if (r2 != z3::unknown) { --nUnknown; r = r2; if (wantModel && r == z3::sat) lastModel = std::make_unique<z3::model>(s2.get_model()); }
        }
    }
    return r;
}
static z3::expr mpqEx(const mpq_class& q) { return Z->real_val(q.get_str().c_str()); }
static z3::expr polyEx(const rf::Poly& p) {
    if (p.zero()) return Z->real_val(0);
    z3::expr_vector ts(*Z);
    for (auto& t : p.t) {
        z3::expr e = mpqEx(t.second);
        bool one = t.second == 1 && t.first != 0;
        bool first = true;
        z3::expr m = e;
        for (auto& ve : rf::MT().m[t.first])
            for (uint32_t k = 0; k < ve.second; ++k) {
                if (first && one) m = varEx[ve.first];
                else m = m * varEx[ve.first];
                first = false;
            }
        ts.push_back(m);
    }
    if (ts.size() == 1) return ts[0];
    return z3::sum(ts);
}
static std::unordered_map<uint32_t, z3::expr> factorEx;
static z3::expr facEx(uint32_t f) {
    auto it = factorEx.find(f);
    if (it != factorEx.end()) return it->second;
    z3::expr e = polyEx(rf::FT().f[f]);
    factorEx.emplace(f, e);
    return e;
}
// sign of a rational function: an expression whose sign equals it (denominator assumed nonzero)
static z3::expr signExpr(State& s, const RFp& a) {
    z3::expr e = polyEx(rf::numOf(a));
    for (auto& d : a->den)
        if (d.second % 2) {
            z3::expr f = facEx(d.first);
            if (query(s, f <= 0) == z3::unsat) continue;
            if (query(s, f >= 0) == z3::unsat) { e = -e; continue; }
            e = e * f;
        }
    return e;
}
static z3::expr realEx(const RFp& a) {
    z3::expr n = polyEx(rf::numOf(a));
    if (a->den.empty()) return n;
    return n / polyEx(rf::denPoly(a->den));
}

// ------------------------------------------------------------------------------------ violations
static string whereOf(Instruction* I) {
    string r = demangle(I->getFunction()->getName().str());
    if (r.size() > 160) r = r.substr(0, 160) + "...";
    if (auto& d = I->getDebugLoc()) {
        auto* sc = cast<DIScope>(d.getScope());
        r += " (" + sc->getFilename().str() + ":" + std::to_string(d.getLine()) + ")";
    }
    return r;
}
static vector<string> stackOf(State& s) {
    vector<string> v;
    auto& fr = s.th[s.cur].fr;
    for (int i = (int)fr.size() - 1; i >= 0 && v.size() < 14; --i) {
        auto& b = fr[i].f->bb[fr[i].bb];
        int ip = std::min(fr[i].ip, (int)b.in.size() - 1);
        if (ip < 0) continue;
        Instruction* I = b.in[ip].I;
        v.push_back(whereOf(I));
        if (auto& d = I->getDebugLoc()) {
            auto* ia = d.getInlinedAt();
            DILocation* L = d.get();
            while (ia && v.size() < 14) {
                v.push_back("  inlined into " + ia->getScope()->getSubprogram()->getName().str() + " (" + ia->getFilename().str() + ":" + std::to_string(ia->getLine()) + ")");
                L = ia;
                ia = ia->getInlinedAt();
            }
            (void)L;
        }
    }
    return v;
}
static string exStr(const z3::model& m, const Input& in) {
    z3::expr e = m.eval(in.e, true);
    if (in.kind == 'f') {
        // evaluate to bits
        z3::expr b(*Z, Z3_mk_fpa_to_ieee_bv(*Z, e));
        z3::expr v = m.eval(b, true).simplify();
        uint64_t x;
        if (v.is_numeral_u64(x)) { char buf[32]; snprintf(buf, 32, "0x%016lx", x); return buf; }
        return "0x7ff8000000000000";
    }
    if (in.kind == 'u' || in.kind == 'c') { uint64_t x; if (e.is_numeral_u64(x)) return std::to_string(x); return "0"; }
    if (e.is_numeral()) return e.to_string().find('/') == string::npos && e.to_string().find('(') == string::npos ? e.to_string() : [&] {
        string n = Z3_get_numeral_string(*Z, e);
        return n; }();
    if (e.is_algebraic()) return e.get_decimal_string(30);
    return "0";
}
static bool violSeen(const string& kind, const string& id) {
    int n = 0;
    for (auto& v : viols) if (v.kind == kind && v.id == id) ++n;
    return n >= 3;
}
static void report(State& s, const string& kind, const string& id, const string& msg, z3::model* m) {
    if (violSeen(kind, id)) return;
    Viol v{kind, id, msg, {}, stackOf(s), s.sched};
    if (m) for (auto& in : inputs) v.in[in.name] = exStr(*m, in);
    for (size_t i = 0; i < s.choices.size(); ++i) v.in["choice!" + std::to_string(i)] = std::to_string(s.choices[i]);
    viols.push_back(v);
    if (optVerbose) { std::cerr << "VIOL " << kind << " " << id << " " << msg << "\n"; for (auto& x : v.stack) std::cerr << "   " << x << "\n"; for (auto& x : v.in) std::cerr << "   " << x.first << "=" << x.second << "\n"; }
}
// hints that make counterexamples convenient for the replay in double precision
static z3::expr niceBounds(int b) {
    z3::expr e = Z->bool_val(true);
    for (auto& in : inputs) if (in.kind == 'r' || in.kind == 'i') e = e && in.e <= b && in.e >= -b;
    return e;
}
static void reportPath(State& s, const string& kind, const string& id, const string& msg, const z3::expr& cond) {
    if (violSeen(kind, id)) return;
    if (!s.defs.empty()) {  // fp mode: refine with the exact definitions
        z3::expr d = cond;
        for (auto& x : s.lems) d = d && x;
        if (query(s, d) == z3::unsat) return;
        for (auto& x : s.defs) d = d && x;
        auto r = query(s, d, true);
        if (r == z3::unsat) return;
        if (r == z3::sat) { report(s, kind, id, msg, lastModel.get()); return; }
        incomplete = "exact floating point refinement timed out for " + id;
    }
    if (query(s, cond && niceBounds(16), true) == z3::sat || query(s, cond, true) == z3::sat) report(s, kind, id, msg, lastModel.get());
    else report(s, kind, id, msg + " (no model)", nullptr);
}
[[noreturn]] static void memFault(State& s, const string& id, const string& msg) {
    reportPath(s, "memory", id, msg, Z->bool_val(true));
    throw PathEnd{};
}

// ------------------------------------------------------------------------------------ forking
static bool feasiblePath(State& s) { return query(s, Z->bool_val(true)) != z3::unsat; }
static State* forkState(State& s) {
    work.push_back(std::make_unique<State>(s));
    ++nForks;
    return work.back().get();
}
static bool decide(State& s, const z3::expr& c) {
    auto rt = query(s, c);
    auto rf_ = rt == z3::unsat ? z3::sat : query(s, !c);
    if (rt == z3::unsat) return false;
    if (rf_ == z3::unsat) return true;
    State* o = forkState(s);
    o->pc.push_back((!c).simplify());
    s.pc.push_back(c.simplify());
    return true;
}
static bool truth(State& s, const Val& v, const char* what) {
    if (v.k == Val::Int) return v.u & 1;
    if (v.k == Val::SInt) return decide(s, v.bits == 1 ? v.ex() : v.ex() != Z->bv_val(0, v.bits));
    memFault(s, string("uninit-") + what, string("value derived from uninitialised memory decides a ") + what);
}
static uint64_t concretize(State& s, const Val& v, const char* what) {
    if (v.k == Val::Int) return v.u;
    if (v.k == Val::SInt) {
        if (v.bits == 1) return truth(s, v, what);
        if (query(s, Z->bool_val(true), true) != z3::sat) throw PathEnd{};
        z3::expr m = lastModel->eval(v.ex(), true);
        uint64_t x = 0;
        if (!m.is_numeral_u64(x)) unsup("model value");
        z3::expr eq = v.ex() == Z->bv_val((uint64_t)x, v.bits);
        if (query(s, !eq) != z3::unsat) { State* o = forkState(s); o->pc.push_back(!eq); }
        s.pc.push_back(eq);
        return x;
    }
    if (v.k == Val::Real || v.k == Val::Fp) { uint64_t b; if (realToBits(v, b)) return b; unsup("integer use of a symbolic floating point value"); }
    if (v.k == Val::Undef) memFault(s, string("uninit-") + what, string("uninitialised value used as ") + what);
    unsup(string("concretize ") + what);
}

// ------------------------------------------------------------------------------------ memory access
static ObjP* findObj(State& s, uint64_t addr) {
    auto it = s.mem.upper_bound(addr);
    if (it != s.mem.begin()) {
        --it;
        if (addr <= it->second->base + it->second->size && addr >= it->first) {
            if (addr < it->second->base + it->second->size || it->second->size == 0) return &it->second;
        }
    }
    auto g = GOBJ.upper_bound(addr);
    if (g != GOBJ.begin()) {
        --g;
        if (addr >= g->first && addr < g->second->base + g->second->size) {
            return &g->second;
        }
    }
    return nullptr;
}
static string hex(uint64_t a) { char b[32]; snprintf(b, 32, "0x%lx", a); return b; }
static void raceAccess(State& s, Obj& o, uint64_t off, uint64_t n, bool write);
static Obj& resolve(State& s, uint64_t addr, uint64_t n, bool write, const char* what = nullptr) {
    ObjP* o = findObj(s, addr);
    if (!o || addr + n > (*o)->base + (*o)->size) {
        string d = addr < 4096 ? "null pointer" : o ? "end of an object of " + std::to_string((*o)->size) + " bytes" : "address outside every live object";
        if (!o && addr >= 4096) {
            auto it = s.mem.upper_bound(addr);
            if (it != s.mem.begin()) {
                --it;
                if (addr - it->first < (1 << 20)) d = std::to_string(addr - it->first - it->second->size) + " bytes past the end of an object of " + std::to_string(it->second->size) + " bytes";
            }
        }
        memFault(s, write ? "oob-write" : "oob-read", string(write ? "write" : "read") + " of " + std::to_string(n) + " bytes: " + d + " (" + hex(addr) + ")" + (what ? string(" in ") + what : ""));
    }
    if (write) {
        if ((*o)->kind == OConst) memFault(s, "const-write", "write to constant memory");
        uint64_t base = (*o)->base;
        auto it = s.mem.find(base);
        if (it == s.mem.end()) it = s.mem.emplace(base, std::make_shared<Obj>(**o)).first;
        else if (it->second.use_count() > 1) it->second = std::make_shared<Obj>(*it->second);
        o = &it->second;
    }
    if (optRace && s.th.size() > 1) raceAccess(s, **o, addr - (*o)->base, n, write);
    return **o;
}
static uint64_t allocObj(State& s, uint64_t size, ObjKind kind, uint64_t align = 16) {
    Thread& t = s.th[s.cur];
    uint64_t& c = kind == OStack ? t.snext : t.hnext;
    uint64_t a = (c + align - 1) / align * align;
    if (align > 1 && a % (2 * align) == 0) a += align;  // not better aligned than promised
    c = a + size + 65536 + (size > 65536 ? size : 0);
    s.mem.emplace(a, std::make_shared<Obj>(a, size, kind));
    if (!s.top().f->bb.empty()) s.mem[a]->site = 0;
    return a;
}
static void shadowClear(State& s, uint64_t a, uint64_t n) {
    if (!s.shadow) return;
    if (s.shadow.use_count() > 1) s.shadow = std::make_shared<std::map<uint64_t, Shadow>>(*s.shadow);
    s.shadow->erase(s.shadow->lower_bound(a), s.shadow->lower_bound(a + n));
}
static void freeObj(State& s, uint64_t a, std::initializer_list<ObjKind> ok, const char* how) {
    if (a == 0) return;
    auto it = s.mem.find(a);
    bool good = false;
    if (it != s.mem.end()) for (auto k : ok) if (it->second->kind == k) good = true;
    if (!good) memFault(s, "bad-free", string(how) + " of " + (it == s.mem.end() ? "a pointer that is not a live allocation" : "an object allocated differently") + " (" + hex(a) + ")");
    if (optRace && s.th.size() > 1) raceAccess(s, *it->second, 0, it->second->size, true);
    shadowClear(s, a, it->second->size);
    s.mem.erase(it);
}
static uint64_t addrOf(State& s, const Val& p, uint64_t n, const char* what, bool write) {
    if (p.k == Val::Int) return p.u;
    if (p.k == Val::SInt) {
        // bounds query over every feasible value, then case split
        uint64_t prov = p.u;
        ObjP* o = prov ? findObj(s, prov) : nullptr;
        if (o) {
            z3::expr a = p.ex();
            z3::expr lo = Z->bv_val((uint64_t)(*o)->base, 64), hi = Z->bv_val((uint64_t)((*o)->base + (*o)->size - n), 64);
            z3::expr bad = (*o)->size < n ? Z->bool_val(true) : (z3::ult(a, lo) || z3::ugt(a, hi));
            checkCount["memory-bounds"]++;
            auto r = query(s, bad);
            if (r != z3::unsat) {
                reportPath(s, "memory", write ? "oob-write" : "oob-read", string("symbolic address outside its object of ") + std::to_string((*o)->size) + " bytes", bad);
                z3::expr good = (!bad).simplify();
                if (query(s, good) == z3::unsat) throw PathEnd{};
                s.pc.push_back(good);
            }
        }
        return concretize(s, p, what);
    }
    if (p.k == Val::Undef || p.k == Val::Pieces) memFault(s, "uninit-address", string("uninitialised pointer used in ") + what);
    return concretize(s, p, what);
}

// ------------------------------------------------------------------------------------ races
static std::unordered_map<string, uint32_t> siteIds;
static vector<string> siteNames;
static uint32_t siteOf(State& s) {
    auto& f = s.top();
    Instruction* I = f.f->bb[f.bb].in[std::min(f.ip, (int)f.f->bb[f.bb].in.size() - 1)].I;
    string w = whereOf(I);
    auto it = siteIds.find(w);
    if (it != siteIds.end()) return it->second;
    siteNames.push_back(w);
    siteIds[w] = siteNames.size() - 1;
    return siteNames.size() - 1;
}
static bool inAtomicModel = false;
static void raceAccess(State& s, Obj& o, uint64_t off, uint64_t n, bool write) {
    if (inAtomicModel || o.sync || o.kind == OConst || o.kind == OTls) return;
    {   // runtime model code is synchronisation itself
        auto& F = s.top().f->F;
        if (F->getName().starts_with("symrt_") || F->getName().starts_with("pthread_")) return;
    }
    Thread& t = s.th[s.cur];
    if (!s.shadow) s.shadow = std::make_shared<std::map<uint64_t, Shadow>>();
    else if (s.shadow.use_count() > 1) s.shadow = std::make_shared<std::map<uint64_t, Shadow>>(*s.shadow);
    uint32_t me = s.cur, clk = t.vc[me];
    uint32_t site = siteOf(s);
    auto rep = [&](const Acc& a, const char* k) {
        reportPath(s, "race", "data-race", string("data race (") + k + ") between thread " + std::to_string(a.tid) + " at " + siteNames[a.where] + " and thread " + std::to_string(me) + " at " + siteNames[site], Z->bool_val(true));
    };
    for (uint64_t b = off; b < off + n; ++b) {
        Shadow& h = (*s.shadow)[o.base + b];
        if (h.w.tid != ~0u && h.w.tid != me && h.w.clk > t.vc[h.w.tid]) rep(h.w, write ? "write/write" : "write/read");
        if (write) {
            for (auto& r : h.r) if (r.tid != me && r.clk > t.vc[r.tid]) rep(r, "read/write");
            h.r.clear();
            h.w = {me, clk, site};
        } else {
            bool f = false;
            for (auto& r : h.r) if (r.tid == me) { r.clk = clk; r.where = site; f = true; }
            if (!f) h.r.push_back({me, clk, site});
        }
    }
}
static void vcJoin(VC& a, const VC& b) { if (a.size() < b.size()) a.resize(b.size()); for (size_t i = 0; i < b.size(); ++i) a[i] = std::max(a[i], b[i]); }
static void acquire(State& s, uint64_t a) { auto it = s.syncvc.find(a); if (it != s.syncvc.end()) vcJoin(s.th[s.cur].vc, it->second); }
static void release(State& s, uint64_t a) { auto& t = s.th[s.cur]; vcJoin(s.syncvc[a], t.vc); t.vc[s.cur]++; }

#include "exec.inc"
