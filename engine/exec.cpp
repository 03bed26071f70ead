// Symbolic executor for LLVM bitcode.
#include <deque>
#include "exec.hpp"
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/ADT/StringExtras.h>
#include <csignal>
#include <cmath>
#include <cstring>
#include <fcntl.h>
#include <unistd.h>
#include <sys/wait.h>
#include <set>
#include <algorithm>
#include <unordered_set>

using namespace llvm;
void reportViolation(const std::string& kind, const std::string& msg);
extern int g_logFd;

static std::unique_ptr<Module> M; static const DataLayout* DL;
static LLVMContext Ctx;

// ------------------------------------------------------------------ memory
static std::map<uint64_t, Obj*> objs; static uint64_t nextAddr = 0x100000; static Obj* lastObj = nullptr;
static Obj* newObj(uint64_t size, const char* kind, uint64_t align = 16) {
  Obj* o = new Obj(); if (align < 16) align = 16;
  nextAddr = (nextAddr + align - 1) / align * align;
  o->base = nextAddr; o->size = size; o->kind = kind; o->data.assign(size, 0); o->st.assign(size, 0);
  nextAddr += size + 32; objs[o->base] = o; return o;
}
static uint64_t fakeVtable() {   // vtable of stream objects (outside the model): all zero, so the virtual base is the object itself
  static uint64_t a = 0; if (!a) { Obj* v = newObj(512, "stream vtable"); std::fill(v->st.begin(), v->st.end(), 1); v->ro = true; a = v->base + 256; }
  return a;
}
static void freeObj(Obj* o) { if (lastObj == o) lastObj = nullptr; objs.erase(o->base); delete o; }
static Obj* findObj(uint64_t a) {
  if (lastObj && a >= lastObj->base && a < lastObj->base + lastObj->size) return lastObj;
  auto it = objs.upper_bound(a);
  if (it == objs.begin()) return nullptr;
  --it; Obj* o = it->second;
  if (a >= o->base + o->size) return nullptr;
  return lastObj = o;
}
static std::map<uint64_t, const Function*> fnAt; static DenseMap<const GlobalValue*, uint64_t> gaddr;
static std::string hex(uint64_t x) { char b[32]; snprintf(b, 32, "0x%llx", (unsigned long long)x); return b; }
static Obj* access(uint64_t a, uint64_t n, const char* what) {
  Obj* o = findObj(a);
  if (!o || a + n > o->base + o->size) {
    if (a < 4096) throw Violation{"memory", std::string(what) + " through a null pointer"};
    throw Violation{"memory", std::string("out-of-bounds or dangling ") + what + " of " + std::to_string(n) + " bytes" + (o ? std::string(" at offset ") + std::to_string(a - o->base) + " of a " + std::to_string(o->size) + "-byte " + o->kind + " object" : " at " + hex(a))};
  }
  return o;
}
// st: 0 uninit 1 concrete 2 cell start 3 cell continuation
static void splitCell(Obj* o, uint32_t off) {    // turn the cell covering off into byte cells
  uint32_t s = off; while (o->st[s] == 3) s--;
  Cell c = o->cells[s]; o->cells.erase(s);
  T bits = c.t; if (bits->sort != S_BV) bits = bitsOf(bits, c.size * 8);
  for (unsigned i = 0; i < c.size; i++) {
    T b = bvExtract(bits, 8 * i + 7, 8 * i);
    if (isBVC(b)) { o->st[s + i] = 1; o->data[s + i] = mpz_get_ui(b->z.get_mpz_t()); }
    else { o->st[s + i] = 2; o->cells[s + i] = Cell{b, 1}; }
  }
}
static void clearRange(Obj* o, uint32_t off, uint32_t n) {
  for (uint32_t i = off; i < off + n;) {
    uint8_t s = o->st[i];
    if (s < 2) { i++; continue; }
    uint32_t b = i; while (o->st[b] == 3) b--;
    unsigned cs = o->cells[b].size;
    if (b >= off && b + cs <= off + n) { o->cells.erase(b); for (unsigned k = 0; k < cs; k++) o->st[b + k] = 0; i = b + cs; }
    else splitCell(o, i);
  }
}
static bool dyadicExact(T t, double& d) {
  if (!isRC(t)) return false;
  if (g_ieee) { d = t->d; return true; }
  d = t->q.get_d(); return std::isfinite(d) && mpq_class(d) == t->q;
}
static void storeConc(Obj* o, uint32_t off, const void* p, uint32_t n) {
  bool any = false; for (uint32_t i = 0; i < n; i++) if (o->st[off + i] >= 2) { any = true; break; }
  if (any) clearRange(o, off, n);
  memcpy(&o->data[off], p, n); memset(&o->st[off], 1, n);
}
static void storeTerm(Obj* o, uint32_t off, T t, unsigned size) {
  clearRange(o, off, size);
  o->cells[off] = Cell{t, size}; o->st[off] = 2; for (unsigned i = 1; i < size; i++) o->st[off + i] = 3;
}
static uint64_t freshN = 0;
static T freshVar(Sort s, unsigned w) { std::string n = "uninit" + std::to_string(freshN++); T v = mkVar(n, s, w); addVar(v, -1e18, 1e18); return v; }
static T loadBits(Obj* o, uint32_t off, unsigned n) {    // BV term, little endian
  T r = nullptr;
  for (unsigned i = 0; i < n;) {
    T b; unsigned step = 1;
    uint8_t s = o->st[off + i];
    if (s == 2 && o->cells[off + i].size <= n - i) { Cell& c = o->cells[off + i]; b = c.t->sort == S_BV ? c.t : bitsOf(c.t, c.size * 8); step = c.size; }
    else if (s >= 2) { splitCell(o, off + i); continue; }
    else if (s == 1) b = mkBV64(8, o->data[off + i]);
    else { T f = freshVar(S_BV, 8); storeTerm(o, off + i, f, 1); b = f; }
    r = r ? bvConcat(b, r) : b; i += step;
  }
  return r;
}
static Val mkInt(T t) { Val v; if (isBVC(t) && t->w <= 64) v.c = mpz_get_ui(t->z.get_mpz_t()); else v.t = t; return v; }
static Val conc(uint64_t c) { Val v; v.c = c; return v; }
static Val real(T t) { Val v; v.t = t; return v; }
static uint64_t maskw(unsigned w) { return w >= 64 ? ~0ull : (1ull << w) - 1; }

static Val loadVal(uint64_t a, Type* ty);
static void storeVal(uint64_t a, Type* ty, const Val& v);
static Val loadVal(uint64_t a, Type* ty) {
  if (ty->isDoubleTy() || ty->isFloatTy()) {
    unsigned n = ty->isDoubleTy() ? 8 : 4; Obj* o = access(a, n, "read"); uint32_t off = a - o->base;
    if (o->st[off] == 2) { Cell& c = o->cells[off]; if (c.size == n) { if (c.t->sort != S_BV) return real(c.t); return real(fromBits(c.t, n == 4)); } }
    bool allc = true, allu = true;
    for (unsigned i = 0; i < n; i++) { if (o->st[off + i] != 1) allc = false; if (o->st[off + i] != 0) allu = false; }
    if (allc) { if (n == 8) { double d; memcpy(&d, &o->data[off], 8); return real(mkDouble(d)); } float f; memcpy(&f, &o->data[off], 4); return real(mkFloatLit(f)); }
    if (allu) { T f = freshVar(n == 4 && g_ieee ? S_F32 : S_REAL, 0); storeTerm(o, off, f, n); return real(f); }
    return real(fromBits(loadBits(o, off, n), n == 4));
  }
  if (ty->isIntegerTy() || ty->isPointerTy()) {
    unsigned w = ty->isPointerTy() ? 64 : ty->getIntegerBitWidth(), n = (w + 7) / 8;
    Obj* o = access(a, n, "read"); uint32_t off = a - o->base;
    bool allc = n <= 8; if (allc) for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 1) { allc = false; break; }
    if (allc) { uint64_t v = 0; memcpy(&v, &o->data[off], n); v &= maskw(w); return conc(v); }
    T t;
    if (o->st[off] == 2 && o->cells[off].size == n && o->cells[off].t->sort == S_BV) t = o->cells[off].t; else {
      bool allu = true; for (unsigned i = 0; i < n; i++) if (o->st[off + i] != 0) allu = false;
      if (allu && n <= 8) { t = freshVar(S_BV, n * 8); storeTerm(o, off, t, n); } else t = loadBits(o, off, n);
    }
    if (w < n * 8) t = bvExtract(t, w - 1, 0);
    if (w == 1) { T b = bvCmp(O_EQ, t, mkBV64(1, 1)); if (isBoolC(b)) return conc(b->n1); return real(b); }
    return mkInt(t);
  }
  Val v; v.agg = std::make_shared<std::vector<Val>>();
  if (auto* st = dyn_cast<StructType>(ty)) { const StructLayout* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) v.agg->push_back(loadVal(a + L->getElementOffset(i), st->getElementType(i))); return v; }
  if (auto* at = dyn_cast<ArrayType>(ty)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) v.agg->push_back(loadVal(a + i * es, at->getElementType())); return v; }
  if (auto* vt = dyn_cast<FixedVectorType>(ty)) {
    uint64_t eb = DL->getTypeSizeInBits(vt->getElementType()); if (eb % 8) throw EngineError("sub-byte vector load");
    for (unsigned i = 0; i < vt->getNumElements(); i++) v.agg->push_back(loadVal(a + i * (eb / 8), vt->getElementType())); return v;
  }
  if (ty->isX86_FP80Ty()) { Obj* o = access(a, 10, "read"); uint32_t off = a - o->base; if (o->st[off] == 2 && o->cells[off].t->sort != S_BV) return real(o->cells[off].t); if (o->st[off] == 1) { long double ld; memcpy(&ld, &o->data[off], 10); return real(mkDouble((double)ld)); } return real(freshVar(S_REAL, 0)); }
  throw EngineError("load of unsupported type");
}
static T asBV(const Val& v, unsigned w) { if (!v.t) return mkBV64(w, v.c); if (v.t->sort == S_BOOL) return boolToBV(v.t, w, false); return v.t; }
static T asBool(const Val& v) { if (!v.t) return mkBool(v.c & 1); if (v.t->sort == S_BOOL) return v.t; return bvCmp(O_EQ, v.t, mkBV64(v.t->w, 1)); }
static void storeVal(uint64_t a, Type* ty, const Val& v) {
  if (ty->isDoubleTy() || ty->isFloatTy()) {
    unsigned n = ty->isDoubleTy() ? 8 : 4; Obj* o = access(a, n, "write"); if (o->ro) throw Violation{"memory", "write to a constant"};
    if (!v.t) throw EngineError("store of an undefined float");
    storeTerm(o, a - o->base, v.t, n); return;
  }
  if (ty->isIntegerTy() || ty->isPointerTy()) {
    unsigned w = ty->isPointerTy() ? 64 : ty->getIntegerBitWidth(), n = (w + 7) / 8;
    Obj* o = access(a, n, "write"); if (o->ro) throw Violation{"memory", "write to a constant"};
    if (!v.t && n <= 8) { storeConc(o, a - o->base, &v.c, n); return; }
    T t = asBV(v, w); if (t->w < n * 8) t = bvExt(O_ZEXT, t, n * 8);
    storeTerm(o, a - o->base, t, n); return;
  }
  if (auto* st = dyn_cast<StructType>(ty)) { const StructLayout* L = DL->getStructLayout(st); for (unsigned i = 0; i < st->getNumElements(); i++) storeVal(a + L->getElementOffset(i), st->getElementType(i), (*v.agg)[i]); return; }
  if (auto* at = dyn_cast<ArrayType>(ty)) { uint64_t es = DL->getTypeAllocSize(at->getElementType()); for (unsigned i = 0; i < at->getNumElements(); i++) storeVal(a + i * es, at->getElementType(), (*v.agg)[i]); return; }
  if (auto* vt = dyn_cast<FixedVectorType>(ty)) { uint64_t eb = DL->getTypeSizeInBits(vt->getElementType()) / 8; for (unsigned i = 0; i < vt->getNumElements(); i++) storeVal(a + i * eb, vt->getElementType(), (*v.agg)[i]); return; }
  if (ty->isX86_FP80Ty()) { Obj* o = access(a, 16, "write"); storeTerm(o, a - o->base, v.t, 16); return; }
  throw EngineError("store of unsupported type");
}
static void memCopy(uint64_t d, uint64_t s, uint64_t n) {
  if (!n) return;
  Obj* so = access(s, n, "read (memcpy)"); Obj* dobj = access(d, n, "write (memcpy)");
  uint32_t so0 = s - so->base, do0 = d - dobj->base;
  // snapshot
  std::vector<uint8_t> st, data; std::vector<std::pair<uint32_t, Cell>> cells;
  if (so->st[so0] == 3) splitCell(so, so0);
  if (so0 + n < so->size && so->st[so0 + n] == 3) splitCell(so, so0 + n);
  st.assign(so->st.begin() + so0, so->st.begin() + so0 + n); data.assign(so->data.begin() + so0, so->data.begin() + so0 + n);
  for (uint32_t i = 0; i < n; i++) if (st[i] == 2) cells.push_back({i, so->cells[so0 + i]});
  clearRange(dobj, do0, n);
  memcpy(&dobj->data[do0], data.data(), n); memcpy(&dobj->st[do0], st.data(), n);
  for (auto& c : cells) dobj->cells[do0 + c.first] = c.second;
}

// ------------------------------------------------------------------ functions
struct DI { const Instruction* I; unsigned op; int dst; std::vector<int> ops; };
struct DB { std::vector<DI> code; std::vector<const PHINode*> phis; };
struct DF { const Function* F; int nregs = 0; std::unordered_map<const Value*, int> slot; std::unordered_map<const BasicBlock*, int> bidx; std::vector<DB> blocks; std::deque<Val> consts; uint64_t calls = 0; };
static std::unordered_map<const Function*, DF*> dfs;
static Val constVal(const Constant* C);
static uint64_t constAddr(const Constant* C);

static int operandIdx(DF* f, const Value* v) {
  auto it = f->slot.find(v); if (it != f->slot.end()) return it->second;
  if (auto* c = dyn_cast<Constant>(v)) { f->consts.push_back(constVal(c)); int id = -(int)f->consts.size(); f->slot[v] = id; return id; }
  return 0x7fffffff;
}
static DF* decode(const Function* F) {
  auto it = dfs.find(F); if (it != dfs.end()) return it->second;
  DF* f = new DF(); f->F = F;
  for (auto& a : F->args()) f->slot[&a] = f->nregs++;
  int bi = 0;
  for (auto& B : *F) { f->bidx[&B] = bi++; for (auto& I : B) if (!I.getType()->isVoidTy()) f->slot[&I] = f->nregs++; }
  for (auto& B : *F) {
    f->blocks.emplace_back(); DB& b = f->blocks.back();
    for (auto& I : B) {
      if (auto* p = dyn_cast<PHINode>(&I)) { b.phis.push_back(p); continue; }
      if (isa<DbgInfoIntrinsic>(I)) continue;
      DI d; d.I = &I; d.op = I.getOpcode(); d.dst = I.getType()->isVoidTy() ? -1 : f->slot[&I];
      for (auto& o : I.operands()) {
        const Value* v = o.get();
        if (isa<BasicBlock>(v) || isa<MetadataAsValue>(v) || isa<InlineAsm>(v)) d.ops.push_back(0x7fffffff);
        else d.ops.push_back(-0x7ffffff0);
      }
      b.code.push_back(d);
    }
  }
  return dfs[F] = f;
}
struct Frame { DF* f; std::vector<Val> r; int bb = 0; size_t ip = 0; const BasicBlock* prev = nullptr; std::vector<Obj*> allocas; const CallBase* call = nullptr; int retDst = -1; std::vector<uint64_t> va; CxxThrow exc{0, 0}; };
static std::vector<Frame*> stack;
static std::set<std::string> g_fnsRun; static std::map<std::string, uint64_t> g_unsup;

static Val& reg(Frame& fr, DI& d, unsigned i) {
  int x = d.ops[i];
  if (x == -0x7ffffff0) { x = operandIdx(fr.f, d.I->getOperand(i)); d.ops[i] = x; }
  if (x >= 0) return fr.r[x];
  return fr.f->consts[-x - 1];
}
static Val getv(Frame& fr, const Value* v) { int x = operandIdx(fr.f, v); return x >= 0 ? fr.r[x] : fr.f->consts[-x - 1]; }

static Val zeroOf(Type* ty) {
  if (ty->isDoubleTy() || ty->isFloatTy() || ty->isX86_FP80Ty()) return real(ty->isFloatTy() ? mkFloatLit(0) : mkDouble(0));
  if (ty->isIntegerTy()) { if (ty->getIntegerBitWidth() > 64) return real(mkBV64(ty->getIntegerBitWidth(), 0)); return conc(0); }
  if (ty->isPointerTy()) return conc(0);
  Val v; v.agg = std::make_shared<std::vector<Val>>();
  if (auto* st = dyn_cast<StructType>(ty)) for (auto* e : st->elements()) v.agg->push_back(zeroOf(e));
  else if (auto* at = dyn_cast<ArrayType>(ty)) for (uint64_t i = 0; i < at->getNumElements(); i++) v.agg->push_back(zeroOf(at->getElementType()));
  else if (auto* vt = dyn_cast<FixedVectorType>(ty)) for (unsigned i = 0; i < vt->getNumElements(); i++) v.agg->push_back(zeroOf(vt->getElementType()));
  return v;
}
static int64_t gepConst(const GEPOperator* G) { APInt off(64, 0); if (!G->accumulateConstantOffset(*DL, off)) throw EngineError("constant gep"); return off.getSExtValue(); }
static uint64_t globalAddr(const GlobalValue* G);
static Val constVal(const Constant* C) {
  if (auto* ci = dyn_cast<ConstantInt>(C)) { if (ci->getBitWidth() <= 64) return conc(ci->getZExtValue()); std::string s = toString(ci->getValue(), 16, false); return real(mkBV(ci->getBitWidth(), mpz_class(s, 16))); }
  if (auto* cf = dyn_cast<ConstantFP>(C)) { if (C->getType()->isFloatTy()) return real(mkFloatLit(cf->getValueAPF().convertToFloat())); if (C->getType()->isDoubleTy()) return real(mkDouble(cf->getValueAPF().convertToDouble())); APFloat f = cf->getValueAPF(); bool li; f.convert(APFloat::IEEEdouble(), APFloat::rmNearestTiesToEven, &li); return real(mkDouble(f.convertToDouble())); }
  if (isa<ConstantPointerNull>(C)) return conc(0);
  if (isa<UndefValue>(C) || isa<ConstantAggregateZero>(C)) return zeroOf(C->getType());
  if (auto* g = dyn_cast<GlobalValue>(C)) return conc(globalAddr(g));
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (unsigned i = 0; i < cd->getNumElements(); i++) v.agg->push_back(constVal(cd->getElementAsConstant(i))); return v; }
  if (isa<ConstantAggregate>(C)) { Val v; v.agg = std::make_shared<std::vector<Val>>(); for (auto& o : C->operands()) v.agg->push_back(constVal(cast<Constant>(o))); return v; }
  if (auto* ce = dyn_cast<ConstantExpr>(C)) {
    switch (ce->getOpcode()) {
      case Instruction::GetElementPtr: { Val b = constVal(ce->getOperand(0)); return conc(b.c + gepConst(cast<GEPOperator>(ce))); }
      case Instruction::BitCast: case Instruction::AddrSpaceCast: return constVal(ce->getOperand(0));
      case Instruction::PtrToInt: case Instruction::IntToPtr: { Val v = constVal(ce->getOperand(0)); if (ce->getType()->isIntegerTy()) v.c &= maskw(ce->getType()->getIntegerBitWidth()); return v; }
      case Instruction::Trunc: { Val v = constVal(ce->getOperand(0)); v.c &= maskw(ce->getType()->getIntegerBitWidth()); return v; }
      case Instruction::Sub: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return conc((a.c - b.c) & maskw(ce->getType()->getIntegerBitWidth())); }
      case Instruction::Add: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); return conc((a.c + b.c) & maskw(ce->getType()->getIntegerBitWidth())); }
      case Instruction::ICmp: { Val a = constVal(ce->getOperand(0)), b = constVal(ce->getOperand(1)); auto p = cast<ConstantExpr>(ce)->getPredicate(); if (p == CmpInst::ICMP_EQ) return conc(a.c == b.c); if (p == CmpInst::ICMP_NE) return conc(a.c != b.c); break; }
      default: break;
    }
  }
  std::string s; raw_string_ostream os(s); C->print(os);
  throw EngineError("unsupported constant " + s.substr(0, 100));
}
static void initGlobal(uint64_t a, const Constant* C) {
  Type* ty = C->getType();
  Obj* o = findObj(a);
  if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || C->isNullValue()) { uint64_t n = DL->getTypeAllocSize(ty); memset(&o->data[a - o->base], 0, n); memset(&o->st[a - o->base], 1, n); return; }
  if (auto* cd = dyn_cast<ConstantDataSequential>(C)) {
    if (cd->getElementType()->isIntegerTy()) { StringRef s = cd->getRawDataValues(); memcpy(&o->data[a - o->base], s.data(), s.size()); memset(&o->st[a - o->base], 1, s.size()); return; }
    uint64_t es = DL->getTypeAllocSize(cd->getElementType()); for (unsigned i = 0; i < cd->getNumElements(); i++) storeVal(a + i * es, cd->getElementType(), constVal(cd->getElementAsConstant(i))); return;
  }
  if (auto* ca = dyn_cast<ConstantAggregate>(C)) {
    if (auto* st = dyn_cast<StructType>(ty)) { const StructLayout* L = DL->getStructLayout(st); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(a + L->getElementOffset(i), ca->getOperand(i)); return; }
    uint64_t es = DL->getTypeAllocSize(ca->getOperand(0)->getType()); for (unsigned i = 0; i < ca->getNumOperands(); i++) initGlobal(a + i * es, ca->getOperand(i)); return;
  }
  storeVal(a, ty, constVal(C));
}
static std::vector<const GlobalVariable*> pendingInit;
static uint64_t nextFn = 0x10000000000ull;
static uint64_t globalAddr(const GlobalValue* G) {
  if (auto* ga = dyn_cast<GlobalAlias>(G)) return constVal(ga->getAliasee()).c;
  auto it = gaddr.find(G); if (it != gaddr.end()) return it->second;
  if (auto* F = dyn_cast<Function>(G)) {
    if (F->hasExternalWeakLinkage() && F->isDeclaration()) return gaddr[G] = 0;
    uint64_t a = nextFn; nextFn += 16; fnAt[a] = F; return gaddr[G] = a;
  }
  auto* V = cast<GlobalVariable>(G);
  if (V->isDeclaration() && V->hasExternalWeakLinkage()) return gaddr[G] = 0;
  uint64_t n = V->getValueType()->isSized() ? (uint64_t)DL->getTypeAllocSize(V->getValueType()) : 0;
  if (V->isDeclaration()) n = std::max<uint64_t>(n, 1024);
  Obj* o = newObj(std::max<uint64_t>(n, 1), "global", V->getAlign() ? V->getAlign()->value() : 16);
  gaddr[G] = o->base + (V->isDeclaration() && !V->getValueType()->isSized() ? 0 : 0);
  if (V->isDeclaration()) { memset(o->st.data(), 1, o->st.size()); if (V->getName() == "__libc_single_threaded") { memset(o->data.data(), 1, 1); } if (V->getName() == "_ZSt4cout" || V->getName() == "_ZSt4cerr" || V->getName() == "_ZSt4clog") { uint64_t fv = fakeVtable(); memcpy(&o->data[0], &fv, 8); Obj* ct = newObj(1024, "ctype"); std::fill(ct->st.begin(), ct->st.end(), 1); memset(&ct->data[56], 1, 1); memcpy(&o->data[240], &ct->base, 8); }
    if (V->getName().starts_with("_ZTTN") || V->getName().starts_with("_ZTTS")) { uint64_t fv = fakeVtable(); for (uint64_t i = 0; i + 8 <= o->size; i += 8) memcpy(&o->data[i], &fv, 8); } }
  else { uint64_t base = o->base; initGlobal(base, V->getInitializer()); if (V->isConstant()) findObj(base)->ro = true; }
  return gaddr[G];
}

// ------------------------------------------------------------------ arithmetic helpers
static Val selectv(const Val& c, const Val& a, const Val& b, Type* ty);
static Val intBin(unsigned op, const Val& a, const Val& b, unsigned w) {
  if (w == 1 && (a.t || b.t)) {
    T x = asBool(a), y = asBool(b), r;
    switch (op) { case Instruction::And: r = mkAnd(x, y); break; case Instruction::Or: r = mkOr(x, y); break; case Instruction::Xor: case Instruction::Add: case Instruction::Sub: r = mkBXor(x, y); break; case Instruction::Mul: r = mkAnd(x, y); break; default: throw EngineError("i1 op"); }
    if (isBoolC(r)) return conc(r->n1); return real(r);
  }
  if (!a.t && !b.t && w <= 64) {
    uint64_t x = a.c, y = b.c, m = maskw(w), r = 0;
    auto sx = [&](uint64_t v) { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
    switch (op) {
      case Instruction::Add: r = x + y; break; case Instruction::Sub: r = x - y; break; case Instruction::Mul: r = x * y; break;
      case Instruction::UDiv: if (!y) throw Violation{"arithmetic", "integer division by zero"}; r = x / y; break;
      case Instruction::URem: if (!y) throw Violation{"arithmetic", "integer division by zero"}; r = x % y; break;
      case Instruction::SDiv: if (!y) throw Violation{"arithmetic", "integer division by zero"}; r = (sx(y) == -1) ? -x : sx(x) / sx(y); break;
      case Instruction::SRem: if (!y) throw Violation{"arithmetic", "integer division by zero"}; r = (sx(y) == -1) ? 0 : sx(x) % sx(y); break;
      case Instruction::And: r = x & y; break; case Instruction::Or: r = x | y; break; case Instruction::Xor: r = x ^ y; break;
      case Instruction::Shl: r = y >= w ? 0 : x << y; break; case Instruction::LShr: r = y >= w ? 0 : x >> y; break;
      case Instruction::AShr: r = (uint64_t)(sx(x) >> (y >= w ? w - 1 : y)); break;
      default: throw EngineError("int op");
    }
    return conc(r & m);
  }
  T x = asBV(a, w), y = asBV(b, w); Op o;
  switch (op) {
    case Instruction::Add: o = O_ADD; break; case Instruction::Sub: o = O_SUB; break; case Instruction::Mul: o = O_MUL; break;
    case Instruction::UDiv: o = O_UDIV; break; case Instruction::URem: o = O_UREM; break; case Instruction::SDiv: o = O_SDIV; break; case Instruction::SRem: o = O_SREM; break;
    case Instruction::And: o = O_AND; break; case Instruction::Or: o = O_OR; break; case Instruction::Xor: o = O_XOR; break;
    case Instruction::Shl: o = O_SHL; break; case Instruction::LShr: o = O_LSHR; break; case Instruction::AShr: o = O_ASHR; break;
    default: throw EngineError("int op");
  }
  if (o == O_UDIV || o == O_UREM || o == O_SDIV || o == O_SREM) if (decide(bvCmp(O_EQ, y, mkBV64(w, 0)))) throw Violation{"arithmetic", "integer division by zero"};
  return mkInt(bvBin(o, x, y));
}
static Val icmp(CmpInst::Predicate p, const Val& a, const Val& b, unsigned w) {
  if (!a.t && !b.t && w <= 64) {
    uint64_t x = a.c, y = b.c; auto sx = [&](uint64_t v) { return w == 64 ? (int64_t)v : (int64_t)(v << (64 - w)) >> (64 - w); };
    switch (p) {
      case CmpInst::ICMP_EQ: return conc(x == y); case CmpInst::ICMP_NE: return conc(x != y); case CmpInst::ICMP_ULT: return conc(x < y); case CmpInst::ICMP_ULE: return conc(x <= y);
      case CmpInst::ICMP_UGT: return conc(x > y); case CmpInst::ICMP_UGE: return conc(x >= y); case CmpInst::ICMP_SLT: return conc(sx(x) < sx(y)); case CmpInst::ICMP_SLE: return conc(sx(x) <= sx(y));
      case CmpInst::ICMP_SGT: return conc(sx(x) > sx(y)); case CmpInst::ICMP_SGE: return conc(sx(x) >= sx(y)); default: throw EngineError("icmp");
    }
  }
  T r;
  if (w == 1) { T x = asBool(a), y = asBool(b); if (p == CmpInst::ICMP_EQ) r = mkEqBool(x, y); else if (p == CmpInst::ICMP_NE) r = mkBXor(x, y); else if (p == CmpInst::ICMP_ULT) r = mkAnd(mkNot(x), y); else if (p == CmpInst::ICMP_UGT) r = mkAnd(x, mkNot(y)); else throw EngineError("i1 icmp"); }
  else {
    T x = asBV(a, w), y = asBV(b, w);
    switch (p) {
      case CmpInst::ICMP_EQ: r = bvCmp(O_EQ, x, y); break; case CmpInst::ICMP_NE: r = mkNot(bvCmp(O_EQ, x, y)); break;
      case CmpInst::ICMP_ULT: r = bvCmp(O_ULT, x, y); break; case CmpInst::ICMP_ULE: r = bvCmp(O_ULE, x, y); break; case CmpInst::ICMP_UGT: r = bvCmp(O_ULT, y, x); break; case CmpInst::ICMP_UGE: r = bvCmp(O_ULE, y, x); break;
      case CmpInst::ICMP_SLT: r = bvCmp(O_SLT, x, y); break; case CmpInst::ICMP_SLE: r = bvCmp(O_SLE, x, y); break; case CmpInst::ICMP_SGT: r = bvCmp(O_SLT, y, x); break; case CmpInst::ICMP_SGE: r = bvCmp(O_SLE, y, x); break;
      default: throw EngineError("icmp");
    }
  }
  if (isBoolC(r)) return conc(r->n1);
  return real(r);
}
static Val boolv(T r) { if (isBoolC(r)) return conc(r->n1); return real(r); }
static T isNanT(T a) { if (g_ieee) { if (isRC(a)) return mkBool(std::isnan(a->d)); return mk(O_FISNAN, S_BOOL, 0, {a}); } return mkBool(isSpecial(a) && a->n1 == 2); }
static Val fcmp(CmpInst::Predicate p, const Val& a, const Val& b) {
  T x = a.t, y = b.t; if (!x || !y) throw EngineError("fcmp on undefined value");
  T un = mkOr(isNanT(x), isNanT(y)), r;
  auto ord = [&](T c) { return mkAnd(mkNot(un), c); }; auto uno = [&](T c) { return mkOr(un, c); };
  switch (p) {
    case CmpInst::FCMP_FALSE: return conc(0); case CmpInst::FCMP_TRUE: return conc(1);
    case CmpInst::FCMP_ORD: r = mkNot(un); break; case CmpInst::FCMP_UNO: r = un; break;
    case CmpInst::FCMP_OEQ: r = ord(rCmp(O_REQ, x, y)); break; case CmpInst::FCMP_UEQ: r = uno(rCmp(O_REQ, x, y)); break;
    case CmpInst::FCMP_ONE: r = ord(mkNot(rCmp(O_REQ, x, y))); break; case CmpInst::FCMP_UNE: r = uno(mkNot(rCmp(O_REQ, x, y))); break;
    case CmpInst::FCMP_OLT: r = ord(rCmp(O_RLT, x, y)); break; case CmpInst::FCMP_ULT: r = uno(rCmp(O_RLT, x, y)); break;
    case CmpInst::FCMP_OLE: r = ord(rCmp(O_RLE, x, y)); break; case CmpInst::FCMP_ULE: r = uno(rCmp(O_RLE, x, y)); break;
    case CmpInst::FCMP_OGT: r = ord(rCmp(O_RLT, y, x)); break; case CmpInst::FCMP_UGT: r = uno(rCmp(O_RLT, y, x)); break;
    case CmpInst::FCMP_OGE: r = ord(rCmp(O_RLE, y, x)); break; case CmpInst::FCMP_UGE: r = uno(rCmp(O_RLE, y, x)); break;
    default: throw EngineError("fcmp");
  }
  return boolv(r);
}
static T fround(T x, int mode) {
  if (g_ieee) { if (isRC(x)) { double d = x->d; d = mode == 0 ? floor(d) : mode == 1 ? ceil(d) : mode == 2 ? trunc(d) : mode == 3 ? round(d) : nearbyint(d); return mkIeee(d, x->sort == S_F32); } return mk(O_FROUND, x->sort, 0, {x}, mode); }
  if (isSpecial(x)) return x;
  return concretizeReal(x, mode);
}
static Val fptoint(const Val& a, unsigned w, bool sgn) {
  if (g_ieee) {
    if (isRC(a.t)) { double d = trunc(a.t->d); if (!std::isfinite(d)) throw Violation{"arithmetic", "float to integer conversion of a non-finite value"}; mpz_class z(d); return mkInt(mkBV(w, z)); }
    return real(mk(sgn ? O_FP2SI : O_FP2UI, S_BV, w, {a.t}));
  }
  if (isSpecial(a.t)) throw Violation{"arithmetic", "float to integer conversion of a non-finite value"};
  T k = concretizeReal(a.t, 2);
  return mkInt(mkBV(w, k->q.get_num()));
}
static Val inttofp(const Val& a, unsigned w, bool sgn, bool f32) {
  if (!a.t) {
    int64_t s = w == 64 ? (int64_t)a.c : (int64_t)(a.c << (64 - w)) >> (64 - w);
    if (g_ieee) return real(f32 ? mkIeee(sgn ? (float)s : (float)a.c, true) : mkIeee(sgn ? (double)s : (double)a.c));
    if (sgn) return real(mkReal(mpq_class(mpz_class((long)s)))); return real(mkReal(mpq_class(mpz_class((unsigned long)a.c))));
  }
  T t = a.t->sort == S_BOOL ? a.t : a.t;
  if (t->sort == S_BOOL || (t->op == O_ITE && isBVC(t->a[1]) && isBVC(t->a[2]))) {
    T c = t->sort == S_BOOL ? t : t->a[0]; bool b = decide(c);
    T v = t->sort == S_BOOL ? mkBV64(1, b) : (b ? t->a[1] : t->a[2]);
    return inttofp(mkInt(v), v->w, sgn, f32);
  }
  if (!g_ieee) { uint64_t c = concretize(t, "integer converted to a real"); return inttofp(conc(c), t->w, sgn, f32); }
  return real(mk(sgn ? O_SI2R : O_UI2R, f32 ? S_F32 : S_REAL, 0, {t}));
}
static T fabsT(T x) {
  if (g_ieee) { if (isRC(x)) return mkIeee(fabs(x->d), x->sort == S_F32); return mk(O_FABS, x->sort, 0, {x}); }
  if (isRC(x)) return mkReal(abs(x->q));
  if (isSpecial(x)) return x->n1 == -1 ? mkSpecial(1) : x;
  return decide(rCmp(O_RLT, x, mkReal(0))) ? rNeg(x) : x;
}
static T selT(T c, T a, T b) { if (isBoolC(c)) return c->n1 ? a : b; if (a == b) return a; return decide(c) ? a : b; }
static T powT(T x, T y) {
  if (g_ieee) { if (isRC(x) && isRC(y)) return mkIeee(pow(x->d, y->d)); if (isRC(y) && y->d == 2) return rMul(x, x); throw EngineError("pow in ieee mode"); }
  if (isRC(y)) {
    if (y->q.get_den() == 1 && abs(y->q) <= 64) return rPowInt(x, y->q.get_num().get_si());
    mpq_class h = y->q * 2; if (h.get_den() == 1 && abs(h) <= 64) { T s = rFn(O_SQRT, x); return rPowInt(s, h.get_num().get_si()); }
    if (isRC(x) && x->q > 0) return mkDouble(pow(x->q.get_d(), y->q.get_d()));
  }
  return rFn(O_EXP, rMul(y, rFn(O_LOG, x)));
}

// ------------------------------------------------------------------ builtins
static std::string cstr(uint64_t a) { std::string s; for (;; a++) { Obj* o = access(a, 1, "read (string)"); if (o->st[a - o->base] != 1) throw EngineError("symbolic string"); char c = o->data[a - o->base]; if (!c) return s; s += c; } }
typedef std::function<Val(const CallBase*, std::vector<Val>&)> BI;
static std::unordered_map<std::string, BI> builtins;
static uint64_t u64(const Val& v, const char* why) { if (v.t) return concretize(v.t->sort == S_BOOL ? boolToBV(v.t, 64, false) : v.t, why); return v.c; }
static T vpVar(const std::string& n, double lo, double hi) { T v = mkVar(n, S_REAL); addVar(v, lo, hi); return v; }
static std::map<std::string, int> nameCount;
static std::string uniq(const std::string& n) { int k = nameCount[n]++; return k ? n + "#" + std::to_string(k) : n; }
static std::vector<CxxThrow> caught; static uint64_t exTop = 0;
static std::map<uint64_t, uint64_t> exType;
static std::vector<std::pair<uint64_t, int>> reaches;

static bool isStreamish(StringRef n) {
  static const char* pre[] = {"_ZNSo", "_ZNSi", "_ZNSt13basic_ostream", "_ZStls", "_ZStrs", "_ZSt16__ostream", "_ZSt4endl", "_ZSt5flush", "_ZNSt8ios_base", "_ZNSt9basic_ios", "_ZNKSt9basic_ios", "_ZNSt6locale", "_ZNKSt6locale", "_ZNSt7__cxx1119basic_ostringstream", "_ZNSt7__cxx1118basic_stringstream", "_ZNSt7__cxx1115basic_stringbuf", "_ZNSt15basic_streambuf", "_ZNSt7__cxx1119basic_istringstream", "_ZNSt14basic_ofstream", "_ZNSt14basic_ifstream", "_ZNSt13basic_filebuf", "_ZNSt13basic_fstream", "_ZN2sm7logging", "_ZNK2sm7logging", "_ZSt7getline", "_ZNSt12__basic_file", "_ZNKSt5ctype", "_ZNKSt8ios_base", "_ZNKSt15basic_streambuf", "_ZN5boost15basic_formatI", "_ZN5boost9iostreams", "_ZN5EigenlsI", "_ZN5Eigen8internal12print_matrix"};
  for (auto p : pre) if (n.starts_with(p)) return true;
  if (n.starts_with("_ZNKSt7__cxx1118basic_stringstream") || n.starts_with("_ZNKSt7__cxx1119basic_ostringstream") || n.starts_with("_ZNKSt7__cxx1115basic_stringbuf") || n.starts_with("_ZNKRSt7__cxx11")) return true;
  return false;
}
static void emptyString(uint64_t a) {   // libstdc++ SSO string
  uint64_t p = a + 16, z = 0; Obj* o = access(a, 32, "write (string)");
  storeConc(o, a - o->base, &p, 8); storeConc(o, a - o->base + 8, &z, 8); storeConc(o, a - o->base + 16, &z, 8);
}
static bool g_trackMem = true;
static void setupBuiltins() {
  auto def = [&](const char* n, BI f) { builtins[n] = f; };
  auto fn1 = [&](const char* n, std::function<T(T)> f) { builtins[n] = [f](const CallBase*, std::vector<Val>& a) { return real(f(a[0].t)); }; };
  for (auto suf : {"", "f"}) {
    std::string s = suf;
    auto d1 = [&](const char* n, std::function<T(T)> f) { fn1((std::string(n) + s).c_str(), f); };
    d1("sin", [](T x) { return rFn(O_SIN, x); }); d1("cos", [](T x) { return rFn(O_COS, x); }); d1("tan", [](T x) { return rFn(O_TAN, x); });
    d1("asin", [](T x) { return rFn(O_ASIN, x); }); d1("acos", [](T x) { return rFn(O_ACOS, x); }); d1("atan", [](T x) { return rFn(O_ATAN, x); });
    d1("sqrt", [](T x) { return rFn(O_SQRT, x); }); d1("exp", [](T x) { return rFn(O_EXP, x); }); d1("log", [](T x) { return rFn(O_LOG, x); });
    d1("log10", [](T x) { return rDiv(rFn(O_LOG, x), rFn(O_LOG, mkDouble(10))); });
    d1("fabs", fabsT); d1("floor", [](T x) { return fround(x, 0); }); d1("ceil", [](T x) { return fround(x, 1); }); d1("trunc", [](T x) { return fround(x, 2); }); d1("round", [](T x) { return fround(x, 3); }); d1("rint", [](T x) { return fround(x, 4); }); d1("nearbyint", [](T x) { return fround(x, 4); });
    builtins["atan2" + s] = [](const CallBase*, std::vector<Val>& a) { return real(rAtan2(a[0].t, a[1].t)); };
    builtins["pow" + s] = [](const CallBase*, std::vector<Val>& a) { return real(powT(a[0].t, a[1].t)); };
    builtins["hypot" + s] = [](const CallBase*, std::vector<Val>& a) { return real(rFn(O_SQRT, rAdd(rMul(a[0].t, a[0].t), rMul(a[1].t, a[1].t)))); };
    builtins["fmod" + s] = [](const CallBase*, std::vector<Val>& a) { if (g_ieee) throw EngineError("fmod ieee"); T k = concretizeReal(rDiv(a[0].t, a[1].t), 2); return real(rSub(a[0].t, rMul(k, a[1].t))); };
    builtins["remainder" + s] = [](const CallBase*, std::vector<Val>& a) { T k = concretizeReal(rDiv(a[0].t, a[1].t), 4); return real(rSub(a[0].t, rMul(k, a[1].t))); };
    builtins["fmin" + s] = [](const CallBase*, std::vector<Val>& a) { return real(selT(rCmp(O_RLT, a[0].t, a[1].t), a[0].t, a[1].t)); };
    builtins["fmax" + s] = [](const CallBase*, std::vector<Val>& a) { return real(selT(rCmp(O_RLT, a[0].t, a[1].t), a[1].t, a[0].t)); };
    builtins["ldexp" + s] = [](const CallBase*, std::vector<Val>& a) { long e = (int32_t)u64(a[1], "ldexp"); return real(rMul(a[0].t, rPowInt(mkDouble(2), e))); };
  }
  for (auto n : {"lround", "llround", "lrint", "llrint"}) { int m = strstr(n, "rint") ? 4 : 3; def(n, [m](const CallBase*, std::vector<Val>& a) { return fptoint(real(fround(a[0].t, m)), 64, true); }); }
  def("sincos", [](const CallBase*, std::vector<Val>& a) { Type* d = Type::getDoubleTy(Ctx); storeVal(a[1].c, d, real(rFn(O_SIN, a[0].t))); storeVal(a[2].c, d, real(rFn(O_COS, a[0].t))); return Val(); });
  def("__isnan", [](const CallBase*, std::vector<Val>& a) { T b = isNanT(a[0].t); return decide(b) ? conc(1) : conc(0); }); builtins["isnan"] = builtins["__isnan"];
  def("__isinf", [](const CallBase*, std::vector<Val>& a) { return conc(isSpecial(a[0].t) && abs(a[0].t->n1) == 1); }); builtins["isinf"] = builtins["__isinf"];
  def("__finite", [](const CallBase*, std::vector<Val>& a) { return conc(!isSpecial(a[0].t)); }); builtins["finite"] = builtins["__finite"];
  // memory
  auto mal = [](const CallBase*, std::vector<Val>& a) { uint64_t n = u64(a[0], "allocation size"); if (n > (1u << 26)) throw EngineError("huge allocation"); return conc(newObj(n ? n : 1, "heap")->base); };
  for (auto n : {"malloc", "_Znwm", "_Znam", "_ZnwmRKSt9nothrow_t", "_ZnamRKSt9nothrow_t", "__cxa_allocate_exception"}) def(n, mal);
  def("_ZnwmSt11align_val_t", mal); 
  def("calloc", [](const CallBase*, std::vector<Val>& a) { uint64_t n = u64(a[0], "size") * u64(a[1], "size"); Obj* o = newObj(n ? n : 1, "heap"); memset(o->st.data(), 1, o->st.size()); return conc(o->base); });
  def("posix_memalign", [](const CallBase*, std::vector<Val>& a) { uint64_t al = u64(a[1], "align"), n = u64(a[2], "size"); Obj* o = newObj(n ? n : 1, "heap", al); storeVal(a[0].c, PointerType::get(Ctx, 0), conc(o->base)); return conc(0); });
  def("aligned_alloc", [](const CallBase*, std::vector<Val>& a) { uint64_t al = u64(a[0], "align"), n = u64(a[1], "size"); return conc(newObj(n ? n : 1, "heap", al)->base); });
  auto fre = [](const CallBase*, std::vector<Val>& a) {
    uint64_t p = u64(a[0], "freed pointer"); if (!p) return Val();
    Obj* o = findObj(p); if (!o || o->base != p || strcmp(o->kind, "heap")) throw Violation{"memory", "invalid free of " + hex(p)};
    freeObj(o); return Val();
  };
  for (auto n : {"free", "_ZdlPv", "_ZdlPvm", "_ZdaPv", "_ZdaPvm", "_ZdlPvSt11align_val_t", "_ZdlPvmSt11align_val_t", "__cxa_free_exception"}) def(n, fre);
  def("realloc", [](const CallBase*, std::vector<Val>& a) { uint64_t p = u64(a[0], "ptr"), n = u64(a[1], "size"); Obj* q = newObj(n ? n : 1, "heap"); if (p) { Obj* o = findObj(p); if (!o || o->base != p) throw Violation{"memory", "invalid realloc"}; memCopy(q->base, p, std::min<uint64_t>(n, o->size)); freeObj(o); } return conc(q->base); });
  def("memcpy", [](const CallBase*, std::vector<Val>& a) { memCopy(u64(a[0], "ptr"), u64(a[1], "ptr"), u64(a[2], "size")); return a[0]; }); builtins["memmove"] = builtins["memcpy"];
  def("memset", [](const CallBase*, std::vector<Val>& a) {
    uint64_t p = u64(a[0], "ptr"), n = u64(a[2], "size"); if (!n) return a[0]; Obj* o = access(p, n, "write (memset)"); clearRange(o, p - o->base, n);
    if (a[1].t) { T b = bvExtract(a[1].t, 7, 0); for (uint64_t i = 0; i < n; i++) storeTerm(o, p - o->base + i, b, 1); } else { memset(&o->data[p - o->base], a[1].c, n); memset(&o->st[p - o->base], 1, n); }
    return a[0];
  });
  def("memcmp", [](const CallBase*, std::vector<Val>& a) {
    uint64_t p = u64(a[0], "ptr"), q = u64(a[1], "ptr"), n = u64(a[2], "size"); Type* i8 = Type::getInt8Ty(Ctx);
    for (uint64_t i = 0; i < n; i++) { Val x = loadVal(p + i, i8), y = loadVal(q + i, i8); Val e = icmp(CmpInst::ICMP_EQ, x, y, 8); if (!(e.t ? decide(e.t) : e.c)) { Val l = icmp(CmpInst::ICMP_ULT, x, y, 8); return conc((l.t ? decide(l.t) : l.c) ? 0xffffffffu : 1); } }
    return conc(0);
  }); builtins["bcmp"] = builtins["memcmp"];
  def("memchr", [](const CallBase*, std::vector<Val>& a) { uint64_t p = u64(a[0], "ptr"), n = u64(a[2], "size"); for (uint64_t i = 0; i < n; i++) { Val x = loadVal(p + i, Type::getInt8Ty(Ctx)); Val e = icmp(CmpInst::ICMP_EQ, x, conc(a[1].c & 255), 8); if (e.t ? decide(e.t) : e.c) return conc(p + i); } return conc(0); });
  for (auto ab : {"abs", "labs", "llabs"}) def(ab, [](const CallBase* c, std::vector<Val>& a) { unsigned w = c->getType()->getIntegerBitWidth(); Val n = icmp(CmpInst::ICMP_SLT, a[0], conc(0), w); return selectv(n, intBin(Instruction::Sub, conc(0), a[0], w), a[0], c->getType()); });
  def("strlen", [](const CallBase*, std::vector<Val>& a) { return conc(cstr(u64(a[0], "ptr")).size()); });
  def("strcmp", [](const CallBase*, std::vector<Val>& a) { int r = strcmp(cstr(a[0].c).c_str(), cstr(a[1].c).c_str()); return conc((uint32_t)r); });
  def("strncmp", [](const CallBase*, std::vector<Val>& a) { int r = strncmp(cstr(a[0].c).c_str(), cstr(a[1].c).c_str(), a[2].c); return conc((uint32_t)r); });
  def("abort", [](const CallBase*, std::vector<Val>&) -> Val { throw Violation{"abort", "abort() called"}; });
  def("_ZSt9terminatev", [](const CallBase*, std::vector<Val>&) -> Val { throw Violation{"abort", "std::terminate() called"}; });
  def("__assert_fail", [](const CallBase*, std::vector<Val>& a) -> Val { throw Violation{"assert", "assertion failed: " + cstr(a[0].c).substr(0, 160)}; });
  def("exit", [](const CallBase*, std::vector<Val>&) -> Val { throw Violation{"abort", "exit() called"}; });
  def("__cxa_pure_virtual", [](const CallBase*, std::vector<Val>&) -> Val { throw Violation{"abort", "pure virtual call"}; });
  auto zero = [](const CallBase*, std::vector<Val>&) { return conc(0); };
  for (auto n : {"__cxa_atexit", "__cxa_guard_release", "__cxa_guard_abort", "printf", "puts", "putchar", "fprintf", "fflush", "fwrite", "fputs", "fputc", "vprintf", "__printf_chk", "pthread_mutex_lock", "pthread_mutex_unlock", "pthread_mutex_init", "pthread_mutex_destroy", "pthread_cond_init", "pthread_cond_destroy", "pthread_cond_broadcast", "pthread_cond_signal", "pthread_once", "pthread_mutexattr_init", "pthread_mutexattr_settype", "pthread_mutexattr_destroy", "pthread_condattr_init", "pthread_condattr_setclock", "pthread_condattr_destroy", "atexit", "clock", "time", "perror", "pthread_key_create", "srand", "gettimeofday", "clock_gettime"}) def(n, zero);
  def("__cxa_guard_acquire", [](const CallBase*, std::vector<Val>& a) { Obj* o = access(a[0].c, 1, "guard"); uint32_t off = a[0].c - o->base; if (o->data[off]) return conc(0); o->data[off] = 1; o->st[off] = 1; return conc(1); });
  def("__errno_location", [](const CallBase*, std::vector<Val>&) { static uint64_t e = 0; if (!e || !findObj(e)) { Obj* o = newObj(8, "global"); memset(o->st.data(), 1, 8); e = o->base; } return conc(e); });
  // exceptions
  def("__cxa_throw", [](const CallBase*, std::vector<Val>& a) -> Val { exType[a[0].c] = a[1].c; throw CxxThrow{a[0].c, a[1].c}; });
  def("__cxa_begin_catch", [](const CallBase*, std::vector<Val>& a) { caught.push_back(CxxThrow{a[0].c, exType[a[0].c]}); return a[0]; });
  def("__cxa_end_catch", [](const CallBase*, std::vector<Val>&) { if (!caught.empty()) caught.pop_back(); return Val(); });
  def("__cxa_rethrow", [](const CallBase*, std::vector<Val>&) -> Val { if (caught.empty()) throw Violation{"abort", "rethrow without exception"}; throw caught.back(); });
  def("__cxa_get_exception_ptr", [](const CallBase*, std::vector<Val>& a) { return a[0]; });
  def("_ZSt18uncaught_exceptionv", zero);
  static const char* thr[][2] = {{"_ZSt20__throw_length_errorPKc", "_ZTISt12length_error"}, {"_ZSt19__throw_logic_errorPKc", "_ZTISt11logic_error"}, {"_ZSt20__throw_out_of_rangePKc", "_ZTISt12out_of_range"}, {"_ZSt24__throw_out_of_range_fmtPKcz", "_ZTISt12out_of_range"}, {"_ZSt17__throw_bad_allocv", "_ZTISt9bad_alloc"}, {"_ZSt28__throw_bad_array_new_lengthv", "_ZTISt20bad_array_new_length"}, {"_ZSt16__throw_bad_castv", "_ZTISt8bad_cast"}, {"__cxa_bad_cast", "_ZTISt8bad_cast"}, {"_ZSt24__throw_invalid_argumentPKc", "_ZTISt16invalid_argument"}, {"_ZSt25__throw_bad_function_callv", "_ZTISt17bad_function_call"}, {"__cxa_throw_bad_array_new_length", "_ZTISt20bad_array_new_length"}, {"_ZSt21__throw_runtime_errorPKc", "_ZTISt13runtime_error"}};
  for (auto& t : thr) { std::string ti = t[1]; def(t[0], [ti](const CallBase*, std::vector<Val>&) -> Val { uint64_t a = 0; if (auto* g = M->getNamedValue(ti)) a = globalAddr(g); Obj* o = newObj(64, "heap"); memset(o->st.data(), 1, 64); exType[o->base] = a; throw CxxThrow{o->base, a}; }); }
  // constructors / destructors of the standard exception classes: no observable state
  for (auto c : {"St11logic_error", "St13runtime_error", "St9exception", "St12out_of_range", "St16invalid_argument", "St12length_error", "St12domain_error", "St11range_error", "St14overflow_error", "St9bad_alloc", "St8bad_cast"})
    for (auto k : {"C1", "C2", "D0", "D1", "D2"}) for (auto s : {"Ev", "EPKc", "ERKNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEEE", "ERKS_", "EOS_"}) def((std::string("_ZN") + c + k + s).c_str(), [](const CallBase*, std::vector<Val>&) { return Val(); });
  def("__dynamic_cast", nullptr);
  // harness interface
  def("vp_real", [](const CallBase*, std::vector<Val>& a) { return real(vpVar(uniq(cstr(a[0].c)), g_ieee ? -1e301 : -1e18, g_ieee ? 1e301 : 1e18)); });
  def("vp_real_in", [](const CallBase*, std::vector<Val>& a) { return real(vpVar(uniq(cstr(a[0].c)), realConstApprox(a[1].t), realConstApprox(a[2].t))); });
  def("vp_eps", [](const CallBase*, std::vector<Val>& a) { return real(vpVar("eps:" + uniq(cstr(a[0].c)), 1e-40, 1e-30)); });
  def("vp_var", [](const CallBase*, std::vector<Val>& a) { std::string n = cstr(a[0].c); if (nameCount[n]) return real(mkVar(n, S_REAL)); return real(vpVar(uniq(n), g_ieee ? -1e301 : -1e18, g_ieee ? 1e301 : 1e18)); });
  def("vp_unit_var", [](const CallBase*, std::vector<Val>& a) {
    std::string n = cstr(a[0].c); uint64_t k = a[2].c; std::vector<T> v; bool had = nameCount[n]; if (!had) uniq(n);
    for (uint64_t i = 0; i < k; i++) v.push_back(mkVar(n + "." + std::to_string(i), S_REAL));
    if (!had) addUnit(v); for (uint64_t i = 0; i < k; i++) storeVal(a[1].c + 8 * i, Type::getDoubleTy(Ctx), real(v[i]));
    return Val();
  });
  def("vp_unit", [](const CallBase*, std::vector<Val>& a) {
    std::string n = uniq(cstr(a[0].c)); uint64_t k = a[2].c; std::vector<T> v;
    for (uint64_t i = 0; i < k; i++) v.push_back(mkVar(n + "." + std::to_string(i), S_REAL));
    addUnit(v); for (uint64_t i = 0; i < k; i++) storeVal(a[1].c + 8 * i, Type::getDoubleTy(Ctx), real(v[i]));
    return Val();
  });
  auto bvv = [](unsigned w) { return [w](const CallBase*, std::vector<Val>& a) { T v = mkVar(uniq(cstr(a[0].c)), S_BV, w); addVar(v, 0, 0); return real(v); }; };
  def("vp_u64", bvv(64)); def("vp_u32", bvv(32)); def("vp_u16", bvv(16)); def("vp_u8", bvv(8));
  def("vp_bool", [](const CallBase*, std::vector<Val>& a) { T v = mkVar(uniq(cstr(a[0].c)), S_BV, 8); addVar(v, 0, 0); assume(bvCmp(O_ULE, v, mkBV64(8, 1))); return conc(decide(bvCmp(O_EQ, v, mkBV64(8, 1)))); });
  def("vp_choice", [](const CallBase*, std::vector<Val>& a) { T v = mkVar(uniq(cstr(a[0].c)), S_BV, 32); addVar(v, 0, 0); uint64_t n = u64(a[1], "choice"); assume(bvCmp(O_ULT, v, mkBV64(32, n))); for (uint64_t i = 0; i + 1 < n; i++) if (decide(bvCmp(O_EQ, v, mkBV64(32, i)))) return conc(i); return conc(n - 1); });
  def("vp_assume", [](const CallBase*, std::vector<Val>& a) { if (a[0].t) assume(a[0].t->sort == S_BOOL ? a[0].t : mkNot(bvCmp(O_EQ, a[0].t, mkBV64(a[0].t->w, 0)))); else if (!a[0].c) throw PathEnd{"assume"}; return Val(); });
  def("vp_check", [](const CallBase*, std::vector<Val>& a) { T c = a[0].t ? (a[0].t->sort == S_BOOL ? a[0].t : mkNot(bvCmp(O_EQ, a[0].t, mkBV64(a[0].t->w, 0)))) : mkBool(a[0].c != 0); doCheck(c, cstr(a[1].c)); return Val(); });
  def("vp_check_eq", [](const CallBase*, std::vector<Val>& a) { doCheckEq(a[0].t, a[1].t, cstr(a[2].c)); return Val(); });
  def("vp_diff", [](const CallBase*, std::vector<Val>& a) { T v = mkVar(cstr(a[1].c), S_REAL); return real(diff(a[0].t, v)); });
  def("vp_diff0", [](const CallBase*, std::vector<Val>& a) { T v = mkVar("eps:" + cstr(a[1].c), S_REAL); std::map<T, T> m; m[v] = mkReal(0);
    extern T trySeriesDiff0(T, T, std::string&); std::string why;
    if (T r = trySeriesDiff0(a[0].t, v, why)) return real(r);
    T r = subst(diff(a[0].t, v), m);
    if (isSpecial(r)) throw EngineError("derivative at 0: " + why);
    return real(r); });
  def("vp_subst", [](const CallBase*, std::vector<Val>& a) { T v = mkVar(cstr(a[1].c), S_REAL); std::map<T, T> m; m[v] = a[2].t; return real(subst(a[0].t, m)); });
  def("vp_uf", [](const CallBase*, std::vector<Val>& a) { std::vector<T> v; for (uint64_t i = 0; i < a[1].c; i++) v.push_back(loadVal(a[2].c + 8 * i, Type::getDoubleTy(Ctx)).t); return real(rUF(cstr(a[0].c), v, {})); });
  def("vp_uf_d", [](const CallBase*, std::vector<Val>& a) { std::vector<T> v; for (uint64_t i = 0; i < a[1].c; i++) v.push_back(loadVal(a[2].c + 8 * i, Type::getDoubleTy(Ctx)).t); return real(rUF(cstr(a[0].c), v, {(int)a[3].c})); });
  def("vp_round_sqrt", [](const CallBase*, std::vector<Val>&) { g_roundSqrt = true; return Val(); });
  def("vp_reach", [](const CallBase*, std::vector<Val>& a) { g_notes["reach"] += cstr(a[0].c) + ";"; return Val(); });
  def("vp_symbolic", [](const CallBase*, std::vector<Val>&) { return conc(1); });
  def("vp_fail", [](const CallBase*, std::vector<Val>& a) -> Val { doCheck(mkBool(false), cstr(a[0].c)); throw PathEnd{"ok"}; });
  def("vp_print", [](const CallBase*, std::vector<Val>& a) { if (getenv("KSE_PRINT")) fprintf(stderr, "%s = %s\n", cstr(a[0].c).c_str(), a[1].t ? showTerm(a[1].t, 8).c_str() : std::to_string(a[1].c).c_str()); return Val(); });
}
// C++ type matching
static std::string gname(uint64_t a) { for (auto& kv : gaddr) if (kv.second == a) return kv.first->getName().str(); return ""; }
static bool typeMatch(uint64_t thrown, uint64_t want) {
  if (!want || thrown == want) return true;
  std::string t = gname(thrown), w = gname(want);
  if (t == w) return true;
  static const std::map<std::string, std::string> base = {{"_ZTISt12out_of_range", "_ZTISt11logic_error"}, {"_ZTISt16invalid_argument", "_ZTISt11logic_error"}, {"_ZTISt12length_error", "_ZTISt11logic_error"}, {"_ZTISt12domain_error", "_ZTISt11logic_error"}, {"_ZTISt11logic_error", "_ZTISt9exception"}, {"_ZTISt13runtime_error", "_ZTISt9exception"}, {"_ZTISt11range_error", "_ZTISt13runtime_error"}, {"_ZTISt14overflow_error", "_ZTISt13runtime_error"}, {"_ZTISt9bad_alloc", "_ZTISt9exception"}, {"_ZTISt20bad_array_new_length", "_ZTISt9bad_alloc"}, {"_ZTISt8bad_cast", "_ZTISt9exception"}, {"_ZTISt17bad_function_call", "_ZTISt9exception"}};
  auto it = base.find(t);
  if (it != base.end()) { if (it->second == w) return true; auto* g = M->getNamedValue(it->second); if (g) return typeMatch(globalAddr(g), want); auto it2 = base.find(it->second); return it2 != base.end() && it2->second == w; }
  // Itanium typeinfo in the module: SI -> base at +16 ; VMI -> bases at +24 with count at +20
  auto* g = dyn_cast_or_null<GlobalVariable>(M->getNamedValue(t));
  if (!g || g->isDeclaration()) return false;
  auto* init = dyn_cast<ConstantStruct>(g->getInitializer()); if (!init) return false;
  std::string vt; { std::string s; raw_string_ostream os(s); init->getOperand(0)->print(os); vt = os.str(); }
  if (vt.find("__si_class_type_info") != std::string::npos) return typeMatch(constVal(init->getOperand(2)).c, want);
  if (vt.find("__vmi_class_type_info") != std::string::npos) { for (unsigned i = 4; i + 1 < init->getNumOperands() + 1 && i < init->getNumOperands(); i += 2) if (typeMatch(constVal(init->getOperand(i)).c, want)) return true; }
  return false;
}
// offset of base `want` inside an object whose typeinfo is `ti` (public non-virtual bases); -1 if absent
static int64_t baseOffset(uint64_t ti, uint64_t want, uint64_t objAddr) {
  if (ti == want) return 0;
  std::string t = gname(ti), w = gname(want); if (t == w) return 0;
  auto* g = dyn_cast_or_null<GlobalVariable>(M->getNamedValue(t)); if (!g || g->isDeclaration()) return -1;
  auto* init = dyn_cast<ConstantStruct>(g->getInitializer()); if (!init) return -1;
  std::string s; raw_string_ostream os(s); init->getOperand(0)->print(os); os.flush();
  if (s.find("__si_class_type_info") != std::string::npos) return baseOffset(constVal(init->getOperand(2)).c, want, objAddr);
  if (s.find("__vmi_class_type_info") != std::string::npos)
    for (unsigned i = 4; i + 1 < init->getNumOperands(); i += 2) {
      int64_t fl = (int64_t)constVal(init->getOperand(i + 1)).c, off = fl >> 8;
      if (fl & 1) { uint64_t vt = loadVal(objAddr, PointerType::get(Ctx, 0)).c; off = (int64_t)loadVal(vt + off, Type::getInt64Ty(Ctx)).c; }
      int64_t r = baseOffset(constVal(init->getOperand(i)).c, want, objAddr + off);
      if (r >= 0) return r + off;
    }
  return -1;
}
static Val dynCast(std::vector<Val>& a) {
  uint64_t src = a[0].c; if (!src) return conc(0);
  Type* P = PointerType::get(Ctx, 0);
  uint64_t vt = loadVal(src, P).c;
  int64_t top = (int64_t)loadVal(vt - 16, Type::getInt64Ty(Ctx)).c; uint64_t ti = loadVal(vt - 8, P).c, whole = src + top;
  int64_t off = baseOffset(ti, a[2].c, whole);
  return conc(off < 0 ? 0 : whole + off);
}

// ------------------------------------------------------------------ interpreter
static void pushFrame(const Function* F, std::vector<Val>& args, const CallBase* call, int retDst) {
  if (stack.size() > 2000) throw EngineError("stack depth");
  DF* f = decode(F); f->calls++;
  Frame* fr = new Frame(); fr->f = f; fr->r.resize(f->nregs); fr->call = call; fr->retDst = retDst;
  size_t n = F->arg_size();
  for (size_t i = 0; i < n && i < args.size(); i++) {
    fr->r[i] = args[i];
    if (F->getArg(i)->hasByValAttr()) { Type* t = F->getArg(i)->getParamByValType(); uint64_t sz = DL->getTypeAllocSize(t); Obj* o = newObj(sz, "stack"); memCopy(o->base, args[i].c, sz); fr->allocas.push_back(o); fr->r[i] = conc(o->base); }
  }
  stack.push_back(fr);
}
static void popFrame() { Frame* fr = stack.back(); for (Obj* o : fr->allocas) if (o) freeObj(o); delete fr; stack.pop_back(); }
static void jump(Frame& fr, const BasicBlock* to) {
  const BasicBlock* from = fr.f->F->getEntryBlock().getParent() ? nullptr : nullptr; (void)from;
  int bi = fr.f->bidx[to];
  DB& b = fr.f->blocks[bi];
  if (!b.phis.empty()) {
    std::vector<Val> v; v.reserve(b.phis.size());
    for (auto* p : b.phis) v.push_back(getv(fr, p->getIncomingValueForBlock(fr.prev)));
    for (size_t i = 0; i < v.size(); i++) fr.r[fr.f->slot[b.phis[i]]] = std::move(v[i]);
  }
  fr.bb = bi; fr.ip = 0;
}
static std::string whereAmI() {
  std::string s; int n = 0;
  for (size_t i = stack.size(); i-- > 0 && n < 4; n++) { std::string d = demangle(stack[i]->f->F->getName().str()); s += (n ? " <- " : "") + d.substr(0, 110); }
  return s;
}
static const BasicBlock* curBlock(Frame& fr) { return fr.f->blocks[fr.bb].code.empty() ? nullptr : fr.f->blocks[fr.bb].code[0].I->getParent(); }
static void unwind(CxxThrow x, size_t base) {
  while (stack.size() > base) {
    Frame& fr = *stack.back();
    // the call being executed in this frame is at ip-1
    const Instruction* I = fr.f->blocks[fr.bb].code[fr.ip - 1].I;
    if (auto* inv = dyn_cast<InvokeInst>(I)) {
      fr.exc = x; fr.prev = curBlock(fr); jump(fr, inv->getUnwindDest()); return;
    }
    popFrame();
  }
  throw x;
}
static Val fullVec(Type* ty, std::function<Val(unsigned)> f) { Val v; v.agg = std::make_shared<std::vector<Val>>(); unsigned n = cast<FixedVectorType>(ty)->getNumElements(); for (unsigned i = 0; i < n; i++) v.agg->push_back(f(i)); return v; }

static Val binop(unsigned op, const Val& a, const Val& b, Type* ty) {
  if (ty->isVectorTy()) { Type* e = ty->getScalarType(); return fullVec(ty, [&](unsigned i) { return binop(op, (*a.agg)[i], (*b.agg)[i], e); }); }
  if (ty->isFloatingPointTy()) {
    if (!a.t || !b.t) throw EngineError("float op on undefined value");
    switch (op) { case Instruction::FAdd: return real(rAdd(a.t, b.t)); case Instruction::FSub: return real(rSub(a.t, b.t)); case Instruction::FMul: return real(rMul(a.t, b.t)); case Instruction::FDiv: return real(rDiv(a.t, b.t));
      case Instruction::FRem: { std::vector<Val> v{a, b}; return builtins["fmod"](nullptr, v); } }
    throw EngineError("float op");
  }
  return intBin(op, a, b, ty->getIntegerBitWidth());
}
static Val castop(unsigned op, const Val& a, Type* from, Type* to) {
  if (to->isVectorTy() && from->isVectorTy() && op != Instruction::BitCast) return fullVec(to, [&](unsigned i) { return castop(op, (*a.agg)[i], from->getScalarType(), to->getScalarType()); });
  switch (op) {
    case Instruction::Trunc: {
      unsigned w = to->getIntegerBitWidth();
      if (!a.t) return conc(a.c & maskw(w));
      if (w == 1) { T t = a.t->sort == S_BOOL ? a.t : bvCmp(O_EQ, bvExtract(a.t, 0, 0), mkBV64(1, 1)); return boolv(t); }
      return mkInt(bvExtract(a.t, w - 1, 0));
    }
    case Instruction::ZExt: { unsigned w = to->getIntegerBitWidth(); if (!a.t) return w <= 64 ? a : real(mkBV64(w, a.c)); if (a.t->sort == S_BOOL) return mkInt(boolToBV(a.t, w, false)); return mkInt(bvExt(O_ZEXT, a.t, w)); }
    case Instruction::SExt: { unsigned w = to->getIntegerBitWidth(), fw = from->getIntegerBitWidth(); if (!a.t) { uint64_t v = fw == 64 ? a.c : (uint64_t)((int64_t)(a.c << (64 - fw)) >> (64 - fw)); if (w <= 64) return conc(v & maskw(w)); return mkInt(bvExt(O_SEXT, mkBV64(fw, a.c), w)); } if (a.t->sort == S_BOOL) return mkInt(boolToBV(a.t, w, true)); return mkInt(bvExt(O_SEXT, a.t, w)); }
    case Instruction::PtrToInt: { unsigned w = to->getIntegerBitWidth(); if (!a.t) return conc(a.c & maskw(w)); return mkInt(w < 64 ? bvExtract(a.t, w - 1, 0) : a.t); }
    case Instruction::IntToPtr: { unsigned w = from->getIntegerBitWidth(); if (!a.t) return a; return mkInt(bvExt(O_ZEXT, a.t, 64 > w ? 64 : w)); }
    case Instruction::FPToSI: return fptoint(a, to->getIntegerBitWidth(), true);
    case Instruction::FPToUI: return fptoint(a, to->getIntegerBitWidth(), false);
    case Instruction::SIToFP: return inttofp(a, from->getIntegerBitWidth(), true, to->isFloatTy());
    case Instruction::UIToFP: return inttofp(a, from->getIntegerBitWidth(), false, to->isFloatTy());
    case Instruction::FPExt: if (g_ieee && a.t->sort == S_F32) { if (isRC(a.t)) return real(mkIeee(a.t->d)); return real(mk(O_FEXT, S_REAL, 0, {a.t})); } return a;
    case Instruction::FPTrunc: if (g_ieee && to->isFloatTy()) { if (isRC(a.t)) return real(mkIeee((float)a.t->d, true)); return real(mk(O_FTRUNC, S_F32, 0, {a.t})); } return a;
    case Instruction::BitCast: {
      if (from == to || (from->isPointerTy() && to->isPointerTy())) return a;
      if (from->isFloatingPointTy() && to->isIntegerTy()) return mkInt(bitsOf(a.t, to->getIntegerBitWidth()));
      if (from->isIntegerTy() && to->isFloatingPointTy()) return real(fromBits(asBV(a, from->getIntegerBitWidth()), to->isFloatTy()));
      // vectors: through bits
      T bits = nullptr;
      if (from->isVectorTy()) { Type* e = from->getScalarType(); unsigned w = DL->getTypeSizeInBits(e); for (auto& x : *a.agg) { T b = e->isFloatingPointTy() ? bitsOf(x.t, w) : asBV(x, w); bits = bits ? bvConcat(b, bits) : b; } }
      else bits = from->isFloatingPointTy() ? bitsOf(a.t, DL->getTypeSizeInBits(from)) : asBV(a, from->getIntegerBitWidth());
      if (to->isVectorTy()) { Type* e = to->getScalarType(); unsigned w = DL->getTypeSizeInBits(e); return fullVec(to, [&](unsigned i) { T b = bvExtract(bits, w * i + w - 1, w * i); return e->isFloatingPointTy() ? real(fromBits(b, e->isFloatTy())) : mkInt(b); }); }
      if (to->isFloatingPointTy()) return real(fromBits(bits, to->isFloatTy()));
      return mkInt(bits);
    }
    default: throw EngineError("cast");
  }
}
static Val selectv(const Val& c, const Val& a, const Val& b, Type* ty) {
  if (c.agg) return fullVec(ty, [&](unsigned i) { return selectv((*c.agg)[i], (*a.agg)[i], (*b.agg)[i], ty->getScalarType()); });
  if (!c.t) return c.c & 1 ? a : b;
  T cc = asBool(c); if (isBoolC(cc)) return cc->n1 ? a : b;
  if (ty->isIntegerTy() && ty->getIntegerBitWidth() > 1) { unsigned w = ty->getIntegerBitWidth(); return mkInt(mkIte(cc, asBV(a, w), asBV(b, w))); }
  if (ty->isIntegerTy()) return boolv(mkIte(cc, asBool(a), asBool(b)));
  if (ty->isFloatingPointTy() && g_ieee) { if (a.t == b.t) return a; return real(mk(O_ITE, a.t->sort, 0, {cc, a.t, b.t})); }
  if (ty->isFloatingPointTy() && a.t == b.t) return a;
  return decide(cc) ? a : b;
}
static Val execIntrinsic(Frame& fr, const CallBase* C, const Function* F, std::vector<Val>& a) {
  Intrinsic::ID id = F->getIntrinsicID(); Type* ty = C->getType();
  if (ty->isVectorTy() && id != Intrinsic::masked_load) {
    bool elem = true; for (auto& x : a) if (!x.agg) { elem = false; }
    if (elem || id == Intrinsic::abs || id == Intrinsic::ctlz || id == Intrinsic::cttz || id == Intrinsic::powi) {
      throw EngineError("vector intrinsic " + F->getName().str());
    }
  }
  unsigned w = ty->isIntegerTy() ? ty->getIntegerBitWidth() : 0;
  auto cmpsel = [&](CmpInst::Predicate p) { Val c = icmp(p, a[0], a[1], w); return selectv(c, a[0], a[1], ty); };
  switch (id) {
    case Intrinsic::lifetime_start: case Intrinsic::lifetime_end: case Intrinsic::dbg_declare: case Intrinsic::dbg_value: case Intrinsic::assume: case Intrinsic::donothing: case Intrinsic::prefetch: case Intrinsic::invariant_start: case Intrinsic::invariant_end: case Intrinsic::experimental_noalias_scope_decl: case Intrinsic::var_annotation: case Intrinsic::stackrestore: return Val();
    case Intrinsic::stacksave: return conc(0);
    case Intrinsic::launder_invariant_group: case Intrinsic::strip_invariant_group: return a[0];
    case Intrinsic::memcpy: case Intrinsic::memmove: case Intrinsic::memcpy_inline: memCopy(u64(a[0], "ptr"), u64(a[1], "ptr"), u64(a[2], "size")); return Val();
    case Intrinsic::memset: { std::vector<Val> b{a[0], a[1], a[2]}; builtins["memset"](C, b); return Val(); }
    case Intrinsic::expect: case Intrinsic::expect_with_probability: return a[0];
    case Intrinsic::is_constant: return conc(0);
    case Intrinsic::objectsize: return conc(~0ull);
    case Intrinsic::trap: case Intrinsic::ubsantrap: throw Violation{"abort", "trap (undefined behaviour reached)"};
    case Intrinsic::eh_typeid_for: return conc((uint32_t)(a[0].c ? (a[0].c >> 4 & 0x7fffffff) : 0));
    case Intrinsic::fabs: return real(fabsT(a[0].t)); case Intrinsic::sqrt: return real(rFn(O_SQRT, a[0].t));
    case Intrinsic::sin: return real(rFn(O_SIN, a[0].t)); case Intrinsic::cos: return real(rFn(O_COS, a[0].t));
    case Intrinsic::exp: return real(rFn(O_EXP, a[0].t)); case Intrinsic::log: return real(rFn(O_LOG, a[0].t));
    case Intrinsic::pow: return real(powT(a[0].t, a[1].t)); case Intrinsic::powi: return real(rPowInt(a[0].t, (int32_t)u64(a[1], "powi")));
    case Intrinsic::floor: return real(fround(a[0].t, 0)); case Intrinsic::ceil: return real(fround(a[0].t, 1)); case Intrinsic::trunc: return real(fround(a[0].t, 2)); case Intrinsic::round: return real(fround(a[0].t, 3)); case Intrinsic::rint: case Intrinsic::nearbyint: case Intrinsic::roundeven: return real(fround(a[0].t, 4));
    case Intrinsic::fmuladd: return real(rAdd(rMul(a[0].t, a[1].t), a[2].t));
    case Intrinsic::minnum: { return real(selT(rCmp(O_RLT, a[0].t, a[1].t), a[0].t, a[1].t)); }
    case Intrinsic::maxnum: { return real(selT(rCmp(O_RLT, a[0].t, a[1].t), a[1].t, a[0].t)); }
    case Intrinsic::copysign: { T m = fabsT(a[0].t); if (g_ieee) throw EngineError("copysign ieee"); return real(decide(rCmp(O_RLT, a[1].t, mkReal(0))) ? rNeg(m) : m); }
    case Intrinsic::is_fpclass: { unsigned m = a[1].c; T nan = isNanT(a[0].t); if (!g_ieee) { int k = isSpecial(a[0].t) ? a[0].t->n1 : 0; bool isn = k == 2, pinf = k == 1, ninf = k == -1; bool fin = !k; return conc((isn && (m & 3)) || (ninf && (m & 4)) || (pinf && (m & 0x200)) || (fin && (m & 0x1f8) == 0x1f8)); } if ((m & 3) == m) return boolv(nan);
      T inf = rCmp(O_REQ, mk(O_FABS, a[0].t->sort, 0, {a[0].t}), mkIeee(INFINITY, a[0].t->sort == S_F32));
      if (m == 0x204) return boolv(inf); if (m == 0x1f8) return boolv(mkAnd(mkNot(nan), mkNot(inf))); throw EngineError("fpclass"); }
    case Intrinsic::smax: return cmpsel(CmpInst::ICMP_SGT); case Intrinsic::smin: return cmpsel(CmpInst::ICMP_SLT); case Intrinsic::umax: return cmpsel(CmpInst::ICMP_UGT); case Intrinsic::umin: return cmpsel(CmpInst::ICMP_ULT);
    case Intrinsic::abs: { Val c = icmp(CmpInst::ICMP_SLT, a[0], conc(0), w); return selectv(c, intBin(Instruction::Sub, conc(0), a[0], w), a[0], ty); }
    case Intrinsic::ctpop: { if (!a[0].t) return conc(__builtin_popcountll(a[0].c)); T s = mkBV64(w, 0); for (unsigned i = 0; i < w; i++) s = bvBin(O_ADD, s, bvExt(O_ZEXT, bvExtract(a[0].t, i, i), w)); return mkInt(s); }
    case Intrinsic::ctlz: { if (!a[0].t) return conc(a[0].c ? __builtin_clzll(a[0].c) - (64 - w) : w); T r = mkBV64(w, w); for (unsigned i = 0; i < w; i++) r = mkIte(bvCmp(O_EQ, bvExtract(a[0].t, i, i), mkBV64(1, 1)), mkBV64(w, w - 1 - i), r); return mkInt(r); }
    case Intrinsic::cttz: { if (!a[0].t) return conc(a[0].c ? __builtin_ctzll(a[0].c) : w); T r = mkBV64(w, w); for (int i = w - 1; i >= 0; i--) r = mkIte(bvCmp(O_EQ, bvExtract(a[0].t, i, i), mkBV64(1, 1)), mkBV64(w, i), r); return mkInt(r); }
    case Intrinsic::bswap: { T t = asBV(a[0], w), r = nullptr; for (unsigned i = 0; i < w; i += 8) { T b = bvExtract(t, i + 7, i); r = r ? bvConcat(r, b) : b; } return mkInt(r); }
    case Intrinsic::bitreverse: { T t = asBV(a[0], w), r = nullptr; for (unsigned i = 0; i < w; i++) { T b = bvExtract(t, i, i); r = r ? bvConcat(r, b) : b; } return mkInt(r); }
    case Intrinsic::fshl: case Intrinsic::fshr: { uint64_t s = u64(a[2], "funnel shift") % w; T c = bvConcat(asBV(a[0], w), asBV(a[1], w)); if (id == Intrinsic::fshl) return mkInt(bvExtract(c, 2 * w - 1 - s, w - s)); return mkInt(bvExtract(c, w - 1 + s, s)); }
    case Intrinsic::usub_sat: { Val c = icmp(CmpInst::ICMP_UGT, a[0], a[1], w); return selectv(c, intBin(Instruction::Sub, a[0], a[1], w), conc(0), ty); }
    case Intrinsic::uadd_sat: { Val s = intBin(Instruction::Add, a[0], a[1], w); Val c = icmp(CmpInst::ICMP_ULT, s, a[0], w); return selectv(c, conc(maskw(w)), s, ty); }
    case Intrinsic::uadd_with_overflow: case Intrinsic::usub_with_overflow: case Intrinsic::umul_with_overflow: case Intrinsic::sadd_with_overflow: case Intrinsic::ssub_with_overflow: case Intrinsic::smul_with_overflow: {
      unsigned ww = cast<StructType>(ty)->getElementType(0)->getIntegerBitWidth(); bool sg = id == Intrinsic::sadd_with_overflow || id == Intrinsic::ssub_with_overflow || id == Intrinsic::smul_with_overflow;
      unsigned op = id == Intrinsic::uadd_with_overflow || id == Intrinsic::sadd_with_overflow ? Instruction::Add : id == Intrinsic::usub_with_overflow || id == Intrinsic::ssub_with_overflow ? Instruction::Sub : Instruction::Mul;
      T x = bvExt(sg ? O_SEXT : O_ZEXT, asBV(a[0], ww), 2 * ww), y = bvExt(sg ? O_SEXT : O_ZEXT, asBV(a[1], ww), 2 * ww);
      T r = bvBin(op == Instruction::Add ? O_ADD : op == Instruction::Sub ? O_SUB : O_MUL, x, y), lo = bvExtract(r, ww - 1, 0);
      T ov = mkNot(bvCmp(O_EQ, bvExt(sg ? O_SEXT : O_ZEXT, lo, 2 * ww), r));
      Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(mkInt(lo)); v.agg->push_back(boolv(ov)); return v;
    }
    case Intrinsic::vector_reduce_add: { Type* e = ty; Val s = (*a[0].agg)[0]; for (size_t i = 1; i < a[0].agg->size(); i++) s = binop(Instruction::Add, s, (*a[0].agg)[i], e); return s; }
    case Intrinsic::vector_reduce_or: { Type* e = ty; Val s = (*a[0].agg)[0]; for (size_t i = 1; i < a[0].agg->size(); i++) s = binop(Instruction::Or, s, (*a[0].agg)[i], e); return s; }
    case Intrinsic::vastart: case Intrinsic::vaend: case Intrinsic::vacopy: throw EngineError("varargs");
    default: throw EngineError("intrinsic " + F->getName().str());
  }
}
// returns true if a frame was pushed
static bool doCall(Frame& fr, DI& d, const CallBase* C) {
  const Function* F = C->getCalledFunction();
  std::vector<Val> args; unsigned na = C->arg_size(); args.reserve(na);
  if (!F) {
    if (C->isInlineAsm()) {
      auto* ia = cast<InlineAsm>(C->getCalledOperand()); StringRef s = ia->getAsmString();
      if (s.empty() || s.trim().starts_with("#")) { if (d.dst >= 0 && na) fr.r[d.dst] = reg(fr, d, 0); return false; }
      throw EngineError("inline asm: " + s.str());
    }
    Val t = reg(fr, d, d.ops.size() - 1);
    if (auto* ga = dyn_cast<GlobalAlias>(C->getCalledOperand())) F = dyn_cast<Function>(ga->getAliaseeObject());
    if (!F) {
      uint64_t a = u64(t, "function pointer");
      auto it = fnAt.find(a);
      if (it == fnAt.end()) throw Violation{"memory", "call through a bad function pointer " + hex(a)};
      F = it->second;
    }
  }
  for (unsigned i = 0; i < na; i++) { if (isa<MetadataAsValue>(C->getArgOperand(i))) args.emplace_back(); else args.push_back(reg(fr, d, i)); }
  if (F->isIntrinsic()) { Val v = execIntrinsic(fr, C, F, args); if (d.dst >= 0) fr.r[d.dst] = v; return false; }
  std::string name = F->getName().str();
  auto it = builtins.find(name);
  if (it != builtins.end()) {
    Val v = name == "__dynamic_cast" ? dynCast(args) : it->second(C, args);
    if (d.dst >= 0) { fr.r[d.dst] = v; }
    return false;
  }
  if (isStreamish(name)) {
    // streams are outside the model: no output, str() yields an empty string
    if (na && !args[0].t && (name.find("C1") != std::string::npos || name.find("C2") != std::string::npos)) {
      Obj* o = findObj(args[0].c); if (o && !o->ro) { uint32_t b = args[0].c - o->base; for (uint32_t i = b; i < o->size && i < b + 512; i++) if (o->st[i] == 0) { o->st[i] = 1; o->data[i] = 0; } 
        uint64_t fakeVt = fakeVtable();
        if (name.find("stream") != std::string::npos) for (int q = 0; q < 2; q++) if (b + q * 16 + 8 <= o->size) { uint64_t cur; memcpy(&cur, &o->data[b + q * 16], 8); if (!cur) memcpy(&o->data[b + q * 16], &fakeVt, 8); } }
    }
    if (C->getNumOperands() && na && F->hasStructRetAttr()) emptyString(args[0].c);
    else if (na && name.find("3str") != std::string::npos && C->getType()->isVoidTy()) emptyString(args[0].c);
    if (d.dst >= 0) { Type* ty = C->getType(); if (ty->isPointerTy() && na) fr.r[d.dst] = args[0]; else fr.r[d.dst] = zeroOf(ty); }
    return false;
  }
  if (name.find("get_static_exception_object") != std::string::npos || (name.find("5boost4math6detail") != std::string::npos && name.find("_initializer") != std::string::npos)) { if (d.dst >= 0) fr.r[d.dst] = zeroOf(C->getType()); return false; }   // boost::exception_ptr globals and warm-up of boost::math constants: outside the model
  if (F->isDeclaration()) throw EngineError("call to unmodelled external function " + demangle(name) + " [" + name + "]");
  pushFrame(F, args, C, d.dst);
  return true;
}
static void afterCall(Frame& fr) {   // continue after a call/invoke that completed normally
  const Instruction* I = fr.f->blocks[fr.bb].code[fr.ip - 1].I;
  if (auto* inv = dyn_cast<InvokeInst>(I)) { fr.prev = curBlock(fr); jump(fr, inv->getNormalDest()); }
}
static Val gepVal(Frame& fr, DI& d, const GetElementPtrInst* G) {
  if (G->getType()->isVectorTy()) throw EngineError("vector gep");
  Val base = reg(fr, d, 0); unsigned i = 1; uint64_t off = 0; T symOff = nullptr;
  for (auto gi = gep_type_begin(G), e = gep_type_end(G); gi != e; ++gi, ++i) {
    Val& ix = reg(fr, d, i);
    if (StructType* st = gi.getStructTypeOrNull()) { off += DL->getStructLayout(st)->getElementOffset(ix.c); continue; }
    uint64_t es = DL->getTypeAllocSize(gi.getIndexedType()); unsigned w = G->getOperand(i)->getType()->getIntegerBitWidth();
    if (!ix.t) { int64_t s = w == 64 ? (int64_t)ix.c : (int64_t)(ix.c << (64 - w)) >> (64 - w); off += s * es; }
    else { T t = bvExt(O_SEXT, asBV(ix, w), 64); t = bvBin(O_MUL, t, mkBV64(64, es)); symOff = symOff ? bvBin(O_ADD, symOff, t) : t; }
  }
  if (!base.t && !symOff) return conc(base.c + off);
  T b = bvBin(O_ADD, asBV(base, 64), mkBV64(64, off)); if (symOff) b = bvBin(O_ADD, b, symOff);
  return mkInt(b);
}
static uint64_t g_lastWhere = 0;
static void run(size_t base) {
  while (stack.size() > base) {
    Frame& fr = *stack.back();
    DI& d = fr.f->blocks[fr.bb].code[fr.ip++];
    if (++g_instr > g_opt.maxInstr) throw PathEnd{"instruction limit"};
    const Instruction* I = d.I;
    try {
      switch (d.op) {
        case Instruction::Ret: {
          Val v; bool has = I->getNumOperands() > 0; if (has) v = reg(fr, d, 0);
          int dst = fr.retDst; popFrame();
          if (stack.size() <= base) return;
          Frame& c = *stack.back(); if (dst >= 0) c.r[dst] = v; afterCall(c); break;
        }
        case Instruction::Br: {
          auto* B = cast<BranchInst>(I); fr.prev = I->getParent();
          if (B->isUnconditional()) { jump(fr, B->getSuccessor(0)); break; }
          Val& c = reg(fr, d, 0); bool t = c.t ? decide(asBool(c)) : c.c & 1;
          jump(fr, B->getSuccessor(t ? 0 : 1)); break;
        }
        case Instruction::Switch: {
          auto* S = cast<SwitchInst>(I); fr.prev = I->getParent(); Val c = reg(fr, d, 0); const BasicBlock* to = S->getDefaultDest(); unsigned w = S->getCondition()->getType()->getIntegerBitWidth();
          for (auto& k : S->cases()) { uint64_t kv = k.getCaseValue()->getZExtValue(); bool hit = c.t ? decide(bvCmp(O_EQ, asBV(c, w), mkBV64(w, kv))) : c.c == kv; if (hit) { to = k.getCaseSuccessor(); break; } }
          jump(fr, to); break;
        }
        case Instruction::Unreachable: throw Violation{"abort", "unreachable code reached"};
        case Instruction::Alloca: { auto* A = cast<AllocaInst>(I); uint64_t n = A->isArrayAllocation() ? u64(reg(fr, d, 0), "alloca") : 1; uint64_t sz = DL->getTypeAllocSize(A->getAllocatedType()) * n; Obj* o = newObj(sz ? sz : 1, "stack", A->getAlign().value()); fr.allocas.push_back(o); fr.r[d.dst] = conc(o->base); break; }
        case Instruction::Load: { Val& p = reg(fr, d, 0); uint64_t a = u64(p, "load address"); fr.r[d.dst] = loadVal(a, I->getType()); break; }
        case Instruction::Store: { Val& v = reg(fr, d, 0); Val& p = reg(fr, d, 1); uint64_t a = u64(p, "store address"); storeVal(a, cast<StoreInst>(I)->getValueOperand()->getType(), v); break; }
        case Instruction::GetElementPtr: fr.r[d.dst] = gepVal(fr, d, cast<GetElementPtrInst>(I)); break;
        case Instruction::ICmp: {
          auto* C = cast<ICmpInst>(I); Type* t = C->getOperand(0)->getType(); Val &a = reg(fr, d, 0), &b = reg(fr, d, 1);
          if (t->isVectorTy()) { unsigned w = DL->getTypeSizeInBits(t->getScalarType()); fr.r[d.dst] = fullVec(t, [&](unsigned i) { return icmp(C->getPredicate(), (*a.agg)[i], (*b.agg)[i], w); }); break; }
          fr.r[d.dst] = icmp(C->getPredicate(), a, b, t->isPointerTy() ? 64 : t->getIntegerBitWidth()); break;
        }
        case Instruction::FCmp: { auto* C = cast<FCmpInst>(I); Type* t = C->getOperand(0)->getType(); Val &a = reg(fr, d, 0), &b = reg(fr, d, 1); if (t->isVectorTy()) { fr.r[d.dst] = fullVec(t, [&](unsigned i) { return fcmp(C->getPredicate(), (*a.agg)[i], (*b.agg)[i]); }); break; } fr.r[d.dst] = fcmp(C->getPredicate(), a, b); break; }
        case Instruction::FNeg: { Val& a = reg(fr, d, 0); if (I->getType()->isVectorTy()) { fr.r[d.dst] = fullVec(I->getType(), [&](unsigned i) { return real(rNeg((*a.agg)[i].t)); }); break; } fr.r[d.dst] = real(rNeg(a.t)); break; }
        case Instruction::Select: { Val c = reg(fr, d, 0), a = reg(fr, d, 1), b = reg(fr, d, 2); fr.r[d.dst] = selectv(c, a, b, I->getType()); break; }
        case Instruction::ExtractValue: { auto* E = cast<ExtractValueInst>(I); Val v = reg(fr, d, 0); for (unsigned i : E->indices()) { Val n = (*v.agg)[i]; v = n; } fr.r[d.dst] = v; break; }
        case Instruction::InsertValue: {
          auto* E = cast<InsertValueInst>(I); Val v = reg(fr, d, 0), x = reg(fr, d, 1);
          std::function<Val(Val, ArrayRef<unsigned>)> ins = [&](Val b, ArrayRef<unsigned> ix) -> Val { if (ix.empty()) return x; Val n; n.agg = std::make_shared<std::vector<Val>>(*b.agg); (*n.agg)[ix[0]] = ins((*b.agg)[ix[0]], ix.slice(1)); return n; };
          fr.r[d.dst] = ins(v, E->getIndices()); break;
        }
        case Instruction::ExtractElement: { Val& v = reg(fr, d, 0); uint64_t i = u64(reg(fr, d, 1), "vector index"); fr.r[d.dst] = Val((*v.agg).at(i)); break; }
        case Instruction::InsertElement: { Val v = reg(fr, d, 0); Val n; n.agg = std::make_shared<std::vector<Val>>(*v.agg); n.agg->at(u64(reg(fr, d, 2), "vector index")) = reg(fr, d, 1); fr.r[d.dst] = n; break; }
        case Instruction::ShuffleVector: { auto* S = cast<ShuffleVectorInst>(I); Val a = reg(fr, d, 0), b = reg(fr, d, 1); unsigned n = a.agg->size(); Val v; v.agg = std::make_shared<std::vector<Val>>(); for (int m : S->getShuffleMask()) { if (m < 0) v.agg->push_back(zeroOf(I->getType()->getScalarType())); else v.agg->push_back(m < (int)n ? (*a.agg)[m] : (*b.agg)[m - n]); } fr.r[d.dst] = v; break; }
        case Instruction::Freeze: fr.r[d.dst] = Val(reg(fr, d, 0)); break;
        case Instruction::Call: case Instruction::Invoke: {
          auto* C = cast<CallBase>(I);
          if (!doCall(fr, d, C)) { if (isa<InvokeInst>(I)) afterCall(fr); }
          break;
        }
        case Instruction::LandingPad: {
          auto* L = cast<LandingPadInst>(I); CxxThrow x = fr.exc; int64_t sel = 0; bool found = L->isCleanup();
          for (unsigned i = 0; i < L->getNumClauses(); i++) {
            if (L->isCatch(i)) { uint64_t want = constVal(L->getClause(i)).c; if (typeMatch(x.ti, want)) { sel = want ? (uint32_t)(want >> 4 & 0x7fffffff) : 0; found = true; if (!want) sel = 0; break; } }
            else { found = true; }
          }
          if (!found) { popFrame(); unwind(x, base); break; }
          Val v; v.agg = std::make_shared<std::vector<Val>>(); v.agg->push_back(conc(x.obj)); v.agg->push_back(conc((uint32_t)sel)); exType[x.obj] = x.ti;
          fr.r[d.dst] = v; break;
        }
        case Instruction::Resume: { Val v = reg(fr, d, 0); CxxThrow x{(*v.agg)[0].c, exType[(*v.agg)[0].c]}; popFrame(); unwind(x, base); break; }
        case Instruction::AtomicRMW: {
          auto* A = cast<AtomicRMWInst>(I); uint64_t p = u64(reg(fr, d, 0), "ptr"); Type* t = A->getValOperand()->getType(); Val o = loadVal(p, t), v = reg(fr, d, 1), n;
          switch (A->getOperation()) { case AtomicRMWInst::Add: n = binop(Instruction::Add, o, v, t); break; case AtomicRMWInst::Sub: n = binop(Instruction::Sub, o, v, t); break; case AtomicRMWInst::Xchg: n = v; break; case AtomicRMWInst::Or: n = binop(Instruction::Or, o, v, t); break; case AtomicRMWInst::And: n = binop(Instruction::And, o, v, t); break; default: throw EngineError("atomicrmw"); }
          storeVal(p, t, n); fr.r[d.dst] = o; break;
        }
        case Instruction::AtomicCmpXchg: {
          uint64_t p = u64(reg(fr, d, 0), "ptr"); Type* t = I->getOperand(1)->getType(); Val o = loadVal(p, t), e = reg(fr, d, 1), n = reg(fr, d, 2); Val c = icmp(CmpInst::ICMP_EQ, o, e, t->isPointerTy() ? 64 : t->getIntegerBitWidth()); bool ok = c.t ? decide(asBool(c)) : c.c;
          if (ok) storeVal(p, t, n); Val r; r.agg = std::make_shared<std::vector<Val>>(); r.agg->push_back(o); r.agg->push_back(conc(ok)); fr.r[d.dst] = r; break;
        }
        case Instruction::Fence: break;
        default:
          if (I->isBinaryOp()) { fr.r[d.dst] = binop(d.op, reg(fr, d, 0), Val(reg(fr, d, 1)), I->getType()); break; }
          if (I->isCast()) { fr.r[d.dst] = castop(d.op, reg(fr, d, 0), I->getOperand(0)->getType(), I->getType()); break; }
          throw EngineError(std::string("instruction ") + I->getOpcodeName());
      }
    } catch (CxxThrow& x) { CxxThrow y = x; unwind(y, base); }
  }
}
static void callVoid(const Function* F) { std::vector<Val> a; size_t b = stack.size(); pushFrame(F, a, nullptr, -1); run(b); }

#include <sys/resource.h>
#include <execinfo.h>
#include <signal.h>
static void onSegv(int sig) { void* b[60]; int n = backtrace(b, 60); backtrace_symbols_fd(b, n, 2); signal(sig, SIG_DFL); raise(sig); }
int main(int argc, char** argv) {
  struct rlimit rl; getrlimit(RLIMIT_STACK, &rl); const rlim_t want = 2ull << 30;   // deep terms are walked recursively
  if (rl.rlim_cur != RLIM_INFINITY && rl.rlim_cur < want && !getenv("KSE_STACK")) { rl.rlim_cur = rl.rlim_max == RLIM_INFINITY || rl.rlim_max > want ? want : rl.rlim_max; if (!setrlimit(RLIMIT_STACK, &rl)) { setenv("KSE_STACK", "1", 1); execv("/proc/self/exe", argv); } }
  if (getenv("KSE_BT")) { static char alt[1 << 16]; stack_t ss{}; ss.ss_sp = alt; ss.ss_size = sizeof alt; sigaltstack(&ss, nullptr); struct sigaction sa{}; sa.sa_handler = onSegv; sa.sa_flags = SA_ONSTACK; sigaction(SIGSEGV, &sa, nullptr); }
  std::string bc, entry, out, mode = "real"; bool list = false;
  for (int i = 1; i < argc; i++) {
    std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--entry") entry = nx(); else if (a == "--out") out = nx(); else if (a == "--mode") mode = nx(); else if (a == "--jobs") g_opt.jobs = atoi(nx().c_str());
    else if (a == "--qt") g_opt.qt = atoi(nx().c_str()); else if (a == "--bt") g_opt.bt = atoi(nx().c_str()); else if (a == "--max-paths") g_opt.maxPaths = atol(nx().c_str()); else if (a == "--max-instr") g_opt.maxInstr = atoll(nx().c_str());
    else if (a == "--wall") g_opt.wall = atof(nx().c_str()); else if (a == "--seed") g_opt.seed = atoi(nx().c_str()); else if (a == "--thorough") g_opt.thorough = true; else if (a == "--smt") g_smtCmd = nx(); else if (a == "--dump") g_smtDump = nx(); else if (a == "--list") list = true; else bc = a;
  }
  g_ieee = mode == "ieee";
  signal(SIGPIPE, SIG_IGN);
  if (!out.empty()) { g_logFd = open(out.c_str(), O_WRONLY | O_CREAT | O_APPEND, 0644); }
  SMDiagnostic err; M = parseIRFile(bc, err, Ctx);
  if (!M) { err.print("kse", errs()); return 2; }
  DL = &M->getDataLayout();
  if (list) { for (auto& F : *M) if (!F.isDeclaration() && F.getName().starts_with("h_")) outs() << F.getName() << "\n"; return 0; }
  Function* E = M->getFunction(entry);
  if (!E || E->isDeclaration()) { fprintf(stderr, "no entry %s\n", entry.c_str()); return 2; }
  setupBuiltins(); pathsInit();
  pid_t self = getpid();
  std::string status = "ok", msg;
  try {
    try {
      if (auto* gc = M->getNamedGlobal("llvm.global_ctors")) if (gc->hasInitializer()) if (auto* arr = dyn_cast<ConstantArray>(gc->getInitializer())) {
        std::vector<std::pair<uint64_t, const Function*>> cs;
        for (auto& o : arr->operands()) { auto* s = cast<ConstantStruct>(o); if (auto* f = dyn_cast<Function>(s->getOperand(1))) cs.push_back({cast<ConstantInt>(s->getOperand(0))->getZExtValue(), f}); }
        std::stable_sort(cs.begin(), cs.end(), [](auto& a, auto& b) { return a.first < b.first; });
        auto warmup = [&](const Function* f) {   // warm-up of boost::math constants: outside the model
          if (!f->getName().starts_with("__cxx_global_var_init")) return false;
          for (auto& bb : *f) for (auto& in : bb) for (auto& op : in.operands()) if (op->getName().starts_with("_ZGVN5boost4math") || op->getName().contains("5boost13serialization") || op->getName().contains("5boost7archive")) return true;
          return false; };
        for (auto& c : cs) if (!warmup(c.second)) callVoid(c.second);
      }
      g_instr = 0;
      callVoid(E);
    } catch (CxxThrow& x) { throw Violation{"exception", "uncaught C++ exception of type " + demangle(gname(x.ti))}; }
  } catch (PathEnd& p) { status = p.why; }
  catch (Violation& v) { g_where = whereAmI(); try { reportViolation(v.kind, v.msg); } catch (...) {} status = "violation"; msg = v.kind + ": " + v.msg; }
  catch (EngineError& e) { status = "error"; msg = std::string(e.what()) + " @ " + whereAmI(); }
  catch (NeedSplit&) { status = "error"; msg = "unexpected case split @ " + whereAmI(); }
  catch (std::bad_alloc&) { status = "error"; msg = "out of memory"; }
  std::string fns; int n = 0;
  for (auto& kv : dfs) if (kv.second->calls) { std::string d = demangle(kv.first->getName().str()); if (d.find("Eigen::") == 0 || d.find("std::") == 0 || d.find("boost::") == 0 || d.find("__") == 0 || d.find("void Eigen") == 0) continue; fns += d.substr(0, 120) + "|"; if (++n > 400) break; }
  if (getpid() == self || getenv("KSE_FNS")) g_notes["fns"] = fns;
  else g_notes["fns"] = fns.size() > 3000 ? fns.substr(0, 3000) : fns;
  finishPath(status, msg);
  _exit(0);
}
