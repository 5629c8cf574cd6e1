// Decoding of LLVM functions into a flat instruction array over scalar slots.
#pragma once
#include "mem.h"
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IR/Function.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/Operator.h>
#include <llvm/IR/InlineAsm.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/CFG.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>
#include <llvm/ADT/DenseMap.h>

struct Val { u64 c; Expr* e; };

enum Op : u8 {
  O_BAD, O_ADD, O_SUB, O_MUL, O_UDIV, O_SDIV, O_UREM, O_SREM, O_AND, O_OR, O_XOR, O_SHL, O_LSHR, O_ASHR,
  O_ICMP, O_SELECT, O_LOAD, O_STORE, O_ADDI, O_GEPX, O_ALLOCA, O_BR, O_CBR, O_SWITCH, O_RET, O_CALL, O_UNREACH,
  O_ZEXT, O_SEXT, O_TRUNC, O_MOV, O_FBIN, O_FCMP, O_FCVT, O_FNEG, O_RMW, O_CAS, O_FENCE, O_LPAD, O_RESUME, O_UNSUP, O_EXTDYN, O_INSDYN
};

struct Edge { int target; int off, n; bool par; void* lp; };
struct FuncInfo;
struct ByVal { int arg; u64 size; };
struct CallInfo {
  FuncInfo* callee = nullptr; int calleeOp = 0; std::vector<int> args; std::vector<ByVal> byvals; int nret = 0; int retw[4] = {0,0,0,0};
  bool vararg = false; int nfixed = 0; std::vector<int> argw; bool invoke = false; Edge* normal = nullptr; Edge* unwind = nullptr;
};
struct SwitchInfo { std::vector<std::pair<u64, Edge*>> cases; Edge* def; std::unordered_map<u64, Edge*> map; };
struct LPInfo { bool cleanup; std::vector<u64> clauses; };
struct RetInfo { std::vector<int> ops; };

struct Inst {
  u8 op, w, w2, fl; int d, a, b, c; u64 imm; void* p; void* p2; llvm::Instruction* I;
};
enum { FL_ATOMIC = 1, FL_ACQ = 2, FL_REL = 4, FL_VOL = 8 };

typedef void (*Builtin)(struct Machine&, Inst&, CallInfo&);

struct FuncInfo {
  llvm::Function* F; u32 id = 0; bool decoded = false; bool rt = false; bool executed = false; bool forceBuiltin = false;
  int nslots = 0, nargs = 0; std::vector<int> argSlots;
  std::vector<Inst> code; std::vector<Val> consts; std::vector<int> edgeCopies;  // dst,src pairs
  u64 allocaSize = 0; std::vector<std::pair<u64, u64>> allocas;  // offset,size of static allocas
  Builtin bi = nullptr; int intr = 0; std::string name; u64 addr = 0;
  std::vector<u8> bbhit; u64 calls = 0;
};

struct Leaf { u64 off; int w; };

struct Program {
  llvm::LLVMContext ctx; std::unique_ptr<llvm::Module> M; const llvm::DataLayout* DL;
  std::unordered_map<llvm::Function*, FuncInfo*> fi; std::vector<FuncInfo*> funcs;
  std::unordered_map<std::string, FuncInfo*> byName;
  std::unordered_map<const llvm::GlobalVariable*, u64> gaddr;
  std::unordered_map<u64, std::string> gname;
  std::vector<u64> typeids;
  std::vector<const llvm::GlobalVariable*> tls; u64 tlsSize = 0; std::unordered_map<const llvm::GlobalVariable*, u64> tlsOff;
  static const u64 FBASE = 0x10000000, GBASE = 0x20000000, HEAP = 0x100000000ULL, STACK = 0x8000000000ULL, STACKSZ = 0x4000000ULL, FILES = 0x9000000000ULL;

  bool isFP(llvm::Type* t) { return t->isFloatTy() || t->isDoubleTy(); }
  void flat(llvm::Type* t, u64 off, std::vector<Leaf>& out) {
    if (t->isIntegerTy()) {
      unsigned w = t->getIntegerBitWidth();
      if (w > 64) { for (unsigned i = 0; i < w; i += 64) out.push_back({off + i / 8, (int)std::min(64u, w - i)}); }
      else out.push_back({off, (int)w});
    }
    else if (t->isPointerTy()) out.push_back({off, 64});
    else if (t->isFloatTy()) out.push_back({off, 32});
    else if (t->isDoubleTy()) out.push_back({off, 64});
    else if (auto* s = llvm::dyn_cast<llvm::StructType>(t)) {
      auto* sl = DL->getStructLayout(s);
      for (unsigned i = 0; i < s->getNumElements(); i++) flat(s->getElementType(i), off + sl->getElementOffset(i), out);
    } else if (auto* a = llvm::dyn_cast<llvm::ArrayType>(t)) {
      u64 es = DL->getTypeAllocSize(a->getElementType());
      for (u64 i = 0; i < a->getNumElements(); i++) flat(a->getElementType(), off + i * es, out);
    } else if (auto* v = llvm::dyn_cast<llvm::FixedVectorType>(t)) {
      u64 es = DL->getTypeStoreSize(v->getElementType());
      for (u64 i = 0; i < v->getNumElements(); i++) flat(v->getElementType(), off + i * es, out);
    } else if (t->isVoidTy()) {}
    else out.push_back({off, -1});
  }
  int nleaves(llvm::Type* t) { std::vector<Leaf> l; flat(t, 0, l); return l.size(); }
  u64 typeId(u64 ti) { for (size_t i = 0; i < typeids.size(); i++) if (typeids[i] == ti) return i + 1; typeids.push_back(ti); return typeids.size(); }

  void evalConst(llvm::Constant* c, std::vector<u64>& out) {
    using namespace llvm;
    if (auto* ci = dyn_cast<ConstantInt>(c)) {
      unsigned w = ci->getBitWidth();
      if (w <= 64) out.push_back(ci->getZExtValue());
      else for (unsigned i = 0; i < w; i += 64) out.push_back(ci->getValue().extractBits(std::min(64u, w - i), i).getZExtValue());
      return; }
    if (auto* cf = dyn_cast<ConstantFP>(c)) { out.push_back(cf->getValueAPF().bitcastToAPInt().getLimitedValue()); return; }
    if (isa<ConstantPointerNull>(c)) { out.push_back(0); return; }
    if (isa<UndefValue>(c) || isa<ConstantAggregateZero>(c)) { int n = nleaves(c->getType()); for (int i = 0; i < n; i++) out.push_back(0); return; }
    if (auto* f = dyn_cast<Function>(c)) { out.push_back(getF(f)->addr); return; }
    if (auto* g = dyn_cast<GlobalVariable>(c)) { out.push_back(gaddr.at(g)); return; }
    if (auto* ga = dyn_cast<GlobalAlias>(c)) { evalConst(ga->getAliasee(), out); return; }
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) { for (unsigned i = 0; i < cds->getNumElements(); i++) evalConst(cds->getElementAsConstant(i), out); return; }
    if (isa<ConstantAggregate>(c)) { for (auto& op : c->operands()) evalConst(cast<Constant>(op.get()), out); return; }
    if (auto* ce = dyn_cast<ConstantExpr>(c)) {
      std::vector<u64> a, b;
      switch (ce->getOpcode()) {
        case Instruction::GetElementPtr: {
          evalConst(ce->getOperand(0), a);
          APInt off(64, 0);
          cast<GEPOperator>(ce)->accumulateConstantOffset(*DL, off);
          out.push_back(a[0] + off.getZExtValue()); return; }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
          evalConst(ce->getOperand(0), a); out.push_back(a[0]); return;
        case Instruction::Trunc: evalConst(ce->getOperand(0), a); out.push_back(a[0] & maskw(ce->getType()->getIntegerBitWidth())); return;
        case Instruction::Add: evalConst(ce->getOperand(0), a); evalConst(ce->getOperand(1), b); out.push_back(a[0] + b[0]); return;
        case Instruction::Sub: evalConst(ce->getOperand(0), a); evalConst(ce->getOperand(1), b); out.push_back(a[0] - b[0]); return;
        case Instruction::ICmp: {
          evalConst(ce->getOperand(0), a); evalConst(ce->getOperand(1), b);
          out.push_back(ce->getPredicate() == CmpInst::ICMP_EQ ? a[0] == b[0] : a[0] != b[0]); return; }
        default: break;
      }
    }
    std::string s; raw_string_ostream os(s); c->print(os);
    fprintf(stderr, "symx: unsupported constant %s\n", s.c_str()); _exit(3);
  }
  FuncInfo* getF(llvm::Function* F) {
    auto it = fi.find(F);
    if (it != fi.end()) return it->second;
    auto* f = new FuncInfo; f->F = F; f->name = F->getName().str(); f->id = funcs.size(); f->addr = FBASE + 16 * (u64)funcs.size();
    if (auto* md = F->getSubprogram()) { (void)md; }
    funcs.push_back(f); fi[F] = f; byName[f->name] = f;
    return f;
  }
  void writeInit(Mem& m, u64 addr, llvm::Constant* c) {
    using namespace llvm;
    Type* t = c->getType();
    if (isa<ConstantAggregateZero>(c) || isa<UndefValue>(c)) return;
    if (auto* cds = dyn_cast<ConstantDataSequential>(c)) {
      StringRef d = cds->getRawDataValues();
      wr(m, addr, (const u8*)d.data(), d.size()); return;
    }
    if (isa<ConstantAggregate>(c)) {
      if (auto* s = dyn_cast<StructType>(t)) { auto* sl = DL->getStructLayout(s); for (unsigned i = 0; i < c->getNumOperands(); i++) writeInit(m, addr + sl->getElementOffset(i), cast<Constant>(c->getOperand(i))); }
      else { u64 es = DL->getTypeAllocSize(isa<ArrayType>(t) ? t->getArrayElementType() : cast<VectorType>(t)->getElementType()); for (unsigned i = 0; i < c->getNumOperands(); i++) writeInit(m, addr + i * es, cast<Constant>(c->getOperand(i))); }
      return;
    }
    std::vector<u64> v; evalConst(c, v);
    std::vector<Leaf> l; flat(t, 0, l);
    for (size_t i = 0; i < l.size(); i++) wr(m, addr + l[i].off, (const u8*)&v[i], (l[i].w + 7) / 8);
  }
  static void wr(Mem& m, u64 a, const u8* p, u64 n) {
    while (n) { Page* pg = m.getW(a, true); u64 off = a & (PG - 1), k = std::min<u64>(n, PG - off); memcpy(pg->data + off, p, k); a += k; p += k; n -= k; }
  }
};

struct Decoder {
  Program& P; FuncInfo& fi; llvm::Function& F;
  llvm::DenseMap<llvm::Value*, std::vector<int>> vm;
  llvm::DenseMap<llvm::BasicBlock*, int> bbpc;
  std::vector<std::pair<Edge*, llvm::BasicBlock*>> fixups;
  std::map<std::pair<u64, int>, int> cpool;
  std::vector<int> bbNo;
  Decoder(Program& p, FuncInfo& f) : P(p), fi(f), F(*f.F) {}
  int K(u64 v) {
    auto it = cpool.find({v, 0});
    if (it != cpool.end()) return it->second;
    fi.consts.push_back({v, nullptr});
    int r = ~(int)(fi.consts.size() - 1);
    cpool[{v, 0}] = r;
    return r;
  }
  int newSlots(int n) { int r = fi.nslots; fi.nslots += n; return r; }
  static int iw(llvm::Type* t) { return t->isIntegerTy() ? t->getIntegerBitWidth() : t->isPointerTy() ? 64 : t->isFloatTy() ? 32 : t->isDoubleTy() ? 64 : -1; }
  static llvm::Type* sc(llvm::Type* t) { return t->getScalarType(); }

  const std::vector<int>& ops(llvm::Value* v) {
    using namespace llvm;
    auto it = vm.find(v);
    if (it != vm.end()) return it->second;
    std::vector<int> r;
    if (auto* c = dyn_cast<Constant>(v)) {
      std::vector<u64> x; P.evalConst(c, x);
      for (auto y : x) r.push_back(K(y));
    } else if (isa<MetadataAsValue>(v) || isa<BasicBlock>(v) || isa<InlineAsm>(v)) {
    } else if (auto* ev = dyn_cast<ExtractValueInst>(v)) {
      Type* t = ev->getAggregateOperand()->getType(); int off = 0;
      for (unsigned i : ev->getIndices()) {
        if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += P.nleaves(s->getElementType(k)); t = s->getElementType(i); }
        else { t = t->getArrayElementType(); off += i * P.nleaves(t); }
      }
      auto src = ops(ev->getAggregateOperand());
      int n = P.nleaves(t);
      r.assign(src.begin() + off, src.begin() + off + n);
    } else if (auto* iv = dyn_cast<InsertValueInst>(v)) {
      Type* t = iv->getAggregateOperand()->getType(); int off = 0;
      for (unsigned i : iv->getIndices()) {
        if (auto* s = dyn_cast<StructType>(t)) { for (unsigned k = 0; k < i; k++) off += P.nleaves(s->getElementType(k)); t = s->getElementType(i); }
        else { t = t->getArrayElementType(); off += i * P.nleaves(t); }
      }
      r = ops(iv->getAggregateOperand());
      auto src = ops(iv->getInsertedValueOperand());
      for (size_t k = 0; k < src.size(); k++) r[off + k] = src[k];
    } else if (auto* ee = dyn_cast<ExtractElementInst>(v); ee && isa<ConstantInt>(ee->getIndexOperand())) {
      auto src = ops(ee->getVectorOperand());
      r.push_back(src[cast<ConstantInt>(ee->getIndexOperand())->getZExtValue()]);
    } else if (auto* ie = dyn_cast<InsertElementInst>(v); ie && isa<ConstantInt>(ie->getOperand(2))) {
      r = ops(ie->getOperand(0));
      int x = ops(ie->getOperand(1))[0];
      r[cast<ConstantInt>(ie->getOperand(2))->getZExtValue()] = x;
    } else if (auto* sv = dyn_cast<ShuffleVectorInst>(v)) {
      auto a = ops(sv->getOperand(0)); auto b = ops(sv->getOperand(1));
      for (int m : sv->getShuffleMask()) r.push_back(m < 0 ? K(0) : m < (int)a.size() ? a[m] : b[m - a.size()]);
    } else if (isa<PtrToIntInst>(v) && iw(v->getType()) == 64) r = ops(cast<Instruction>(v)->getOperand(0));
    else if (isa<IntToPtrInst>(v) && iw(cast<Instruction>(v)->getOperand(0)->getType()) == 64) r = ops(cast<Instruction>(v)->getOperand(0));
    else if (isa<FreezeInst>(v)) r = ops(cast<Instruction>(v)->getOperand(0));
    else if (isa<BitCastInst>(v) && sameLanes(v->getType(), cast<Instruction>(v)->getOperand(0)->getType())) r = ops(cast<Instruction>(v)->getOperand(0));
    else {
      int n = P.nleaves(v->getType());
      int s = newSlots(n);
      for (int i = 0; i < n; i++) r.push_back(s + i);
    }
    return vm[v] = r;
  }
  bool sameLanes(llvm::Type* a, llvm::Type* b) {
    std::vector<Leaf> x, y; P.flat(a, 0, x); P.flat(b, 0, y);
    if (x.size() != y.size()) return false;
    for (size_t i = 0; i < x.size(); i++) if (x[i].w != y[i].w) return false;
    return true;
  }
  bool isAlias(llvm::Instruction* I) {
    using namespace llvm;
    if (isa<ExtractValueInst>(I) || isa<InsertValueInst>(I) || isa<ShuffleVectorInst>(I) || isa<FreezeInst>(I)) return true;
    if (auto* ee = dyn_cast<ExtractElementInst>(I)) return isa<ConstantInt>(ee->getIndexOperand());
    if (auto* ie = dyn_cast<InsertElementInst>(I)) return isa<ConstantInt>(ie->getOperand(2));
    if (isa<PtrToIntInst>(I)) return iw(I->getType()) == 64;
    if (isa<IntToPtrInst>(I)) return iw(I->getOperand(0)->getType()) == 64;
    if (isa<BitCastInst>(I)) return sameLanes(I->getType(), I->getOperand(0)->getType());
    return false;
  }
  Inst& emit(u8 op, llvm::Instruction* I) { Inst i; memset((void*)&i, 0, sizeof i); i.op = op; i.I = I; fi.code.push_back(i); return fi.code.back(); }
  Edge* edge(llvm::BasicBlock* from, llvm::BasicBlock* to) {
    Edge* e = new Edge; e->lp = nullptr; e->off = fi.edgeCopies.size(); e->n = 0; e->par = false;
    std::vector<std::pair<int, int>> cp;
    for (auto& phi : to->phis()) {
      auto dst = ops(&phi); auto src = ops(phi.getIncomingValueForBlock(from));
      for (size_t i = 0; i < dst.size(); i++) if (dst[i] != src[i]) cp.push_back({dst[i], src[i]});
    }
    for (size_t i = 0; i < cp.size(); i++) for (size_t j = i + 1; j < cp.size(); j++) if (cp[j].second == cp[i].first) e->par = true;
    for (auto& c : cp) { fi.edgeCopies.push_back(c.first); fi.edgeCopies.push_back(c.second); e->n++; }
    fixups.push_back({e, to});
    return e;
  }
  void run();
  void inst(llvm::Instruction* I);
  void call(llvm::CallBase* C);
};
