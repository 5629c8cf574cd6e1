#include "decode.h"
#include "machine.h"
using namespace llvm;

static int fcmpPred(CmpInst::Predicate p) { return (int)p; }

void Decoder::run() {
  for (auto& a : F.args()) { auto o = ops(&a); for (int s : o) fi.argSlots.push_back(s); }
  fi.nargs = fi.argSlots.size();
  int no = 0;
  for (auto& bb : F) { bbpc[&bb] = -1; (void)no; }
  for (auto& bb : F) {
    bbpc[&bb] = fi.code.size();
    for (auto& I : bb) inst(&I);
  }
  for (auto& f : fixups) f.first->target = bbpc[f.second];
  fi.bbhit.assign(fi.code.size(), 0);
  fi.decoded = true;
}

void Decoder::inst(Instruction* I) {
  if (isa<PHINode>(I)) { ops(I); return; }
  if (isAlias(I)) { ops(I); return; }
  if (isa<DbgInfoIntrinsic>(I)) return;
  Type* T = I->getType();
  auto unsup = [&]() { ops(I); emit(O_UNSUP, I); };
  switch (I->getOpcode()) {
    case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
    case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
    case Instruction::Shl: case Instruction::LShr: case Instruction::AShr: {
      int w = iw(sc(T));
      static const std::map<unsigned, u8> mp = {{Instruction::Add, O_ADD}, {Instruction::Sub, O_SUB}, {Instruction::Mul, O_MUL}, {Instruction::UDiv, O_UDIV}, {Instruction::SDiv, O_SDIV}, {Instruction::URem, O_UREM}, {Instruction::SRem, O_SREM}, {Instruction::And, O_AND}, {Instruction::Or, O_OR}, {Instruction::Xor, O_XOR}, {Instruction::Shl, O_SHL}, {Instruction::LShr, O_LSHR}, {Instruction::AShr, O_ASHR}};
      auto d = ops(I); auto a = ops(I->getOperand(0)); auto b = ops(I->getOperand(1));
      if (w > 64) {
        // two-limb support for the bitwise operations and whole-limb shifts
        unsigned op = I->getOpcode();
        if (!T->isVectorTy() && (op == Instruction::And || op == Instruction::Or || op == Instruction::Xor)) {
          for (size_t i = 0; i < d.size(); i++) { Inst& x = emit(mp.at(op), I); x.w = 64; x.d = d[i]; x.a = a[i]; x.b = b[i]; }
          return;
        }
        auto* ci = dyn_cast<ConstantInt>(I->getOperand(1));
        if (w == 128 && ci && ci->getZExtValue() == 64 && op == Instruction::Shl) {
          Inst& x = emit(O_MOV, I); x.w = 64; x.d = d[1]; x.a = a[0]; Inst& y = emit(O_MOV, I); y.w = 64; y.d = d[0]; y.a = K(0); return; }
        if (w == 128 && ci && ci->getZExtValue() == 64 && op == Instruction::LShr) {
          Inst& x = emit(O_MOV, I); x.w = 64; x.d = d[0]; x.a = a[1]; Inst& y = emit(O_MOV, I); y.w = 64; y.d = d[1]; y.a = K(0); return; }
        return unsup();
      }
      for (size_t i = 0; i < d.size(); i++) { Inst& x = emit(mp.at(I->getOpcode()), I); x.w = w; x.d = d[i]; x.a = a[i]; x.b = b[i]; }
      return;
    }
    case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: case Instruction::FRem: {
      int w = iw(sc(T)); if (w < 0) return unsup();
      auto d = ops(I); auto a = ops(I->getOperand(0)); auto b = ops(I->getOperand(1));
      for (size_t i = 0; i < d.size(); i++) { Inst& x = emit(O_FBIN, I); x.w = w; x.d = d[i]; x.a = a[i]; x.b = b[i]; x.w2 = I->getOpcode() == Instruction::FAdd ? K_FADD : I->getOpcode() == Instruction::FSub ? K_FSUB : I->getOpcode() == Instruction::FMul ? K_FMUL : I->getOpcode() == Instruction::FDiv ? K_FDIV : 255; }
      return;
    }
    case Instruction::FNeg: {
      auto d = ops(I); auto a = ops(I->getOperand(0)); int w = iw(sc(T));
      for (size_t i = 0; i < d.size(); i++) { Inst& x = emit(O_XOR, I); x.w = w; x.d = d[i]; x.a = a[i]; x.b = K(1ULL << (w - 1)); }
      return;
    }
    case Instruction::ICmp: {
      Type* ot = sc(I->getOperand(0)->getType()); int w = iw(ot);
      auto d = ops(I); auto a = ops(I->getOperand(0)); auto b = ops(I->getOperand(1));
      auto p = cast<ICmpInst>(I)->getPredicate();
      if (w > 64) {
        if (w == 128 && d.size() == 1 && (p == CmpInst::ICMP_EQ || p == CmpInst::ICMP_NE)) {
          int t1 = newSlots(4);
          Inst& x = emit(O_XOR, I); x.w = 64; x.d = t1; x.a = a[0]; x.b = b[0];
          Inst& y = emit(O_XOR, I); y.w = 64; y.d = t1 + 1; y.a = a[1]; y.b = b[1];
          Inst& z = emit(O_OR, I); z.w = 64; z.d = t1 + 2; z.a = t1; z.b = t1 + 1;
          Inst& q = emit(O_ICMP, I); q.w = 64; q.w2 = p; q.d = d[0]; q.a = t1 + 2; q.b = K(0);
          return;
        }
        return unsup();
      }
      for (size_t i = 0; i < d.size(); i++) { Inst& x = emit(O_ICMP, I); x.w = w; x.w2 = p; x.d = d[i]; x.a = a[i]; x.b = b[i]; }
      return;
    }
    case Instruction::FCmp: {
      int w = iw(sc(I->getOperand(0)->getType())); if (w < 0) return unsup();
      auto d = ops(I); auto a = ops(I->getOperand(0)); auto b = ops(I->getOperand(1));
      for (size_t i = 0; i < d.size(); i++) { Inst& x = emit(O_FCMP, I); x.w = w; x.w2 = fcmpPred(cast<FCmpInst>(I)->getPredicate()); x.d = d[i]; x.a = a[i]; x.b = b[i]; }
      return;
    }
    case Instruction::Select: {
      auto d = ops(I); auto c = ops(I->getOperand(0)); auto a = ops(I->getOperand(1)); auto b = ops(I->getOperand(2));
      std::vector<Leaf> l; P.flat(T, 0, l);
      bool addr = T->isPointerTy();
      if (!addr && T->isIntegerTy(64)) { addr = true; for (auto* u : I->users()) if (!isa<GetElementPtrInst>(u) && !isa<IntToPtrInst>(u)) addr = false; }
      for (size_t i = 0; i < d.size(); i++) { Inst& x = emit(O_SELECT, I); x.imm = addr; x.w = l[i].w; x.d = d[i]; x.c = c.size() == d.size() && I->getOperand(0)->getType()->isVectorTy() ? c[i] : c[0]; x.a = a[i]; x.b = b[i]; }
      return;
    }
    case Instruction::Load: {
      auto* L = cast<LoadInst>(I);
      auto d = ops(I); auto p = ops(L->getPointerOperand())[0];
      std::vector<Leaf> l; P.flat(T, 0, l);
      for (size_t i = 0; i < d.size(); i++) {
        if (l[i].w < 0) return unsup();
        Inst& x = emit(O_LOAD, I); x.w = l[i].w; x.d = d[i]; x.a = p; x.imm = l[i].off;
        if (L->isAtomic()) { x.fl |= FL_ATOMIC; if (isAcquireOrStronger(L->getOrdering())) x.fl |= FL_ACQ; }
        if (L->isVolatile()) x.fl |= FL_VOL;
      }
      return;
    }
    case Instruction::Store: {
      auto* S = cast<StoreInst>(I);
      auto v = ops(S->getValueOperand()); auto p = ops(S->getPointerOperand())[0];
      std::vector<Leaf> l; P.flat(S->getValueOperand()->getType(), 0, l);
      for (size_t i = 0; i < v.size(); i++) {
        if (l[i].w < 0) return unsup();
        Inst& x = emit(O_STORE, I); x.w = l[i].w; x.b = v[i]; x.a = p; x.imm = l[i].off;
        if (S->isAtomic()) { x.fl |= FL_ATOMIC; if (isReleaseOrStronger(S->getOrdering())) x.fl |= FL_REL; }
        if (S->isVolatile()) x.fl |= FL_VOL;
      }
      return;
    }
    case Instruction::GetElementPtr: {
      auto* G = cast<GetElementPtrInst>(I);
      if (T->isVectorTy()) return unsup();
      auto d = ops(I)[0]; int cur = ops(G->getPointerOperand())[0]; u64 coff = 0;
      std::vector<std::tuple<int, u64, int>> var;
      for (auto gti = gep_type_begin(G), e = gep_type_end(G); gti != e; ++gti) {
        Value* idx = gti.getOperand();
        if (auto* st = gti.getStructTypeOrNull()) { coff += P.DL->getStructLayout(st)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue()); continue; }
        u64 es = P.DL->getTypeAllocSize(gti.getIndexedType());
        if (auto* ci = dyn_cast<ConstantInt>(idx)) { coff += (u64)ci->getSExtValue() * es; continue; }
        var.push_back({ops(idx)[0], es, iw(idx->getType())});
      }
      if (var.empty()) { Inst& x = emit(O_ADDI, I); x.w = 64; x.d = d; x.a = cur; x.imm = coff; return; }
      for (size_t i = 0; i < var.size(); i++) {
        int dd = i + 1 == var.size() ? d : newSlots(1);
        // base + idx*scale + const(in b as pool) ; width of index in w2
        int kk = K(i == 0 ? coff : 0); u64 sc = std::get<1>(var[i]);
        Inst& x = emit(O_GEPX, I); x.w = 64; x.d = dd; x.a = cur; x.b = std::get<0>(var[i]); x.c = kk; x.imm = sc; x.w2 = std::get<2>(var[i]);
        cur = dd;
      }
      return;
    }
    case Instruction::Alloca: {
      auto* A = cast<AllocaInst>(I);
      u64 es = P.DL->getTypeAllocSize(A->getAllocatedType());
      int d = ops(I)[0];
      if (A->isStaticAlloca()) {
        u64 n = cast<ConstantInt>(A->getArraySize())->getZExtValue() * es;
        u64 al = std::max<u64>(16, A->getAlign().value());
        u64 off = (fi.allocaSize + 16 + al - 1) / al * al;
        fi.allocas.push_back({off, n});
        fi.allocaSize = off + n;
        Inst& x = emit(O_ALLOCA, I); x.d = d; x.imm = off; x.w2 = 0;
      } else {
        int n = ops(A->getArraySize())[0];
        Inst& x = emit(O_ALLOCA, I); x.d = d; x.a = n; x.imm = es; x.w2 = 1; x.w = iw(A->getArraySize()->getType());
      }
      return;
    }
    case Instruction::Br: {
      auto* B = cast<BranchInst>(I);
      if (B->isUnconditional()) { Edge* e = edge(I->getParent(), B->getSuccessor(0)); Inst& x = emit(O_BR, I); x.p = e; }
      else { Edge* e1 = edge(I->getParent(), B->getSuccessor(0)); Edge* e2 = edge(I->getParent(), B->getSuccessor(1)); int c = ops(B->getCondition())[0]; Inst& x = emit(O_CBR, I); x.a = c; x.p = e1; x.p2 = e2; }
      return;
    }
    case Instruction::Switch: {
      auto* S = cast<SwitchInst>(I);
      auto* si = new SwitchInfo; si->def = edge(I->getParent(), S->getDefaultDest());
      for (auto& c : S->cases()) { u64 v = c.getCaseValue()->getZExtValue(); Edge* e = edge(I->getParent(), c.getCaseSuccessor()); si->cases.push_back({v, e}); si->map[v] = e; }
      int a = ops(S->getCondition())[0];
      Inst& x = emit(O_SWITCH, I); x.w = iw(S->getCondition()->getType()); x.a = a; x.p = si;
      return;
    }
    case Instruction::Ret: {
      auto* r = new RetInfo;
      if (I->getNumOperands()) r->ops = ops(I->getOperand(0));
      Inst& x = emit(O_RET, I); x.p = r; return;
    }
    case Instruction::Unreachable: emit(O_UNREACH, I); return;
    case Instruction::ZExt: case Instruction::SExt: case Instruction::Trunc: {
      auto d = ops(I); auto a = ops(I->getOperand(0)); int w = iw(sc(T)), w2 = iw(sc(I->getOperand(0)->getType()));
      if (w > 64 || w2 > 64) {
        if (T->isVectorTy()) return unsup();
        if (I->getOpcode() == Instruction::ZExt && w2 <= 64) {
          Inst& x = emit(O_ZEXT, I); x.w = 64; x.w2 = w2; x.d = d[0]; x.a = a[0];
          for (size_t i = 1; i < d.size(); i++) { int k = K(0); Inst& y = emit(O_MOV, I); y.w = 64; y.d = d[i]; y.a = k; } return; }
        if (I->getOpcode() == Instruction::Trunc && w <= 64) { Inst& x = emit(O_TRUNC, I); x.w = w; x.w2 = 64; x.d = d[0]; x.a = a[0]; return; }
        return unsup();
      }
      u8 op = I->getOpcode() == Instruction::ZExt ? O_ZEXT : I->getOpcode() == Instruction::SExt ? O_SEXT : O_TRUNC;
      for (size_t i = 0; i < d.size(); i++) { Inst& x = emit(op, I); x.w = w; x.w2 = w2; x.d = d[i]; x.a = a[i]; }
      return;
    }
    case Instruction::PtrToInt: case Instruction::IntToPtr: {
      int w = iw(T), w2 = iw(I->getOperand(0)->getType()); if (w > 64 || w2 > 64 || w < 0 || w2 < 0) return unsup();
      int d = ops(I)[0], a = ops(I->getOperand(0))[0];
      Inst& x = emit(w < w2 ? O_TRUNC : O_ZEXT, I); x.w = w; x.w2 = w2; x.d = d; x.a = a; return;
    }
    case Instruction::FPTrunc: case Instruction::FPExt: case Instruction::FPToSI: case Instruction::FPToUI: case Instruction::SIToFP: case Instruction::UIToFP: {
      auto d = ops(I); auto a = ops(I->getOperand(0)); int w = iw(sc(T)), w2 = iw(sc(I->getOperand(0)->getType()));
      if (w < 0 || w2 < 0 || w > 64 || w2 > 64) return unsup();
      u8 k = I->getOpcode() == Instruction::FPTrunc ? K_FPTRUNC : I->getOpcode() == Instruction::FPExt ? K_FPEXT : I->getOpcode() == Instruction::FPToSI ? K_FPTOSI : I->getOpcode() == Instruction::FPToUI ? K_FPTOUI : I->getOpcode() == Instruction::SIToFP ? K_SITOFP : K_UITOFP;
      for (size_t i = 0; i < d.size(); i++) { Inst& x = emit(O_FCVT, I); x.w = w; x.w2 = w2; x.d = d[i]; x.a = a[i]; x.fl = k; }
      return;
    }
    case Instruction::BitCast: {
      // lane-changing bitcast through an integer: support two-lane <-> 64-bit
      std::vector<Leaf> x, y; P.flat(T, 0, x); P.flat(I->getOperand(0)->getType(), 0, y);
      auto d = ops(I); auto a = ops(I->getOperand(0));
      if (x.size() == 1 && y.size() > 1) {
        int cur = newSlots(1); { Inst& q = emit(O_ZEXT, I); q.w = x[0].w; q.w2 = y[0].w; q.d = cur; q.a = a[0]; }
        int sh = y[0].w;
        for (size_t i = 1; i < y.size(); i++) {
          int t = newSlots(3); int k = K(sh);
          { Inst& q = emit(O_ZEXT, I); q.w = x[0].w; q.w2 = y[i].w; q.d = t; q.a = a[i]; }
          { Inst& q = emit(O_SHL, I); q.w = x[0].w; q.d = t + 1; q.a = t; q.b = k; }
          { Inst& q = emit(O_OR, I); q.w = x[0].w; q.d = t + 2; q.a = t + 1; q.b = cur; }
          cur = t + 2; sh += y[i].w;
        }
        Inst& q = emit(O_MOV, I); q.w = x[0].w; q.d = d[0]; q.a = cur; return;
      }
      if (y.size() == 1 && x.size() > 1) {
        int sh = 0;
        for (size_t i = 0; i < x.size(); i++) {
          int t = newSlots(1); int k = K(sh);
          { Inst& q = emit(O_LSHR, I); q.w = y[0].w; q.d = t; q.a = a[0]; q.b = k; }
          { Inst& q = emit(O_TRUNC, I); q.w = x[i].w; q.w2 = y[0].w; q.d = d[i]; q.a = t; }
          sh += x[i].w;
        }
        return;
      }
      return unsup();
    }
    case Instruction::AtomicRMW: {
      auto* A = cast<AtomicRMWInst>(I);
      int p = ops(A->getPointerOperand())[0], v = ops(A->getValOperand())[0], d = ops(I)[0];
      Inst& x = emit(O_RMW, I); x.w = iw(T); x.a = p; x.b = v; x.d = d; x.imm = A->getOperation(); x.fl = FL_ATOMIC;
      if (isAcquireOrStronger(A->getOrdering())) x.fl |= FL_ACQ;
      if (isReleaseOrStronger(A->getOrdering())) x.fl |= FL_REL;
      return;
    }
    case Instruction::AtomicCmpXchg: {
      auto* A = cast<AtomicCmpXchgInst>(I);
      int p = ops(A->getPointerOperand())[0], c = ops(A->getCompareOperand())[0], n = ops(A->getNewValOperand())[0], d = ops(I)[0];
      Inst& x = emit(O_CAS, I); x.w = iw(A->getCompareOperand()->getType()); x.a = p; x.b = c; x.c = n; x.d = d; x.fl = FL_ATOMIC; x.w2 = A->isWeak();
      if (isAcquireOrStronger(A->getSuccessOrdering())) x.fl |= FL_ACQ;
      if (isReleaseOrStronger(A->getSuccessOrdering())) x.fl |= FL_REL;
      return;
    }
    case Instruction::Fence: emit(O_FENCE, I); return;
    case Instruction::LandingPad: {
      int d = ops(I)[0]; Inst& x = emit(O_LPAD, I); x.d = d; return;
    }
    case Instruction::Resume: { int a = ops(I->getOperand(0))[0]; Inst& x = emit(O_RESUME, I); x.a = a; return; }
    case Instruction::Call: case Instruction::Invoke: call(cast<CallBase>(I)); return;
    default: unsup();
  }
}

void Decoder::call(CallBase* C) {
  auto lpOf = [&](BasicBlock* bb) -> LPInfo* {
    auto* L = bb->getLandingPadInst(); auto* r = new LPInfo; r->cleanup = L->isCleanup();
    for (unsigned i = 0; i < L->getNumClauses(); i++) {
      if (!L->isCatch(i)) continue;
      std::vector<u64> v; P.evalConst(cast<Constant>(L->getClause(i)), v); r->clauses.push_back(v[0]);
    }
    return r;
  };
  auto* ci = new CallInfo;
  Value* cv = C->getCalledOperand()->stripPointerCasts();
  if (auto* ga = dyn_cast<GlobalAlias>(cv)) cv = ga->getAliaseeObject();
  if (isa<InlineAsm>(cv)) {
    auto* ia = cast<InlineAsm>(cv);
    std::string s = ia->getAsmString();
    ops(C);
    if (s.empty() || s.find("pause") != std::string::npos) return;
    emit(O_UNSUP, C); return;
  }
  if (auto* f = dyn_cast<Function>(cv)) ci->callee = P.getF(f);
  else ci->calleeOp = ops(C->getCalledOperand())[0];
  auto* FT = C->getFunctionType();
  ci->vararg = FT->isVarArg();
  for (unsigned i = 0; i < C->arg_size(); i++) {
    if (i == FT->getNumParams()) ci->nfixed = ci->args.size();
    Value* v = C->getArgOperand(i);
    if (C->isByValArgument(i)) ci->byvals.push_back({(int)ci->args.size(), P.DL->getTypeAllocSize(C->getParamByValType(i))});
    auto o = ops(v);
    std::vector<Leaf> l; P.flat(v->getType(), 0, l);
    for (size_t k = 0; k < o.size(); k++) { ci->args.push_back(o[k]); ci->argw.push_back(l[k].w); }
  }
  if (C->arg_size() <= FT->getNumParams()) ci->nfixed = ci->args.size();
  auto d = ops(C);
  ci->nret = d.size();
  std::vector<Leaf> rl; P.flat(C->getType(), 0, rl);
  for (size_t i = 0; i < rl.size() && i < 4; i++) ci->retw[i] = rl[i].w;
  if (auto* inv = dyn_cast<InvokeInst>(C)) {
    ci->invoke = true;
    ci->normal = edge(C->getParent(), inv->getNormalDest());
    ci->unwind = edge(C->getParent(), inv->getUnwindDest());
    ci->unwind->lp = lpOf(inv->getUnwindDest());
  }
  Inst& x = emit(O_CALL, C); x.d = d.empty() ? -1000000 : d[0]; x.p = ci; x.w = ci->nret ? ci->retw[0] : 0;
}
