#include "decode.hpp"
using namespace llvm;

int builtinId(const std::string& name);

void Program::decode(DFunc* d) {
  if (d->decoded) return;
  d->decoded = true;
  const Function& F = *d->F;
  Ctx c;
  c.d = d;
  auto newRegs = [&](const llvm::Value* V) {
    u32 n = nleaves(V->getType());
    c.regs[V] = {(i32)d->nregs, n};
    d->nregs += n;
  };
  for (auto& A : F.args()) {
    newRegs(&A);
    d->argRegs.push_back(c.regs[&A]);
  }
  u32 pc = 0;
  for (auto& BB : F) {
    c.bbpc[&BB] = pc;
    for (auto& I : BB) {
      if (!I.getType()->isVoidTy()) newRegs(&I);
      if (isa<PHINode>(I)) continue;
      pc++;
    }
  }
  auto edge = [&](const BasicBlock* from, const BasicBlock* to) {
    Edge e;
    e.pc = c.bbpc[to];
    for (auto& phi : to->phis()) {
      std::vector<Opnd> o;
      opnds(c, phi.getIncomingValueForBlock(from), o);
      for (u32 i = 0; i < o.size(); i++) e.phis.push_back({c.regs[&phi].first + (i32)i, o[i]});
    }
    return e;
  };
  for (auto& BB : F) {
    for (auto& I : BB) {
      if (isa<PHINode>(I)) continue;
      d->code.emplace_back();
      DInst& n = d->code.back();
      n.I = &I;
      n.line = lineOf(I);
      auto it = c.regs.find(&I);
      if (it != c.regs.end()) { n.dst = it->second.first; n.nleaf = it->second.second; }
      if (!I.getType()->isVoidTy() && !I.getType()->isAggregateType() && !I.getType()->isVectorTy()) n.w = width(I.getType(), *DL);
      if (odd(I)) { n.op = I_UNSUPPORTED; continue; }
      try {
      switch (I.getOpcode()) {
        case Instruction::Add: case Instruction::Sub: case Instruction::Mul: case Instruction::UDiv: case Instruction::SDiv:
        case Instruction::URem: case Instruction::SRem: case Instruction::And: case Instruction::Or: case Instruction::Xor:
        case Instruction::Shl: case Instruction::LShr: case Instruction::AShr:
        case Instruction::FAdd: case Instruction::FSub: case Instruction::FMul: case Instruction::FDiv: {
          n.op = I_BIN;
          static const std::map<unsigned, Op> m = {
              {Instruction::Add, E_ADD}, {Instruction::Sub, E_SUB}, {Instruction::Mul, E_MUL}, {Instruction::UDiv, E_UDIV},
              {Instruction::SDiv, E_SDIV}, {Instruction::URem, E_UREM}, {Instruction::SRem, E_SREM}, {Instruction::And, E_AND},
              {Instruction::Or, E_OR}, {Instruction::Xor, E_XOR}, {Instruction::Shl, E_SHL}, {Instruction::LShr, E_LSHR},
              {Instruction::AShr, E_ASHR}, {Instruction::FAdd, E_FADD}, {Instruction::FSub, E_FSUB},
              {Instruction::FMul, E_FMUL}, {Instruction::FDiv, E_FDIV}};
          n.sub = m.at(I.getOpcode());
          n.ops = {opnd1(c, I.getOperand(0)), opnd1(c, I.getOperand(1))};
          break;
        }
        case Instruction::FNeg: n.op = I_FNEG; n.ops = {opnd1(c, I.getOperand(0))}; break;
        case Instruction::ICmp:
          n.op = I_ICMP;
          n.sub = cast<ICmpInst>(I).getPredicate();
          n.ops = {opnd1(c, I.getOperand(0)), opnd1(c, I.getOperand(1))};
          n.w2 = width(I.getOperand(0)->getType(), *DL);
          break;
        case Instruction::FCmp:
          n.op = I_FCMP;
          n.sub = cast<FCmpInst>(I).getPredicate();
          n.ops = {opnd1(c, I.getOperand(0)), opnd1(c, I.getOperand(1))};
          n.w2 = width(I.getOperand(0)->getType(), *DL);
          break;
        case Instruction::Trunc: case Instruction::ZExt: case Instruction::SExt: case Instruction::BitCast:
        case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::UIToFP: case Instruction::SIToFP:
        case Instruction::FPToUI: case Instruction::FPToSI: case Instruction::FPExt: case Instruction::FPTrunc:
        case Instruction::AddrSpaceCast:
          n.op = I_CAST;
          n.sub = I.getOpcode();
          n.ops = {opnd1(c, I.getOperand(0))};
          n.w2 = width(I.getOperand(0)->getType(), *DL);
          break;
        case Instruction::Select: {
          n.op = I_SELECT;
          n.ops.push_back(opnd1(c, I.getOperand(0)));
          opnds(c, I.getOperand(1), n.ops);
          opnds(c, I.getOperand(2), n.ops);
          break;
        }
        case Instruction::Alloca: {
          auto& A = cast<AllocaInst>(I);
          n.op = I_ALLOCA;
          n.size = DL->getTypeAllocSize(A.getAllocatedType());
          n.ops = {opnd1(c, A.getArraySize())};
          break;
        }
        case Instruction::Load:
          n.op = I_LOAD;
          n.ops = {opnd1(c, I.getOperand(0))};
          leavesOf(I.getType(), 0, n.leaves);
          break;
        case Instruction::Store:
          n.op = I_STORE;
          n.ops = {opnd1(c, I.getOperand(1))};
          opnds(c, I.getOperand(0), n.ops);
          leavesOf(I.getOperand(0)->getType(), 0, n.leaves);
          break;
        case Instruction::GetElementPtr: {
          n.op = I_GEP;
          n.ops = {opnd1(c, I.getOperand(0))};
          u64 off = 0;
          for (auto gi = gep_type_begin(I), ge = gep_type_end(I); gi != ge; ++gi) {
            llvm::Value* idx = gi.getOperand();
            if (auto* S = gi.getStructTypeOrNull()) {
              off += DL->getStructLayout(S)->getElementOffset(cast<ConstantInt>(idx)->getZExtValue());
            } else {
              u64 sz = DL->getTypeAllocSize(gi.getIndexedType());
              if (auto* ci = dyn_cast<ConstantInt>(idx)) off += (u64)ci->getSExtValue() * sz;
              else { n.ops.push_back(opnd1(c, idx)); n.imm.push_back(sz); }
            }
          }
          n.size = off;
          break;
        }
        case Instruction::Br: {
          auto& B = cast<BranchInst>(I);
          if (B.isUnconditional()) { n.op = I_BR; n.edges.push_back(edge(&BB, B.getSuccessor(0))); }
          else {
            n.op = I_CBR;
            n.ops = {opnd1(c, B.getCondition())};
            n.edges.push_back(edge(&BB, B.getSuccessor(0)));
            n.edges.push_back(edge(&BB, B.getSuccessor(1)));
          }
          break;
        }
        case Instruction::Switch: {
          auto& S = cast<SwitchInst>(I);
          n.op = I_SWITCH;
          n.ops = {opnd1(c, S.getCondition())};
          n.edges.push_back(edge(&BB, S.getDefaultDest()));
          for (auto& k : S.cases()) {
            n.imm.push_back(k.getCaseValue()->getZExtValue());
            n.edges.push_back(edge(&BB, k.getCaseSuccessor()));
          }
          break;
        }
        case Instruction::Ret:
          n.op = I_RET;
          if (I.getNumOperands()) opnds(c, I.getOperand(0), n.ops);
          break;
        case Instruction::Unreachable: n.op = I_UNREACHABLE; break;
        case Instruction::Resume: n.op = I_RESUME; opnds(c, I.getOperand(0), n.ops); break;
        case Instruction::LandingPad: {
          auto& L = cast<LandingPadInst>(I);
          n.op = I_LANDINGPAD;
          n.flag = L.isCleanup();
          break;
        }
        case Instruction::ExtractValue: {
          auto& X = cast<ExtractValueInst>(I);
          n.op = I_EXTRACT;
          std::vector<Opnd> all;
          opnds(c, X.getAggregateOperand(), all);
          Type* T = X.getAggregateOperand()->getType();
          u32 first = 0;
          for (unsigned i : X.indices()) {
            if (auto* S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) first += nleaves(S->getElementType(k)); T = S->getElementType(i); }
            else { auto* A = cast<ArrayType>(T); T = A->getElementType(); first += i * nleaves(T); }
          }
          for (u32 k = 0; k < n.nleaf; k++) n.ops.push_back(all[first + k]);
          break;
        }
        case Instruction::InsertValue: {
          auto& X = cast<InsertValueInst>(I);
          n.op = I_EXTRACT;  // a plain copy of leaves
          std::vector<Opnd> all, val;
          opnds(c, X.getAggregateOperand(), all);
          opnds(c, X.getInsertedValueOperand(), val);
          Type* T = X.getAggregateOperand()->getType();
          u32 first = 0;
          for (unsigned i : X.indices()) {
            if (auto* S = dyn_cast<StructType>(T)) { for (unsigned k = 0; k < i; k++) first += nleaves(S->getElementType(k)); T = S->getElementType(i); }
            else { auto* A = cast<ArrayType>(T); T = A->getElementType(); first += i * nleaves(T); }
          }
          for (u32 k = 0; k < val.size(); k++) all[first + k] = val[k];
          n.ops = all;
          break;
        }
        case Instruction::AtomicCmpXchg: {
          n.op = I_CMPXCHG;
          n.ops = {opnd1(c, I.getOperand(0)), opnd1(c, I.getOperand(1)), opnd1(c, I.getOperand(2))};
          n.w2 = width(I.getOperand(1)->getType(), *DL);
          break;
        }
        case Instruction::AtomicRMW: {
          n.op = I_RMW;
          n.sub = cast<AtomicRMWInst>(I).getOperation();
          n.ops = {opnd1(c, I.getOperand(0)), opnd1(c, I.getOperand(1))};
          n.w2 = width(I.getOperand(1)->getType(), *DL);
          break;
        }
        case Instruction::Freeze: n.op = I_EXTRACT; opnds(c, I.getOperand(0), n.ops); break;
        case Instruction::Fence: n.op = I_NOP; break;
        case Instruction::Call: case Instruction::Invoke: {
          auto& CB = cast<CallBase>(I);
          n.op = isa<InvokeInst>(I) ? I_INVOKE : I_CALL;
          if (CB.isInlineAsm()) {
            n.op = I_NOP;  // only empty barriers occur
            if (n.dst >= 0) throw Unsupported("inline assembly with a result");
            break;
          }
          if (auto* dbg = dyn_cast<DbgInfoIntrinsic>(&I)) { (void)dbg; n.op = I_NOP; break; }
          const llvm::Value* cv = CB.getCalledOperand()->stripPointerCasts();
          if (auto* GA = dyn_cast<GlobalAlias>(cv)) cv = GA->getAliaseeObject();
          n.callee = dyn_cast<Function>(cv);
          if (n.callee) n.dcallee = funcs[n.callee];
          else n.ops.push_back(opnd1(c, CB.getCalledOperand()));
          for (unsigned i = 0; i < CB.arg_size(); i++) {
            if (CB.getArgOperand(i)->getType()->isMetadataTy()) continue;
            size_t before = n.ops.size();
            opnds(c, CB.getArgOperand(i), n.ops);
            u64 bv = 0;
            if (CB.isByValArgument(i)) bv = DL->getTypeAllocSize(CB.getParamByValType(i));
            n.args.push_back({(u32)(n.ops.size() - before), bv});
          }
          if (n.callee && n.callee->isDeclaration()) n.builtin = builtinId(n.callee->getName().str());
          if (n.op == I_INVOKE) {
            auto& V = cast<InvokeInst>(I);
            n.edges.push_back(edge(&BB, V.getNormalDest()));
            n.edges.push_back(edge(&BB, V.getUnwindDest()));
          }
          break;
        }
        default: throw Unsupported(std::string("instruction ") + I.getOpcodeName());
      }
      } catch (Unsupported&) {
        if (I.isTerminator()) throw;
        n.op = I_UNSUPPORTED;
      }
    }
  }
}
