// LLVM IR -> compact pre-decoded form.
#pragma once
#include <llvm/BinaryFormat/Dwarf.h>
#include <llvm/Demangle/Demangle.h>
#include <llvm/IR/Constants.h>
#include <llvm/IR/DataLayout.h>
#include <llvm/IR/DebugInfoMetadata.h>
#include <llvm/IR/DerivedTypes.h>
#include <llvm/IR/GetElementPtrTypeIterator.h>
#include <llvm/IR/GlobalAlias.h>
#include <llvm/IR/InstIterator.h>
#include <llvm/IR/Instructions.h>
#include <llvm/IR/IntrinsicInst.h>
#include <llvm/IR/LLVMContext.h>
#include <llvm/IR/Module.h>
#include <llvm/IRReader/IRReader.h>
#include <llvm/Support/SourceMgr.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <memory>
#include <set>
#include <stdexcept>

#include "expr.hpp"

struct Value {
  u64 c = 0;
  E e = nullptr;  // symbolic if non-null
  Value() = default;
  Value(u64 v) : c(v) {}
  Value(E x) : c(0), e(x) { if (x->op == E_CONST) { c = x->cval; e = nullptr; } }
};

struct Unsupported : std::runtime_error { using runtime_error::runtime_error; };

constexpr unsigned OFFBITS = 24;
constexpr u64 OFFMASK = (1ull << OFFBITS) - 1;
constexpr u64 FUNC_TAG = 0x7F00000000000000ull;  // function addresses

struct Opnd {
  i32 reg = -1;   // >= 0: register; -1: constant; -2: undef/poison
  u8 w = 0;
  Value cv;
};

struct Leaf { u32 off; u8 w; bool ptr; u8 bytes; };

enum IOp : u16 {
  I_BIN, I_ICMP, I_FCMP, I_CAST, I_SELECT, I_ALLOCA, I_LOAD, I_STORE, I_GEP, I_BR, I_CBR,
  I_SWITCH, I_RET, I_CALL, I_INVOKE, I_UNREACHABLE, I_RESUME, I_LANDINGPAD, I_EXTRACT, I_INSERT,
  I_CMPXCHG, I_RMW, I_FREEZE, I_NOP, I_FNEG, I_UNSUPPORTED,
};

struct DFunc;
struct Edge {
  u32 pc;
  std::vector<std::pair<i32, Opnd>> phis;
};

struct DInst {
  IOp op;
  u16 sub = 0;
  u8 w = 0, w2 = 0;
  bool flag = false;
  i32 dst = -1;
  u32 nleaf = 0;
  std::vector<Opnd> ops;
  std::vector<Leaf> leaves;
  std::vector<u64> imm;        // gep scales, switch values, extract index, ...
  std::vector<Edge> edges;
  const llvm::Function* callee = nullptr;
  DFunc* dcallee = nullptr;
  int builtin = -1;
  const llvm::Instruction* I = nullptr;
  u64 size = 0;
  // calls: leaf ranges of arguments, byval sizes
  std::vector<std::pair<u32, u64>> args;  // (number of leaves, byval size)
  u32 line = 0;                           // index into the table of source lines
};

struct DFunc {
  const llvm::Function* F = nullptr;
  std::string name;
  std::vector<DInst> code;
  u32 nregs = 0;
  std::vector<std::pair<i32, u32>> argRegs;  // (first reg, leaves)
  bool decoded = false;
  u64 addr = 0;
  u32 index = 0;
  bool executed = false;
};

struct Program {
  llvm::LLVMContext ctx;
  std::unique_ptr<llvm::Module> M;
  const llvm::DataLayout* DL = nullptr;
  std::map<const llvm::Function*, DFunc*> funcs;
  std::vector<DFunc*> funcList;
  std::map<const llvm::GlobalVariable*, u64> gaddr;
  std::vector<const llvm::GlobalVariable*> gvars;
  std::map<const llvm::StructType*, std::vector<Leaf>> leafCache;
  std::map<std::pair<std::string, u32>, u32> lineIds;
  std::vector<std::pair<std::string, u32>> lines{{"", 0}};
  std::vector<u8> lineHit;

  void load(const std::string& path) {
    llvm::SMDiagnostic err;
    M = llvm::parseIRFile(path, err, ctx);
    if (!M) { err.print("symir", llvm::errs()); exit(3); }
    DL = &M->getDataLayout();
    for (auto& F : *M) {
      auto* d = new DFunc;
      d->F = &F;
      d->name = F.getName().str();
      d->index = funcList.size();
      d->addr = FUNC_TAG | ((u64)d->index << 4);
      funcs[&F] = d;
      funcList.push_back(d);
    }
    u64 id = 16;
    for (auto& G : M->globals()) {
      gaddr[&G] = id++ << OFFBITS;
      gvars.push_back(&G);
    }
  }
  DFunc* byName(const std::string& n) {
    auto* F = M->getFunction(n);
    return F ? funcs[F] : nullptr;
  }

  void leavesOf(llvm::Type* T, u64 base, std::vector<Leaf>& out) {
    using namespace llvm;
    if (auto* S = dyn_cast<StructType>(T)) {
      auto* L = DL->getStructLayout(S);
      for (unsigned i = 0; i < S->getNumElements(); i++) leavesOf(S->getElementType(i), base + L->getElementOffset(i), out);
    } else if (auto* A = dyn_cast<ArrayType>(T)) {
      u64 sz = DL->getTypeAllocSize(A->getElementType());
      for (u64 i = 0; i < A->getNumElements(); i++) leavesOf(A->getElementType(), base + i * sz, out);
    } else if (auto* V = dyn_cast<FixedVectorType>(T)) {
      u64 sz = DL->getTypeAllocSize(V->getElementType());
      for (u64 i = 0; i < V->getNumElements(); i++) leavesOf(V->getElementType(), base + i * sz, out);
    } else if (T->isPointerTy()) {
      out.push_back({(u32)base, 64, true, 8});
    } else if (T->isIntegerTy()) {
      unsigned w = T->getIntegerBitWidth();
      if (w > 64) w = 64;  // instructions on such values decode to I_UNSUPPORTED
      out.push_back({(u32)base, (u8)w, false, (u8)((w + 7) / 8)});
    } else if (T->isDoubleTy()) {
      out.push_back({(u32)base, 64, false, 8});
    } else if (T->isFloatTy()) {
      out.push_back({(u32)base, 32, false, 4});
    } else if (T->isVoidTy()) {
    } else {
      out.push_back({(u32)base, 64, false, 8});  // instructions on such values decode to I_UNSUPPORTED
    }
  }
  u32 nleaves(llvm::Type* T) {
    std::vector<Leaf> l;
    leavesOf(T, 0, l);
    return l.size();
  }

  // ---- constants
  void constLeaves(const llvm::Constant* C, std::vector<Opnd>& out) {
    using namespace llvm;
    Type* T = C->getType();
    if (T->isAggregateType() || T->isVectorTy()) {
      if (isa<UndefValue>(C)) {
        std::vector<Leaf> l;
        leavesOf(T, 0, l);
        for (auto& x : l) { Opnd o; o.reg = -2; o.w = x.w; out.push_back(o); }
        return;
      }
      if (isa<ConstantAggregateZero>(C)) {
        std::vector<Leaf> l;
        leavesOf(T, 0, l);
        for (auto& x : l) { Opnd o; o.w = x.w; out.push_back(o); }
        return;
      }
      if (auto* CA = dyn_cast<ConstantAggregate>(C)) {
        for (auto& op : CA->operands()) constLeaves(cast<Constant>(op), out);
        return;
      }
      if (auto* CD = dyn_cast<ConstantDataSequential>(C)) {
        for (unsigned i = 0; i < CD->getNumElements(); i++) constLeaves(CD->getElementAsConstant(i), out);
        return;
      }
      throw Unsupported("aggregate constant");
    }
    Opnd o;
    if (isa<UndefValue>(C)) {
      o.reg = -2;
      o.w = T->isPointerTy() ? 64 : DL->getTypeSizeInBits(T);
    } else {
      o.cv = ::Value(constVal(C));
      o.w = T->isPointerTy() ? 64 : DL->getTypeSizeInBits(T);
    }
    out.push_back(o);
  }
  u64 constVal(const llvm::Constant* C) {
    using namespace llvm;
    if (auto* I = dyn_cast<ConstantInt>(C)) {
      if (I->getBitWidth() > 64) throw Unsupported("wide integer constant");
      return I->getZExtValue();
    }
    if (auto* F = dyn_cast<ConstantFP>(C)) {
      if (F->getType()->isX86_FP80Ty()) throw Unsupported("long double");
      return F->getValueAPF().bitcastToAPInt().getZExtValue();
    }
    if (isa<ConstantPointerNull>(C)) return 0;
    if (isa<UndefValue>(C)) return 0;
    if (auto* F = dyn_cast<Function>(C)) return funcs[F]->addr;
    if (auto* G = dyn_cast<GlobalVariable>(C)) return gaddr[G];
    if (auto* A = dyn_cast<GlobalAlias>(C)) return constVal(A->getAliasee());
    if (auto* E = dyn_cast<ConstantExpr>(C)) {
      switch (E->getOpcode()) {
        case Instruction::GetElementPtr: {
          auto* GO = cast<GEPOperator>(E);
          APInt off(64, 0);
          if (!GO->accumulateConstantOffset(*DL, off)) throw Unsupported("constant gep");
          return constVal(E->getOperand(0)) + off.getZExtValue();
        }
        case Instruction::BitCast: case Instruction::PtrToInt: case Instruction::IntToPtr: case Instruction::AddrSpaceCast:
          return constVal(E->getOperand(0));
        case Instruction::Trunc: return constVal(E->getOperand(0)) & wmask(DL->getTypeSizeInBits(E->getType()));
        case Instruction::Add: return constVal(E->getOperand(0)) + constVal(E->getOperand(1));
        case Instruction::Sub: return constVal(E->getOperand(0)) - constVal(E->getOperand(1));
        case Instruction::ICmp: {
          u64 a = constVal(E->getOperand(0)), b = constVal(E->getOperand(1));
          if (E->getPredicate() == CmpInst::ICMP_EQ) return a == b;
          if (E->getPredicate() == CmpInst::ICMP_NE) return a != b;
          throw Unsupported("constant icmp");
        }
        default: throw Unsupported("constant expression");
      }
    }
    throw Unsupported("constant");
  }
  void initBytes(const llvm::Constant* C, std::vector<u8>& d, u64 off) {
    using namespace llvm;
    if (isa<ConstantAggregateZero>(C) || isa<UndefValue>(C) || isa<ConstantPointerNull>(C)) return;
    Type* T = C->getType();
    if (auto* S = dyn_cast<ConstantStruct>(C)) {
      auto* L = DL->getStructLayout(S->getType());
      for (unsigned i = 0; i < S->getNumOperands(); i++) initBytes(S->getOperand(i), d, off + L->getElementOffset(i));
    } else if (auto* A = dyn_cast<ConstantArray>(C)) {
      u64 sz = DL->getTypeAllocSize(A->getType()->getElementType());
      for (unsigned i = 0; i < A->getNumOperands(); i++) initBytes(A->getOperand(i), d, off + i * sz);
    } else if (auto* D = dyn_cast<ConstantDataSequential>(C)) {
      u64 sz = DL->getTypeAllocSize(D->getElementType());
      for (unsigned i = 0; i < D->getNumElements(); i++) initBytes(D->getElementAsConstant(i), d, off + i * sz);
    } else {
      u64 v = constVal(C);
      u64 n = DL->getTypeStoreSize(T);
      for (u64 i = 0; i < n && i < 8; i++) d[off + i] = v >> (8 * i);
    }
  }

  // ---- functions
  struct Ctx {
    DFunc* d;
    std::map<const llvm::Value*, std::pair<i32, u32>> regs;
    std::map<const llvm::BasicBlock*, u32> bbpc;
  };
  void opnds(Ctx& c, const llvm::Value* V, std::vector<Opnd>& out) {
    using namespace llvm;
    if (auto* C = dyn_cast<Constant>(V)) { constLeaves(C, out); return; }
    auto it = c.regs.find(V);
    if (it == c.regs.end()) throw Unsupported("operand");
    std::vector<Leaf> l;
    leavesOf(V->getType(), 0, l);
    for (u32 i = 0; i < it->second.second; i++) {
      Opnd o;
      o.reg = it->second.first + i;
      o.w = l[i].w;
      out.push_back(o);
    }
  }
  Opnd opnd1(Ctx& c, const llvm::Value* V) {
    std::vector<Opnd> o;
    opnds(c, V, o);
    if (o.size() != 1) throw Unsupported("aggregate operand");
    return o[0];
  }
  u32 lineOf(const llvm::Instruction& I) {
    auto* L = I.getDebugLoc().get();
    if (!L) return 0;
    std::string f = (L->getDirectory() + "/" + L->getFilename()).str();
    if (L->getFilename().starts_with("/")) f = L->getFilename().str();
    auto k = std::make_pair(f, L->getLine());
    auto it = lineIds.find(k);
    if (it != lineIds.end()) return it->second;
    u32 id = lines.size();
    lines.push_back(k);
    lineIds[k] = id;
    return id;
  }
  static unsigned width(llvm::Type* T, const llvm::DataLayout& DL) {
    return T->isPointerTy() ? 64 : (unsigned)DL.getTypeSizeInBits(T);
  }
  static bool odd(llvm::Type* T) {
    if (T->isIntegerTy()) return T->getIntegerBitWidth() > 64;
    return T->isVectorTy() || T->isX86_FP80Ty() || T->isHalfTy() || T->isFP128Ty() || T->isTokenTy();
  }
  static bool odd(const llvm::Instruction& I) {
    if (odd(I.getType())) return true;
    for (auto& o : I.operands())
      if (!o->getType()->isMetadataTy() && odd(o->getType())) return true;
    return false;
  }
  void decode(DFunc* d);
};
