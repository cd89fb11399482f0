// LLVM IR instrumentation for the verification build of /repo.
//
// Runs at the very start of the optimisation pipeline, on the IR clang's front
// end produced for a translation unit, before any optimisation.  Every
// double-precision operation, comparison and conversion and every call to a
// libm function is redirected to the symbolic runtime (vf_rt.cpp).  The
// runtime gives the operation its ordinary machine meaning when the operands
// are ordinary doubles and builds an SMT term when an operand is symbolic.
// Atomic operations and (when VF_MEM is set) plain memory accesses are
// announced to the runtime as well, for the thread-interleaving harnesses.
#include "llvm/IR/IRBuilder.h"
#include "llvm/IR/InstIterator.h"
#include "llvm/IR/IntrinsicInst.h"
#include "llvm/IR/Module.h"
#include "llvm/IR/PassManager.h"
#include "llvm/Passes/PassBuilder.h"
#include "llvm/Passes/PassPlugin.h"
#include <cstdlib>
#include <map>
#include <set>

using namespace llvm;

namespace {

struct VfPass : PassInfoMixin<VfPass> {
  static bool isRequired() { return true; }

  FunctionCallee fn(Module& M, StringRef name, Type* ret, ArrayRef<Type*> args) {
    return M.getOrInsertFunction(name, FunctionType::get(ret, args, false));
  }

  static unsigned order(AtomicOrdering o) {
    return (isAcquireOrStronger(o) ? 4 : 0) | (isReleaseOrStronger(o) ? 8 : 0);
  }
  // thread-local and stack slots are private to a thread
  static bool plain(Value* p) {
    Value* b = p->stripInBoundsOffsets();
    if (isa<AllocaInst>(b)) return false;
    if (auto* g = dyn_cast<GlobalVariable>(b)) return !g->isThreadLocal() && !g->isConstant();
    if (auto* c = dyn_cast<CallBase>(b))
      if (c->getCalledFunction() && c->getCalledFunction()->getName().starts_with("llvm.threadlocal")) return false;
    return true;
  }
  void atomic(IRBuilder<>& B, Module& M, Value* p, uint64_t sz, unsigned kind) {
    LLVMContext& C = M.getContext();
    B.CreateCall(fn(M, "vf_rt_atomic", Type::getVoidTy(C), {PointerType::get(C, 0), Type::getInt64Ty(C), Type::getInt32Ty(C)}),
                 {p, ConstantInt::get(Type::getInt64Ty(C), sz), ConstantInt::get(Type::getInt32Ty(C), kind)});
  }

  PreservedAnalyses run(Module& M, ModuleAnalysisManager&) {
    LLVMContext& C = M.getContext();
    Type* D = Type::getDoubleTy(C);
    Type* I1 = Type::getInt1Ty(C);
    Type* I8 = Type::getInt8Ty(C);
    Type* I32 = Type::getInt32Ty(C);
    Type* I64 = Type::getInt64Ty(C);
    Type* P = PointerType::get(C, 0);
    Type* V = Type::getVoidTy(C);
    const bool mem = std::getenv("VF_MEM") != nullptr;
    static const std::set<std::string> libm1 = {
        "sqrt", "sin",   "cos",   "tan",  "asin",  "acos", "atan",  "sinh",
        "cosh", "tanh",  "exp",   "exp2", "expm1", "log",  "log2",  "log10",
        "log1p", "cbrt", "erf",   "erfc", "fabs",  "floor", "ceil", "trunc",
        "round", "rint", "nearbyint"};
    static const std::set<std::string> libm2 = {
        "pow", "atan2", "fmod", "hypot", "fmin", "fmax", "copysign", "fdim",
        "remainder", "nextafter"};
    static const std::set<std::string> libmi = {
        "lround", "llround", "lrint", "llrint"};

    // thread primitives go to the scheduler
    static const std::map<std::string, std::string> sched = {
        {"_ZNSt6thread15_M_start_threadESt10unique_ptrINS_6_StateESt14default_deleteIS1_EEPFvvE", "vf_thread_start"},
        {"_ZNSt6thread4joinEv", "vf_thread_join"},
        {"_ZNSt6thread6detachEv", "vf_thread_detach"},
        {"pthread_mutex_lock", "vf_mutex_lock"},
        {"pthread_mutex_trylock", "vf_mutex_trylock"},
        {"pthread_mutex_unlock", "vf_mutex_unlock"},
        {"pthread_rwlock_rdlock", "vf_mutex_lock"},
        {"pthread_rwlock_wrlock", "vf_mutex_lock"},
        {"pthread_rwlock_unlock", "vf_mutex_unlock"},
        {"sched_yield", "vf_yield"},
        {"_ZNSt28__atomic_futex_unsigned_base19_M_futex_wait_untilEPjjbNSt6chrono8durationIlSt5ratioILl1ELl1EEEENS2_IlS3_ILl1ELl1000000000EEEE", "vf_futex_wait"},
        {"_ZNSt28__atomic_futex_unsigned_base19_M_futex_notify_allEPj", "vf_futex_notify"},
        {"_ZNSt18condition_variable4waitERSt11unique_lockISt5mutexE", "vf_cond_wait"},
        {"_ZNSt18condition_variable10notify_oneEv", "vf_cond_notify"},
        {"_ZNSt18condition_variable10notify_allEv", "vf_cond_notify"}};
    for (auto& [from, to] : sched)
      if (Function* F = M.getFunction(from))
        if (F->isDeclaration()) F->replaceAllUsesWith(M.getOrInsertFunction(to, F->getFunctionType()).getCallee());
    // instrumented copies of inline functions must not be shared with the
    // uninstrumented runtime or with shared libraries
    for (Function& F : M) {
      if (F.isDeclaration() || !F.hasLinkOnceLinkage()) continue;
      StringRef fn_name = F.getName();
      if (!fn_name.starts_with("_ZNSt") && !fn_name.starts_with("_ZNKSt") && !fn_name.starts_with("_ZSt") && !fn_name.starts_with("_ZN9__gnu_cxx") &&
          !fn_name.starts_with("_ZNK9__gnu_cxx"))
        continue;
      F.setName(F.getName() + ".vf");
      F.setVisibility(GlobalValue::HiddenVisibility);
      F.setDSOLocal(true);
      if (F.hasComdat()) F.setComdat(M.getOrInsertComdat(F.getName()));
    }
    const bool hooks_only = std::getenv("VF_HOOKS") != nullptr;

    for (Function& F : M) {
      if (F.isDeclaration()) continue;
      if (F.getName().starts_with("vf_rt_")) continue;
      const bool counter = F.getName().contains("_Sp_counted") || F.getName().contains("__exchange_and_add") || F.getName().contains("__atomic_add") ||
                           F.getName().contains("__shared_count") || F.getName().contains("__weak_count");
      // the library's own future / flag internals are not schedule points
      if (F.getName().contains("__atomic_futex_unsigned") || F.getName().contains("_M_set_retrieved_flag")) {
        auto q = fn(M, "vf_rt_quiet", V, {I32});
        for (BasicBlock& bb : F)
          if (isa<ReturnInst>(bb.getTerminator()) || isa<ResumeInst>(bb.getTerminator()))
            IRBuilder<>(bb.getTerminator()).CreateCall(q, {ConstantInt::getSigned(I32, -1)});
        IRBuilder<>(&*F.getEntryBlock().getFirstInsertionPt()).CreateCall(q, {ConstantInt::get(I32, 1)});
      }
      std::vector<Instruction*> work;
      for (Instruction& I : instructions(F)) work.push_back(&I);
      for (Instruction* I : work) {
        IRBuilder<> B(I);
        Value* R = nullptr;
        if (hooks_only && !isa<LoadInst>(I) && !isa<StoreInst>(I) && !isa<AtomicRMWInst>(I) && !isa<AtomicCmpXchgInst>(I) && !isa<CallBase>(I)) continue;
        auto unsupported = [&](const char* what) {
          B.CreateCall(fn(M, "vf_rt_unsupported", V, {P}),
                       {B.CreateGlobalStringPtr(std::string(what) + " in " +
                                                F.getName().str())});
        };
        if (auto* bo = dyn_cast<BinaryOperator>(I)) {
          const char* n = nullptr;
          switch (bo->getOpcode()) {
          case Instruction::FAdd: n = "vf_rt_fadd"; break;
          case Instruction::FSub: n = "vf_rt_fsub"; break;
          case Instruction::FMul: n = "vf_rt_fmul"; break;
          case Instruction::FDiv: n = "vf_rt_fdiv"; break;
          case Instruction::FRem: n = "vf_rt_m_fmod"; break;
          default: break;
          }
          if (!n) continue;
          if (!bo->getType()->isDoubleTy()) {
            continue; // float / long double: never symbolic (see FPTrunc/FPExt)
          }
          R = B.CreateCall(fn(M, n, D, {D, D}),
                           {bo->getOperand(0), bo->getOperand(1)});
        } else if (auto* uo = dyn_cast<UnaryOperator>(I)) {
          if (uo->getOpcode() != Instruction::FNeg || !uo->getType()->isDoubleTy())
            continue;
          R = B.CreateCall(fn(M, "vf_rt_fneg", D, {D}), {uo->getOperand(0)});
        } else if (auto* fc = dyn_cast<FCmpInst>(I)) {
          if (!fc->getOperand(0)->getType()->isDoubleTy()) continue;
          R = B.CreateCall(
              fn(M, "vf_rt_fcmp", I8, {I32, D, D}),
              {ConstantInt::get(I32, fc->getPredicate()), fc->getOperand(0),
               fc->getOperand(1)});
          R = B.CreateTrunc(R, I1);
        } else if (isa<FPToUIInst>(I) || isa<FPToSIInst>(I)) {
          auto* ci = cast<CastInst>(I);
          if (!ci->getSrcTy()->isDoubleTy()) continue;
          unsigned w = ci->getDestTy()->getIntegerBitWidth();
          R = B.CreateCall(
              fn(M, isa<FPToUIInst>(I) ? "vf_rt_fptoui" : "vf_rt_fptosi", I64,
                 {D, I32}),
              {ci->getOperand(0), ConstantInt::get(I32, w)});
          if (w < 64)
            R = B.CreateTrunc(R, ci->getDestTy());
          else if (w > 64)
            R = B.CreateIntCast(R, ci->getDestTy(), isa<FPToSIInst>(I));
        } else if (isa<FPTruncInst>(I) || isa<FPExtInst>(I)) {
          auto* ci = cast<CastInst>(I);
          if (!ci->getSrcTy()->isDoubleTy()) continue;
          Value* c = B.CreateCall(fn(M, "vf_rt_concretize", D, {D}),
                                  {ci->getOperand(0)});
          ci->setOperand(0, c);
          continue;
        } else if (auto* bc = dyn_cast<BitCastInst>(I)) {
          if (!bc->getSrcTy()->isDoubleTy() || !bc->getDestTy()->isIntegerTy())
            continue;
          // sign tests: every use is "icmp slt 0" / "lshr 63"
          bool sign = !bc->use_empty();
          for (User* U : bc->users()) {
            auto* ic = dyn_cast<ICmpInst>(U);
            if (!ic || ic->getPredicate() != CmpInst::ICMP_SLT ||
                !isa<ConstantInt>(ic->getOperand(1)) ||
                !cast<ConstantInt>(ic->getOperand(1))->isZero())
              sign = false;
          }
          R = B.CreateCall(fn(M, sign ? "vf_rt_signbits" : "vf_rt_bits", I64, {D}),
                           {bc->getOperand(0)});
        } else if (auto* cb = dyn_cast<CallBase>(I)) {
          Function* callee = cb->getCalledFunction();
          if (!callee) continue;
          StringRef n = callee->getName();
          if (auto* mi = dyn_cast<AnyMemIntrinsic>(cb)) {
            if (mem) {
              auto f = fn(M, "vf_rt_mem", V, {P, I64, I32});
              Value* len = B.CreateIntCast(mi->getLength(), I64, false);
              B.CreateCall(f, {mi->getRawDest(), len, ConstantInt::get(I32, 1)});
              if (auto* mt = dyn_cast<AnyMemTransferInst>(mi))
                B.CreateCall(f, {mt->getRawSource(), len, ConstantInt::get(I32, 0)});
            }
            continue;
          }
          if (n == "__cxa_guard_release" || n == "__cxa_guard_acquire") {
            if (n.ends_with("acquire")) B.SetInsertPoint(I->getNextNode() && !isa<InvokeInst>(I) ? I->getNextNode() : I);
            B.CreateCall(fn(M, "vf_rt_atomic", V, {P, I64, I32}), {cb->getArgOperand(0), ConstantInt::get(I64, 8), ConstantInt::get(I32, 3 | 12 | 16)});
            continue;
          }
          if (hooks_only) continue;
          std::string base;
          if (callee->isIntrinsic()) {
            switch (callee->getIntrinsicID()) {
            case Intrinsic::sqrt: base = "sqrt"; break;
            case Intrinsic::fabs: base = "fabs"; break;
            case Intrinsic::floor: base = "floor"; break;
            case Intrinsic::ceil: base = "ceil"; break;
            case Intrinsic::trunc: base = "trunc"; break;
            case Intrinsic::round: base = "round"; break;
            case Intrinsic::rint: base = "rint"; break;
            case Intrinsic::nearbyint: base = "nearbyint"; break;
            case Intrinsic::sin: base = "sin"; break;
            case Intrinsic::cos: base = "cos"; break;
            case Intrinsic::exp: base = "exp"; break;
            case Intrinsic::exp2: base = "exp2"; break;
            case Intrinsic::log: base = "log"; break;
            case Intrinsic::log2: base = "log2"; break;
            case Intrinsic::log10: base = "log10"; break;
            case Intrinsic::pow: base = "pow"; break;
            case Intrinsic::minnum: base = "fmin"; break;
            case Intrinsic::maxnum: base = "fmax"; break;
            case Intrinsic::copysign: base = "copysign"; break;
            case Intrinsic::fma:
            case Intrinsic::fmuladd:
              if (cb->getType()->isDoubleTy()) {
                R = B.CreateCall(fn(M, "vf_rt_fma", D, {D, D, D}),
                                 {cb->getArgOperand(0), cb->getArgOperand(1),
                                  cb->getArgOperand(2)});
                cb->replaceAllUsesWith(R);
                cb->eraseFromParent();
              }
              continue;
            case Intrinsic::is_fpclass:
              if (cb->getArgOperand(0)->getType()->isDoubleTy()) {
                R = B.CreateCall(fn(M, "vf_rt_isfpclass", I8, {D, I32}),
                                 {cb->getArgOperand(0), cb->getArgOperand(1)});
                R = B.CreateTrunc(R, I1);
                cb->replaceAllUsesWith(R);
                cb->eraseFromParent();
              }
              continue;
            case Intrinsic::powi:
              if (cb->getType()->isDoubleTy()) {
                Value* e = B.CreateSIToFP(cb->getArgOperand(1), D);
                R = B.CreateCall(fn(M, "vf_rt_m_pow", D, {D, D}),
                                 {cb->getArgOperand(0), e});
                cb->replaceAllUsesWith(R);
                cb->eraseFromParent();
              }
              continue;
            default: break;
            }
            if (base.empty() || !cb->getType()->isDoubleTy()) {
              if (!base.empty()) continue;
              // any other intrinsic producing or consuming a double
              if (cb->getType()->isDoubleTy()) unsupported("fp intrinsic");
              continue;
            }
          } else if (n.starts_with("_ZSt5hypotddd") || n.starts_with("_ZSt8__hypot3IdET_S0_S0_S0_")) {
            // libstdc++ scales by the largest component against overflow; over
            // the reals that is the plain norm
            base = "hypot3";
          } else if (callee->isDeclaration() && cb->getFunctionType()->getNumParams() &&
                     cb->getFunctionType()->getParamType(0)->isDoubleTy()) {
            base = n.str();
          } else
            continue;
          auto replace = [&](Value* R) {
            if (auto* inv = dyn_cast<InvokeInst>(cb)) {
              B.CreateBr(inv->getNormalDest());
              inv->getUnwindDest()->removePredecessor(inv->getParent());
            }
            cb->replaceAllUsesWith(R);
            cb->eraseFromParent();
          };
          if (libm1.count(base) && cb->arg_size() == 1) {
            replace(B.CreateCall(fn(M, "vf_rt_m_" + base, D, {D}),
                                 {cb->getArgOperand(0)}));
          } else if (libm2.count(base) && cb->arg_size() == 2 &&
                     cb->getArgOperand(1)->getType()->isDoubleTy()) {
            replace(B.CreateCall(fn(M, "vf_rt_m_" + base, D, {D, D}),
                                 {cb->getArgOperand(0), cb->getArgOperand(1)}));
          } else if (base == "hypot3") {
            replace(B.CreateCall(fn(M, "vf_rt_m_hypot3", D, {D, D, D}),
                                 {cb->getArgOperand(0), cb->getArgOperand(1), cb->getArgOperand(2)}));
          } else if (libmi.count(base) && cb->arg_size() == 1) {
            Value* r = B.CreateCall(fn(M, "vf_rt_m_round", D, {D}),
                                    {cb->getArgOperand(0)});
            r = B.CreateCall(fn(M, "vf_rt_fptosi", I64, {D, I32}),
                             {r, ConstantInt::get(I32, 64)});
            replace(B.CreateIntCast(r, cb->getType(), true));
          } else if (base == "frexp" || base == "modf" || base == "ldexp" ||
                     base == "scalbn" || base == "ilogb" || base == "logb" ||
                     base == "tgamma" || base == "lgamma") {
            cb->setArgOperand(0, B.CreateCall(fn(M, "vf_rt_concretize", D, {D}),
                                              {cb->getArgOperand(0)}));
          }
          continue;
        } else if (auto* li = dyn_cast<LoadInst>(I)) {
          uint64_t sz = M.getDataLayout().getTypeStoreSize(li->getType());
          if (li->isAtomic())
            atomic(B, M, li->getPointerOperand(), sz, 1 | order(li->getOrdering()) | (counter ? 16 : 0));
          else if (mem && plain(li->getPointerOperand()))
            B.CreateCall(fn(M, "vf_rt_mem", V, {P, I64, I32}),
                         {li->getPointerOperand(), ConstantInt::get(I64, sz), ConstantInt::get(I32, 0)});
          continue;
        } else if (auto* si = dyn_cast<StoreInst>(I)) {
          uint64_t sz = M.getDataLayout().getTypeStoreSize(si->getValueOperand()->getType());
          if (si->isAtomic())
            atomic(B, M, si->getPointerOperand(), sz, 2 | order(si->getOrdering()) | (counter ? 16 : 0));
          else if (mem && plain(si->getPointerOperand()))
            B.CreateCall(fn(M, "vf_rt_mem", V, {P, I64, I32}),
                         {si->getPointerOperand(), ConstantInt::get(I64, sz), ConstantInt::get(I32, 1)});
          continue;
        } else if (auto* rm = dyn_cast<AtomicRMWInst>(I)) {
          // reference counts: the amount instead of the size
          if (counter)
            B.CreateCall(fn(M, "vf_rt_atomic", V, {P, I64, I32}),
                         {rm->getPointerOperand(), B.CreateIntCast(rm->getValOperand(), I64, true), ConstantInt::get(I32, 3 | 12 | 32)});
          else
          atomic(B, M, rm->getPointerOperand(), M.getDataLayout().getTypeStoreSize(rm->getValOperand()->getType()),
                 3 | order(rm->getOrdering()));
          continue;
        } else if (auto* cx = dyn_cast<AtomicCmpXchgInst>(I)) {
          atomic(B, M, cx->getPointerOperand(), M.getDataLayout().getTypeStoreSize(cx->getNewValOperand()->getType()),
                 3 | order(cx->getSuccessOrdering()) | (counter ? 16 : 0));
          continue;
        } else
          continue;
        if (R) {
          I->replaceAllUsesWith(R);
          I->eraseFromParent();
        }
      }
    }
    return PreservedAnalyses::none();
  }
};

} // namespace

extern "C" LLVM_ATTRIBUTE_WEAK PassPluginLibraryInfo llvmGetPassPluginInfo() {
  return {LLVM_PLUGIN_API_VERSION, "vfpass", "1", [](PassBuilder& PB) {
            PB.registerPipelineStartEPCallback(
                [](ModulePassManager& MPM, OptimizationLevel) {
                  MPM.addPass(VfPass());
                });
          }};
}
