// Exports the resolved, typed program (all declarations written under a given root) as JSON.
// One translation unit per run:  exporter ROOT OUT.json FILE -- <clang flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
static std::string Root, Out;

namespace {
std::string bytesToStr(StringRef S) { // latin-1 code points, so that every byte survives JSON
  std::string R;
  for (unsigned char C : S) {
    if (C < 0x80) R.push_back(C);
    else { R.push_back(0xC0 | (C >> 6)); R.push_back(0x80 | (C & 0x3F)); }
  }
  return R;
}

class Exporter : public RecursiveASTVisitor<Exporter> {
public:
  ASTContext &Ctx;
  json::Array Functions, Globals, Records, Enums;
  std::map<const Decl *, int> Ids;
  std::set<const Decl *> Seen;
  Exporter(ASTContext &C) : Ctx(C) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto It = Ids.find(D);
    if (It != Ids.end()) return It->second;
    int N = Ids.size() + 1;
    Ids[D] = N;
    return N;
  }
  bool inRoot(SourceLocation L) {
    auto &SM = Ctx.getSourceManager();
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    StringRef F = SM.getFilename(L);
    return F.starts_with(Root);
  }
  std::string loc(SourceLocation L) {
    auto &SM = Ctx.getSourceManager();
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
    if (P.isInvalid()) return "?";
    StringRef F = P.getFilename();
    F.consume_front(Root);
    F.consume_front("/");
    return (F + ":" + Twine(P.getLine()) + ":" + Twine(P.getColumn())).str();
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    PrintingPolicy PP(Ctx.getLangOpts());
    PP.SuppressTagKeyword = true;
    return T.getCanonicalType().getAsString(PP);
  }
  std::string qn(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    PrintingPolicy PP(Ctx.getLangOpts());
    PP.SuppressTagKeyword = true;
    PP.SuppressTemplateArgsInCXXConstructors = true;
    D->printQualifiedName(OS, PP);
    OS.flush();
    // inline namespace of libstdc++
    size_t P;
    while ((P = S.find("__cxx11::")) != std::string::npos) S.erase(P, 9);
    return S;
  }
  // name shared by all redeclarations and translation units
  std::string fkey(const FunctionDecl *F) {
    std::string S = qn(F) + "(";
    for (unsigned I = 0; I < F->getNumParams(); I++)
      S += (I ? "," : "") + ty(F->getParamDecl(I)->getType());
    S += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) S += " const";
      if (M->getParent()->isLambda()) S += "@" + loc(M->getParent()->getBeginLoc());
    }
    if (auto *A = F->getTemplateSpecializationArgs()) {
      S += "<";
      for (auto &X : A->asArray()) {
        llvm::raw_string_ostream OS(S);
        PrintingPolicy PP(Ctx.getLangOpts());
        X.print(PP, OS, true);
        OS << ";";
      }
      S += ">";
    }
    return S;
  }
  bool repoFn(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def) return inRoot(Def->getLocation());
    return inRoot(F->getLocation());
  }

  json::Value E(const Expr *X) {
    if (!X) return nullptr;
    return expr(X);
  }
  json::Array args(const Expr *const *A, unsigned N) {
    json::Array R;
    for (unsigned I = 0; I < N; I++) R.push_back(E(A[I]));
    return R;
  }
  template <class Range> json::Array argsR(Range A) {
    json::Array R;
    for (const Expr *X : A) R.push_back(E(X));
    return R;
  }
  void calleeInfo(json::Object &O, const FunctionDecl *F) {
    if (!F) return;
    O["fn"] = qn(F);
    O["key"] = fkey(F);
    if (repoFn(F)) O["repo"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) O["virt"] = true;
      if (M->isConst()) O["const"] = true;
      if (M->isStatic()) O["static"] = true;
      O["cls"] = qn(M->getParent());
    }
    if (F->isDefaulted() || F->isImplicit()) O["defaulted"] = true;
    // reference parameters that are not const
    json::Array NC;
    for (unsigned I = 0; I < F->getNumParams(); I++) {
      QualType T = F->getParamDecl(I)->getType();
      NC.push_back((T->isLValueReferenceType() && !T->getPointeeType().isConstQualified()) ? 1 : 0);
    }
    O["ncref"] = std::move(NC);
    O["ret"] = ty(F->getReturnType());
  }
  json::Object varObj(const VarDecl *V, bool WithInit) {
    json::Object O;
    O["id"] = id(V);
    O["name"] = V->getNameAsString();
    O["qn"] = qn(V);
    O["t"] = ty(V->getType());
    O["loc"] = loc(V->getLocation());
    if (V->getType()->isReferenceType()) O["ref"] = true;
    if (V->getType().isConstQualified() ||
        (V->getType()->isReferenceType() && V->getType()->getPointeeType().isConstQualified()))
      O["const"] = true;
    if (V->isStaticLocal()) O["static"] = true;
    if (V->hasGlobalStorage() && !V->isStaticLocal()) O["global"] = true;
    if (WithInit && V->hasInit()) O["init"] = E(V->getInit());
    return O;
  }
  json::Value S(const Stmt *St) {
    if (!St) return nullptr;
    json::Object O;
    if (auto *X = dyn_cast<Expr>(St)) {
      O["k"] = "expr"; O["e"] = E(X); O["loc"] = loc(X->getBeginLoc());
      return std::move(O);
    }
    O["loc"] = loc(St->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(St)) {
      O["k"] = "block"; json::Array A;
      for (auto *C : X->body()) A.push_back(S(C));
      O["b"] = std::move(A);
    } else if (auto *X = dyn_cast<DeclStmt>(St)) {
      O["k"] = "decl"; json::Array A;
      for (auto *D : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
          json::Object VO = varObj(V, true);
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array B;
            for (auto *BD : DD->bindings()) {
              json::Object BO; BO["id"] = id(BD); BO["name"] = BD->getNameAsString();
              if (BD->getBinding()) BO["e"] = E(BD->getBinding());
              if (auto *HV = BD->getHoldingVar()) { BO["hv"] = varObj(HV, true); }
              B.push_back(std::move(BO));
            }
            VO["bindings"] = std::move(B);
          }
          A.push_back(std::move(VO));
        }
      }
      O["v"] = std::move(A);
    } else if (auto *X = dyn_cast<IfStmt>(St)) {
      O["k"] = "if"; O["init"] = S(X->getInit());
      if (X->getConditionVariable()) O["var"] = varObj(X->getConditionVariable(), true);
      O["c"] = E(X->getCond()); O["th"] = S(X->getThen()); O["el"] = S(X->getElse());
    } else if (auto *X = dyn_cast<WhileStmt>(St)) {
      O["k"] = "while"; O["c"] = E(X->getCond()); O["b"] = S(X->getBody());
      if (X->getConditionVariable()) O["var"] = varObj(X->getConditionVariable(), true);
    } else if (auto *X = dyn_cast<DoStmt>(St)) {
      O["k"] = "do"; O["c"] = E(X->getCond()); O["b"] = S(X->getBody());
    } else if (auto *X = dyn_cast<ForStmt>(St)) {
      O["k"] = "for"; O["init"] = S(X->getInit()); O["c"] = E(X->getCond());
      O["inc"] = E(X->getInc()); O["b"] = S(X->getBody());
    } else if (auto *X = dyn_cast<CXXForRangeStmt>(St)) {
      O["k"] = "range"; O["init"] = S(X->getInit());
      O["var"] = varObj(X->getLoopVariable(), false);
      if (auto *DD = dyn_cast<DecompositionDecl>(X->getLoopVariable())) {
        json::Array B;
        for (auto *BD : DD->bindings()) {
          json::Object BO; BO["id"] = id(BD); BO["name"] = BD->getNameAsString();
          if (BD->getBinding()) BO["e"] = E(BD->getBinding());
          if (auto *HV = BD->getHoldingVar()) BO["hv"] = varObj(HV, true);
          B.push_back(std::move(BO));
        }
        O["bindings"] = std::move(B);
      }
      O["rng"] = E(X->getRangeInit()); O["b"] = S(X->getBody());
    } else if (auto *X = dyn_cast<ReturnStmt>(St)) {
      O["k"] = "ret"; O["e"] = E(X->getRetValue());
    } else if (isa<BreakStmt>(St)) O["k"] = "break";
    else if (isa<ContinueStmt>(St)) O["k"] = "cont";
    else if (isa<NullStmt>(St)) O["k"] = "null";
    else if (auto *X = dyn_cast<SwitchStmt>(St)) {
      O["k"] = "switch"; O["init"] = S(X->getInit()); O["c"] = E(X->getCond()); O["b"] = S(X->getBody());
    } else if (auto *X = dyn_cast<CaseStmt>(St)) {
      O["k"] = "case"; O["c"] = E(X->getLHS()); O["b"] = S(X->getSubStmt());
    } else if (auto *X = dyn_cast<DefaultStmt>(St)) {
      O["k"] = "default"; O["b"] = S(X->getSubStmt());
    } else if (auto *X = dyn_cast<CXXTryStmt>(St)) {
      O["k"] = "try"; O["b"] = S(X->getTryBlock());
      json::Array H;
      for (unsigned I = 0; I < X->getNumHandlers(); I++) {
        auto *C = X->getHandler(I);
        json::Object HO;
        if (C->getExceptionDecl()) {
          HO["t"] = ty(C->getCaughtType().getNonReferenceType().getUnqualifiedType());
          HO["var"] = varObj(C->getExceptionDecl(), false);
          json::Array Bases; // the handler matches these thrown types
          HO["bases"] = std::move(Bases);
        }
        HO["b"] = S(C->getHandlerBlock());
        H.push_back(std::move(HO));
      }
      O["h"] = std::move(H);
    } else if (auto *X = dyn_cast<LabelStmt>(St)) { O["k"] = "label"; O["b"] = S(X->getSubStmt()); }
    else if (auto *X = dyn_cast<AttributedStmt>(St)) return S(X->getSubStmt());
    else { O["k"] = "unknown"; O["what"] = St->getStmtClassName(); }
    return std::move(O);
  }

  json::Value expr(const Expr *X) {
    json::Object O;
    O["loc"] = loc(X->getExprLoc());
    O["t"] = ty(X->getType());
    if (auto *Y = dyn_cast<ParenExpr>(X)) return E(Y->getSubExpr());
    if (auto *Y = dyn_cast<ExprWithCleanups>(X)) return E(Y->getSubExpr());
    if (auto *Y = dyn_cast<ConstantExpr>(X)) return E(Y->getSubExpr());
    if (auto *Y = dyn_cast<CXXBindTemporaryExpr>(X)) return E(Y->getSubExpr());
    if (auto *Y = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) return E(Y->getReplacement());
    if (auto *Y = dyn_cast<CXXDefaultArgExpr>(X)) return E(Y->getExpr());
    if (auto *Y = dyn_cast<CXXDefaultInitExpr>(X)) return E(Y->getExpr());
    if (auto *Y = dyn_cast<CXXStdInitializerListExpr>(X)) return E(Y->getSubExpr());
    if (auto *Y = dyn_cast<MaterializeTemporaryExpr>(X)) {
      O["k"] = "mat"; O["e"] = E(Y->getSubExpr());
      O["sd"] = Y->getStorageDuration() == SD_FullExpression ? "full" : "ext";
      return std::move(O);
    }
    if (auto *Y = dyn_cast<CastExpr>(X)) {
      switch (Y->getCastKind()) {
      case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating:
      case CK_FloatingCast: case CK_IntegralToBoolean: case CK_FloatingToBoolean:
      case CK_PointerToBoolean: case CK_IntegralToPointer: case CK_PointerToIntegral:
      case CK_ToVoid: case CK_Dynamic: case CK_BitCast: case CK_BooleanToSignedIntegral:
        O["k"] = "cast"; O["ck"] = Y->getCastKindName(); O["e"] = E(Y->getSubExpr());
        return std::move(O);
      case CK_NullToPointer:
        O["k"] = "null"; return std::move(O);
      default:
        return E(Y->getSubExpr());
      }
    }
    if (auto *Y = dyn_cast<IntegerLiteral>(X)) {
      O["k"] = "int"; llvm::SmallString<32> T; Y->getValue().toStringSigned(T); O["v"] = T.str().str();
      if (Y->getType()->isUnsignedIntegerType()) { llvm::SmallString<32> T2; Y->getValue().toStringUnsigned(T2); O["v"] = T2.str().str(); }
      return std::move(O);
    }
    if (auto *Y = dyn_cast<FloatingLiteral>(X)) { O["k"] = "float"; O["v"] = Y->getValueAsApproximateDouble(); return std::move(O); }
    if (auto *Y = dyn_cast<CharacterLiteral>(X)) { O["k"] = "char"; O["v"] = (int64_t)(int)Y->getValue(); return std::move(O); }
    if (auto *Y = dyn_cast<CXXBoolLiteralExpr>(X)) { O["k"] = "bool"; O["v"] = Y->getValue(); return std::move(O); }
    if (isa<CXXNullPtrLiteralExpr>(X)) { O["k"] = "null"; return std::move(O); }
    if (auto *Y = dyn_cast<StringLiteral>(X)) { O["k"] = "str"; O["v"] = bytesToStr(Y->getBytes()); return std::move(O); }
    if (isa<CXXThisExpr>(X)) { O["k"] = "this"; return std::move(O); }
    if (auto *Y = dyn_cast<DeclRefExpr>(X)) {
      const ValueDecl *D = Y->getDecl();
      O["k"] = "ref"; O["id"] = id(D); O["name"] = D->getNameAsString(); O["qn"] = qn(D);
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["dk"] = "enum"; O["v"] = EC->getInitVal().getExtValue();
      } else if (auto *F = dyn_cast<FunctionDecl>(D)) { O["dk"] = "fn"; calleeInfo(O, F); }
      else if (isa<ParmVarDecl>(D)) O["dk"] = "parm";
      else if (isa<BindingDecl>(D)) O["dk"] = "bind";
      else if (auto *V = dyn_cast<VarDecl>(D)) {
        O["dk"] = "var";
        if (V->isStaticLocal()) O["sl"] = true;
        if (V->hasGlobalStorage() && !V->isStaticLocal()) O["global"] = true;
        if (V->getType().isConstQualified()) O["const"] = true;
        const VarDecl *Def = nullptr; const Expr *I = V->getAnyInitializer(Def);
        if (I && Def && !I->isValueDependent() && V->getType().isConstQualified() &&
            (V->getType()->isIntegralOrEnumerationType())) {
          Expr::EvalResult R;
          if (I->EvaluateAsInt(R, Ctx)) { llvm::SmallString<32> T; R.Val.getInt().toString(T); O["cv"] = T.str().str(); }
        }
      } else O["dk"] = "other";
      return std::move(O);
    }
    if (auto *Y = dyn_cast<MemberExpr>(X)) {
      const ValueDecl *D = Y->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) { // static member
        O["k"] = "ref"; O["id"] = id(V); O["name"] = V->getNameAsString(); O["qn"] = qn(V); O["dk"] = "var"; O["global"] = true;
        const VarDecl *Def = nullptr; const Expr *I = V->getAnyInitializer(Def);
        if (I && Def && V->getType().isConstQualified() && V->getType()->isIntegralOrEnumerationType()) {
          Expr::EvalResult R;
          if (I->EvaluateAsInt(R, Ctx)) { llvm::SmallString<32> T; R.Val.getInt().toString(T); O["cv"] = T.str().str(); }
        }
        return std::move(O);
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        O["k"] = "ref"; O["dk"] = "enum"; O["name"] = D->getNameAsString(); O["qn"] = qn(D); O["v"] = EC->getInitVal().getExtValue();
        return std::move(O);
      }
      O["k"] = "mem"; O["f"] = D->getNameAsString(); O["qn"] = qn(D); O["arrow"] = Y->isArrow();
      O["e"] = E(Y->getBase());
      return std::move(O);
    }
    if (auto *Y = dyn_cast<CXXMemberCallExpr>(X)) {
      O["k"] = "mcall";
      calleeInfo(O, Y->getMethodDecl());
      if (auto *ME = dyn_cast<MemberExpr>(Y->getCallee()->IgnoreParens())) {
        O["arrow"] = ME->isArrow();
        if (ME->hasQualifier()) O["qual"] = true;
      }
      O["obj"] = E(Y->getImplicitObjectArgument());
      O["a"] = args(Y->getArgs(), Y->getNumArgs());
      return std::move(O);
    }
    if (auto *Y = dyn_cast<CXXOperatorCallExpr>(X)) {
      O["k"] = "op"; O["op"] = getOperatorSpelling(Y->getOperator());
      calleeInfo(O, Y->getDirectCallee());
      if (isa_and_nonnull<CXXMethodDecl>(Y->getDirectCallee())) O["memop"] = true;
      O["a"] = args(Y->getArgs(), Y->getNumArgs());
      return std::move(O);
    }
    if (auto *Y = dyn_cast<UserDefinedLiteral>(X)) {
      O["k"] = "call"; calleeInfo(O, Y->getDirectCallee()); O["a"] = args(Y->getArgs(), Y->getNumArgs());
      return std::move(O);
    }
    if (auto *Y = dyn_cast<CallExpr>(X)) {
      O["k"] = "call";
      calleeInfo(O, Y->getDirectCallee());
      if (!Y->getDirectCallee()) O["callee"] = E(Y->getCallee());
      O["a"] = args(Y->getArgs(), Y->getNumArgs());
      return std::move(O);
    }
    if (auto *Y = dyn_cast<CXXConstructExpr>(X)) {
      auto *C = Y->getConstructor();
      O["k"] = "ctor"; O["cls"] = qn(C->getParent());
      calleeInfo(O, C); O["cls"] = qn(C->getParent());
      if (C->isCopyConstructor()) O["copy"] = true;
      if (C->isMoveConstructor()) O["move"] = true;
      if (Y->isListInitialization()) O["list"] = true;
      if (Y->isStdInitListInitialization()) O["stdlist"] = true;
      if (C->isDefaultConstructor()) O["def"] = true;
      if (isa<CXXTemporaryObjectExpr>(X)) O["tmp"] = true;
      O["a"] = args(Y->getArgs(), Y->getNumArgs());
      return std::move(O);
    }
    if (auto *Y = dyn_cast<InitListExpr>(X)) {
      if (Y->isSemanticForm() == false && Y->getSemanticForm()) Y = Y->getSemanticForm();
      O["k"] = "ilist"; O["a"] = argsR(Y->inits());
      if (auto *RD = X->getType()->getAsCXXRecordDecl()) {
        O["cls"] = qn(RD); json::Array F;
        for (auto *FD : RD->fields()) F.push_back(FD->getNameAsString());
        O["fields"] = std::move(F);
      }
      if (auto *CAT = Ctx.getAsConstantArrayType(X->getType())) O["n"] = (int64_t)CAT->getSize().getZExtValue();
      if (Y->hasArrayFiller()) O["filler"] = E(Y->getArrayFiller());
      return std::move(O);
    }
    if (isa<ImplicitValueInitExpr>(X) || isa<CXXScalarValueInitExpr>(X)) { O["k"] = "zero"; return std::move(O); }
    if (auto *Y = dyn_cast<CompoundAssignOperator>(X)) {
      O["k"] = "cassign"; O["op"] = Y->getOpcodeStr().str(); O["l"] = E(Y->getLHS()); O["r"] = E(Y->getRHS());
      O["ct"] = ty(Y->getComputationResultType());
      return std::move(O);
    }
    if (auto *Y = dyn_cast<BinaryOperator>(X)) {
      O["k"] = Y->getOpcode() == BO_Assign ? "assign" : "bin";
      O["op"] = Y->getOpcodeStr().str(); O["l"] = E(Y->getLHS()); O["r"] = E(Y->getRHS());
      return std::move(O);
    }
    if (auto *Y = dyn_cast<CXXRewrittenBinaryOperator>(X)) return E(Y->getSemanticForm());
    if (auto *Y = dyn_cast<UnaryOperator>(X)) {
      O["k"] = "un"; O["op"] = UnaryOperator::getOpcodeStr(Y->getOpcode()).str();
      if (Y->isPostfix()) O["post"] = true;
      O["e"] = E(Y->getSubExpr());
      return std::move(O);
    }
    if (auto *Y = dyn_cast<AbstractConditionalOperator>(X)) {
      O["k"] = "cond"; O["c"] = E(Y->getCond()); O["th"] = E(Y->getTrueExpr()); O["el"] = E(Y->getFalseExpr());
      return std::move(O);
    }
    if (auto *Y = dyn_cast<OpaqueValueExpr>(X)) return E(Y->getSourceExpr());
    if (auto *Y = dyn_cast<ArraySubscriptExpr>(X)) {
      O["k"] = "sub"; O["e"] = E(Y->getBase()); O["i"] = E(Y->getIdx()); return std::move(O);
    }
    if (auto *Y = dyn_cast<LambdaExpr>(X)) {
      O["k"] = "lambda"; O["body"] = S(Y->getBody());
      json::Array PA;
      for (auto *P : Y->getCallOperator()->parameters()) PA.push_back(varObj(P, false));
      O["params"] = std::move(PA);
      json::Array CA;
      unsigned I = 0;
      for (auto &C : Y->captures()) {
        json::Object CO;
        if (C.capturesThis()) CO["this"] = true;
        else if (C.capturesVariable()) {
          CO["id"] = id(C.getCapturedVar()); CO["name"] = C.getCapturedVar()->getNameAsString();
          CO["byref"] = C.getCaptureKind() == LCK_ByRef;
          if (auto *VD = dyn_cast<VarDecl>(C.getCapturedVar()); VD && VD->isInitCapture()) CO["init"] = E(VD->getInit());
        }
        I++;
        CA.push_back(std::move(CO));
      }
      O["caps"] = std::move(CA);
      O["key"] = fkey(Y->getCallOperator());
      if (auto *T = Y->getCallOperator()->getDescribedFunctionTemplate()) {
        // a generic lambda is called through its instantiations
        json::Array VA;
        for (auto *F : T->specializations()) {
          const FunctionDecl *Def = nullptr;
          if (!F->hasBody(Def) || !Def) continue;
          json::Object VO;
          json::Array VP;
          for (auto *P : Def->parameters()) VP.push_back(varObj(P, false));
          VO["params"] = std::move(VP); VO["key"] = fkey(F); VO["body"] = S(Def->getBody());
          VA.push_back(std::move(VO));
        }
        O["variants"] = std::move(VA);
      }
      return std::move(O);
    }
    if (auto *Y = dyn_cast<CXXThrowExpr>(X)) { O["k"] = "throw"; O["e"] = E(Y->getSubExpr()); return std::move(O); }
    if (auto *Y = dyn_cast<CXXNewExpr>(X)) { O["k"] = "new"; O["e"] = E(Y->getInitializer()); O["at"] = ty(Y->getAllocatedType()); return std::move(O); }
    if (auto *Y = dyn_cast<CXXDeleteExpr>(X)) { O["k"] = "delete"; O["e"] = E(Y->getArgument()); return std::move(O); }
    if (auto *Y = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) {
      Expr::EvalResult R;
      if (Y->EvaluateAsInt(R, Ctx)) { O["k"] = "int"; O["v"] = std::to_string(R.Val.getInt().getExtValue()); return std::move(O); }
    }
    if (isa<ArrayInitLoopExpr>(X) || true) { O["k"] = "unknown"; O["what"] = X->getStmtClassName(); }
    return std::move(O);
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->hasBody()) return true;
    if (F->isDependentContext()) return true;
    if (!inRoot(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
    if (!Seen.insert(F).second) return true;
    if (F->isImplicit()) return true;
    json::Object O;
    O["qn"] = qn(F); O["key"] = fkey(F); O["name"] = F->getNameAsString(); O["loc"] = loc(F->getLocation());
    O["ret"] = ty(F->getReturnType());
    O["defaulted"] = F->isDefaulted();
    if (F->isStatic() ) O["static"] = true;
    json::Array PA;
    for (auto *P : F->parameters()) PA.push_back(varObj(P, false));
    O["params"] = std::move(PA);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      O["cls"] = qn(M->getParent()); O["method"] = true; O["virtual"] = M->isVirtual(); O["const"] = M->isConst();
      json::Array OV;
      for (auto *B : M->overridden_methods()) OV.push_back(fkey(B));
      O["overrides"] = std::move(OV);
    }
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
      O["ctor"] = true;
      O["copyctor"] = C->isCopyConstructor();
      json::Array IA;
      for (auto *I : C->inits()) {
        json::Object IO;
        if (I->isAnyMemberInitializer()) IO["f"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) IO["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) IO["deleg"] = true;
        IO["e"] = E(I->getInit()); IO["written"] = I->isWritten();
        IA.push_back(std::move(IO));
      }
      O["inits"] = std::move(IA);
    }
    if (isa<CXXDestructorDecl>(F)) O["dtor"] = true;
    O["body"] = S(F->getBody());
    Functions.push_back(std::move(O));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || !inRoot(V->getLocation())) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!Seen.insert(V).second) return true;
    Globals.push_back(varObj(V, true));
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || !inRoot(R->getLocation()) || R->isLambda() || R->isDependentContext()) return true;
    if (!Seen.insert(R).second) return true;
    json::Object O;
    O["qn"] = qn(R); O["loc"] = loc(R->getLocation());
    json::Array B, F;
    for (auto &X : R->bases()) if (auto *D = X.getType()->getAsCXXRecordDecl()) B.push_back(qn(D));
    for (auto *X : R->fields()) {
      json::Object FO; FO["name"] = X->getNameAsString(); FO["t"] = ty(X->getType());
      if (X->hasInClassInitializer() && X->getInClassInitializer()) FO["init"] = E(X->getInClassInitializer());
      F.push_back(std::move(FO));
    }
    O["bases"] = std::move(B); O["fields"] = std::move(F);
    O["copy_trivial"] = !R->hasUserDeclaredCopyConstructor();
    O["assign_trivial"] = !R->hasUserDeclaredCopyAssignment();
    O["aggregate"] = R->isAggregate();
    Records.push_back(std::move(O));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!inRoot(D->getLocation())) return true;
    if (!Seen.insert(D).second) return true;
    json::Object O; O["qn"] = qn(D); json::Array A;
    for (auto *C : D->enumerators()) { json::Object X; X["name"] = C->getNameAsString(); X["v"] = C->getInitVal().getExtValue(); A.push_back(std::move(X)); }
    O["c"] = std::move(A);
    Enums.push_back(std::move(O));
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &Ctx) override {
    Exporter X(Ctx);
    X.TraverseDecl(Ctx.getTranslationUnitDecl());
    json::Object O;
    O["functions"] = std::move(X.Functions); O["globals"] = std::move(X.Globals);
    O["records"] = std::move(X.Records); O["enums"] = std::move(X.Enums);
    O["errors"] = Ctx.getDiagnostics().hasErrorOccurred();
    std::error_code EC;
    llvm::raw_fd_ostream OS(Out, EC);
    OS << json::Value(std::move(O));
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
} // namespace

int main(int argc, const char **argv) {
  if (argc < 5) { llvm::errs() << "usage: exporter ROOT OUT FILE -- flags\n"; return 2; }
  Root = argv[1]; Out = argv[2];
  std::string File = argv[3];
  std::vector<std::string> Flags;
  for (int I = 5; I < argc; I++) Flags.push_back(argv[I]);
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool Tool(DB, {File});
  return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
