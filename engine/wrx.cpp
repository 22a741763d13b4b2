// wrx: exports the resolved, instantiated program (clang AST) of one translation unit as compact JSON.
// Only functions, records, enums and globals whose definition lies under one of the --root prefixes are exported.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <string>
#include <vector>
#include <unordered_map>

using namespace clang;
namespace json = llvm::json;
using json::Array; using json::Object; using json::Value;

static std::vector<std::string> Roots;
static std::string OutPath;
static unsigned Errors = 0;

class Exporter : public RecursiveASTVisitor<Exporter> {
public:
  ASTContext &C; SourceManager &SM; PrintingPolicy PP;
  Array Funcs, Records, Enums, Globals, FInfo;
  std::unordered_map<const Decl *, int> FIdx;
  std::set<const Decl *> SeenF, SeenR, SeenG, SeenE;
  std::unordered_map<const Decl *, int> VarIds; int NextVar = 1;
  explicit Exporter(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true; PP.SuppressUnwrittenScope = true;
    PP.SuppressInlineNamespace = true;
    PP.TerseOutput = true; PP.SuppressDefaultTemplateArgs = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  std::string fileOf(SourceLocation L) {
    auto E = SM.getExpansionLoc(L); auto F = SM.getFilename(E); return F.str();
  }
  bool inRoots(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto E = SM.getExpansionLoc(L);
    llvm::StringRef F = SM.getFilename(E);
    llvm::SmallString<256> P(F); SM.getFileManager().makeAbsolutePath(P);
    for (auto &R : Roots) if (llvm::StringRef(P).starts_with(R)) return true;
    return false;
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string usr(const Decl *D) {
    llvm::SmallString<256> S; if (index::generateUSRForDecl(D, S)) return "?" + std::to_string((uintptr_t)D);
    return std::string(S);
  }
  int varId(const Decl *D) { D = D->getCanonicalDecl(); auto it = VarIds.find(D); if (it != VarIds.end()) return it->second; return VarIds[D] = NextVar++; }
  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream O(s); D->printQualifiedName(O, PP); return O.str();
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    T = T.getCanonicalType();
    if (T->isReferenceType()) return "&" + ty(T->getPointeeType());
    bool cst = T.isConstQualified();
    T = T.getUnqualifiedType();
    if (T->isBooleanType()) return "b1";
    if (T->isEnumeralType()) { auto *ED = T->getAs<EnumType>()->getDecl(); QualType U = ED->getIntegerType(); return "e:" + qname(ED) + ":" + (U.isNull() ? std::string("i32") : ty(U)); }
    if (T->isIntegerType()) { unsigned w = C.getTypeSize(T); return std::string(T->isUnsignedIntegerType() ? "u" : "i") + std::to_string(w); }
    if (T->isFloatingType()) return "f" + std::to_string(C.getTypeSize(T));
    if (T->isVoidType()) return "void";
    if (T->isMemberPointerType()) return "mp";
    if (T->isFunctionPointerType()) return "fp";
    if (T->isPointerType()) return std::string("*") + ty(T->getPointeeType());
    if (T->isNullPtrType()) return "null";
    if (T->isDependentType()) return "dep";
    std::string s = T.getAsString(PP);
    return std::string(cst ? "C:" : "R:") + s;
  }
  int finfo(const FunctionDecl *F) {
    const FunctionDecl *Cn = F->getCanonicalDecl();
    auto it = FIdx.find(Cn); if (it != FIdx.end()) return it->second;
    int i = FInfo.size(); FIdx[Cn] = i;
    FInfo.push_back(nullptr);
    Object O; O["q"] = qname(F); O["n"] = F->getNameAsString(); O["u"] = usr(F);
    const FunctionDecl *Def = nullptr; bool has = F->isDefined(Def);
    O["repo"] = inRoots(F->getLocation());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { O["cls"] = ty(C.getTypeDeclType(M->getParent())); O["virt"] = M->isVirtual(); O["st"] = M->isStatic(); O["const"] = M->isConst(); }
    O["ret"] = ty(F->getReturnType()); O["np"] = (int64_t)F->getNumParams();
    Array P; for (auto *p : F->parameters()) P.push_back(ty(p->getType())); O["pt"] = std::move(P);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      std::string s; llvm::raw_string_ostream OS(s); printTemplateArgumentList(OS, TA->asArray(), PP); O["ta"] = OS.str();
    }
    O["file"] = fileOf(F->getLocation()); O["line"] = line(F->getLocation());
    (void)has;
    FInfo[i] = std::move(O);
    return i;
  }
  // ---------------------------------------------------------------- expressions
  Value strLit(const StringLiteral *S) {
    Array A; for (unsigned i = 0; i < S->getLength(); ++i) A.push_back((int64_t)S->getCodeUnit(i));
    return Object{{"k", "Str"}, {"v", std::move(A)}, {"w", (int64_t)S->getCharByteWidth()}};
  }
  static bool intVal(const Expr *E, ASTContext &C, int64_t &v) {
    if (E->isValueDependent() || E->isTypeDependent()) return false;
    QualType T = E->getType();
    if (!T->isIntegralOrEnumerationType()) return false;
    Expr::EvalResult R;
    if (E->isGLValue()) return false;
    if (!E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) return false;
    auto I = R.Val.getInt(); v = I.isUnsigned() ? (int64_t)I.getZExtValue() : I.getSExtValue();
    if (I.getBitWidth() > 64) return false;
    return true;
  }
  Value exprs(llvm::ArrayRef<const Expr *> A) { Array R; for (auto *e : A) R.push_back(ex(e)); return R; }
  const NamedDecl *enumName(const Expr *E) {
    E = E->IgnoreParenImpCasts();
    if (auto *D = dyn_cast<DeclRefExpr>(E)) if (isa<EnumConstantDecl>(D->getDecl())) return D->getDecl();
    return nullptr;
  }
  // the base of a subscript stays the array itself
  Value subBase(const Expr *E) {
    if (auto *I = dyn_cast<ImplicitCastExpr>(E->IgnoreParens())) if (I->getCastKind() == CK_ArrayToPointerDecay) return ex(I->getSubExpr());
    return ex(E);
  }

  Value ex(const Expr *E) {
    if (!E) return nullptr;
    if (auto *X = dyn_cast<ParenExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) return ex(X->getExpr());
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) return ex(X->getExpr());
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return ex(X->getSubExpr());
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return ex(X->getSemanticForm());
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) return ex(X->getSourceExpr());
    int64_t v;
    if (intVal(E, C, v)) {
      Object O{{"k", "Int"}, {"v", v}, {"t", ty(E->getType())}};
      if (auto *N = enumName(E)) O["en"] = N->getNameAsString();
      return O;
    }
    int L = line(E->getExprLoc());
    if (auto *X = dyn_cast<StringLiteral>(E)) return strLit(X);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) return Object{{"k", "Fn"}, {"f", finfo(F)}};
      if (auto *B = dyn_cast<BindingDecl>(D)) return Object{{"k", "Ref"}, {"id", varId(B)}, {"n", B->getNameAsString()}, {"dk", "bind"}, {"t", ty(E->getType())}};
      if (auto *V = dyn_cast<VarDecl>(D)) {
        Object O{{"k", "Ref"}, {"id", varId(V)}, {"n", V->getNameAsString()}, {"dk", isa<ParmVarDecl>(V) ? "parm" : "var"}, {"t", ty(E->getType())}, {"l", L}};
        if (V->hasGlobalStorage()) { O["g"] = qname(V); noteGlobal(V); }
        return O;
      }
      return Object{{"k", "Ref"}, {"id", varId(D)}, {"n", D->getNameAsString()}, {"dk", "other"}, {"t", ty(E->getType())}};
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) return Object{{"k", "MFn"}, {"f", finfo(F)}, {"b", ex(X->getBase())}};
      if (auto *V = dyn_cast<VarDecl>(D)) { noteGlobal(V); return Object{{"k", "Ref"}, {"id", varId(V)}, {"n", V->getNameAsString()}, {"dk", "var"}, {"g", qname(V)}, {"t", ty(E->getType())}}; }
      std::string cls; if (auto *FD = dyn_cast<FieldDecl>(D)) cls = ty(C.getTypeDeclType(FD->getParent()));
      return Object{{"k", "Mem"}, {"b", ex(X->getBase())}, {"n", D->getNameAsString()}, {"c", cls}, {"ar", X->isArrow()}, {"t", ty(E->getType())}, {"l", L}};
    }
    if (isa<CXXThisExpr>(E)) return Object{{"k", "This"}, {"t", ty(E->getType())}};
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto *F = dyn_cast_or_null<FunctionDecl>(X->getCalleeDecl());
      Array A; const Expr *obj = nullptr; unsigned s = 0;
      bool meth = F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
      if (meth) { obj = X->getArg(0); s = 1; }
      for (unsigned i = s; i < X->getNumArgs(); ++i) A.push_back(ex(X->getArg(i)));
      return Object{{"k", "Call"}, {"f", F ? Value(finfo(F)) : Value(nullptr)}, {"o", ex(obj)}, {"a", std::move(A)}, {"op", getOperatorSpelling(X->getOperator())}, {"t", ty(E->getType())}, {"l", L}};
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *M = X->getMethodDecl();
      if (!M) return Object{{"k", "CallX"}, {"c", ex(X->getCallee())}, {"a", exprs(llvm::ArrayRef(X->getArgs(), X->getNumArgs()))}, {"t", ty(E->getType())}, {"l", L}};
      Array A; for (auto *a : X->arguments()) A.push_back(ex(a));
      bool qual = false; if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) qual = ME->hasQualifier();
      return Object{{"k", "Call"}, {"f", finfo(M)}, {"o", ex(X->getImplicitObjectArgument())}, {"a", std::move(A)}, {"t", ty(E->getType())}, {"l", L}, {"qual", qual}};
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      auto *F = X->getDirectCallee();
      Array A; for (auto *a : X->arguments()) A.push_back(ex(a));
      if (!F) return Object{{"k", "CallX"}, {"c", ex(X->getCallee())}, {"a", std::move(A)}, {"t", ty(E->getType())}, {"l", L}};
      return Object{{"k", "Call"}, {"f", finfo(F)}, {"o", nullptr}, {"a", std::move(A)}, {"t", ty(E->getType())}, {"l", L}};
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) return Object{{"k", "Ctor"}, {"f", finfo(X->getConstructor())}, {"a", Array{}}, {"t", ty(E->getType())}, {"l", L}};
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      Array A; for (auto *a : X->arguments()) A.push_back(ex(a));
      auto *K = X->getConstructor();
      bool cp = K->isCopyOrMoveConstructor();
      return Object{{"k", "Ctor"}, {"f", finfo(K)}, {"a", std::move(A)}, {"t", ty(E->getType())}, {"cp", cp}, {"l", L}, {"li", X->isStdInitListInitialization()}};
    }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) return Object{{"k", "Zero"}, {"t", ty(E->getType())}};
    if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) return Object{{"k", "Zero"}, {"t", ty(E->getType())}};
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      bool all = X->getNumInits() > 0; Array V;
      for (unsigned i = 0; i < X->getNumInits() && all; ++i) { int64_t n; if (X->getInit(i) && intVal(X->getInit(i), C, n)) V.push_back(n); else all = false; }
      if (all) return Object{{"k", "Ints"}, {"v", std::move(V)}, {"t", ty(E->getType())}, {"l", L}};
      Array A; for (unsigned i = 0; i < X->getNumInits(); ++i) A.push_back(ex(X->getInit(i)));
      Object O{{"k", "Init"}, {"a", std::move(A)}, {"t", ty(E->getType())}, {"l", L}};
      if (X->hasArrayFiller()) O["fill"] = true;
      return O;
    }
    if (auto *X = dyn_cast<CXXParenListInitExpr>(E)) { Array A; for (auto *e : const_cast<CXXParenListInitExpr*>(X)->getInitExprs()) A.push_back(ex(e)); return Object{{"k", "Init"}, {"a", std::move(A)}, {"t", ty(E->getType())}}; }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      auto K = X->getCastKind(); const Expr *S = X->getSubExpr();
      switch (K) {
      case CK_IntegralCast: case CK_IntegralToBoolean: case CK_PointerToBoolean: case CK_IntegralToFloating: case CK_FloatingToIntegral:
      case CK_FloatingCast: case CK_MemberPointerToBoolean: case CK_FloatingToBoolean: case CK_BooleanToSignedIntegral: {
        Object O{{"k", "Cast"}, {"ck", X->getCastKindName()}, {"t", ty(E->getType())}, {"e", ex(S)}};
        return O; }
      case CK_NullToPointer: case CK_NullToMemberPointer: return Object{{"k", "Null"}, {"t", ty(E->getType())}};
      case CK_ConstructorConversion: case CK_UserDefinedConversion: return ex(S);
      case CK_DerivedToBase: case CK_UncheckedDerivedToBase: case CK_BaseToDerived: case CK_Dynamic: return Object{{"k", "Up"}, {"t", ty(E->getType())}, {"e", ex(S)}};
      case CK_ToVoid: return ex(S);
      case CK_LValueToRValue: return Object{{"k","Ld"},{"e",ex(S)},{"t",ty(E->getType())}};
      case CK_ArrayToPointerDecay: if (isa<StringLiteral>(S->IgnoreParens())) return ex(S); return Object{{"k", "Decay"}, {"t", ty(E->getType())}, {"e", ex(S)}};
      default: return ex(S);
      }
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      return Object{{"k", "Un"}, {"op", UnaryOperator::getOpcodeStr(X->getOpcode())}, {"post", X->isPostfix()}, {"e", ex(X->getSubExpr())}, {"t", ty(E->getType())}, {"l", L}};
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      Object O{{"k", X->isAssignmentOp() ? "Asg" : "Bin"}, {"op", X->getOpcodeStr()}, {"a", ex(X->getLHS())}, {"b", ex(X->getRHS())}, {"t", ty(E->getType())}, {"l", L}};
      if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) O["ct"] = ty(CA->getComputationResultType());
      return O;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) return Object{{"k", "Cond"}, {"c", ex(X->getCond())}, {"a", ex(X->getTrueExpr())}, {"b", ex(X->getFalseExpr())}, {"t", ty(E->getType())}, {"l", L}};
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) return Object{{"k", "Sub"}, {"a", subBase(X->getBase())}, {"b", ex(X->getIdx())}, {"t", ty(E->getType())}, {"l", L}};
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      Array Caps; for (auto it = X->capture_begin(); it != X->capture_end(); ++it) {
        if (it->capturesVariable()) Caps.push_back(Object{{"id", varId(it->getCapturedVar())}, {"n", it->getCapturedVar()->getNameAsString()}, {"ref", it->getCaptureKind() == LCK_ByRef}});
        else if (it->capturesThis()) Caps.push_back(Object{{"this", true}});
      }
      emitFunction(X->getCallOperator());
      return Object{{"k", "Lambda"}, {"f", finfo(X->getCallOperator())}, {"caps", std::move(Caps)}, {"t", ty(E->getType())}, {"l", L}};
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) return Object{{"k", "Throw"}, {"e", ex(X->getSubExpr())}, {"l", L}};
    if (auto *X = dyn_cast<CXXNewExpr>(E)) return Object{{"k", "New"}, {"e", ex(X->getInitializer())}, {"t", ty(E->getType())}, {"l", L}};
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) return Object{{"k", "Delete"}, {"e", ex(X->getArgument())}, {"l", L}};
    if (isa<CXXNullPtrLiteralExpr>(E)) return Object{{"k", "Null"}, {"t", ty(E->getType())}};
    if (auto *X = dyn_cast<FloatingLiteral>(E)) return Object{{"k", "Flt"}, {"v", X->getValueAsApproximateDouble()}};
    if (auto *X = dyn_cast<PredefinedExpr>(E)) return Object{{"k", "Str"}, {"v", Array{}}, {"w", 1}};
    return Object{{"k", "Unk"}, {"c", E->getStmtClassName()}, {"t", ty(E->getType())}, {"l", L}};
  }
  // ---------------------------------------------------------------- statements
  Value varDecl(const VarDecl *V) {
    Object O{{"id", varId(V)}, {"n", V->getNameAsString()}, {"t", ty(V->getType())}};
    if (V->hasGlobalStorage()) { O["g"] = qname(V); O["static"] = true; }
    if (V->getInit()) O["init"] = ex(V->getInit());
    if (auto *D = dyn_cast<DecompositionDecl>(V)) {
      Array B; int i = 0; for (auto *b : D->bindings()) { B.push_back(Object{{"id", varId(b)}, {"n", b->getNameAsString()}, {"i", i++}, {"t", ty(b->getType())}}); }
      O["binds"] = std::move(B);
    }
    return O;
  }
  void flattenSwitch(const Stmt *S, Array &Out) {
    if (!S) return;
    if (auto *CS = dyn_cast<CaseStmt>(S)) {
      int64_t lo = 0, hi = 0; intVal(CS->getLHS(), C, lo); hi = lo; if (CS->getRHS()) intVal(CS->getRHS(), C, hi);
      Object O{{"k", "Case"}, {"lo", lo}, {"hi", hi}, {"l", line(CS->getBeginLoc())}};
      if (auto *N = enumName(CS->getLHS())) O["en"] = N->getNameAsString();
      Out.push_back(std::move(O)); flattenSwitch(CS->getSubStmt(), Out); return;
    }
    if (auto *DS = dyn_cast<DefaultStmt>(S)) { Out.push_back(Object{{"k", "Default"}, {"l", line(DS->getBeginLoc())}}); flattenSwitch(DS->getSubStmt(), Out); return; }
    Out.push_back(st(S));
  }
  Value st(const Stmt *S) {
    if (!S) return nullptr;
    int L = line(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) return Object{{"k", "Ex"}, {"e", ex(E)}, {"l", L}};
    if (auto *X = dyn_cast<CompoundStmt>(S)) { Array A; for (auto *s : X->body()) A.push_back(st(s)); return Object{{"k", "Block"}, {"s", std::move(A)}}; }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      Array A; for (auto *d : X->decls()) { if (auto *V = dyn_cast<VarDecl>(d)) A.push_back(varDecl(V)); }
      return Object{{"k", "Decl"}, {"vars", std::move(A)}, {"l", L}};
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->isConstexpr()) {
        Expr::EvalResult R;
        if (X->getCond() && !X->getCond()->isValueDependent()) {
          bool b; if (X->getCond()->EvaluateAsBooleanCondition(b, C)) {
            Array A; if (X->getInit()) A.push_back(st(X->getInit()));
            Value br = st(b ? X->getThen() : X->getElse()); if (br != nullptr) A.push_back(std::move(br));
            return Object{{"k", "Block"}, {"s", std::move(A)}, {"cx", true}};
          }
        }
      }
      Object O{{"k", "If"}, {"c", ex(X->getCond())}, {"t", st(X->getThen())}, {"e", st(X->getElse())}, {"l", L}};
      if (X->getInit()) O["init"] = st(X->getInit());
      if (X->getConditionVariable()) O["var"] = varDecl(X->getConditionVariable());
      return O;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { Object O{{"k", "While"}, {"c", ex(X->getCond())}, {"b", st(X->getBody())}, {"l", L}}; if (X->getConditionVariable()) O["var"] = varDecl(X->getConditionVariable()); return O; }
    if (auto *X = dyn_cast<DoStmt>(S)) return Object{{"k", "Do"}, {"c", ex(X->getCond())}, {"b", st(X->getBody())}, {"l", L}};
    if (auto *X = dyn_cast<ForStmt>(S)) return Object{{"k", "For"}, {"init", st(X->getInit())}, {"c", ex(X->getCond())}, {"inc", ex(X->getInc())}, {"b", st(X->getBody())}, {"l", L}};
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      // a range whose begin() is the library's own function: the loop the standard defines it to mean
      auto own = [&](DeclStmt const *D) -> bool {
        if (!D || !D->isSingleDecl()) return false;
        auto *V = dyn_cast<VarDecl>(D->getSingleDecl());
        if (!V || !V->getInit()) return false;
        auto *K = dyn_cast<CallExpr>(V->getInit()->IgnoreImplicit());
        auto *F = K ? K->getDirectCallee() : nullptr;
        return F && F->getQualifiedNameAsString().rfind("wordring::", 0) == 0;
      };
      if (own(X->getBeginStmt()) && own(X->getEndStmt()) && X->getCond() && X->getInc()) {
        Array A;
        if (X->getInit()) A.push_back(st(X->getInit()));
        A.push_back(st(X->getRangeStmt())); A.push_back(st(X->getBeginStmt())); A.push_back(st(X->getEndStmt()));
        Array B; B.push_back(st(X->getLoopVarStmt())); B.push_back(st(X->getBody()));
        A.push_back(Object{{"k", "For"}, {"init", nullptr}, {"c", ex(X->getCond())}, {"inc", ex(X->getInc())}, {"b", Object{{"k", "Block"}, {"s", std::move(B)}}}, {"l", L}});
        return Object{{"k", "Block"}, {"s", std::move(A)}};
      }
      return Object{{"k", "RFor"}, {"var", varDecl(X->getLoopVariable())}, {"r", ex(X->getRangeInit())}, {"b", st(X->getBody())}, {"l", L}};
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      Array A; if (auto *B = dyn_cast<CompoundStmt>(X->getBody())) for (auto *s : B->body()) flattenSwitch(s, A); else flattenSwitch(X->getBody(), A);
      Object O{{"k", "Switch"}, {"c", ex(X->getCond())}, {"s", std::move(A)}, {"l", L}};
      if (X->getInit()) O["init"] = st(X->getInit());
      return O;
    }
    if (isa<BreakStmt>(S)) return Object{{"k", "Break"}, {"l", L}};
    if (isa<ContinueStmt>(S)) return Object{{"k", "Cont"}, {"l", L}};
    if (auto *X = dyn_cast<ReturnStmt>(S)) return Object{{"k", "Ret"}, {"e", ex(X->getRetValue())}, {"l", L}};
    if (isa<NullStmt>(S)) return Object{{"k", "Block"}, {"s", Array{}}};
    if (auto *X = dyn_cast<AttributedStmt>(S)) return st(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return Object{{"k", "Label"}, {"n", X->getName()}, {"s", st(X->getSubStmt())}};
    if (auto *X = dyn_cast<GotoStmt>(S)) return Object{{"k", "Goto"}, {"n", X->getLabel()->getNameAsString()}, {"l", L}};
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      Array H; for (unsigned i = 0; i < X->getNumHandlers(); ++i) H.push_back(st(X->getHandler(i)->getHandlerBlock()));
      return Object{{"k", "Try"}, {"b", st(X->getTryBlock())}, {"h", std::move(H)}, {"l", L}};
    }
    return Object{{"k", "UnkS"}, {"c", S->getStmtClassName()}, {"l", L}};
  }
  // ---------------------------------------------------------------- declarations
  void noteGlobal(const VarDecl *V) {
    const VarDecl *Def = nullptr; const Expr *I = V->getAnyInitializer(Def);
    const Decl *Key = V->getCanonicalDecl();
    if (SeenG.count(Key)) return;
    if (!inRoots(V->getLocation())) return;
    if (V->getDeclContext()->isDependentContext()) return;
    if (!I || I->isValueDependent()) return;
    SeenG.insert(Key);
    Object O{{"id", varId(V)}, {"q", qname(V)}, {"t", ty(V->getType())}, {"file", fileOf(V->getLocation())}, {"line", line(V->getLocation())}};
    O["init"] = ex(I);
    Globals.push_back(std::move(O));
  }
  void emitFunction(const FunctionDecl *F) {
    const FunctionDecl *Def = nullptr;
    if (!F->isDefined(Def)) return; F = Def;
    if (F->isDependentContext()) return;
    if (F->isDeleted()) return;
    const Decl *Key = F->getCanonicalDecl();
    if (SeenF.count(Key)) return;
    if (!inRoots(F->getLocation())) return;
    SeenF.insert(Key);
    if (!F->hasBody() && !F->isDefaulted()) return;
    Object O; O["f"] = finfo(F);
    Array P; for (auto *p : F->parameters()) P.push_back(Object{{"id", varId(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}});
    O["params"] = std::move(P);
    O["file"] = fileOf(F->getLocation()); O["line"] = line(F->getBeginLoc()); O["end"] = line(F->getEndLoc());
    if (F->isDefaulted()) O["defaulted"] = true;
    if (F->isImplicit()) O["implicit"] = true;
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      Array I;
      for (auto *in : K->inits()) {
        Object o; if (in->isMemberInitializer() || in->isIndirectMemberInitializer()) o["n"] = in->getAnyMember()->getNameAsString();
        else if (in->isBaseInitializer()) o["base"] = ty(QualType(in->getBaseClass(), 0)); else o["deleg"] = true;
        o["e"] = ex(in->getInit()); o["w"] = in->isWritten(); I.push_back(std::move(o));
      }
      O["inits"] = std::move(I);
      O["ctor"] = true; O["cp"] = K->isCopyOrMoveConstructor();
    }
    if (F->hasBody()) O["body"] = st(F->getBody());
    Funcs.push_back(std::move(O));
  }
  bool VisitFunctionDecl(FunctionDecl *F) { if (F->isThisDeclarationADefinition()) emitFunction(F); return true; }
  bool VisitVarDecl(VarDecl *V) { if (V->hasGlobalStorage() && !V->isStaticLocal()) noteGlobal(V); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || !inRoots(R->getLocation())) return true;
    if (!SeenR.insert(R->getCanonicalDecl()).second) return true;
    Array F; for (auto *f : R->fields()) F.push_back(Object{{"n", f->getNameAsString()}, {"t", ty(f->getType())}, {"l", line(f->getLocation())}, {"hasinit", f->hasInClassInitializer()}, {"mutable", f->isMutable()}});
    Array B; for (auto &b : R->bases()) B.push_back(ty(b.getType()));
    Records.push_back(Object{{"q", qname(R)}, {"t", ty(C.getTypeDeclType(R))}, {"fields", std::move(F)}, {"bases", std::move(B)}, {"file", fileOf(R->getLocation())}, {"line", line(R->getLocation())}});
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext() || !inRoots(E->getLocation())) return true;
    if (!SeenE.insert(E->getCanonicalDecl()).second) return true;
    Array A; for (auto *c : E->enumerators()) A.push_back(Array{c->getNameAsString(), c->getInitVal().isUnsigned() ? (int64_t)c->getInitVal().getZExtValue() : c->getInitVal().getSExtValue()});
    Enums.push_back(Object{{"q", qname(E)}, {"c", std::move(A)}, {"file", fileOf(E->getLocation())}, {"line", line(E->getLocation())}});
    return true;
  }
};

class Cons : public ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { Errors++; return; }
    Exporter X(C); X.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code EC; llvm::raw_fd_ostream OS(OutPath, EC);
    OS << Value(Object{{"funcs", std::move(X.Funcs)}, {"finfo", std::move(X.FInfo)}, {"records", std::move(X.Records)}, {"enums", std::move(X.Enums)}, {"globals", std::move(X.Globals)}});
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(); }
};

int main(int argc, char **argv) {
  // wrx --out=F --root=P ... SRC -- flags
  std::string Src; std::vector<std::string> Flags; bool fl = false;
  for (int i = 1; i < argc; ++i) {
    llvm::StringRef a = argv[i];
    if (fl) Flags.push_back(a.str());
    else if (a == "--") fl = true;
    else if (a.consume_front("--out=")) OutPath = a.str();
    else if (a.consume_front("--root=")) Roots.push_back(a.str());
    else Src = a.str();
  }
  tooling::FixedCompilationDatabase DB(".", Flags);
  tooling::ClangTool T(DB, {Src});
  int r = T.run(tooling::newFrontendActionFactory<Act>().get());
  return (r || Errors) ? 1 : 0;
}
