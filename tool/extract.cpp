// astdump: emits, as JSON, the type-checked bodies of every function defined below a given root directory.
// Usage: astdump ROOT OUT.json SOURCE -- <compiler flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
using llvm::json::OStream;

static std::string Root, OutFile;

struct Emitter {
  ASTContext& C;
  OStream& J;
  const SourceManager& SM;
  PrintingPolicy PP;
  std::map<const VarDecl*, int> Vars;
  std::vector<const LambdaExpr*> Lambdas;
  Emitter(ASTContext& c, OStream& j) : C(c), J(j), SM(c.getSourceManager()), PP(c.getPrintingPolicy())
  {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.Bool = true;
    PP.AnonymousTagLocations = false;
  }
  std::string ty(QualType T) { return T.getCanonicalType().getAsString(PP); }
  static std::string qn(const NamedDecl* D)
  {
    std::vector<std::string> parts;
    parts.push_back(nm(D));
    for (const DeclContext* X = D->getDeclContext(); X && !X->isTranslationUnit(); X = X->getParent()) {
      if (auto* N = dyn_cast<NamespaceDecl>(X)) {
        if (N->isInline()) continue;
        if (N->isAnonymousNamespace()) { parts.push_back("(anon)"); continue; }
        parts.push_back(N->getNameAsString());
      } else if (auto* N = dyn_cast<FunctionDecl>(X)) {
        parts.push_back(nm(N));
      } else if (auto* N = dyn_cast<RecordDecl>(X)) {
        parts.push_back(nm(N));
      } else if (auto* N = dyn_cast<EnumDecl>(X)) {
        parts.push_back(N->getNameAsString());
      }
    }
    std::string r;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!r.empty()) r += "::"; r += *it; }
    return r;
  }
  static std::string nm(const NamedDecl* D)
  {
    if (auto* R = dyn_cast<CXXRecordDecl>(D)) {
      if (R->isLambda()) return "(lambda)";
      return R->getNameAsString();
    }
    if (auto* Ct = dyn_cast<CXXConstructorDecl>(D)) return nm(Ct->getParent());
    if (auto* Dt = dyn_cast<CXXDestructorDecl>(D)) return "~" + nm(Dt->getParent());
    if (isa<CXXConversionDecl>(D)) return "operator(conv)";
    return D->getNameAsString();
  }
  std::string usr(const Decl* D)
  {
    llvm::SmallString<256> B;
    if (index::generateUSRForDecl(D, B)) return "";
    return std::string(B.str());
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  std::string file(SourceLocation L)
  {
    auto F = SM.getFilename(SM.getExpansionLoc(L));
    return F.str();
  }
  int var(const VarDecl* V)
  {
    V = V->getCanonicalDecl();
    auto it = Vars.find(V);
    if (it != Vars.end()) return it->second;
    int n = Vars.size() + 1;
    Vars[V] = n;
    return n;
  }
  std::string macroOf(SourceLocation L)
  {
    std::string r;
    while (L.isMacroID()) {
      r = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
      if (r == "UMPIRE_LOG") return r;
      L = SM.getImmediateMacroCallerLoc(L);
    }
    return r;
  }
  void kv(const char* k, const std::string& v) { J.attribute(k, v); }

  void fnref(const FunctionDecl* F)
  {
    kv("fn", qn(F));
    const FunctionDecl* Def = F;
    if (auto* P = F->getTemplateInstantiationPattern(); P && F->isDefined()) Def = F;
    kv("key", usr(Def->getCanonicalDecl()));
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) J.attribute("virt", true);
      if (M->isStatic()) J.attribute("static", true);
      if (M->isConst()) J.attribute("const", true);
    }
    if (auto* FPT = F->getType()->getAs<FunctionProtoType>()) {
      auto ES = FPT->getExceptionSpecType();
      if (ES != EST_Unevaluated && ES != EST_Uninstantiated && FPT->isNothrow()) J.attribute("nothrow", true);
    }
    J.attributeArray("pt", [&] { for (auto* P : F->parameters()) J.value(ty(P->getType())); });
  }

  // what a structured binding stands for: a member of the bound object, or std::get<i> of it
  static const Expr* bound(const Expr* E)
  {
    auto* X = dyn_cast<DeclRefExpr>(E);
    auto* B = X ? dyn_cast<BindingDecl>(X->getDecl()) : nullptr;
    if (!B) return nullptr;
    return B->getHoldingVar() ? B->getHoldingVar()->getInit() : B->getBinding();
  }

  void expr(const Expr* E)
  {
    if (!E) { J.value(nullptr); return; }
    // Strip nodes without meaning of their own.
    for (;;) {
      if (auto* X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto* X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto* X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (const Expr* what = bound(E)) E = what;
      else if (auto* X = dyn_cast<UnaryOperator>(E); X && (X->getOpcode() == UO_Extension || X->getOpcode() == UO_Plus)) E = X->getSubExpr();
      else if (auto* X = dyn_cast<CastExpr>(E)) {
        auto K = X->getCastKind();
        if (K == CK_LValueToRValue || K == CK_NoOp || K == CK_FunctionToPointerDecay || K == CK_ArrayToPointerDecay ||
            K == CK_UserDefinedConversion || K == CK_ConstructorConversion || K == CK_BuiltinFnToFnPtr ||
            K == CK_UncheckedDerivedToBase || K == CK_DerivedToBase || K == CK_AtomicToNonAtomic || K == CK_NonAtomicToAtomic)
          E = X->getSubExpr();
        else break;
      } else if (auto* X = dyn_cast<CXXConstructExpr>(E); X && X->isElidable() && X->getNumArgs() == 1) E = X->getArg(0);
      else break;
    }
    J.objectBegin();
    exprBody(E);
    J.objectEnd();
  }
  void args(const char* name, llvm::ArrayRef<const Expr*> A)
  {
    J.attributeArray(name, [&] { for (auto* X : A) expr(X); });
  }
  void exprBody(const Expr* E)
  {
    J.attribute("l", line(E->getExprLoc()));
    kv("t", ty(E->getType()));
    if (E->isGLValue()) J.attribute("lv", true);
    if (auto* X = dyn_cast<IntegerLiteral>(E)) {
      kv("k", "int"); kv("v", llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerType()));
    } else if (auto* X = dyn_cast<CharacterLiteral>(E)) {
      kv("k", "int"); kv("v", std::to_string(X->getValue()));
    } else if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      kv("k", "bool"); J.attribute("v", X->getValue());
    } else if (auto* X = dyn_cast<FloatingLiteral>(E)) {
      kv("k", "float"); J.attribute("v", X->getValueAsApproximateDouble());
    } else if (auto* X = dyn_cast<StringLiteral>(E)) {
      kv("k", "str"); kv("v", X->isOrdinary() ? X->getString().str() : "?");
    } else if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      kv("k", "null");
    } else if (isa<PredefinedExpr>(E)) {
      kv("k", "str"); kv("v", "__func__");
    } else if (isa<CXXThisExpr>(E)) {
      kv("k", "this");
    } else if (auto* X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl* D = X->getDecl();
      if (auto* V = dyn_cast<VarDecl>(D)) {
        if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
          kv("k", "var"); J.attribute("id", var(V)); kv("n", V->getNameAsString());
          if (V->getType()->isReferenceType()) J.attribute("ref", true);
        } else {
          kv("k", "gvar"); kv("n", qn(V));
          if (V->isStaticLocal()) J.attribute("slocal", true);
        }
        constval(E);
      } else if (auto* Ec = dyn_cast<EnumConstantDecl>(D)) {
        kv("k", "enum"); kv("n", qn(Ec)); kv("v", llvm::toString(Ec->getInitVal(), 10));
      } else if (auto* F = dyn_cast<FunctionDecl>(D)) {
        kv("k", "fnref"); fnref(F);
      } else if (auto* B = dyn_cast<BindingDecl>(D)) {
        kv("k", "binding"); kv("n", B->getNameAsString());
      } else { kv("k", "other"); kv("c", "DeclRef"); }
    } else if (auto* X = dyn_cast<MemberExpr>(E)) {
      if (auto* F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        kv("k", "mem"); kv("f", qn(F)); kv("n", F->getNameAsString()); J.attribute("arrow", X->isArrow());
        if (F->getType()->isReferenceType()) J.attribute("ref", true);
        J.attributeBegin("b"); expr(X->getBase()); J.attributeEnd();
      } else if (auto* V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        kv("k", "gvar"); kv("n", qn(V)); constval(E);
      } else if (auto* F = dyn_cast<FunctionDecl>(X->getMemberDecl())) {
        kv("k", "fnref"); fnref(F); J.attributeBegin("b"); expr(X->getBase()); J.attributeEnd();
      } else { kv("k", "other"); kv("c", "Member"); }
    } else if (auto* X = dyn_cast<CXXMemberCallExpr>(E)) {
      kv("k", "call");
      const Expr* cal = X->getCallee()->IgnoreParens();
      bool qual = false;
      if (auto* ME = dyn_cast<MemberExpr>(cal)) qual = ME->hasQualifier();
      if (auto* F = X->getMethodDecl()) { fnref(F); if (qual) J.attribute("nonvirt", true); }
      J.attributeBegin("obj"); expr(X->getImplicitObjectArgument()); J.attributeEnd();
      kv("ot", ty(X->getImplicitObjectArgument()->getType()));
      args("a", llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
    } else if (auto* X = dyn_cast<CXXOperatorCallExpr>(E)) {
      kv("k", "call"); kv("op", getOperatorSpelling(X->getOperator()));
      if (auto* F = X->getDirectCallee()) {
        fnref(F);
        if (isa<CXXMethodDecl>(F)) {
          J.attributeBegin("obj"); expr(X->getArg(0)); J.attributeEnd();
          args("a", llvm::ArrayRef<const Expr*>(X->getArgs() + 1, X->getNumArgs() - 1));
        } else args("a", llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
      } else {
        args("a", llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
      }
    } else if (auto* X = dyn_cast<CallExpr>(E)) {
      kv("k", "call");
      if (auto* F = X->getDirectCallee()) {
        fnref(F);
        if (F->getTemplateSpecializationArgs()) {
          J.attributeArray("ta", [&] {
            for (auto& A : F->getTemplateSpecializationArgs()->asArray())
              if (A.getKind() == TemplateArgument::Type) J.value(ty(A.getAsType()));
              else if (A.getKind() == TemplateArgument::Integral) J.value(llvm::toString(A.getAsIntegral(), 10));
          });
        }
      }
      else { J.attributeBegin("callee"); expr(X->getCallee()); J.attributeEnd(); }
      args("a", llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
    } else if (auto* X = dyn_cast<CXXConstructExpr>(E)) {
      kv("k", "ctor"); fnref(X->getConstructor()); kv("cls", qn(X->getConstructor()->getParent()));
      if (X->getConstructor()->isCopyOrMoveConstructor()) J.attribute("copy", true);
      args("a", llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
    } else if (auto* X = dyn_cast<CXXNewExpr>(E)) {
      kv("k", "new"); kv("nt", ty(X->getAllocatedType()));
      J.attributeArray("place", [&] { for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i) expr(X->getPlacementArg(i)); });
      if (X->isArray()) { J.attributeBegin("n"); expr(X->getArraySize().value_or(nullptr)); J.attributeEnd(); }
      J.attributeBegin("init"); expr(X->getInitializer()); J.attributeEnd();
    } else if (auto* X = dyn_cast<CXXDeleteExpr>(E)) {
      kv("k", "delete"); J.attribute("arr", X->isArrayForm()); J.attributeBegin("e"); expr(X->getArgument()); J.attributeEnd();
    } else if (auto* X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      kv("k", "sizeof"); kv("of", ty(X->getTypeOfArgument())); constval(E);
    } else if (auto* X = dyn_cast<UnaryOperator>(E)) {
      kv("k", "un"); kv("o", UnaryOperator::getOpcodeStr(X->getOpcode()).str()); J.attribute("post", X->isPostfix());
      J.attributeBegin("e"); expr(X->getSubExpr()); J.attributeEnd();
    } else if (auto* X = dyn_cast<BinaryOperator>(E)) {
      kv("k", "bin"); kv("o", X->getOpcodeStr().str());
      if (auto* CA = dyn_cast<CompoundAssignOperator>(X)) kv("ct", ty(CA->getComputationResultType()));
      J.attributeBegin("a"); expr(X->getLHS()); J.attributeEnd();
      J.attributeBegin("b"); expr(X->getRHS()); J.attributeEnd();
    } else if (auto* X = dyn_cast<ConditionalOperator>(E)) {
      kv("k", "cond");
      J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
      J.attributeBegin("a"); expr(X->getTrueExpr()); J.attributeEnd();
      J.attributeBegin("b"); expr(X->getFalseExpr()); J.attributeEnd();
    } else if (auto* X = dyn_cast<ArraySubscriptExpr>(E)) {
      kv("k", "idx");
      J.attributeBegin("a"); expr(X->getBase()); J.attributeEnd();
      J.attributeBegin("i"); expr(X->getIdx()); J.attributeEnd();
    } else if (auto* X = dyn_cast<InitListExpr>(E)) {
      kv("k", "list");
      J.attributeArray("a", [&] { for (auto* I : X->inits()) expr(I); });
      if (auto* RT = X->getType()->getAsCXXRecordDecl()) {
        kv("cls", qn(RT));
        J.attributeArray("fl", [&] { for (auto* F : RT->fields()) J.value(qn(F)); });
      }
    } else if (auto* X = dyn_cast<CastExpr>(E)) {
      kv("k", "cast"); kv("ck", X->getCastKindName()); kv("ft", ty(X->getSubExpr()->getType()));
      J.attributeBegin("e"); expr(X->getSubExpr()); J.attributeEnd();
    } else if (auto* X = dyn_cast<CXXThrowExpr>(E)) {
      kv("k", "throw"); J.attributeBegin("e"); expr(X->getSubExpr()); J.attributeEnd();
      if (X->getSubExpr()) kv("tt", ty(X->getSubExpr()->getType()));
    } else if (auto* X = dyn_cast<LambdaExpr>(E)) {
      kv("k", "lambda"); kv("key", usr(X->getCallOperator()->getCanonicalDecl()));
      J.attribute("lid", (int64_t)line(X->getBeginLoc()));
      J.attributeArray("caps", [&] {
        auto it = X->capture_init_begin();
        for (auto& cp : X->captures()) {
          J.objectBegin();
          if (cp.capturesVariable()) { if (auto* V = dyn_cast<VarDecl>(cp.getCapturedVar())) { J.attribute("id", var(V)); kv("n", V->getNameAsString()); } J.attribute("byref", cp.getCaptureKind() == LCK_ByRef); }
          else if (cp.capturesThis()) J.attribute("this", true);
          J.objectEnd();
          ++it;
        }
      });
      // A lambda shares the variable numbering of the function around it, so its body is emitted in place.
      // A generic lambda is taken in the one type it is called with, if there is exactly one.
      const FunctionDecl* B = X->getCallOperator();
      if (X->isGenericLambda()) {
        const FunctionDecl* only = nullptr; int n = 0;
        if (auto* T = B->getDescribedFunctionTemplate())
          for (auto* S : T->specializations()) if (S->hasBody() && !S->isDependentContext()) { only = S; ++n; }
        B = n == 1 ? only : nullptr;
      }
      J.attributeArray("params", [&] { for (auto* P : (B ? B : X->getCallOperator())->parameters()) param(P); });
      J.attributeBegin("body");
      if (!B) J.value(nullptr); else stmt(B->getBody());
      J.attributeEnd();
    } else if (auto* X = dyn_cast<StmtExpr>(E)) {
      kv("k", "stmtexpr"); J.attributeBegin("b"); stmt(X->getSubStmt()); J.attributeEnd();
    } else if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      kv("k", "zero");
    } else if (isa<CXXTypeidExpr>(E)) {
      kv("k", "typeid");
    } else if (auto* X = dyn_cast<OpaqueValueExpr>(E)) {
      kv("k", "opaque"); J.attributeBegin("e"); expr(X->getSourceExpr()); J.attributeEnd();
    } else if (auto* X = dyn_cast<AtomicExpr>(E)) {
      kv("k", "atomic"); kv("o", std::string(StringRef(X->getOp() == AtomicExpr::AO__atomic_load_n ? "load" : "other")));
      J.attributeArray("a", [&] { for (auto* S : X->children()) if (auto* SE = dyn_cast_or_null<Expr>(S)) expr(SE); });
    } else {
      kv("k", "other"); kv("c", E->getStmtClassName());
      J.attributeArray("a", [&] { for (auto* S : E->children()) if (auto* SE = dyn_cast_or_null<Expr>(S)) expr(SE); });
    }
  }
  void constval(const Expr* E)
  {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    Expr::EvalResult R;
    if (E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) kv("cv", llvm::toString(R.Val.getInt(), 10));
  }
  void param(const ParmVarDecl* P)
  {
    J.objectBegin();
    J.attribute("id", var(P)); kv("n", P->getNameAsString()); kv("t", ty(P->getType()));
    J.objectEnd();
  }
  void vardecl(const VarDecl* V)
  {
    J.objectBegin();
    J.attribute("l", line(V->getLocation()));
    if (V->isStaticLocal()) { kv("static", qn(V)); }
    J.attribute("id", var(V)); kv("n", V->getNameAsString()); kv("t", ty(V->getType()));
    if (V->getType()->isReferenceType()) J.attribute("ref", true);
    if (auto* RD = V->getType()->getAsCXXRecordDecl()) {
      kv("cls", qn(RD));
      if (RD->hasDefinition() && !RD->hasTrivialDestructor()) {
        if (auto* D = RD->getDestructor()) kv("dtor", usr(D->getCanonicalDecl()));
      }
    }
    J.attributeBegin("init"); expr(V->getInit()); J.attributeEnd();
    J.objectEnd();
  }
  void stmt(const Stmt* S)
  {
    if (!S) { J.value(nullptr); return; }
    J.objectBegin();
    J.attribute("l", line(S->getBeginLoc()));
    stmtBody(S);
    J.objectEnd();
  }
  void stmtBody(const Stmt* S)
  {
    if (S->getBeginLoc().isMacroID() && macroOf(S->getBeginLoc()) == "UMPIRE_LOG") { kv("s", "log"); return; }
    if (auto* X = dyn_cast<CompoundStmt>(S)) {
      kv("s", "block"); J.attributeArray("b", [&] { for (auto* I : X->body()) stmt(I); });
    } else if (auto* X = dyn_cast<DeclStmt>(S)) {
      kv("s", "decl");
      J.attributeArray("d", [&] { for (auto* D : X->decls()) if (auto* V = dyn_cast<VarDecl>(D)) vardecl(V); });
    } else if (auto* X = dyn_cast<IfStmt>(S)) {
      kv("s", "if");
      if (X->getInit()) { J.attributeBegin("init"); stmt(X->getInit()); J.attributeEnd(); }
      if (X->getConditionVariable()) { J.attributeBegin("cv"); vardecl(X->getConditionVariable()); J.attributeEnd(); }
      J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
      J.attributeBegin("a"); stmt(X->getThen()); J.attributeEnd();
      J.attributeBegin("b"); stmt(X->getElse()); J.attributeEnd();
    } else if (auto* X = dyn_cast<WhileStmt>(S)) {
      kv("s", "while");
      if (X->getConditionVariable()) { J.attributeBegin("cv"); vardecl(X->getConditionVariable()); J.attributeEnd(); }
      J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
      J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
    } else if (auto* X = dyn_cast<DoStmt>(S)) {
      kv("s", "do");
      J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
      J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
    } else if (auto* X = dyn_cast<ForStmt>(S)) {
      kv("s", "for");
      J.attributeBegin("i"); stmt(X->getInit()); J.attributeEnd();
      J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
      J.attributeBegin("n"); expr(X->getInc()); J.attributeEnd();
      J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
    } else if (auto* X = dyn_cast<CXXForRangeStmt>(S)) {
      kv("s", "range");
      J.attributeBegin("v"); vardecl(X->getLoopVariable()); J.attributeEnd();
      J.attributeBegin("r"); expr(X->getRangeInit()); J.attributeEnd();
      J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
    } else if (auto* X = dyn_cast<ReturnStmt>(S)) {
      kv("s", "ret"); J.attributeBegin("e"); expr(X->getRetValue()); J.attributeEnd();
    } else if (isa<BreakStmt>(S)) kv("s", "break");
    else if (isa<ContinueStmt>(S)) kv("s", "continue");
    else if (auto* X = dyn_cast<SwitchStmt>(S)) {
      kv("s", "switch");
      J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
      J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
    } else if (auto* X = dyn_cast<CaseStmt>(S)) {
      kv("s", "case"); J.attributeBegin("v"); expr(X->getLHS()); J.attributeEnd();
      J.attributeBegin("b"); stmt(X->getSubStmt()); J.attributeEnd();
    } else if (auto* X = dyn_cast<DefaultStmt>(S)) {
      kv("s", "default"); J.attributeBegin("b"); stmt(X->getSubStmt()); J.attributeEnd();
    } else if (auto* X = dyn_cast<CXXTryStmt>(S)) {
      kv("s", "try"); J.attributeBegin("b"); stmt(X->getTryBlock()); J.attributeEnd();
      J.attributeArray("h", [&] {
        for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
          auto* H = X->getHandler(i);
          J.objectBegin();
          J.attribute("l", line(H->getBeginLoc()));
          if (H->getExceptionDecl()) { kv("t", ty(H->getCaughtType())); J.attributeBegin("v"); vardecl(H->getExceptionDecl()); J.attributeEnd(); }
          J.attributeBegin("b"); stmt(H->getHandlerBlock()); J.attributeEnd();
          J.objectEnd();
        }
      });
    } else if (auto* X = dyn_cast<LabelStmt>(S)) {
      kv("s", "label"); kv("n", X->getDecl()->getNameAsString()); J.attributeBegin("b"); stmt(X->getSubStmt()); J.attributeEnd();
    } else if (auto* X = dyn_cast<GotoStmt>(S)) {
      kv("s", "goto"); kv("n", X->getLabel()->getNameAsString());
    } else if (isa<NullStmt>(S)) kv("s", "null");
    else if (auto* X = dyn_cast<AttributedStmt>(S)) stmtBody(X->getSubStmt());
    else if (auto* X = dyn_cast<Expr>(S)) { kv("s", "expr"); J.attributeBegin("e"); expr(X); J.attributeEnd(); }
    else { kv("s", "other"); kv("c", S->getStmtClassName()); }
  }
  void function(const FunctionDecl* F)
  {
    Vars.clear();
    J.objectBegin();
    kv("q", qn(F)); kv("key", usr(F->getCanonicalDecl()));
    kv("file", file(F->getLocation())); J.attribute("l", line(F->getLocation())); J.attribute("le", line(F->getEndLoc()));
    kv("rt", ty(F->getReturnType()));
    J.attribute("defaulted", F->isDefaulted());
    if (F->getStorageClass() == SC_Static) J.attribute("sstatic", true);
    if (auto* FPT = F->getType()->getAs<FunctionProtoType>()) {
      auto ES = FPT->getExceptionSpecType();
      if (ES != EST_Unevaluated && ES != EST_Uninstantiated && FPT->isNothrow()) J.attribute("nothrow", true);
    }
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      kv("cls", qn(M->getParent()));
      J.attribute("virt", M->isVirtual()); J.attribute("static", M->isStatic()); J.attribute("const", M->isConst());
      kv("access", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private");
      kv("mk", isa<CXXConstructorDecl>(M) ? "ctor" : isa<CXXDestructorDecl>(M) ? "dtor" : "method");
      J.attributeArray("ov", [&] { for (auto* O : M->overridden_methods()) J.value(usr(O->getCanonicalDecl())); });
    }
    if (F->getTemplateSpecializationArgs()) {
      J.attributeArray("ta", [&] {
        for (auto& A : F->getTemplateSpecializationArgs()->asArray())
          if (A.getKind() == TemplateArgument::Type) J.value(ty(A.getAsType()));
          else if (A.getKind() == TemplateArgument::Integral) J.value(llvm::toString(A.getAsIntegral(), 10));
      });
    }
    J.attributeArray("params", [&] { for (auto* P : F->parameters()) param(P); });
    if (auto* Ct = dyn_cast<CXXConstructorDecl>(F)) {
      J.attributeArray("inits", [&] {
        for (auto* I : Ct->inits()) {
          J.objectBegin();
          if (I->isMemberInitializer()) { kv("f", qn(I->getMember())); kv("n", I->getMember()->getNameAsString()); }
          else if (I->isBaseInitializer()) kv("base", ty(QualType(I->getBaseClass(), 0)));
          else if (I->isDelegatingInitializer()) J.attribute("deleg", true);
          J.attribute("written", I->isWritten());
          J.attribute("l", line(I->getSourceLocation()));
          J.attributeBegin("e"); expr(I->getInit()); J.attributeEnd();
          J.objectEnd();
        }
      });
    }
    J.attributeBegin("body"); stmt(F->getBody()); J.attributeEnd();
    J.objectEnd();
  }
  void record(const CXXRecordDecl* R)
  {
    J.objectBegin();
    kv("q", qn(R)); kv("file", file(R->getLocation())); J.attribute("l", line(R->getLocation()));
    kv("ty", ty(C.getRecordType(R)));
    J.attributeArray("bases", [&] { for (auto& B : R->bases()) if (auto* BR = B.getType()->getAsCXXRecordDecl()) J.value(qn(BR)); });
    J.attributeArray("fields", [&] {
      for (auto* F : R->fields()) {
        J.objectBegin();
        kv("n", F->getNameAsString()); kv("t", ty(F->getType())); J.attribute("mut", F->isMutable());
        kv("access", F->getAccess() == AS_public ? "public" : F->getAccess() == AS_protected ? "protected" : "private");
        J.attributeBegin("init"); expr(F->hasInClassInitializer() ? F->getInClassInitializer() : nullptr); J.attributeEnd();
        J.objectEnd();
      }
    });
    J.attributeArray("methods", [&] {
      for (auto* M : R->methods()) {
        J.objectBegin();
        kv("n", nm(M)); kv("key", usr(M->getCanonicalDecl())); J.attribute("virt", M->isVirtual()); J.attribute("pure", M->isPureVirtual());
        J.attribute("del", M->isDeleted()); J.attribute("user", M->isUserProvided()); J.attribute("impl", M->isImplicit());
        kv("access", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_protected ? "protected" : "private");
        J.attributeArray("pt", [&] { for (auto* P : M->parameters()) J.value(ty(P->getType())); });
        J.attributeArray("ov", [&] { for (auto* O : M->overridden_methods()) J.value(usr(O->getCanonicalDecl())); });
        J.objectEnd();
      }
    });
    J.attributeBegin("copyable");
    {
      bool cc = !R->defaultedCopyConstructorIsDeleted(), found = false;
      for (auto* K : R->ctors()) if (K->isCopyConstructor()) { found = true; cc = !K->isDeleted() && K->getAccess() == AS_public; }
      if (!found && !R->hasSimpleCopyConstructor() && !R->needsImplicitCopyConstructor()) cc = false;
      J.value(cc);
    }
    J.attributeEnd();
    J.objectEnd();
  }
  void enumd(const EnumDecl* D)
  {
    J.objectBegin();
    kv("q", qn(D)); kv("file", file(D->getLocation()));
    J.attributeArray("v", [&] { for (auto* K : D->enumerators()) { J.arrayBegin(); J.value(K->getNameAsString()); J.value(llvm::toString(K->getInitVal(), 10)); J.arrayEnd(); } });
    J.objectEnd();
  }
};

struct Collector : RecursiveASTVisitor<Collector> {
  ASTContext& C;
  std::vector<const FunctionDecl*> F, X;
  std::vector<const CXXRecordDecl*> R;
  std::vector<const EnumDecl*> E;
  std::vector<const VarDecl*> V;
  Collector(ASTContext& c) : C(c) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }
  bool in(SourceLocation L)
  {
    auto& SM = C.getSourceManager();
    auto N = SM.getFilename(SM.getExpansionLoc(L));
    return N.starts_with(Root);
  }
  bool VisitFunctionDecl(FunctionDecl* D)
  {
    if (!D->isDependentContext() && !D->isTemplated() && !D->isTemplateInstantiation() && !D->isDefined() && !D->isImplicit() && !D->isDeleted() && !D->isPureVirtual() && !D->getBuiltinID() && in(D->getLocation())) X.push_back(D);
    if (!D->doesThisDeclarationHaveABody() || D->isDependentContext() || D->isTemplated()) return true;
    // besides the repository: the instantiated wrappers of tus/*.cpp
    if (in(D->getLocation()) || (D->isTemplateInstantiation() && C.getSourceManager().isInMainFile(C.getSourceManager().getExpansionLoc(D->getLocation())))) F.push_back(D);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl* D)
  {
    if (!D->isThisDeclarationADefinition() || D->isDependentContext() || D->isLambda()) return true;
    if (in(D->getLocation())) R.push_back(D);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* D)
  {
    if (D->isThisDeclarationADefinition() && !D->isDependentContext() && in(D->getLocation())) E.push_back(D);
    return true;
  }
  bool VisitVarDecl(VarDecl* D)
  {
    if (D->isFileVarDecl() && !D->isTemplated() && in(D->getLocation()) && D->hasInit()) V.push_back(D);
    return true;
  }
};

struct Consumer : ASTConsumer {
  CompilerInstance& CI;
  Consumer(CompilerInstance& c) : CI(c) {}
  void HandleTranslationUnit(ASTContext& C) override
  {
    Collector K(C);
    K.TraverseDecl(C.getTranslationUnitDecl());
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutFile, EC);
    OStream J(OS);
    J.objectBegin();
    Emitter E(C, J);
    std::set<const void*> seen;
    J.attributeArray("functions", [&] { for (auto* F : K.F) if (seen.insert(F).second) E.function(F); });
    J.attributeArray("records", [&] { for (auto* R : K.R) if (seen.insert(R).second) E.record(R); });
    J.attributeArray("enums", [&] { for (auto* D : K.E) if (seen.insert(D).second) E.enumd(D); });
    J.attributeArray("undefined", [&] {
      for (auto* D : K.X) if (seen.insert(D->getCanonicalDecl()).second) {
        auto L = C.getSourceManager().getPresumedLoc(C.getSourceManager().getExpansionLoc(D->getLocation()));
        J.objectBegin(); E.kv("q", Emitter::qn(D)); E.kv("key", E.usr(D->getCanonicalDecl())); E.kv("file", L.getFilename()); J.attribute("l", (int64_t)L.getLine()); J.objectEnd();
      }
    });
    J.attributeArray("globals", [&] {
      for (auto* V : K.V) if (seen.insert(V).second) {
        E.Vars.clear();
        J.objectBegin(); E.kv("q", Emitter::qn(V)); E.kv("t", E.ty(V->getType()));
        J.attributeBegin("init"); E.expr(V->getInit()); J.attributeEnd(); J.objectEnd();
      }
    });
    J.objectEnd();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};

int main(int argc, const char** argv)
{
  if (argc < 5) { llvm::errs() << "usage: astdump ROOT OUT SOURCE -- flags\n"; return 2; }
  Root = argv[1]; OutFile = argv[2];
  std::string Src = argv[3];
  std::vector<std::string> flags(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {Src});
  struct Fac : tooling::FrontendActionFactory { std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); } } fac;
  return T.run(&fac) ? 3 : 0;
}
