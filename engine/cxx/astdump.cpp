// clang plugin: dumps, as one JSON document, every non-dependent function
// definition (template instantiations included) that comes from the repository
// under verification, as a typed expression tree.  It adds nothing and drops
// only nodes without semantics (parentheses, cleanups, temporaries' binders);
// node kinds it does not know are still emitted, so the verifier rejects them
// instead of silently skipping them.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/ADT/StringExtras.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include <map>
#include <set>
#include <string>

using namespace clang;

namespace {

static std::string OutPath = "ast.json";
static std::string Root = "/repo/";

class Dumper : public RecursiveASTVisitor<Dumper> {
 public:
  Dumper(ASTContext &C, llvm::json::OStream &J)
      : Ctx(C), SM(C.getSourceManager()), J(J), PP(C.getPrintingPolicy()),
        Mangle(ItaniumMangleContext::create(C, C.getDiagnostics())) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  std::map<std::string, int> Types;
  std::vector<std::string> TypeList;
  std::set<std::string> Done;
  std::set<const RecordDecl*> Recs;

  int type(QualType T) {
    if (T.isNull()) return -1;
    std::string S = T.getCanonicalType().getAsString(PP);
    auto It = Types.find(S);
    if (It != Types.end()) return It->second;
    int N = TypeList.size();
    Types[S] = N;
    TypeList.push_back(S);
    return N;
  }

  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    auto E = SM.getExpansionLoc(L);
    StringRef F = SM.getFilename(E);
    if (F.empty()) return false;
    llvm::SmallString<256> P(F);
    return StringRef(P).starts_with(Root);
  }

  std::string mangled(const FunctionDecl *F) {
    if (F->getDeclContext()->isDependentContext()) return "dep:" + F->getQualifiedNameAsString();
    std::string S;
    llvm::raw_string_ostream OS(S);
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F))
      Mangle->mangleName(GlobalDecl(CD, Ctor_Complete), OS);
    else if (auto *DD = dyn_cast<CXXDestructorDecl>(F))
      Mangle->mangleName(GlobalDecl(DD, Dtor_Complete), OS);
    else if (Mangle->shouldMangleDeclName(F))
      Mangle->mangleName(GlobalDecl(F), OS);
    else
      OS << F->getNameAsString();
    OS.flush();
    return S;
  }

  static std::string id(const void *P) {
    char B[32];
    snprintf(B, sizeof B, "%lx", (unsigned long)P);
    return B;
  }

  void loc(SourceLocation L) {
    auto E = SM.getExpansionLoc(L);
    if (E.isValid()) J.attribute("l", (int64_t)SM.getExpansionLineNumber(E));
  }

  std::string qual(const NamedDecl *D) {
    std::string S;
    llvm::raw_string_ostream OS(S);
    PrintingPolicy P2 = PP;
    D->printQualifiedName(OS, P2);
    return OS.str();
  }

  void funcRef(const FunctionDecl *F) {
    J.attribute("fn", qual(F));
    J.attribute("mg", mangled(F));
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) J.attribute("virt", true);
      if (M->isConst()) J.attribute("cst", true);
      if (M->isStatic()) J.attribute("stat", true);
      J.attribute("cls", type(Ctx.getRecordType(M->getParent())));
    }
    if (auto *A = F->getTemplateSpecializationArgs()) {
      std::string S;
      llvm::raw_string_ostream OS(S);
      bool first = true;
      for (auto &X : A->asArray()) {
        if (!first) OS << "; ";
        first = false;
        if (X.getKind() == TemplateArgument::Type)
          OS << X.getAsType().getCanonicalType().getAsString(PP);
        else
          X.print(PP, OS, true);
      }
      J.attribute("ta", OS.str());
    }
    J.attributeArray("pt", [&] { for (auto *P : F->parameters()) J.value(type(P->getType())); });
    if (inRepo(F->getLocation())) J.attribute("repo", true);
    if (F->isDefaulted()) J.attribute("dflt", true);
    if (F->isImplicit()) J.attribute("impl", true);
  }

  void declRef(const ValueDecl *D) {
    if (auto *F = dyn_cast<FunctionDecl>(D)) { funcRef(F); return; }
    J.attribute("n", D->getNameAsString());
    J.attribute("id", id(D->getCanonicalDecl()));
    J.attribute("dk", D->getDeclKindName());
    if (auto *EC = dyn_cast<EnumConstantDecl>(D))
      J.attribute("ev", llvm::toString(EC->getInitVal(), 10));
    if (auto *V = dyn_cast<VarDecl>(D)) {
      if (V->hasGlobalStorage()) { J.attribute("glob", true); J.attribute("qn", qual(V)); }
    }
  }

  void varDecl(const VarDecl *V) {
    J.object([&] {
      J.attribute("k", "VarDecl");
      J.attribute("n", V->getNameAsString());
      J.attribute("id", id(V->getCanonicalDecl()));
      J.attribute("t", type(V->getType()));
      loc(V->getLocation());
      if (V->getType()->isReferenceType()) J.attribute("isref", true);
      if (V->isStaticLocal()) J.attribute("static", true);
      if (V->hasGlobalStorage() && !V->isStaticLocal()) J.attribute("glob", true);
      if (const Expr *I = V->getInit()) {
        J.attribute("style", (int)V->getInitStyle());
        J.attributeArray("c", [&] { stmt(I); });
      }
    });
  }

  const Stmt *strip(const Stmt *S) {
    while (S) {
      if (auto *E = dyn_cast<ParenExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ExprWithCleanups>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<CXXBindTemporaryExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<ConstantExpr>(S)) S = E->getSubExpr();
      else if (auto *E = dyn_cast<SubstNonTypeTemplateParmExpr>(S)) S = E->getReplacement();
      else break;
    }
    return S;
  }

  void kids(const Stmt *S) {
    J.attributeArray("c", [&] {
      for (auto *C : S->children()) stmt(C);
    });
  }

  void stmt(const Stmt *S0) {
    const Stmt *S = strip(S0);
    if (!S) { J.value(nullptr); return; }
    J.object([&] {
      J.attribute("k", S->getStmtClassName());
      loc(S->getBeginLoc());
      if (auto *E = dyn_cast<Expr>(S)) {
        J.attribute("t", type(E->getType()));
        if (E->isLValue()) J.attribute("lv", true);
        else if (E->isXValue()) J.attribute("xv", true);
      }
      if (auto *D = dyn_cast<DeclStmt>(S)) {
        J.attributeArray("d", [&] {
          for (auto *X : D->decls()) {
            if (auto *V = dyn_cast<VarDecl>(X)) varDecl(V);
            else J.object([&] {
              J.attribute("k", X->getDeclKindName());
              if (auto *R = dyn_cast<CXXRecordDecl>(X)) {
                J.attribute("t", type(Ctx.getRecordType(R)));
                J.attribute("union", R->isUnion());
                J.attributeArray("fields", [&] {
                  for (auto *F : R->fields()) J.object([&] { J.attribute("n", F->getNameAsString()); J.attribute("t", type(F->getType())); });
                });
              }
            });
          }
        });
        return;
      }
      if (auto *L = dyn_cast<IntegerLiteral>(S)) { J.attribute("v", llvm::toString(L->getValue(), 10, L->getType()->isSignedIntegerType())); return; }
      if (auto *L = dyn_cast<FloatingLiteral>(S)) {
        llvm::SmallString<64> B;
        // exact hexadecimal value and decimal source rendering
        bool lossy;
        llvm::APFloat F = L->getValue();
        F.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lossy);
        char Hex[64];
        snprintf(Hex, sizeof Hex, "%a", F.convertToDouble());
        J.attribute("hex", Hex);
        SourceLocation B0 = SM.getSpellingLoc(L->getLocation());
        bool inv = false;
        const char *P = SM.getCharacterData(B0, &inv);
        if (!inv && P) {
          std::string T;
          while (*P && (isalnum(*P) || *P == '.' || ((*P == '+' || *P == '-') && !T.empty() && (T.back() == 'e' || T.back() == 'E')))) T += *P++;
          J.attribute("src", T);
        }
        return;
      }
      if (auto *L = dyn_cast<CXXBoolLiteralExpr>(S)) { J.attribute("v", L->getValue() ? "1" : "0"); return; }
      if (auto *L = dyn_cast<CharacterLiteral>(S)) { J.attribute("v", std::to_string(L->getValue())); return; }
      if (auto *L = dyn_cast<clang::StringLiteral>(S)) {
        J.attributeArray("bytes", [&] { for (unsigned i = 0; i < L->getLength(); i++) J.value((int64_t)L->getCodeUnit(i)); });
        return;
      }
      if (auto *E = dyn_cast<DeclRefExpr>(S)) { declRef(E->getDecl()); return; }
      if (auto *E = dyn_cast<MemberExpr>(S)) {
        declRef(E->getMemberDecl());
        if (E->isArrow()) J.attribute("arrow", true);
        if (E->hasQualifier()) J.attribute("qualified", true);
        kids(S);
        return;
      }
      if (auto *E = dyn_cast<CastExpr>(S)) {
        J.attribute("cast", E->getCastKindName());
        if (auto *C = E->getConversionFunction())
          if (auto *F = dyn_cast<FunctionDecl>(C)) { J.attributeObject("conv", [&] { funcRef(F); }); }
        kids(S);
        return;
      }
      if (auto *E = dyn_cast<UnaryOperator>(S)) { J.attribute("op", UnaryOperator::getOpcodeStr(E->getOpcode()).str()); if (E->isPostfix()) J.attribute("post", true); kids(S); return; }
      if (auto *E = dyn_cast<CompoundAssignOperator>(S)) { J.attribute("op", E->getOpcodeStr().str()); J.attribute("ct", type(E->getComputationResultType())); J.attribute("clt", type(E->getComputationLHSType())); kids(S); return; }
      if (auto *E = dyn_cast<BinaryOperator>(S)) { J.attribute("op", E->getOpcodeStr().str()); kids(S); return; }
      if (auto *E = dyn_cast<CXXOperatorCallExpr>(S)) {
        J.attribute("op", getOperatorSpelling(E->getOperator()));
        if (auto *F = E->getDirectCallee()) J.attributeObject("callee", [&] { funcRef(F); });
        J.attributeArray("c", [&] { for (auto *A : E->arguments()) stmt(A); });
        return;
      }
      if (auto *E = dyn_cast<CallExpr>(S)) {
        if (auto *F = E->getDirectCallee()) J.attributeObject("callee", [&] { funcRef(F); });
        J.attribute("m", isa<CXXMemberCallExpr>(E));
        J.attributeArray("f", [&] { stmt(E->getCallee()); });
        J.attributeArray("c", [&] { for (auto *A : E->arguments()) stmt(A); });
        return;
      }
      if (auto *E = dyn_cast<CXXConstructExpr>(S)) {
        J.attributeObject("callee", [&] { funcRef(E->getConstructor()); });
        J.attribute("copy", E->getConstructor()->isCopyConstructor());
        J.attribute("move", E->getConstructor()->isMoveConstructor());
        if (E->isListInitialization()) J.attribute("list", true);
        J.attributeArray("c", [&] { for (auto *A : E->arguments()) stmt(A); });
        return;
      }
      if (auto *E = dyn_cast<CXXDefaultArgExpr>(S)) { J.attributeArray("c", [&] { stmt(E->getExpr()); }); return; }
      if (auto *E = dyn_cast<CXXDefaultInitExpr>(S)) { J.attributeArray("c", [&] { stmt(E->getExpr()); }); return; }
      if (auto *E = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
        J.attribute("tk", (int)E->getKind());
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx)) J.attribute("v", llvm::toString(R.Val.getInt(), 10));
        return;
      }
      if (auto *E = dyn_cast<LambdaExpr>(S)) {
        J.attribute("lam", type(E->getType()));
        J.attributeArray("caps", [&] {
          auto It = E->capture_init_begin();
          for (auto &C : E->captures()) {
            J.object([&] {
              if (C.capturesThis()) J.attribute("this", true);
              else if (C.capturesVariable()) {
                J.attribute("id", id(C.getCapturedVar()->getCanonicalDecl()));
                J.attribute("n", C.getCapturedVar()->getNameAsString());
              }
              J.attribute("byref", C.getCaptureKind() == LCK_ByRef);
              J.attributeArray("init", [&] { stmt(*It); });
            });
            ++It;
          }
        });
        J.attributeArray("params", [&] { for (auto *P : E->getCallOperator()->parameters()) varDecl(P); });
        J.attribute("rt", type(E->getCallOperator()->getReturnType()));
        J.attributeArray("body", [&] { stmt(E->getBody()); });
        return;
      }
      if (auto *F = dyn_cast<CXXForRangeStmt>(S)) {
        J.attributeObject("var", [&] { J.attribute("k", "X"); J.attributeArray("v", [&] { varDecl(F->getLoopVariable()); }); });
        J.attributeArray("range", [&] { stmt(F->getRangeInit()); });
        J.attributeArray("body", [&] { stmt(F->getBody()); });
        return;
      }
      if (auto *F = dyn_cast<ForStmt>(S)) {
        J.attributeArray("init", [&] { stmt(F->getInit()); });
        J.attributeArray("cond", [&] { stmt(F->getCond()); });
        J.attributeArray("inc", [&] { stmt(F->getInc()); });
        J.attributeArray("body", [&] { stmt(F->getBody()); });
        if (F->getConditionVariable()) J.attribute("condvar", true);
        return;
      }
      if (auto *I = dyn_cast<IfStmt>(S)) {
        J.attributeArray("init", [&] { stmt(I->getInit()); });
        if (I->getConditionVariable()) J.attribute("condvar", true);
        J.attributeArray("cond", [&] { stmt(I->getCond()); });
        J.attributeArray("then", [&] { stmt(I->getThen()); });
        J.attributeArray("else", [&] { stmt(I->getElse()); });
        return;
      }
      if (auto *T = dyn_cast<CXXCatchStmt>(S)) {
        J.attribute("ct", T->getExceptionDecl() ? type(T->getCaughtType()) : -1);
        J.attributeArray("body", [&] { stmt(T->getHandlerBlock()); });
        return;
      }
      if (auto *E = dyn_cast<CXXNewExpr>(S)) { J.attribute("alloc", type(E->getAllocatedType())); kids(S); return; }
      if (auto *E = dyn_cast<InitListExpr>(S)) { if (E->isSemanticForm() || !E->getSemanticForm()) kids(S); else J.attributeArray("c", [&] { for (auto *C : E->getSemanticForm()->children()) stmt(C); }); return; }
      kids(S);
    });
  }

  void record(const CXXRecordDecl *R) {
    if (!R || !R->hasDefinition()) return;
    R = R->getDefinition();
    if (!Recs.insert(R).second) return;
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() && !F->isDefaulted()) return true;
    if (!inRepo(F->getLocation())) return true;
    if (F->isDependentContext() || F->getDescribedFunctionTemplate()) return true;
    if (!F->hasBody() && !isa<CXXConstructorDecl>(F)) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      record(M->getParent());
      if (M->getParent()->isLambda()) return true;
    }
    std::string MG = mangled(F);
    if (!Done.insert(MG).second) return true;
    J.object([&] {
      funcRef(F);
      loc(F->getLocation());
      J.attribute("el", (int64_t)SM.getExpansionLineNumber(F->getEndLoc()));
      J.attribute("file", SM.getFilename(SM.getExpansionLoc(F->getLocation())));
      J.attribute("rt", type(F->getReturnType()));
      J.attributeArray("params", [&] { for (auto *P : F->parameters()) varDecl(P); });
      if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
        J.attribute("ctor", true);
        J.attributeArray("inits", [&] {
          for (auto *I : C->inits()) J.object([&] {
            if (I->isAnyMemberInitializer()) J.attribute("field", I->getAnyMember()->getNameAsString());
            else if (I->isBaseInitializer()) J.attribute("base", type(QualType(I->getBaseClass(), 0)));
            else if (I->isDelegatingInitializer()) J.attribute("deleg", true);
            J.attributeArray("c", [&] { stmt(I->getInit()); });
          });
        });
      }
      if (isa<CXXDestructorDecl>(F)) J.attribute("dtor", true);
      J.attributeArray("body", [&] { stmt(F->getBody()); });
    });
    return true;
  }

  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->getDescribedClassTemplate()) return true;
    if (R->isLambda()) return true;
    if (inRepo(R->getLocation())) record(R);
    return true;
  }

  void records() {
    for (auto *R0 : Recs) {
      auto *R = cast<CXXRecordDecl>(R0);
      J.object([&] {
        J.attribute("t", type(Ctx.getRecordType(R)));
        J.attribute("qn", qual(R));
        if (R->isUnion()) J.attribute("union", true);
        J.attributeArray("bases", [&] { for (auto &B : R->bases()) J.value(type(B.getType())); });
        J.attributeArray("fields", [&] {
          for (auto *F : R->fields()) J.object([&] {
            J.attribute("n", F->getNameAsString());
            J.attribute("t", type(F->getType()));
            if (F->hasInClassInitializer() && F->getInClassInitializer()) J.attributeArray("init", [&] { stmt(F->getInClassInitializer()); });
          });
        });
        J.attributeArray("methods", [&] {
          for (auto *M : R->methods()) J.object([&] {
            J.attribute("n", M->getNameAsString());
            J.attribute("mg", mangled(M));
            if (M->isVirtual()) J.attribute("virt", true);
            J.attributeArray("over", [&] { for (auto *O : M->overridden_methods()) J.value(mangled(O)); });
          });
        });
      });
    }
  }

  std::vector<const VarDecl*> Globals;
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !V->isStaticLocal() && inRepo(V->getLocation()) && V->getInit() && !V->getDeclContext()->isDependentContext())
      Globals.push_back(V);
    return true;
  }

  std::map<std::string, std::string> Enums;
  bool VisitEnumConstantDecl(EnumConstantDecl *E) {
    if (inRepo(E->getLocation())) Enums[E->getQualifiedNameAsString()] = llvm::toString(E->getInitVal(), 10);
    return true;
  }

  ASTContext &Ctx;
  SourceManager &SM;
  llvm::json::OStream &J;
  PrintingPolicy PP;
  std::unique_ptr<MangleContext> Mangle;
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    std::error_code EC;
    llvm::raw_fd_ostream OS(OutPath, EC);
    llvm::json::OStream J(OS);
    J.object([&] {
      Dumper D(C, J);
      J.attributeArray("functions", [&] { D.TraverseDecl(C.getTranslationUnitDecl()); });
      J.attributeArray("records", [&] { D.records(); });
      J.attributeArray("globals", [&] { for (auto *V : D.Globals) D.varDecl(V); });
      J.attributeObject("enums", [&] { for (auto &E : D.Enums) J.attribute(E.first, E.second); });
      J.attributeArray("types", [&] { for (auto &T : D.TypeList) J.value(T); });
    });
  }
};

class Action : public PluginASTAction {
 protected:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &A) override {
    for (auto &S : A) {
      if (S.rfind("out=", 0) == 0) OutPath = S.substr(4);
      if (S.rfind("root=", 0) == 0) Root = S.substr(5);
    }
    return true;
  }
  ActionType getActionType() override { return ReplaceAction; }
};

}  // namespace
static FrontendPluginRegistry::Add<Action> X("astdump", "dump repository functions");
