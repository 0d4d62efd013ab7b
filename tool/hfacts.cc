// hfacts: dump resolved AST facts of one translation unit as JSON.
// usage: hfacts --root=/repo [--also=<dir prefix>]... <file> -- <compiler flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
using llvm::json::OStream;

static std::vector<std::string> Roots;
static std::vector<std::string> Excl;

static std::string fixUtf8(llvm::StringRef s) {
  // bytes -> latin1-as-utf8 so that every byte survives
  std::string r;
  for (unsigned char c : s) {
    if (c < 0x80) r.push_back((char)c);
    else { r.push_back((char)(0xC0 | (c >> 6))); r.push_back((char)(0x80 | (c & 0x3F))); }
  }
  return r;
}

class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &Ctx;
  SourceManager &SM;
  OStream &J;
  std::unique_ptr<MangleContext> MC;
  PrintingPolicy PP;
  std::map<const Decl *, unsigned> Ids;
  std::map<std::string, unsigned> Types;
  std::vector<std::string> TypeList;
  std::set<const Decl *> Done;
  int LambdaDepth = 0;

public:
  Dumper(ASTContext &C, OStream &J)
      : Ctx(C), SM(C.getSourceManager()), J(J), MC(C.createMangleContext()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressInlineNamespace = false;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    return F.str();
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(SourceLocation L) {
    if (L.isInvalid()) return false;
    std::string f = fileOf(L);
    for (auto &r : Excl) if (f.compare(0, r.size(), r) == 0) return false;
    for (auto &r : Roots) if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  unsigned typeId(QualType T) {
    std::string s = T.isNull() ? std::string("?") : T.getCanonicalType().getAsString(PP);
    auto it = Types.find(s);
    if (it != Types.end()) return it->second;
    unsigned i = TypeList.size();
    Types[s] = i; TypeList.push_back(s);
    return i;
  }
  unsigned idOf(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    unsigned i = Ids.size() + 1;
    Ids[D] = i;
    return i;
  }
  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return fixUtf8(os.str());
  }
  std::string mangled(const FunctionDecl *F) {
    if (F->isDependentContext()) return "dep:" + qname(F);
    std::string s; llvm::raw_string_ostream os(s);
    if (auto *C = dyn_cast<CXXConstructorDecl>(F)) MC->mangleName(GlobalDecl(C, Ctor_Complete), os);
    else if (auto *Dd = dyn_cast<CXXDestructorDecl>(F)) MC->mangleName(GlobalDecl(Dd, Dtor_Complete), os);
    else if (MC->shouldMangleDeclName(F)) MC->mangleName(GlobalDecl(F), os);
    else os << F->getNameAsString();
    return os.str();
  }

  // ---------- expressions -------------
  const Expr *strip(const Expr *E) {
    while (E) {
      if (auto *P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<ImplicitCastExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<FullExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = P->getSemanticForm(); continue; }
      break;
    }
    return E;
  }
  void expr(const Expr *E0) {
    if (!E0) { J.value(nullptr); return; }
    const Expr *E = strip(E0);
    J.object([&] {
      J.attribute("l", (int64_t)lineOf(E->getBeginLoc()));
      J.attribute("t", (int64_t)typeId(E->getType()));
      exprBody(E);
    });
  }
  void constVal(const Expr *E) {
    if (E->isValueDependent() || E->isTypeDependent()) return;
    if (!E->getType()->isIntegralOrEnumerationType()) return;
    Expr::EvalResult R;
    if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
      auto &V = R.Val.getInt();
      if (V.isSigned() ? V.isSignedIntN(64) : V.isIntN(63)) J.attribute("v", (int64_t)V.getExtValue());
      else J.attribute("v", llvm::toString(V, 10));
    }
  }
  template <class R> void args(const char *key, R range) {
    J.attributeArray(key, [&] {
      for (const Expr *A : range) expr(A);
    });
  }
  void calleeAttrs(const FunctionDecl *F) {
    J.attribute("fn", qname(F));
    J.attribute("u", mangled(F));
    std::string pm;
    for (auto *P : F->parameters()) {
      QualType T = P->getType();
      char c = 'v';
      if (T->isReferenceType()) c = T->getPointeeType().isConstQualified() ? 'c' : (T->isRValueReferenceType() ? 'x' : 'm');
      else if (T->isPointerType()) c = T->getPointeeType().isConstQualified() ? 'q' : 'p';
      pm.push_back(c);
    }
    if (!pm.empty()) J.attribute("pm", pm);
    if (F->isNoReturn()) J.attribute("nr", true);
    if (auto *FT = F->getType()->getAs<FunctionProtoType>()) if (FT->isNothrow()) J.attribute("nt", true);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual()) J.attribute("virt", true);
      if (M->isStatic()) J.attribute("st", true);
      if (M->isConst()) J.attribute("cm", true);
    }
  }
  void exprBody(const Expr *E) {
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { J.attribute("k", "int"); constVal(X); return; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { J.attribute("k", "chr"); J.attribute("v", (int64_t)X->getValue()); return; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { J.attribute("k", "bool"); J.attribute("v", X->getValue()); return; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { J.attribute("k", "flt"); J.attribute("v", X->getValueAsApproximateDouble()); return; }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      J.attribute("k", "str");
      if (X->getCharByteWidth() == 1) J.attribute("v", fixUtf8(X->getBytes()));
      else J.attribute("v", "?");
      return;
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { J.attribute("k", "null"); return; }
    if (isa<CXXThisExpr>(E)) { J.attribute("k", "this"); return; }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { (void)X; J.attribute("k", "str"); J.attribute("v", "__func__"); return; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      J.attribute("k", "ref");
      const ValueDecl *D = X->getDecl();
      J.attribute("n", qname(D));
      if (auto *F = dyn_cast<FunctionDecl>(D)) { J.attribute("dk", "fn"); J.attribute("u", mangled(F)); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        J.attribute("dk", "enum"); J.attribute("v", (int64_t)EC->getInitVal().getExtValue());
      } else if (auto *V = dyn_cast<VarDecl>(D)) {
        J.attribute("id", (int64_t)idOf(V));
        J.attribute("dk", isa<ParmVarDecl>(V) ? "parm" : V->isStaticLocal() ? "slocal" : V->hasGlobalStorage() ? "glob" : "var");
        constVal(E);
      } else { J.attribute("dk", "other"); J.attribute("id", (int64_t)idOf(D)); }
      return;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      const ValueDecl *D = X->getMemberDecl();
      J.attribute("k", "mem");
      J.attribute("n", qname(D));
      J.attribute("m", D->getNameAsString());
      if (auto *F = dyn_cast<FunctionDecl>(D)) { J.attribute("dk", "fn"); J.attribute("u", mangled(F)); }
      if (isa<VarDecl>(D)) { J.attribute("dk", "sfield"); constVal(E);}
      if (X->isArrow()) J.attribute("a", true);
      J.attributeBegin("b"); expr(X->getBase()); J.attributeEnd();
      return;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      J.attribute("k", "call");
      J.attribute("op", getOperatorSpelling(X->getOperator()));
      const FunctionDecl *F = X->getDirectCallee();
      unsigned first = 0;
      if (F) calleeAttrs(F);
      if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
        first = 1;
        J.attributeBegin("o"); expr(X->getArg(0)); J.attributeEnd();
      }
      J.attributeArray("args", [&] { for (unsigned i = first; i < X->getNumArgs(); ++i) expr(X->getArg(i)); });
      return;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      J.attribute("k", "call");
      const CXXMethodDecl *F = X->getMethodDecl();
      if (F) calleeAttrs(F);
      if (auto *ME = dyn_cast<MemberExpr>(strip(X->getCallee()))) {
        J.attributeBegin("o"); expr(ME->getBase()); J.attributeEnd();
        if (ME->isArrow()) J.attribute("oa", true);
        if (ME->hasQualifier()) J.attribute("qual", true);
      } else { J.attributeBegin("ce"); expr(X->getCallee()); J.attributeEnd(); }
      args("args", X->arguments());
      return;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      J.attribute("k", "call");
      if (const FunctionDecl *F = X->getDirectCallee()) calleeAttrs(F);
      else { J.attributeBegin("ce"); expr(X->getCallee()); J.attributeEnd(); }
      args("args", X->arguments());
      constVal(E);
      return;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      J.attribute("k", "ctor");
      const CXXConstructorDecl *C = X->getConstructor();
      J.attribute("fn", qname(C->getParent()));
      J.attribute("u", mangled(C));
      { std::string pm;
        for (auto *P : C->parameters()) { QualType T = P->getType(); char c='v';
          if (T->isReferenceType()) c = T->getPointeeType().isConstQualified() ? 'c' : (T->isRValueReferenceType() ? 'x' : 'm');
          else if (T->isPointerType()) c = T->getPointeeType().isConstQualified() ? 'q' : 'p';
          pm.push_back(c); }
        if (!pm.empty()) J.attribute("pm", pm); }
      if (C->isCopyConstructor()) J.attribute("cp", "copy");
      else if (C->isMoveConstructor()) J.attribute("cp", "move");
      args("args", X->arguments());
      return;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { (void)X; J.attribute("k", "ctor"); J.attribute("fn","?"); J.attributeArray("args", []{}); return; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      J.attribute("k", "new");
      J.attribute("nt", (int64_t)typeId(X->getAllocatedType()));
      if (X->isArray() && X->getArraySize() && *X->getArraySize()) { J.attributeBegin("arr"); expr(*X->getArraySize()); J.attributeEnd(); }
      if (X->getInitializer()) { J.attributeBegin("e"); expr(X->getInitializer()); J.attributeEnd(); }
      return;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      J.attribute("k", "delete");
      if (X->isArrayForm()) J.attribute("arr", true);
      J.attributeBegin("e"); expr(X->getArgument()); J.attributeEnd();
      return;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      J.attribute("k", "un");
      std::string op = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) op = "p" + op;
      J.attribute("op", op);
      J.attributeBegin("e"); expr(X->getSubExpr()); J.attributeEnd();
      constVal(E);
      return;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      J.attribute("k", X->isAssignmentOp() ? "asg" : "bin");
      J.attribute("op", X->getOpcodeStr());
      J.attributeBegin("a"); expr(X->getLHS()); J.attributeEnd();
      J.attributeBegin("b"); expr(X->getRHS()); J.attributeEnd();
      constVal(E);
      return;
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      J.attribute("k", "cond");
      J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
      J.attributeBegin("a"); expr(X->getTrueExpr()); J.attributeEnd();
      J.attributeBegin("b"); expr(X->getFalseExpr()); J.attributeEnd();
      constVal(E);
      return;
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
      J.attribute("k", "opq");
      if (X->getSourceExpr()) { J.attributeBegin("e"); expr(X->getSourceExpr()); J.attributeEnd(); }
      return;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      J.attribute("k", "idx");
      J.attributeBegin("a"); expr(X->getBase()); J.attributeEnd();
      J.attributeBegin("b"); expr(X->getIdx()); J.attributeEnd();
      return;
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      J.attribute("k", "cast");
      const char *ck = "c";
      if (isa<CXXStaticCastExpr>(X)) ck = "static";
      else if (isa<CXXReinterpretCastExpr>(X)) ck = "reinterpret";
      else if (isa<CXXConstCastExpr>(X)) ck = "const";
      else if (isa<CXXDynamicCastExpr>(X)) ck = "dynamic";
      else if (isa<CXXFunctionalCastExpr>(X)) ck = "func";
      J.attribute("ck", ck);
      if (X->getCastKind() == CK_ToVoid) J.attribute("void", true);
      J.attributeBegin("e"); expr(X->getSubExpr()); J.attributeEnd();
      constVal(E);
      return;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (X->isSemanticForm() == false && X->getSemanticForm()) X = X->getSemanticForm();
      J.attribute("k", "list");
      J.attributeArray("e", [&] { for (const Expr *I : X->inits()) expr(I); });
      return;
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { J.attribute("k", "silist"); J.attributeBegin("e"); expr(X->getSubExpr()); J.attributeEnd(); return; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      J.attribute("k", "throw");
      if (X->getSubExpr()) { J.attributeBegin("e"); expr(X->getSubExpr()); J.attributeEnd(); }
      return;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      J.attribute("k", "lambda");
      J.attribute("u", mangled(X->getCallOperator()));
      J.attributeArray("params", [&] { for (auto *P : X->getCallOperator()->parameters()) parm(P); });
      J.attributeArray("caps", [&] {
        for (auto &C : X->captures()) {
          J.object([&] {
            J.attribute("byref", C.getCaptureKind() == LCK_ByRef);
            if (C.capturesThis()) J.attribute("this", true);
            if (C.capturesVariable()) { J.attribute("id", (int64_t)idOf(C.getCapturedVar())); J.attribute("n", C.getCapturedVar()->getNameAsString()); }
          });
        }
      });
      J.attributeBegin("body"); stmt(X->getBody()); J.attributeEnd();
      return;
    }
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { J.attribute("k", "defarg"); J.attributeBegin("e"); expr(X->getExpr()); J.attributeEnd(); constVal(E); return; }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { J.attribute("k", "definit"); J.attributeBegin("e"); expr(X->getExpr()); J.attributeEnd(); return; }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      J.attribute("k", "sizeof");
      if (X->getKind() == UETT_SizeOf) {
        QualType T = X->isArgumentType() ? X->getArgumentType() : X->getArgumentExpr()->getType();
        J.attribute("st", (int64_t)typeId(T));
      }
      constVal(E); return;
    }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) { (void)X; J.attribute("k", "zero"); constVal(E); return; }
    if (isa<ImplicitValueInitExpr>(E)) { J.attribute("k", "zero"); return; }
    if (auto *X = dyn_cast<StmtExpr>(E)) { J.attribute("k", "stmtexpr"); J.attributeBegin("s"); stmt(X->getSubStmt()); J.attributeEnd(); return; }
    // fallback: generic children
    J.attribute("k", "x");
    J.attribute("cls", E->getStmtClassName());
    J.attributeArray("ch", [&] {
      for (const Stmt *C : E->children()) if (auto *CE = dyn_cast_or_null<Expr>(C)) expr(CE);
    });
    constVal(E);
  }
  // ---------- statements --------------
  void parm(const VarDecl *P) {
    J.object([&] {
      J.attribute("id", (int64_t)idOf(P));
      J.attribute("n", P->getNameAsString());
      J.attribute("t", (int64_t)typeId(P->getType()));
    });
  }
  void var(const VarDecl *V) {
    J.object([&] {
      J.attribute("k", "vardecl");
      J.attribute("l", (int64_t)lineOf(V->getBeginLoc()));
      J.attribute("id", (int64_t)idOf(V));
      J.attribute("n", V->getNameAsString());
      J.attribute("t", (int64_t)typeId(V->getType()));
      if (V->isStaticLocal()) J.attribute("static", true);
      if (V->getInit()) { J.attributeBegin("init"); expr(V->getInit()); J.attributeEnd(); }
    });
  }
  void stmt(const Stmt *S) {
    if (!S) { J.value(nullptr); return; }
    if (auto *E = dyn_cast<Expr>(S)) { expr(E); return; }
    J.object([&] {
      J.attribute("l", (int64_t)lineOf(S->getBeginLoc()));
      if (auto *X = dyn_cast<CompoundStmt>(S)) {
        J.attribute("k", "block");
        J.attribute("el", (int64_t)lineOf(X->getRBracLoc()));
        J.attributeArray("s", [&] { for (auto *C : X->body()) stmt(C); });
      } else if (auto *X = dyn_cast<IfStmt>(S)) {
        J.attribute("k", "if");
        if (X->isConstexpr()) J.attribute("cexpr", true);
        if (X->getInit()) { J.attributeBegin("i"); stmt(X->getInit()); J.attributeEnd(); }
        if (X->getConditionVariable()) { J.attributeBegin("cv"); var(X->getConditionVariable()); J.attributeEnd(); }
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("a"); stmt(X->getThen()); J.attributeEnd();
        J.attributeBegin("b"); stmt(X->getElse()); J.attributeEnd();
      } else if (auto *X = dyn_cast<WhileStmt>(S)) {
        J.attribute("k", "while");
        if (X->getConditionVariable()) { J.attributeBegin("cv"); var(X->getConditionVariable()); J.attributeEnd(); }
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto *X = dyn_cast<DoStmt>(S)) {
        J.attribute("k", "do");
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto *X = dyn_cast<ForStmt>(S)) {
        J.attribute("k", "for");
        J.attributeBegin("i"); stmt(X->getInit()); J.attributeEnd();
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("inc"); expr(X->getInc()); J.attributeEnd();
        J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
        J.attribute("k", "rfor");
        J.attributeBegin("range"); expr(X->getRangeInit()); J.attributeEnd();
        J.attributeBegin("var"); parm(X->getLoopVariable()); J.attributeEnd();
        J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
        J.attribute("k", "switch");
        J.attributeBegin("c"); expr(X->getCond()); J.attributeEnd();
        J.attributeBegin("b"); stmt(X->getBody()); J.attributeEnd();
      } else if (auto *X = dyn_cast<CaseStmt>(S)) {
        J.attribute("k", "case");
        J.attributeBegin("c"); expr(X->getLHS()); J.attributeEnd();
        if (X->getRHS()) { J.attributeBegin("hi"); expr(X->getRHS()); J.attributeEnd(); }
        J.attributeBegin("s"); stmt(X->getSubStmt()); J.attributeEnd();
      } else if (auto *X = dyn_cast<DefaultStmt>(S)) {
        J.attribute("k", "default");
        J.attributeBegin("s"); stmt(X->getSubStmt()); J.attributeEnd();
      } else if (isa<BreakStmt>(S)) J.attribute("k", "break");
      else if (isa<ContinueStmt>(S)) J.attribute("k", "continue");
      else if (isa<NullStmt>(S)) J.attribute("k", "nop");
      else if (auto *X = dyn_cast<ReturnStmt>(S)) {
        J.attribute("k", "return");
        J.attributeBegin("e"); expr(X->getRetValue()); J.attributeEnd();
      } else if (auto *X = dyn_cast<DeclStmt>(S)) {
        J.attribute("k", "decl");
        J.attributeArray("vars", [&] {
          for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) var(V);
        });
      } else if (auto *X = dyn_cast<CXXTryStmt>(S)) {
        J.attribute("k", "try");
        J.attributeBegin("b"); stmt(X->getTryBlock()); J.attributeEnd();
        J.attributeArray("h", [&] {
          for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
            const CXXCatchStmt *H = X->getHandler(i);
            J.object([&] {
              J.attribute("l", (int64_t)lineOf(H->getBeginLoc()));
              if (H->getExceptionDecl()) {
                J.attribute("id", (int64_t)idOf(H->getExceptionDecl()));
                J.attribute("n", H->getExceptionDecl()->getNameAsString());
                J.attribute("t", (int64_t)typeId(H->getCaughtType().getNonReferenceType().getUnqualifiedType()));
              }
              J.attributeBegin("s"); stmt(H->getHandlerBlock()); J.attributeEnd();
            });
          }
        });
      } else if (auto *X = dyn_cast<LabelStmt>(S)) {
        J.attribute("k", "label"); J.attribute("n", X->getDecl()->getNameAsString());
        J.attributeBegin("s"); stmt(X->getSubStmt()); J.attributeEnd();
      } else if (auto *X = dyn_cast<GotoStmt>(S)) {
        J.attribute("k", "goto"); J.attribute("n", X->getLabel()->getNameAsString());
      } else if (auto *X = dyn_cast<AttributedStmt>(S)) {
        J.attribute("k", "block");
        J.attributeArray("s", [&] { stmt(X->getSubStmt()); });
      } else { J.attribute("k", "xs"); J.attribute("cls", S->getStmtClassName()); }
    });
  }
  // ---------- declarations ------------
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody()) return true;
    if (F->isDependentContext()) return true;
    if (F->isImplicit()) return true;
    if (!inRoot(F->getLocation())) return true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true; // inlined in lambda node
    if (!Done.insert(F).second) return true;
    J.object([&] {
      J.attribute("D", "fn");
      J.attribute("q", qname(F));
      J.attribute("u", mangled(F));
      J.attribute("file", fileOf(F->getLocation()));
      J.attribute("l", (int64_t)lineOf(F->getLocation()));
      J.attribute("el", (int64_t)lineOf(F->getEndLoc()));
      J.attribute("ret", (int64_t)typeId(F->getReturnType()));
      J.attribute("name", F->getNameAsString());
      if (F->getStorageClass() == SC_Static) J.attribute("sc", "static");
      if (F->isVariadic()) J.attribute("variadic", true);
      const auto *FPT = F->getType()->getAs<FunctionProtoType>();
      if (FPT && FPT->isNothrow()) J.attribute("noexcept", true);
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
        J.attribute("cls", qname(M->getParent()));
        if (M->isConst()) J.attribute("const", true);
        if (M->isStatic()) J.attribute("st", true);
        if (M->isVirtual()) J.attribute("virt", true);
        J.attribute("acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected");
        J.attributeArray("ovr", [&] { for (auto *O : M->overridden_methods()) J.value(mangled(O)); });
      }
      if (isa<CXXConstructorDecl>(F)) J.attribute("kind", "ctor");
      else if (isa<CXXDestructorDecl>(F)) J.attribute("kind", "dtor");
      if (F->isTemplateInstantiation()) J.attribute("tmpl", true);
      J.attributeArray("params", [&] { for (auto *P : F->parameters()) parm(P); });
      if (auto *C = dyn_cast<CXXConstructorDecl>(F)) {
        J.attributeArray("inits", [&] {
          for (auto *I : C->inits()) {
            J.object([&] {
              J.attribute("l", (int64_t)lineOf(I->getSourceLocation()));
              J.attribute("written", I->isWritten());
              if (I->isAnyMemberInitializer()) J.attribute("f", qname(I->getAnyMember()));
              else if (I->isBaseInitializer()) J.attribute("base", (int64_t)typeId(QualType(I->getBaseClass(), 0)));
              else J.attribute("deleg", true);
              J.attributeBegin("e"); expr(I->getInit()); J.attributeEnd();
            });
          }
        });
      }
      J.attributeBegin("body"); stmt(F->getBody()); J.attributeEnd();
    });
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    if (!inRoot(R->getLocation())) return true;
    if (!Done.insert(R).second) return true;
    J.object([&] {
      J.attribute("D", "rec");
      J.attribute("q", qname(R));
      J.attribute("t", (int64_t)typeId(Ctx.getRecordType(R)));
      J.attribute("file", fileOf(R->getLocation()));
      J.attribute("l", (int64_t)lineOf(R->getLocation()));
      if (R->isUnion()) J.attribute("union", true);
      J.attributeArray("bases", [&] { for (auto &B : R->bases()) J.value((int64_t)typeId(B.getType())); });
      J.attributeArray("fields", [&] { for (auto *Fd : R->fields()) { J.object([&]{ J.attribute("n", Fd->getNameAsString()); J.attribute("q", qname(Fd)); J.attribute("t", (int64_t)typeId(Fd->getType())); 
          if (Fd->hasInClassInitializer() && Fd->getInClassInitializer()) { J.attributeBegin("init"); expr(Fd->getInClassInitializer()); J.attributeEnd(); } }); } });
      J.attributeArray("methods", [&] { for (auto *M : R->methods()) { if (M->isImplicit()) continue; J.object([&]{ J.attribute("q", qname(M)); J.attribute("u", mangled(M)); J.attribute("acc", M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected"); if (M->isVirtual()) J.attribute("virt", true); if (M->isDeleted()) J.attribute("deleted", true); }); } });
    });
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRoot(E->getLocation())) return true;
    if (!Done.insert(E).second) return true;
    J.object([&] {
      J.attribute("D", "enum");
      J.attribute("q", qname(E));
      J.attributeArray("c", [&] { for (auto *C : E->enumerators()) { J.object([&]{ J.attribute("n", qname(C)); J.attribute("v", (int64_t)C->getInitVal().getExtValue()); }); } });
    });
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || isa<ParmVarDecl>(V)) return true;
    if (V->getDeclContext()->isDependentContext()) return true;
    if (!inRoot(V->getLocation())) return true;
    if (!Done.insert(V).second) return true;
    J.object([&] {
      J.attribute("D", "glob");
      J.attribute("q", qname(V));
      J.attribute("id", (int64_t)idOf(V));
      J.attribute("file", fileOf(V->getLocation()));
      J.attribute("l", (int64_t)lineOf(V->getLocation()));
      J.attribute("t", (int64_t)typeId(V->getType()));
      if (V->isThisDeclarationADefinition() != VarDecl::DeclarationOnly) J.attribute("def", true);
      if (V->getInit() && !V->getInit()->isValueDependent()) { J.attributeBegin("init"); expr(V->getInit()); J.attributeEnd(); }
    });
    return true;
  }
  void finish() {
    J.object([&] {
      J.attribute("D", "types");
      J.attributeArray("ts", [&] { for (auto &s : TypeList) J.value(fixUtf8(s)); });
    });
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasUncompilableErrorOccurred()) return;
    OStream J(llvm::outs());
    J.array([&] {
      Dumper D(C, J);
      D.TraverseDecl(C.getTranslationUnitDecl());
      D.finish();
    });
    llvm::outs() << "\n";
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char **argv) {
  std::string file; std::vector<std::string> flags; bool after = false;
  for (int i = 1; i < argc; ++i) {
    std::string a = argv[i];
    if (after) flags.push_back(a);
    else if (a == "--") after = true;
    else if (a.rfind("--root=", 0) == 0) Roots.push_back(a.substr(7));
    else if (a.rfind("--excl=", 0) == 0) Excl.push_back(a.substr(7));
    else file = a;
  }
  tooling::FixedCompilationDatabase DB(".", flags);
  tooling::ClangTool T(DB, {file});
  T.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster("-Wno-everything", tooling::ArgumentInsertPosition::BEGIN));
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
