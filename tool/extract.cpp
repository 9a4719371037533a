// AST extractor: dumps the resolved program (typed expression trees, macro expanded,
// callees resolved through type information) of every function defined in the
// repository as JSON, one record per function, plus record/enum layouts.
// usage: extract ROOT OUT.json KEEP SRC.cpp -- <compiler args>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/RecordLayout.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace js = llvm::json;

static std::string RepoRoot;
static std::string OutPath;
static std::vector<std::string> Keep; // path prefixes (relative to the repo root) to dump; empty = all

static std::string relpath(StringRef p) {
  std::string s = p.str();
  if (s.rfind("./", 0) == 0) s = s.substr(2);
  if (!RepoRoot.empty() && s.rfind(RepoRoot + "/", 0) == 0) s = s.substr(RepoRoot.size() + 1);
  return s;
}

static std::string norm(std::string s) {
  // collapse "x/../" segments
  for (;;) {
    size_t p = s.find("/../");
    if (p == std::string::npos || p == 0) return s;
    size_t q = s.rfind('/', p - 1);
    s = (q == std::string::npos ? std::string() : s.substr(0, q + 1)) + s.substr(p + 4);
  }
}

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  js::Array Funcs;
  js::Array Records, Enums, Globals;
  std::set<const Decl *> SeenF, SeenR;

  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true;
    PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
    PP.Bool = true;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = (int)Ids.size() + 1;
    Ids[D] = n;
    return n;
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }
  bool inRepo(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid() || SM.isInSystemHeader(L)) return false;
    PresumedLoc P = SM.getPresumedLoc(L);
    if (P.isInvalid()) return false;
    StringRef f = P.getFilename();
    if (f.starts_with("/usr/")) return false;
    if (Keep.empty()) return true;
    std::string r = norm(relpath(f));
    for (auto &k : Keep) if (r.rfind(k, 0) == 0) return true;
    return false;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isInvalid() ? "" : norm(relpath(P.getFilename()));
  }
  int line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    PresumedLoc P = SM.getPresumedLoc(L);
    return P.isInvalid() ? 0 : P.getLine();
  }
  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->getNameForDiagnostic(os, PP, true);
    // a function of one translation unit is not the one of the same name in another
    if (auto *F = dyn_cast<FunctionDecl>(D); F && !isa<CXXMethodDecl>(F) && F->getFormalLinkage() == Linkage::Internal) {
      std::string fl = file(F->getLocation());
      if (fl.size() > 4 && fl.substr(fl.size() - 4) == ".cpp") os << "@" << fl;
    }
    return os.str();
  }
  std::string sig(const FunctionDecl *F) {
    std::string s = "(";
    for (unsigned i = 0; i < F->getNumParams(); ++i) {
      if (i) s += ", ";
      s += ty(F->getParamDecl(i)->getType());
    }
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += " const";
    return s;
  }
  std::string macro(SourceLocation L) {
    if (!L.isMacroID()) return "";
    // outermost macro name
    SourceLocation E = L;
    std::string n;
    while (E.isMacroID()) {
      n = Lexer::getImmediateMacroName(E, SM, C.getLangOpts()).str();
      E = SM.getImmediateMacroCallerLoc(E);
    }
    return n;
  }
  js::Value nul() { return nullptr; }

  js::Value var(const VarDecl *V) {
    js::Object o{{"id", id(V)}, {"n", V->getNameAsString()}, {"t", ty(V->getType())}, {"l", line(V->getLocation())}};
    if (V->isStaticLocal()) o["static"] = true;
    if (V->hasInit()) o["init"] = expr(V->getInit());
    return o;
  }

  js::Array args(ArrayRef<const Expr *> A) {
    js::Array r;
    for (auto *e : A) r.push_back(expr(e));
    return r;
  }
  template <class R> js::Array argsR(R Rg) {
    js::Array r;
    for (auto *e : Rg) r.push_back(expr(e));
    return r;
  }

  js::Value expr(const Expr *E) {
    if (!E) return nul();
    js::Object o;
    o["t"] = ty(E->getType());
    o["l"] = line(E->getBeginLoc());
    auto K = [&](const char *k) { o["k"] = k; };
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<FullExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) { return expr(X->getExpr()); }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { return expr(X->getExpr()); }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { K("int"); llvm::SmallString<32> s; X->getValue().toString(s, 10, X->getType()->isSignedIntegerType()); o["v"] = s.str().str(); return o; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { K("int"); o["v"] = std::to_string(X->getValue()); return o; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { K("bool"); o["v"] = X->getValue(); return o; }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) { K("real"); o["v"] = X->getValueAsApproximateDouble(); return o; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { K("str"); if (X->getCharByteWidth() == 1) { std::string s = X->getString().str(); if (js::isUTF8(s)) o["v"] = s; else o["v"] = "?"; } return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { K("null"); return o; }
    if (isa<CXXThisExpr>(E)) { K("this"); return o; }
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = X->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        K("int"); o["enum"] = qname(EC);
        llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = s.str().str();
        return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) { K("fn"); o["f"] = qname(F); o["sig"] = sig(F); return o; }
      K("var"); o["id"] = id(D); o["n"] = D->getNameAsString();
      if (auto *V = dyn_cast<VarDecl>(D)) if (!V->isLocalVarDeclOrParm()) { o["g"] = qname(V);
          if (V->getType().isConstQualified() && V->getType()->isArithmeticType()) if (const Expr *I = V->getAnyInitializer()) if (!I->isValueDependent()) { Expr::EvalResult R; if (I->EvaluateAsRValue(R, C)) { if (R.Val.isInt()) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["cv"] = s.str().str(); } else if (R.Val.isFloat()) o["cf"] = R.Val.getFloat().convertToDouble(); } } }
      return o;
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl())) { K("fn"); o["f"] = qname(F); o["sig"] = sig(F); return o; }
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) { K("var"); o["id"] = id(V); o["n"] = V->getNameAsString(); o["g"] = qname(V); return o; }
      K("mem"); o["b"] = expr(X->getBase()); o["arrow"] = X->isArrow(); o["f"] = X->getMemberDecl()->getNameAsString();
      if (auto *FD = dyn_cast<FieldDecl>(X->getMemberDecl())) o["own"] = qname(FD->getParent());
      return o;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      if (X->getOpcode() == UO_Extension) return expr(X->getSubExpr());
      K("un"); o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str() + (X->isPostfix() ? "p" : ""); o["e"] = expr(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      K("asg"); o["op"] = BinaryOperator::getOpcodeStr(X->getOpcode()).str(); o["ct"] = ty(X->getComputationResultType()); o["clt"] = ty(X->getComputationLHSType());
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); return o; }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      K(X->isAssignmentOp() ? "asg" : "bin"); o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); return o; }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      K("cond"); o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr()); return o; }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { K("idx"); o["b"] = expr(X->getBase()); o["i"] = expr(X->getIdx()); return o; }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      if (auto *M = X->getMethodDecl()) {
        K("mcall"); o["f"] = qname(M); o["sig"] = sig(M); if (M->isVirtual()) o["virt"] = true;
        const Expr *Ob = X->getImplicitObjectArgument();
        o["o"] = expr(Ob); o["oarrow"] = Ob->getType()->isPointerType(); o["a"] = argsR(X->arguments()); 
        if (M->isConst()) o["const"] = true;
        return o;
      }
      // pointer to member call
      K("pmcall"); o["c"] = expr(X->getCallee()); o["a"] = argsR(X->arguments()); return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      if (auto *F = dyn_cast_or_null<FunctionDecl>(X->getCalleeDecl())) {
        if (auto *M = dyn_cast<CXXMethodDecl>(F); M && M->isInstance()) {
          K("mcall"); o["f"] = qname(M); o["sig"] = sig(M); o["o"] = expr(X->getArg(0)); o["oarrow"] = false; o["opc"] = true;
          js::Array a; for (unsigned i = 1; i < X->getNumArgs(); ++i) a.push_back(expr(X->getArg(i)));
          o["a"] = std::move(a); if (M->isConst()) o["const"] = true; return o;
        }
        K("call"); o["f"] = qname(F); o["sig"] = sig(F); o["a"] = argsR(X->arguments()); return o;
      }
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      if (auto *F = dyn_cast_or_null<FunctionDecl>(X->getCalleeDecl())) {
        if (F->getNameAsString() == "__builtin_expect") return expr(X->getArg(0));
        K("call"); o["f"] = qname(F); o["sig"] = sig(F); o["a"] = argsR(X->arguments());
        std::string m = macro(X->getBeginLoc()); if (!m.empty()) o["mac"] = m;
        return o;
      }
      K("icall"); o["c"] = expr(X->getCallee()); o["a"] = argsR(X->arguments()); return o;
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      K("ctor"); o["f"] = qname(X->getConstructor()); o["sig"] = sig(X->getConstructor()); o["cls"] = qname(X->getConstructor()->getParent());
      if (X->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      if (X->getConstructor()->isTrivial() || X->getConstructor()->isDefaulted()) o["triv"] = true;
      if (X->isElidable()) o["elid"] = true;
      o["a"] = argsR(X->arguments()); return o; }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) { K("new"); o["nt"] = ty(X->getAllocatedType()); if (X->getInitializer()) o["init"] = expr(X->getInitializer()); if (X->isArray() && X->getArraySize()) o["n"] = expr(*X->getArraySize()); 
      js::Array a; for (auto *p : X->placement_arguments()) a.push_back(expr(p)); o["pl"] = std::move(a); return o; }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { K("delete"); o["e"] = expr(X->getArgument()); return o; }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      CastKind k = X->getCastKind();
      if (k == CK_NoOp || k == CK_FunctionToPointerDecay || k == CK_ConstructorConversion || k == CK_UserDefinedConversion) { 
        if (k == CK_NoOp && !isa<ImplicitCastExpr>(X)) { }
        return expr(X->getSubExpr()); }
      K("cast"); o["ck"] = X->getCastKindName(); o["e"] = expr(X->getSubExpr());
      if (isa<ExplicitCastExpr>(X)) o["ex"] = true;
      return o;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) { K("int"); llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["v"] = s.str().str(); 
        if (X->isArgumentType()) o["sizeof"] = ty(X->getArgumentType()); else o["sizeof"] = ty(X->getArgumentExpr()->getType());
        return o; }
      K("other"); o["cls"] = "sizeof"; return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) { K("ilist"); js::Array a; for (auto *i : X->inits()) a.push_back(expr(i)); o["a"] = std::move(a); return o; }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { K("zero"); return o; }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<LambdaExpr>(E)) { K("lambda"); js::Array ps; for (auto *p : X->getCallOperator()->parameters()) ps.push_back(var(p)); o["ps"] = std::move(ps); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { K("throw"); if (X->getSubExpr()) o["e"] = expr(X->getSubExpr()); return o; }
    K("other"); o["cls"] = E->getStmtClassName();
    js::Array ch; for (const Stmt *s : E->children()) { if (!s) continue; if (auto *e = dyn_cast<Expr>(s)) ch.push_back(expr(e)); }
    o["a"] = std::move(ch);
    return o;
  }

  js::Value stmt(const Stmt *S) {
    if (!S) return nul();
    js::Object o;
    o["l"] = line(S->getBeginLoc());
    auto K = [&](const char *k) { o["k"] = k; };
    if (auto *X = dyn_cast<Expr>(S)) { K("expr"); o["e"] = expr(X); return o; }
    if (auto *X = dyn_cast<CompoundStmt>(S)) { K("block"); js::Array a; for (auto *s : X->body()) a.push_back(stmt(s)); o["b"] = std::move(a); return o; }
    if (auto *X = dyn_cast<DeclStmt>(S)) { K("decl"); js::Array a; for (auto *d : X->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["v"] = std::move(a); return o; }
    if (auto *X = dyn_cast<IfStmt>(S)) { K("if"); std::string m = macro(X->getBeginLoc()); if (!m.empty()) o["mac"] = m;
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariable()) o["cv"] = var(X->getConditionVariable());
      o["c"] = expr(X->getCond()); o["a"] = stmt(X->getThen()); o["b"] = stmt(X->getElse()); return o; }
    if (auto *X = dyn_cast<ForStmt>(S)) { K("for"); o["init"] = stmt(X->getInit()); o["c"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<WhileStmt>(S)) { K("while"); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) { K("do"); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) { K("rfor"); o["v"] = var(X->getLoopVariable()); o["r"] = expr(X->getRangeInit()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { K("ret"); if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return o; }
    if (isa<BreakStmt>(S)) { K("break"); return o; }
    if (isa<ContinueStmt>(S)) { K("continue"); return o; }
    if (auto *X = dyn_cast<SwitchStmt>(S)) { K("switch"); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CaseStmt>(S)) { K("case"); o["v"] = expr(X->getLHS()); o["s"] = stmt(X->getSubStmt());
       Expr::EvalResult R; if (!X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, C)) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); o["cv"] = s.str().str(); } return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { K("default"); o["s"] = stmt(X->getSubStmt()); return o; }
    if (isa<NullStmt>(S)) { K("nop"); return o; }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { K("label"); o["n"] = X->getName(); o["s"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<GotoStmt>(S)) { K("goto"); o["n"] = X->getLabel()->getNameAsString(); return o; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) { K("try"); o["b"] = stmt(X->getTryBlock()); return o; }
    K("other"); o["cls"] = S->getStmtClassName();
    return o;
  }

  void func(const FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() || F->isDependentContext()) return;
    if (!F->getBody()) return;
    SourceLocation L = F->getLocation();
    if (F->isTemplateInstantiation()) if (auto *P = F->getTemplateInstantiationPattern()) L = P->getLocation();
    if (!inRepo(L)) return;
    if (F->isImplicit() && !F->isUserProvided()) return;
    if (!SeenF.insert(F->getCanonicalDecl()).second) return;
    js::Object o;
    o["f"] = qname(F); o["sig"] = sig(F); o["file"] = file(L); o["l"] = line(L); o["ret"] = ty(F->getReturnType());
    o["el"] = line(F->getBody()->getEndLoc());
    if (F->isTemplateInstantiation()) o["inst"] = true;
    js::Array ps;
    for (auto *p : F->parameters()) { js::Object q{{"id", id(p)}, {"n", p->getNameAsString()}, {"t", ty(p->getType())}}; if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) q["def"] = expr(p->getDefaultArg()); ps.push_back(std::move(q)); }
    o["ps"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = qname(M->getParent()); if (M->isStatic()) o["static"] = true; if (M->isConst()) o["const"] = true;
      if (M->isVirtual()) o["virt"] = true;
      switch (M->getAccess()) { case AS_public: o["acc"] = "public"; break; case AS_protected: o["acc"] = "protected"; break; case AS_private: o["acc"] = "private"; break; default: break; }
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      js::Array in;
      for (auto *I : CD->inits()) {
        js::Object q;
        if (I->isMemberInitializer()) q["f"] = I->getMember()->getNameAsString();
        else if (I->isBaseInitializer()) q["base"] = ty(QualType(I->getBaseClass(), 0));
        q["w"] = I->isWritten();
        q["e"] = expr(I->getInit());
        in.push_back(std::move(q));
      }
      o["inits"] = std::move(in);
    }
    o["body"] = stmt(F->getBody());
    Funcs.push_back(std::move(o));
  }
  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return;
    if (!inRepo(R->getLocation())) return;
    if (!SeenR.insert(R->getCanonicalDecl()).second) return;
    js::Object o; o["n"] = qname(R); o["file"] = file(R->getLocation()); o["l"] = line(R->getLocation());
    js::Array fs; for (auto *f : R->fields()) { js::Object q{{"n", f->getNameAsString()}, {"t", ty(f->getType())}}; if (f->hasInClassInitializer() && f->getInClassInitializer()) q["init"] = expr(f->getInClassInitializer()); fs.push_back(std::move(q)); }
    o["fields"] = std::move(fs);
    js::Array bs; for (auto &b : R->bases()) bs.push_back(ty(b.getType())); o["bases"] = std::move(bs);
    js::Array ms; for (auto *m : R->methods()) { if (m->isImplicit()) continue; js::Object q{{"n", qname(m)}, {"sig", sig(m)}}; q["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private"; if (m->isStatic()) q["static"] = true; ms.push_back(std::move(q)); }
    o["methods"] = std::move(ms);
    Records.push_back(std::move(o));
  }
  void enm(const EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !inRepo(E->getLocation())) return;
    js::Object o; o["n"] = qname(E); o["file"] = file(E->getLocation());
    js::Array a; for (auto *c : E->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s, 10); a.push_back(js::Object{{"n", c->getNameAsString()}, {"v", s.str().str()}}); }
    o["c"] = std::move(a); Enums.push_back(std::move(o));
  }
};

class Vis : public RecursiveASTVisitor<Vis> {
public:
  Dumper &D;
  Vis(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) { D.func(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { D.record(R); return true; }
  bool VisitEnumDecl(EnumDecl *E) { D.enm(E); return true; }
  bool TraverseLambdaExpr(LambdaExpr *) { return true; }
  bool VisitVarDecl(VarDecl *V) {
    if (V->isFileVarDecl() && V->hasInit() && !V->getDeclContext()->isDependentContext() && D.inRepo(V->getLocation()) && V->isThisDeclarationADefinition() == VarDecl::Definition && !V->getType()->isDependentType()) {
      js::Object o{{"n", D.qname(V)}, {"t", D.ty(V->getType())}, {"file", D.file(V->getLocation())}, {"l", D.line(V->getLocation())}};
      if (!V->getInit()->isTypeDependent() && !V->getInit()->isValueDependent()) { o["init"] = D.expr(V->getInit()); D.Globals.push_back(std::move(o)); }
    }
    return true;
  }
};
class Cons : public ASTConsumer {
public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    Vis V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    js::Object o; o["functions"] = std::move(D.Funcs); o["records"] = std::move(D.Records); o["enums"] = std::move(D.Enums); o["globals"] = std::move(D.Globals);
    std::error_code EC; llvm::raw_fd_ostream os(OutPath, EC);
    os << js::Value(std::move(o));
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override {
    CI.getDiagnostics().setSuppressAllDiagnostics(false);
    return std::make_unique<Cons>(); }
};
int main(int argc, char **argv) {
  // extract ROOT OUT KEEP(comma separated or -) SRC -- args
  if (argc < 6) return 2;
  RepoRoot = argv[1]; OutPath = argv[2]; std::string src = argv[4];
  std::string k = argv[3];
  if (k != "-") for (size_t p = 0; p <= k.size();) { size_t q = k.find(',', p); if (q == std::string::npos) q = k.size(); Keep.push_back(k.substr(p, q - p)); p = q + 1; }
  std::vector<std::string> a;
  for (int i = 6; i < argc; ++i) a.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase DB(RepoRoot, a);
  clang::tooling::ClangTool T(DB, {src});
  return T.run(clang::tooling::newFrontendActionFactory<Act>().get());
}
