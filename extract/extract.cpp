// Resolved-program extractor: parses one translation unit of /repo with clang's
// front end and prints, as JSON, the type-checked body of every function defined in
// /repo (member functions, templates as instantiated, lambdas inline), every record,
// enum and variable with static storage.  Implicit nodes that do not change meaning
// are dropped; numeric conversions, copies/moves and resolved callees are kept.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;

static std::string Root;  // repository root (with trailing slash)

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<const Decl *, int> Ids;
  explicit Dumper(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.SuppressUnwrittenScope = true;
    PP.PrintCanonicalTypes = true; PP.Bool = true; PP.SuppressDefaultTemplateArgs = false;
    PP.TerseOutput = true; PP.PolishForDeclaration = true;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = Ids.find(D);
    if (it != Ids.end()) return it->second;
    int n = Ids.size() + 1; Ids[D] = n; return n;
  }
  std::string type(QualType T) {
    if (T.isNull()) return "?";
    return T.getCanonicalType().getAsString(PP);
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    std::string s = F.str();
    if (s.rfind(Root, 0) == 0) s = s.substr(Root.size());
    return s;
  }
  bool inRepo(SourceLocation L) {
    if (L.isInvalid()) return false;
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    if (F.contains("/verif/specs/") || F.contains("/specs/spec_")) return true;
    return F.starts_with(Root) && (F.substr(Root.size()).starts_with("src/") ||
                                   F.substr(Root.size()).starts_with("include/"));
  }
  int line(SourceLocation L) { return (int)SM.getExpansionLineNumber(L); }

  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    D->getNameForDiagnostic(os, PP, true);
    os.flush();
    return s;
  }
  // readable unique key of a function: name, template args, parameter types, const
  std::string fkey(const FunctionDecl *F) {
    std::string s;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      s = recname(M->getParent()) + "::";
      if (isa<CXXConstructorDecl>(M)) s += M->getParent()->getNameAsString();
      else if (isa<CXXDestructorDecl>(M)) s += "~" + M->getParent()->getNameAsString();
      else if (isa<CXXConversionDecl>(M)) s += "operator " + type(M->getReturnType());
      else s += M->getNameAsString();
    } else {
      s = F->getQualifiedNameAsString();
      if (!F->isExternallyVisible() && SM.getFilename(SM.getExpansionLoc(F->getLocation())).ends_with(".cpp"))
        s += "@" + file(F->getLocation());
    }
    if (auto *A = F->getTemplateSpecializationArgs()) {
      s += "<";
      for (unsigned i = 0; i < A->size(); ++i) {
        if (i) s += ", ";
        std::string t; llvm::raw_string_ostream os(t);
        A->get(i).print(PP, os, true); os.flush(); s += t;
      }
      s += ">";
    }
    s += "(";
    for (unsigned i = 0; i < F->getNumParams(); ++i) {
      if (i) s += ", ";
      s += type(F->getParamDecl(i)->getType());
    }
    if (F->isVariadic()) s += "...";
    s += ")";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) s += " const";
    return s;
  }
  std::string recname(const RecordDecl *R) {
    if (auto *CR = dyn_cast<CXXRecordDecl>(R))
      if (CR->isLambda()) return "lambda@" + file(CR->getLocation()) + ":" + std::to_string(line(CR->getLocation()));
    return type(C.getRecordType(R));
  }
  // short name without arguments
  std::string fname(const FunctionDecl *F) {
    std::string s = fkey(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      std::string n = isa<CXXConstructorDecl>(M) ? M->getParent()->getNameAsString() :
        isa<CXXDestructorDecl>(M) ? "~" + M->getParent()->getNameAsString() :
        isa<CXXConversionDecl>(M) ? "operator " + type(M->getReturnType()) : M->getNameAsString();
      return recname(M->getParent()) + "::" + n;
    }
    return F->getQualifiedNameAsString();
  }

  static std::string its(const llvm::APSInt &v) { llvm::SmallString<32> s; v.toString(s, 10); return s.str().str(); }
  json::Value nul() { return json::Value(nullptr); }
  json::Object node(const char *k, const Stmt *S) {
    json::Object o; o["k"] = k;
    SourceLocation L = S->getBeginLoc();
    o["l"] = line(L);
    return o;
  }
  json::Object enode(const char *k, const Expr *E) {
    auto o = node(k, E); o["l"] = line(E->getExprLoc()); o["t"] = type(E->getType());
    return o;
  }
  json::Array args(const CallExpr *E, unsigned from = 0) {
    json::Array a;
    for (unsigned i = from; i < E->getNumArgs(); ++i) a.push_back(expr(E->getArg(i)));
    return a;
  }
  json::Array statics;
  std::set<const Decl *> staticSeen;
  json::Object globalvar(const VarDecl *X) {
    json::Object o; o["n"] = X->getQualifiedNameAsString(); o["t"] = type(X->getType());
    o["file"] = file(X->getLocation()); o["l"] = line(X->getLocation());
    o["const"] = X->getType().isConstQualified() || X->isConstexpr();
    o["staticlocal"] = X->isStaticLocal();
    o["threadlocal"] = X->getTLSKind() != VarDecl::TLS_None;
    if (X->getInit()) o["init"] = expr(X->getInit());
    return o;
  }
  json::Value varinfo(const VarDecl *V) {
    if (V->isStaticLocal() && staticSeen.insert(V).second) statics.push_back(globalvar(V));
    json::Object o;
    o["d"] = id(V); o["n"] = V->getNameAsString(); o["t"] = type(V->getType());
    o["l"] = line(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->isConstexpr()) o["constexpr"] = true;
    return o;
  }
  void callee(json::Object &o, const FunctionDecl *F) {
    if (!F) return;
    o["fn"] = fkey(F); o["n"] = fname(F); o["rt"] = type(F->getReturnType());
    json::Array pt;
    for (auto *p : F->parameters()) pt.push_back(type(p->getType()));
    o["pt"] = std::move(pt);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isConst()) o["mconst"] = true;
      if (M->isStatic()) o["mstatic"] = true;
      o["cls"] = recname(M->getParent());
    }
    const FunctionDecl *P = F->getTemplateInstantiationPattern();
    const FunctionDecl *D = P ? P : F;
    if (inRepo(D->getLocation())) o["repo"] = true;
  }
  const Expr *strip(const Expr *E) {
    while (true) {
      if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<FullExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
      else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
      else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
      else if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) E = X->getCommonExpr()->getSourceExpr();
      else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) { if (!X->getSourceExpr()) return E; E = X->getSourceExpr(); }
      else return E;
    }
  }
  json::Value expr(const Expr *E) {
    if (!E) return nul();
    E = strip(E);
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      auto o = enode("int", X); llvm::SmallString<32> s;
      X->getValue().toString(s, 10, X->getType()->isSignedIntegerType());
      o["v"] = s.str().str(); return o;
    }
    if (auto *X = dyn_cast<FloatingLiteral>(E)) {
      auto o = enode("flt", X);
      llvm::SmallString<40> s; X->getValue().toString(s, 17, 0); o["v"] = s.str().str(); return o;
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = enode("bool", X); o["v"] = X->getValue(); return o; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { auto o = enode("int", X); o["v"] = std::to_string((long)X->getValue()); o["chr"] = true; return o; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { auto o = enode("str", X);
      o["v"] = X->getCharByteWidth() == 1 ? json::fixUTF8(X->getString()) : std::string("?"); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return enode("null", E);
    if (auto *X = dyn_cast<PredefinedExpr>(E)) return enode("str", X);
    if (auto *X = dyn_cast<DeclRefExpr>(E)) return declref(X->getDecl(), X);
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      auto *D = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) return declref(V, X);
      if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
        auto o = enode("mfn", X); o["b"] = expr(X->getBase()); callee(o, M); return o;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) return declref(EC, X);
      auto o = enode("mem", X);
      o["b"] = expr(X->getBase()); o["f"] = D->getNameAsString();
      o["arrow"] = X->isArrow();
      if (auto *FD = dyn_cast<FieldDecl>(D)) o["cls"] = recname(FD->getParent());
      return o;
    }
    if (isa<CXXThisExpr>(E)) { auto o = enode("this", E); return o; }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto o = enode("call", X);
      auto *F = X->getDirectCallee();
      o["op"] = getOperatorSpelling(X->getOperator());
      callee(o, F);
      auto *M = dyn_cast_or_null<CXXMethodDecl>(F);
      if (M && !M->isStatic()) { o["obj"] = expr(X->getArg(0)); o["a"] = args(X, 1); 
        if (M->isVirtual()) o["virt"] = true; }
      else o["a"] = args(X);
      if (!F) o["fe"] = expr(X->getCallee());
      return o;
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto o = enode("call", X);
      auto *M = X->getMethodDecl(); callee(o, M);
      if (auto *ME = dyn_cast<MemberExpr>(strip(X->getCallee()))) {
        o["obj"] = expr(ME->getBase()); o["arrow"] = ME->isArrow();
        if (M && M->isVirtual() && !ME->hasQualifier()) o["virt"] = true;
      } else o["fe"] = expr(X->getCallee());
      if (auto *CD = dyn_cast_or_null<CXXConversionDecl>(M)) o["conv"] = type(CD->getConversionType());
      o["a"] = args(X); return o;
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      auto o = enode("call", X);
      auto *F = X->getDirectCallee(); callee(o, F);
      if (!F) o["fe"] = expr(X->getCallee());
      o["a"] = args(X); return o;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) { auto o = enode("ctor", X); callee(o, X->getConstructor()); o["inh"] = true; o["a"] = json::Array(); return o; }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      auto *K = X->getConstructor();
      // elidable copies of a temporary, as C++17 materialises them
      if (X->isElidable() && X->getNumArgs() >= 1) return expr(X->getArg(0));
      auto o = enode("ctor", X); callee(o, K);
      if (K->isCopyConstructor()) o["copy"] = true;
      if (K->isMoveConstructor()) o["move"] = true;
      if (K->isDefaultConstructor()) o["default"] = true;
      if (K->isDefaulted()) o["defaulted"] = true;
      if (X->isListInitialization()) o["list"] = true;
      json::Array a; for (auto *e : X->arguments()) a.push_back(expr(e));
      o["a"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<CXXScalarValueInitExpr>(E)) return enode("zero", X);
    if (auto *X = dyn_cast<ImplicitValueInitExpr>(E)) return enode("zero", X);
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      auto o = enode("un", X); o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = true;
      o["e"] = expr(X->getSubExpr()); return o;
    }
    if (auto *X = dyn_cast<CompoundAssignOperator>(E)) {
      auto o = enode("asg", X); o["op"] = X->getOpcodeStr().str();
      o["ct"] = type(X->getComputationResultType());
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); return o;
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      auto o = enode(X->isAssignmentOp() ? "asg" : "bin", X); o["op"] = X->getOpcodeStr().str();
      o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS()); return o;
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E)) {
      auto o = enode("cond", X); o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr());
      o["b"] = expr(X->getFalseExpr()); return o;
    }
    if (auto *X = dyn_cast<ImplicitCastExpr>(E)) {
      switch (X->getCastKind()) {
        case CK_IntegralCast: case CK_FloatingToIntegral: case CK_IntegralToFloating:
        case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean:
        case CK_FloatingCast: case CK_BooleanToSignedIntegral: {
          if (X->getCastKind() == CK_IntegralCast || X->getCastKind() == CK_IntegralToFloating) {
            // constants convert silently
          }
          auto o = enode("cast", X); o["ck"] = X->getCastKindName(); o["imp"] = true;
          o["e"] = expr(X->getSubExpr()); return o;
        }
        case CK_NullToPointer: return enode("null", X);
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase: {
          auto o = enode("up", X); o["e"] = expr(X->getSubExpr()); return o;
        }
        default: return expr(X->getSubExpr());
      }
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E)) {
      auto *S = X->getSubExpr();
      if (X->getCastKind() == CK_ConstructorConversion || X->getCastKind() == CK_UserDefinedConversion)
        return expr(S);
      if (X->getCastKind() == CK_NoOp && X->getType()->isRecordType()) return expr(S);
      auto o = enode("cast", X); o["ck"] = X->getCastKindName();
      if (isa<CXXConstCastExpr>(X)) o["constcast"] = true;
      if (isa<CXXReinterpretCastExpr>(X)) o["reinterpret"] = true;
      if (isa<CXXDynamicCastExpr>(X)) o["dyn"] = true;
      if (isa<CStyleCastExpr>(X)) o["cstyle"] = true;
      o["e"] = expr(S); return o;
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      auto o = enode("idx", X); o["a"] = expr(X->getBase()); o["b"] = expr(X->getIdx()); return o;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      auto o = enode("new", X); o["nt"] = type(X->getAllocatedType());
      if (X->isArray()) o["arr"] = true;
      if (X->getNumPlacementArgs()) o["placement"] = true;
      if (auto *I = X->getInitializer()) o["init"] = expr(I); return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) { auto o = enode("delete", X); o["e"] = expr(X->getArgument()); return o; }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      auto o = enode("throw", X);
      if (X->getSubExpr()) { o["e"] = expr(X->getSubExpr()); o["et"] = type(X->getSubExpr()->getType());
        json::Array bs; if (auto *R = X->getSubExpr()->getType()->getAsCXXRecordDecl()) addbases(R, bs);
        o["ebases"] = std::move(bs); }
      return o;
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      auto o = enode("ilist", X); json::Array a;
      auto *S = X->isSemanticForm() ? X : (X->getSemanticForm() ? X->getSemanticForm() : X);
      for (auto *e : S->inits()) a.push_back(expr(e));
      o["a"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) return lambda(X);
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      auto o = enode("sizeof", X); Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) o["v"] = its(R.Val.getInt()); return o;
    }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) { auto o = enode("bool", X); o["v"] = X->getValue(); return o; }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) return enode("typeid", X);
    if (auto *X = dyn_cast<StmtExpr>(E)) { auto o = enode("stmtexpr", X); o["s"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<CXXFoldExpr>(E)) return enode("fold", X);
    auto o = enode("unknown", E); o["cls"] = E->getStmtClassName();
    json::Array a; for (auto *c : E->children()) if (c) { if (auto *ce = dyn_cast<Expr>(c)) a.push_back(expr(ce)); }
    o["a"] = std::move(a); return o;
  }
  void addbases(const CXXRecordDecl *R, json::Array &bs) {
    if (!R->hasDefinition()) return;
    for (auto &b : R->bases()) if (auto *B = b.getType()->getAsCXXRecordDecl()) { bs.push_back(recname(B)); addbases(B, bs); }
  }
  json::Value declref(const ValueDecl *D, const Expr *E) {
    auto o = enode("ref", E);
    o["n"] = D->getNameAsString();
    if (auto *P = dyn_cast<ParmVarDecl>(D)) { o["dk"] = "param"; o["d"] = id(P); }
    else if (auto *V = dyn_cast<VarDecl>(D)) {
      o["d"] = id(V);
      if (V->hasGlobalStorage()) {
        o["dk"] = V->isStaticLocal() ? "static" : "global"; o["qn"] = V->getQualifiedNameAsString();
        o["ct"] = type(V->getType());
        Expr::EvalResult R;
        if ((V->getType().isConstQualified() || V->isConstexpr()) && (V->getType()->isArithmeticType() || V->getType()->isEnumeralType())) {
          const VarDecl *DV = nullptr; auto *I = V->getAnyInitializer(DV);
          if (I && DV && !I->isValueDependent() && !V->getType()->isReferenceType()) {
            if (auto *A = DV->evaluateValue()) {
              if (A->isInt()) { o["cv"] = its(A->getInt()); o["cvt"] = "int"; }
              else if (A->isFloat()) { llvm::SmallString<40> s; A->getFloat().toString(s, 17, 0); o["cv"] = s.str().str(); o["cvt"] = "flt"; }
            }
          }
        }
      } else o["dk"] = "var";
    }
    else if (auto *F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "func"; callee(o, F); o["n"] = fname(F); }
    else if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
      o["dk"] = "enumc"; o["qn"] = EC->getQualifiedNameAsString(); 
      o["v"] = its(EC->getInitVal());
      o["et"] = type(EC->getType());
    }
    else if (auto *B = dyn_cast<BindingDecl>(D)) { o["dk"] = "bind"; o["d"] = id(B); }
    else { o["dk"] = "other"; o["d"] = id(D); }
    return o;
  }
  json::Value lambda(const LambdaExpr *X) {
    auto o = enode("lambda", X);
    json::Array caps;
    unsigned i = 0; auto inits = X->capture_init_begin();
    for (auto &c : X->captures()) {
      json::Object co;
      if (c.capturesThis()) co["this"] = true;
      else if (c.capturesVariable()) { auto *V = c.getCapturedVar(); co["d"] = id(V); co["n"] = V->getNameAsString();
        if (auto *VD = dyn_cast<VarDecl>(V)) if (VD->isInitCapture()) co["init"] = expr(VD->getInit()); }
      co["ref"] = c.getCaptureKind() == LCK_ByRef;
      caps.push_back(std::move(co)); ++i; (void)inits;
    }
    o["caps"] = std::move(caps);
    const CXXMethodDecl *M = X->getCallOperator();
    std::vector<const CXXMethodDecl *> ms;
    if (auto *FT = M->getDescribedFunctionTemplate()) { for (auto *s : FT->specializations()) ms.push_back(cast<CXXMethodDecl>(s)); }
    else ms.push_back(M);
    json::Array bodies;
    for (auto *m : ms) {
      if (!m->hasBody()) continue;
      json::Object f; f["fn"] = fkey(m); f["params"] = params(m); f["rt"] = type(m->getReturnType());
      f["mutable"] = !m->isConst();
      f["body"] = stmt(m->getBody()); bodies.push_back(std::move(f));
    }
    o["bodies"] = std::move(bodies);
    return o;
  }
  json::Array params(const FunctionDecl *F) {
    json::Array a;
    for (auto *P : F->parameters()) {
      json::Object o; o["d"] = id(P); o["n"] = P->getNameAsString(); o["t"] = type(P->getType());
      const Expr *de = nullptr;
      if (P->hasUninstantiatedDefaultArg()) de = nullptr; else if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg()) de = P->getDefaultArg();
      if (de) o["def"] = expr(de);
      a.push_back(std::move(o));
    }
    return a;
  }
  json::Value stmt(const Stmt *S) {
    if (!S) return nul();
    if (auto *E = dyn_cast<Expr>(S)) { auto o = node("expr", S); o["e"] = expr(E); return o; }
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      auto o = node("block", X); json::Array a; for (auto *c : X->body()) a.push_back(stmt(c));
      o["s"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      auto o = node("decl", X); json::Array a;
      for (auto *D : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(D)) {
          json::Object v; v["v"] = varinfo(V); if (V->getInit()) v["init"] = expr(V->getInit());
          if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array bs; for (auto *b : DD->bindings()) { json::Object bo; bo["d"] = id(b); bo["n"] = b->getNameAsString(); bo["t"] = type(b->getType());
              if (auto *be = b->getBinding()) bo["e"] = expr(be); if (auto *hv = b->getHoldingVar()) { bo["hv"] = id(hv); if (hv->getInit()) bo["hinit"] = expr(hv->getInit()); }
              bs.push_back(std::move(bo)); }
            v["binds"] = std::move(bs);
          }
          a.push_back(std::move(v));
        }
      }
      o["vars"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      auto o = node("if", X);
      if (X->isConstexpr()) o["constexpr"] = true;
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      o["c"] = expr(X->getCond());
      { Expr::EvalResult R; if (!X->getCond()->isValueDependent() && X->getCond()->EvaluateAsBooleanCondition(*(new bool), C)) { bool b; X->getCond()->EvaluateAsBooleanCondition(b, C); o["cc"] = b; } }
      o["a"] = stmt(X->getThen());
      if (X->getElse()) o["b"] = stmt(X->getElse()); return o;
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      auto o = node("for", X); o["init"] = stmt(X->getInit());
      o["c"] = X->getCond() ? expr(X->getCond()) : nul();
      o["inc"] = X->getInc() ? expr(X->getInc()) : nul(); o["body"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      auto o = node("while", X);
      if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) { auto o = node("do", X); o["c"] = expr(X->getCond()); o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      auto o = node("rfor", X); o["v"] = varinfo(X->getLoopVariable());
      if (auto *DD = dyn_cast<DecompositionDecl>(X->getLoopVariable())) {
        json::Array bs; for (auto *b : DD->bindings()) { json::Object bo; bo["d"] = id(b); bo["n"] = b->getNameAsString(); bo["t"] = type(b->getType()); bs.push_back(std::move(bo)); }
        o["binds"] = std::move(bs);
      }
      o["range"] = expr(X->getRangeInit());
      o["rt"] = type(X->getRangeInit()->getType());
      // the dereference of the iterator, to know whether the element is a copy
      o["vi"] = expr(X->getLoopVariable()->getInit());
      if (auto *B = X->getBeginStmt()) o["begin"] = stmt(B);
      o["body"] = stmt(X->getBody()); return o;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      auto o = node("switch", X); o["c"] = expr(X->getCond()); o["ct"] = type(strip(X->getCond()->IgnoreParenImpCasts())->getType());
      o["body"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      auto o = node("case", X); o["c"] = expr(X->getLHS()); o["s"] = stmt(X->getSubStmt());
      Expr::EvalResult R; if (X->getLHS()->EvaluateAsInt(R, C)) o["v"] = its(R.Val.getInt());
      return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { auto o = node("default", X); o["s"] = stmt(X->getSubStmt()); return o; }
    if (isa<BreakStmt>(S)) return node("break", S);
    if (isa<ContinueStmt>(S)) return node("continue", S);
    if (auto *X = dyn_cast<ReturnStmt>(S)) { auto o = node("return", X); if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return o; }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      auto o = node("try", X); o["body"] = stmt(X->getTryBlock()); json::Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) { auto *H = X->getHandler(i); json::Object h;
        h["ct"] = H->getCaughtType().isNull() ? std::string("...") : type(H->getCaughtType());
        if (H->getExceptionDecl()) h["v"] = varinfo(H->getExceptionDecl());
        h["body"] = stmt(H->getHandlerBlock()); hs.push_back(std::move(h)); }
      o["handlers"] = std::move(hs); return o; }
    if (isa<NullStmt>(S)) return node("nop", S);
    auto o = node("ustmt", S); o["cls"] = S->getStmtClassName(); return o;
  }
  json::Value function(const FunctionDecl *F) {
    json::Object o;
    callee(o, F);
    o["file"] = file(F->getLocation()); o["l"] = line(F->getLocation());
    o["el"] = line(F->getEndLoc());
    o["params"] = params(F);
    // default arguments live on the first declaration
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["kind"] = isa<CXXConstructorDecl>(F) ? "ctor" : isa<CXXDestructorDecl>(F) ? "dtor" : "method";
      if (M->isVirtual()) o["virtual"] = true;
      json::Array ov; for (auto *m : M->overridden_methods()) ov.push_back(fkey(m)); o["over"] = std::move(ov);
      switch (M->getAccess()) { case AS_public: o["access"] = "public"; break; case AS_protected: o["access"] = "protected"; break; default: o["access"] = "private"; }
    } else { o["kind"] = "func";
      if (F->getStorageClass() == SC_Static || F->isInAnonymousNamespace()) o["internal"] = true; }
    if (F->isTemplateInstantiation()) o["inst"] = true;
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array ini;
      for (auto *I : K->inits()) {
        json::Object io;
        if (I->isBaseInitializer()) io["base"] = type(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        else if (I->getAnyMember()) io["f"] = I->getAnyMember()->getNameAsString();
        io["written"] = I->isWritten();
        io["e"] = expr(I->getInit()); ini.push_back(std::move(io));
      }
      o["inits"] = std::move(ini);
      if (K->isCopyConstructor()) o["copy"] = true;
      if (K->isMoveConstructor()) o["move"] = true;
    }
    if (F->isDefaulted()) o["defaulted"] = true;
    else if (F->getBody()) o["body"] = stmt(F->getBody());
    return o;
  }
  json::Value record(const CXXRecordDecl *R) {
    json::Object o; o["n"] = recname(R); o["file"] = file(R->getLocation()); o["l"] = line(R->getLocation());
    json::Array bs; for (auto &b : R->bases()) bs.push_back(type(b.getType())); o["bases"] = std::move(bs);
    json::Array fs;
    for (auto *f : R->fields()) { json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = type(f->getType());
      if (f->isMutable()) fo["mutable"] = true; fo["l"] = line(f->getLocation());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(fo)); }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto *m : R->methods()) { json::Object mo; callee(mo, m); mo["name"] = m->getNameAsString();
      if (m->isVirtual()) mo["virtual"] = true; if (m->isPureVirtual()) mo["pure"] = true;
      if (m->isDefaulted()) mo["defaulted"] = true; if (m->isDeleted()) mo["deleted"] = true;
      if (m->isImplicit()) mo["implicit"] = true;
      mo["access"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
      json::Array ov; for (auto *x : m->overridden_methods()) ov.push_back(fkey(x)); mo["over"] = std::move(ov);
      mo["params"] = params(m); mo["l"] = line(m->getLocation()); mo["file"] = file(m->getLocation());
      ms.push_back(std::move(mo)); }
    o["methods"] = std::move(ms);
    o["abstract"] = R->isAbstract();
    return o;
  }
};

class V {
 public:
  Dumper &D; json::Array fns, recs, enums, vars; std::set<std::string> seen;
  explicit V(Dumper &d) : D(d) {}
  void context(const DeclContext *X) {
    for (auto *d : X->decls()) decl(d);
  }
  void decl(const Decl *d) {
    if (auto *N = dyn_cast<NamespaceDecl>(d)) {
      // only namespaces with code of the repository in this piece
      context(N); return;
    }
    if (auto *L = dyn_cast<LinkageSpecDecl>(d)) { context(L); return; }
    if (auto *F = dyn_cast<FunctionTemplateDecl>(d)) {
      if (!D.inRepo(F->getLocation())) return;
      if (F->getCanonicalDecl() != F) return;
      for (auto *s : F->specializations()) function(s);
      return;
    }
    if (auto *T = dyn_cast<ClassTemplateDecl>(d)) {
      if (!D.inRepo(T->getLocation())) return;
      if (T->getCanonicalDecl() != T) return;
      for (auto *s : T->specializations()) record(s);
      return;
    }
    if (auto *R = dyn_cast<CXXRecordDecl>(d)) { if (!R->isImplicit()) record(R); return; }
    if (auto *F = dyn_cast<FunctionDecl>(d)) { function(F); return; }
    if (auto *E = dyn_cast<EnumDecl>(d)) { enumd(E); return; }
    if (auto *X = dyn_cast<VarDecl>(d)) { var(X); return; }
  }
  void function(const FunctionDecl *F0) {
    const FunctionDecl *F = F0;
    if (const FunctionDecl *Def = F0->getDefinition()) F = Def;
    if (!F->isThisDeclarationADefinition() && !F->isDefaulted()) return;
    if (F->isDependentContext()) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
    const FunctionDecl *P = F->getTemplateInstantiationPattern();
    if (!D.inRepo((P ? P : F)->getLocation())) return;
    if (!F->isDefaulted() && !F->doesThisDeclarationHaveABody()) return;
    if (F->isDeleted() || F->isImplicit()) return;
    auto k = D.fkey(F);
    if (!seen.insert(k).second) return;
    fns.push_back(D.function(F));
  }
  void record(const CXXRecordDecl *R) {
    if (R->isLambda()) return;
    const CXXRecordDecl *Def = R->getDefinition();
    if (!Def || Def->isDependentContext()) return;
    R = Def;
    const CXXRecordDecl *P = R->getTemplateInstantiationPattern();
    // plain data of the library for turns counts as data of the repository
    auto *NS = dyn_cast<NamespaceDecl>(R->getDeclContext());
    bool plain = NS && NS->getName() == "steer" && R->isAggregate();
    if (!plain && !D.inRepo((P ? P : R)->getLocation())) return;
    auto k = "rec:" + D.recname(R);
    if (!seen.insert(k).second) return;
    recs.push_back(D.record(R));
    context(R);
  }
  void enumd(const EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || !D.inRepo(E->getLocation())) return;
    if (!seen.insert("enum:" + E->getQualifiedNameAsString()).second) return;
    json::Object o; o["n"] = E->getQualifiedNameAsString(); o["file"] = D.file(E->getLocation()); o["l"] = D.line(E->getLocation());
    json::Array a; for (auto *c : E->enumerators()) { json::Object e; e["n"] = c->getNameAsString(); e["v"] = Dumper::its(c->getInitVal()); a.push_back(std::move(e)); }
    o["vals"] = std::move(a); enums.push_back(std::move(o));
  }
  void var(const VarDecl *X) {
    if (!X->hasGlobalStorage() || isa<ParmVarDecl>(X) || !D.inRepo(X->getLocation())) return;
    if (X->getDeclContext()->isDependentContext()) return;
    auto k = "var:" + X->getQualifiedNameAsString() + D.file(X->getLocation()) + std::to_string(D.line(X->getLocation()));
    if (!seen.insert(k).second) return;
    vars.push_back(D.globalvar(X));
  }
};

class Con : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "extract: front end reported errors\n"; exit(3); }
    Dumper D(C); V v(D);
    v.context(C.getTranslationUnitDecl());
    for (auto &x : D.statics) v.vars.push_back(std::move(x));
    json::Object o; o["functions"] = std::move(v.fns); o["records"] = std::move(v.recs);
    o["enums"] = std::move(v.enums); o["vars"] = std::move(v.vars);
    llvm::outs() << json::Value(std::move(o)) << "\n";
  }
};
class Act : public ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Con>(); }
};

int main(int argc, const char **argv) {
  // extract ROOT FILE -- flags...
  if (argc < 4) return 2;
  Root = argv[1]; if (Root.back() != '/') Root += '/';
  std::string f = argv[2]; std::vector<std::string> fl;
  for (int i = 4; i < argc; ++i) fl.push_back(argv[i]);
  auto buf = llvm::MemoryBuffer::getFile(f);
  if (!buf) { llvm::errs() << "cannot read " << f << "\n"; return 2; }
  bool ok = tooling::runToolOnCodeWithArgs(std::make_unique<Act>(), (*buf)->getBuffer(), fl, f, "extract");
  return ok ? 0 : 3;
}
