// dwx: dumps the functions of a C++ translation unit that live under a given
// root directory as a compact typed JSON AST.  Nothing is rewritten: every
// node corresponds to one clang AST node after semantic analysis (callees
// resolved, templates instantiated, implicit conversions explicit).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace J = llvm::json;

static std::string ROOT = "/repo";

struct Dumper {
  ASTContext &C;
  PrintingPolicy PP;
  std::map<const Decl *, int> ids;
  std::vector<const FunctionDecl *> work;
  std::set<const FunctionDecl *> seen;
  std::set<const CXXRecordDecl *> recs;
  Dumper(ASTContext &C) : C(C), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.PrintCanonicalTypes = true; PP.FullyQualifiedName = true;
    PP.SuppressUnwrittenScope = true;
  }
  int id(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = ids.find(D);
    if (it != ids.end()) return it->second;
    int n = ids.size() + 1; ids[D] = n; return n;
  }
  bool inRoot(SourceLocation L) {
    auto &SM = C.getSourceManager();
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    auto f = SM.getFilename(L);
    return f.starts_with(ROOT);
  }
  std::string ty(QualType T) {
    if (T.isNull()) return "?";
    T = T.getCanonicalType();
    std::string s = T.getAsString(PP);
    if (s.size() > (s.find("Eigen::") != std::string::npos ? 400u : 6000u)) {
      std::string pre = s.substr(0, 120);
      QualType U = T.getNonReferenceType();
      // keep enough to classify
      if (auto *R = U->getAsCXXRecordDecl()) pre = R->getQualifiedNameAsString() + "<...>";
      if (T->isReferenceType()) pre += " &";
      return pre;
    }
    return s;
  }
  std::string qname(const NamedDecl *D) {
    std::string s; llvm::raw_string_ostream os(s);
    PrintingPolicy P2 = PP;
    D->printNestedNameSpecifier(os, P2); os.flush();
    // strip template args from scope: rebuild by walking contexts
    std::vector<std::string> parts;
    const DeclContext *dc = D->getDeclContext();
    while (dc && !dc->isTranslationUnit()) {
      if (auto *ns = dyn_cast<NamespaceDecl>(dc)) { if (ns->isAnonymousNamespace()) parts.push_back("(anon)"); else if (!ns->isInline()) parts.push_back(ns->getNameAsString()); }
      else if (auto *r = dyn_cast<RecordDecl>(dc)) parts.push_back(r->getNameAsString());
      else if (auto *e = dyn_cast<EnumDecl>(dc)) parts.push_back(e->getNameAsString());
      else if (auto *f = dyn_cast<FunctionDecl>(dc)) { parts.push_back(f->getNameAsString()); }
      dc = dc->getParent();
    }
    std::string r;
    for (auto it = parts.rbegin(); it != parts.rend(); ++it) { r += *it; r += "::"; }
    return r + D->getNameAsString();
  }
  int line(SourceLocation L) { return C.getSourceManager().getExpansionLineNumber(L); }
  void need(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def) && Def && !Def->isDependentContext() && inRoot(Def->getLocation())) {
      if (seen.insert(Def).second) work.push_back(Def);
    } else if (F->isDefaulted()) {}
  }
  void needRec(const CXXRecordDecl *R) {
    if (!R) return;
    R = R->getDefinition();
    if (!R || R->isDependentContext()) return;
    if (!inRoot(R->getLocation())) return;
    recs.insert(R);
  }
  J::Object fref(const FunctionDecl *F) {
    need(F);
    J::Object o;
    o["q"] = qname(F);
    o["fid"] = id(F);
    o["ret"] = ty(F->getReturnType());
    J::Array ps; for (auto *p : F->parameters()) ps.push_back(ty(p->getType()));
    o["pt"] = std::move(ps);
    if (auto *ta = F->getTemplateSpecializationArgs()) {
      J::Array a;
      for (auto &x : ta->asArray()) {
        if (x.getKind() == TemplateArgument::Type) a.push_back(ty(x.getAsType()));
        else if (x.getKind() == TemplateArgument::Integral) a.push_back(J::Value((int64_t)x.getAsIntegral().getExtValue()));
        else a.push_back("?");
      }
      o["ta"] = std::move(a);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = ty(C.getRecordType(M->getParent()));
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      if (isa<CXXConstructorDecl>(M)) o["ctor"] = true;
      if (M->isDefaulted()) o["defaulted"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->getParent()->isLambda()) o["lambda"] = true;
    }
    return o;
  }
  J::Value E(const Expr *e) {
    if (!e) return nullptr;
    // transparent wrappers
    if (auto *x = dyn_cast<ParenExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) { J::Object o; o["k"]="temp"; o["t"]=ty(e->getType()); o["e"]=E(x->getSubExpr()); return std::move(o); }
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return E(x->getReplacement());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) return E(x->getExpr());
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) return E(x->getSubExpr());
    J::Object o;
    o["t"] = ty(e->getType());
    o["l"] = line(e->getExprLoc());
    // constants
    if (!e->isValueDependent() && !e->isTypeDependent() && e->isPRValue() && !isa<LambdaExpr>(e)) {
      QualType T = e->getType();
      if (T->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(e) && !isa<CXXBoolLiteralExpr>(e)) {
        Expr::EvalResult R;
        if (e->EvaluateAsRValue(R, C) && !R.HasSideEffects && R.Val.isInt()) {
          o["k"] = "int"; o["v"] = llvm::toString(R.Val.getInt(), 10); return std::move(o);
        }
      }
      if (T->isRealFloatingType() && !isa<FloatingLiteral>(e)) {
        Expr::EvalResult R;
        if (e->EvaluateAsRValue(R, C) && !R.HasSideEffects && R.Val.isFloat()) {
          return flt(R.Val.getFloat(), std::move(o));
        }
      }
    }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) { o["k"]="int"; o["v"]=llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType()); return std::move(o); }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"]="bool"; o["v"]=x->getValue(); return std::move(o); }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) { o["k"]="int"; o["v"]=std::to_string(x->getValue()); return std::move(o); }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) { return flt(x->getValue(), std::move(o)); }
    if (auto *x = dyn_cast<StringLiteral>(e)) { o["k"]="str"; o["v"]= x->isOrdinary() ? llvm::json::fixUTF8(x->getString()) : std::string("?"); return std::move(o); }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"]="null"; return std::move(o); }
    if (isa<CXXThisExpr>(e)) { o["k"]="this"; return std::move(o); }
    if (auto *x = dyn_cast<PredefinedExpr>(e)) { o["k"]="str"; o["v"]="__func__"; (void)x; return std::move(o); }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) {
      auto *D = x->getDecl();
      o["name"] = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"]="fn"; o["f"]=fref(F); return std::move(o); }
      if (auto *Ec = dyn_cast<EnumConstantDecl>(D)) { o["k"]="int"; o["v"]=llvm::toString(Ec->getInitVal(),10); return std::move(o); }
      if (auto *B = dyn_cast<BindingDecl>(D)) {
        o["k"]="var"; o["id"]=id(B); o["binding"]=true; return std::move(o); }
      o["k"]="var"; o["id"]=id(D);
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) {
          o["global"]=true; o["q"]=qname(V);
          if (!V->getType()->isDependentType() && V->getAnyInitializer() && inRoot(V->getLocation()))
            o["init"]=E(V->getAnyInitializer());
        }
        if (V->getType()->isReferenceType()) o["ref"]=true;
      }
      return std::move(o);
    }
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      auto *D = x->getMemberDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) { o["k"]="mfn"; o["f"]=fref(F); o["b"]=E(x->getBase()); o["arrow"]=x->isArrow(); return std::move(o); }
      o["k"]="member"; o["name"]=D->getNameAsString(); o["arrow"]=x->isArrow(); o["b"]=E(x->getBase());
      o["q"]=qname(D);
      if (auto *V = dyn_cast<VarDecl>(D)) { (void)V; o["static"]=true; }
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"]="opcall"; o["op"]=getOperatorSpelling(x->getOperator());
      if (auto *F = x->getDirectCallee()) o["f"]=fref(F);
      J::Array a; for (auto *s : x->arguments()) a.push_back(E(s)); o["a"]=std::move(a); return std::move(o);
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"]="mcall";
      if (auto *M = x->getMethodDecl()) o["f"]=fref(M);
      auto *me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens());
      if (me) { o["b"]=E(me->getBase()); o["arrow"]=me->isArrow(); if (me->hasQualifier()) o["qual"]=true; }
      J::Array a; for (auto *s : x->arguments()) a.push_back(E(s)); o["a"]=std::move(a); return std::move(o);
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      o["k"]="call";
      if (auto *F = x->getDirectCallee()) o["f"]=fref(F); else o["callee"]=E(x->getCallee());
      J::Array a; for (auto *s : x->arguments()) a.push_back(E(s)); o["a"]=std::move(a); return std::move(o);
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"]="ctor"; o["f"]=fref(x->getConstructor());
      needRec(x->getConstructor()->getParent());
      if (x->isListInitialization()) o["list"]=true;
      if (x->isStdInitListInitialization()) o["ilist"]=true;
      if (x->isElidable()) o["elide"]=true;
      if (x->getConstructor()->isCopyConstructor()) o["copy"]=true;
      if (x->getConstructor()->isMoveConstructor()) o["move"]=true;
      if (x->requiresZeroInitialization()) o["zero"]=true;
      J::Array a; for (auto *s : x->arguments()) a.push_back(E(s)); o["a"]=std::move(a); return std::move(o);
    }
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
      o["k"]="ictor"; o["f"]=fref(x->getConstructor()); return std::move(o);
    }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      if (x->isSemanticForm()==false && x->getSemanticForm()) x = x->getSemanticForm();
      o["k"]="initlist";
      if (x->isTransparent() && x->getNumInits()==1) return E(x->getInit(0));
      J::Array a; for (unsigned i=0;i<x->getNumInits();i++) a.push_back(E(x->getInit(i)));
      o["a"]=std::move(a);
      if (auto *R = x->getType()->getAsCXXRecordDecl()) {
        needRec(R);
        J::Array f; for (auto *fd : R->fields()) f.push_back(fd->getNameAsString());
        o["fields"]=std::move(f);
      }
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      o["k"]="new"; o["at"]=ty(x->getAllocatedType());
      if (auto s = x->getArraySize()) if (*s) o["n"]=E(*s);
      if (auto *i = x->getInitializer()) o["init"]=E(i);
      return std::move(o);
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) { o["k"]="delete"; o["e"]=E(x->getArgument()); return std::move(o); }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) { o["k"]="throw"; o["e"]=E(x->getSubExpr()); return std::move(o); }
    if (auto *x = dyn_cast<CastExpr>(e)) {
      o["k"]="cast"; o["ck"]=x->getCastKindName(); o["expl"]=isa<ExplicitCastExpr>(x);
      if (auto *F = dyn_cast_or_null<FunctionDecl>(x->getConversionFunction())) o["conv"]=fref(F);
      o["e"]=E(x->getSubExpr()); return std::move(o);
    }
    if (auto *x = dyn_cast<CompoundAssignOperator>(e)) { o["k"]="cassign"; o["op"]=x->getOpcodeStr(); o["ct"]=ty(x->getComputationResultType()); o["a"]=J::Array{E(x->getLHS()),E(x->getRHS())}; return std::move(o); }
    if (auto *x = dyn_cast<BinaryOperator>(e)) { o["k"]="bin"; o["op"]=x->getOpcodeStr(); o["a"]=J::Array{E(x->getLHS()),E(x->getRHS())}; return std::move(o); }
    if (auto *x = dyn_cast<UnaryOperator>(e)) { o["k"]="un"; o["op"]=UnaryOperator::getOpcodeStr(x->getOpcode()); o["post"]=x->isPostfix(); o["e"]=E(x->getSubExpr()); return std::move(o); }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) { o["k"]="cond"; o["a"]=J::Array{E(x->getCond()),E(x->getTrueExpr()),E(x->getFalseExpr())}; return std::move(o); }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"]="index"; o["a"]=J::Array{E(x->getBase()),E(x->getIdx())}; return std::move(o); }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      o["k"]="lambda";
      J::Array caps;
      auto ii = x->capture_init_begin();
      for (auto &c : x->captures()) {
        J::Object co;
        co["ref"] = c.getCaptureKind()==LCK_ByRef;
        co["this"] = c.capturesThis();
        if (c.capturesVariable()) { co["id"]=id(c.getCapturedVar()); co["name"]=c.getCapturedVar()->getNameAsString(); }
        if (*ii && !c.capturesThis()) co["init"]=E(*ii);
        ++ii;
        caps.push_back(std::move(co));
      }
      o["caps"]=std::move(caps);
      o["fid"]=id(x->getCallOperator());
      if (!x->isGenericLambda()) { o["params"]=params(x->getCallOperator()); o["body"]=S(x->getBody()); }
      else {
        o["generic"]=true;
        J::Array insts;
        if (auto *ft = x->getCallOperator()->getDescribedFunctionTemplate())
          for (auto *sp : ft->specializations())
            if (sp->getBody()) {
              J::Object io; io["params"]=params(sp); io["body"]=S(sp->getBody()); io["f"]=fref(sp); io["ret"]=ty(sp->getReturnType());
              insts.push_back(std::move(io));
            }
        o["insts"]=std::move(insts);
      }
      return std::move(o);
    }
    if (auto *x = dyn_cast<ImplicitValueInitExpr>(e)) { (void)x; o["k"]="zeroinit"; return std::move(o); }
    if (auto *x = dyn_cast<CXXScalarValueInitExpr>(e)) { (void)x; o["k"]="zeroinit"; return std::move(o); }
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) return E(x->getSourceExpr());
    if (auto *x = dyn_cast<ArrayInitLoopExpr>(e)) { o["k"]="arrcopy"; o["e"]=E(x->getCommonExpr()); return std::move(o); }
    o["k"]="unsupported"; o["cls"]=e->getStmtClassName();
    return std::move(o);
  }
  J::Value flt(const llvm::APFloat &f, J::Object o) {
    o["k"]="flt";
    if (f.isInfinity()) { o["v"]= f.isNegative() ? "-inf":"inf"; return std::move(o); }
    if (f.isNaN()) { o["v"]="nan"; return std::move(o); }
    llvm::APFloat g = f; bool li; g.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
    double d = g.convertToDouble(); char buf[64]; snprintf(buf, 64, "%a", d);
    o["v"]=std::string(buf); return std::move(o);
  }
  J::Array params(const FunctionDecl *F) {
    J::Array ps;
    for (auto *p : F->parameters()) {
      J::Object po; po["id"]=id(p); po["name"]=p->getNameAsString(); po["t"]=ty(p->getType());
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"]=E(p->getDefaultArg());
      ps.push_back(std::move(po));
    }
    return ps;
  }
  J::Object V(const VarDecl *v) {
    J::Object o; o["id"]=id(v); o["name"]=v->getNameAsString(); o["t"]=ty(v->getType());
    if (v->isStaticLocal()) o["static"]=true;
    if (auto *R = v->getType()->getAsCXXRecordDecl()) needRec(R);
    if (v->getInit()) o["init"]=E(v->getInit());
    if (auto *d = dyn_cast<DecompositionDecl>(v)) {
      J::Array b; for (auto *x : d->bindings()) { J::Object bo; bo["id"]=id(x); bo["name"]=x->getNameAsString(); bo["t"]=ty(x->getType()); b.push_back(std::move(bo)); }
      o["bindings"]=std::move(b);
    }
    return o;
  }
  J::Value S(const Stmt *s) {
    if (!s) return nullptr;
    J::Object o; o["l"]=line(s->getBeginLoc());
    if (auto *e = dyn_cast<Expr>(s)) { o["k"]="expr"; o["e"]=E(e); return std::move(o); }
    if (auto *x = dyn_cast<CompoundStmt>(s)) { o["k"]="block"; J::Array b; for (auto *c : x->body()) b.push_back(S(c)); o["b"]=std::move(b); return std::move(o); }
    if (auto *x = dyn_cast<DeclStmt>(s)) { o["k"]="decl"; J::Array b; for (auto *d : x->decls()) if (auto *v = dyn_cast<VarDecl>(d)) b.push_back(V(v)); o["vars"]=std::move(b); return std::move(o); }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      o["k"]="if"; if (x->getInit()) o["init"]=S(x->getInit());
      if (auto *v = x->getConditionVariable()) o["cvar"]=V(v);
      o["c"]=E(x->getCond()); o["then"]=S(x->getThen()); if (x->getElse()) o["else"]=S(x->getElse());
      if (x->isConstexpr()) o["constexpr"]=true;
      return std::move(o);
    }
    if (auto *x = dyn_cast<ForStmt>(s)) { o["k"]="for"; if(x->getInit())o["init"]=S(x->getInit()); if(x->getCond())o["c"]=E(x->getCond()); if(x->getInc())o["inc"]=E(x->getInc()); o["body"]=S(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<WhileStmt>(s)) { o["k"]="while"; if (auto *v = x->getConditionVariable()) o["cvar"]=V(v); o["c"]=E(x->getCond()); o["body"]=S(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<DoStmt>(s)) { o["k"]="do"; o["c"]=E(x->getCond()); o["body"]=S(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) { o["k"]="forrange"; o["range"]=E(x->getRangeInit()); o["var"]=V(x->getLoopVariable()); o["body"]=S(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<ReturnStmt>(s)) { o["k"]="return"; if (x->getRetValue()) o["e"]=E(x->getRetValue()); return std::move(o); }
    if (isa<BreakStmt>(s)) { o["k"]="break"; return std::move(o); }
    if (isa<ContinueStmt>(s)) { o["k"]="continue"; return std::move(o); }
    if (isa<NullStmt>(s)) { o["k"]="null"; return std::move(o); }
    if (auto *x = dyn_cast<SwitchStmt>(s)) { o["k"]="switch"; if (x->getInit()) o["init"]=S(x->getInit()); o["c"]=E(x->getCond()); o["body"]=S(x->getBody()); return std::move(o); }
    if (auto *x = dyn_cast<CaseStmt>(s)) { o["k"]="case"; o["v"]=E(x->getLHS()); o["s"]=S(x->getSubStmt()); return std::move(o); }
    if (auto *x = dyn_cast<DefaultStmt>(s)) { o["k"]="default"; o["s"]=S(x->getSubStmt()); return std::move(o); }
    if (auto *x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      o["k"]="try"; o["b"]=S(x->getTryBlock()); J::Array h;
      for (unsigned i=0;i<x->getNumHandlers();i++) { J::Object ho; auto *c=x->getHandler(i); if (c->getExceptionDecl()) ho["t"]=ty(c->getCaughtType()); ho["b"]=S(c->getHandlerBlock()); h.push_back(std::move(ho)); }
      o["h"]=std::move(h); return std::move(o);
    }
    if (auto *x = dyn_cast<OMPExecutableDirective>(s)) {
      o["k"]="omp"; o["dir"]=llvm::omp::getOpenMPDirectiveName(x->getDirectiveKind()).str();
      J::Array cl; for (auto *c : x->clauses()) {
        J::Object co; co["c"]=llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
        J::Array vs;
        for (auto *ch : c->children()) if (auto *ce = dyn_cast_or_null<Expr>(ch)) if (auto *dr = dyn_cast<DeclRefExpr>(ce->IgnoreParenImpCasts())) { J::Object vo; vo["id"]=id(dr->getDecl()); vo["name"]=dr->getDecl()->getNameAsString(); vs.push_back(std::move(vo)); }
        co["vars"]=std::move(vs);
        if (auto *rc = dyn_cast<OMPReductionClause>(c)) co["op"]=rc->getNameInfo().getName().getAsString();
        cl.push_back(std::move(co)); }
      o["clauses"]=std::move(cl);
      if (x->hasAssociatedStmt()) { const Stmt *b = x->getRawStmt(); if (auto *c = dyn_cast<CapturedStmt>(b)) b = c->getCapturedStmt(); while (auto *c = dyn_cast<CapturedStmt>(b)) b = c->getCapturedStmt(); o["body"]=S(b); }
      return std::move(o);
    }
    o["k"]="unsupported"; o["cls"]=s->getStmtClassName();
    return std::move(o);
  }
  J::Value F(const FunctionDecl *f) {
    J::Object o = fref(f);
    o["name"]=f->getNameAsString();
    o["file"]=C.getSourceManager().getFilename(C.getSourceManager().getExpansionLoc(f->getLocation())).str();
    o["l"]=line(f->getLocation());
    o["params"]=params(f);
    if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
      needRec(c->getParent());
      J::Array in;
      for (auto *i : c->inits()) {
        J::Object io;
        if (i->isAnyMemberInitializer()) io["m"]=i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"]=ty(QualType(i->getBaseClass(),0));
        else if (i->isDelegatingInitializer()) io["deleg"]=true;
        io["e"]=E(i->getInit());
        io["written"]=i->isWritten();
        in.push_back(std::move(io));
      }
      o["inits"]=std::move(in);
    }
    o["body"]=S(f->getBody());
    o["end"]=line(f->getEndLoc());
    return std::move(o);
  }
  J::Value R(const CXXRecordDecl *r) {
    J::Object o; o["q"]=qname(r); o["t"]=ty(C.getRecordType(r));
    J::Array fs;
    for (auto *f : r->fields()) { J::Object fo; fo["name"]=f->getNameAsString(); fo["t"]=ty(f->getType()); if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"]=E(f->getInClassInitializer()); if (auto *rr=f->getType()->getAsCXXRecordDecl()) needRec(rr); fs.push_back(std::move(fo)); }
    o["fields"]=std::move(fs);
    J::Array bs; for (auto &b : r->bases()) { bs.push_back(ty(b.getType())); if (auto *br=b.getType()->getAsCXXRecordDecl()) needRec(br); } o["bases"]=std::move(bs);
    // overriders
    J::Array ms; for (auto *m : r->methods()) if (m->isVirtual()) { J::Object mo; mo["name"]=m->getNameAsString(); mo["fid"]=id(m); mo["q"]=qname(m); mo["pure"]=m->isPureVirtual(); ms.push_back(std::move(mo)); need(m); }
    o["virt"]=std::move(ms);
    return std::move(o);
  }
};

struct Collect : RecursiveASTVisitor<Collect> {
  Dumper &D;
  Collect(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && !F->isDependentContext() && D.inRoot(F->getLocation())) {
      if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
      D.need(F);
    }
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) { if (R->isThisDeclarationADefinition() && !R->isLambda()) D.needRec(R); return true; }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "dwx: parse errors\n"; }
    Dumper D(C);
    Collect(D).TraverseDecl(C.getTranslationUnitDecl());
    J::Array fs, rs;
    std::set<const CXXRecordDecl*> done;
    bool more = true;
    while (more) {
      more = false;
      while (!D.work.empty()) { auto *f = D.work.back(); D.work.pop_back(); fs.push_back(D.F(f)); more = true; }
      auto copy = D.recs;
      for (auto *r : copy) if (done.insert(r).second) { rs.push_back(D.R(r)); more = true; }
    }
    J::Object o; o["functions"]=std::move(fs); o["records"]=std::move(rs);
    o["errors"]=(bool)C.getDiagnostics().hasErrorOccurred();
    llvm::outs() << J::Value(std::move(o)) << "\n";
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};
int main(int argc, const char **argv) {
  if (const char *r = getenv("DWX_ROOT")) ROOT = r;
  if (argc < 3) { llvm::errs() << "usage: dwx file.cpp -- flags\n"; return 2; }
  std::string file = argv[1];
  std::vector<std::string> args;
  for (int i = 3; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
