// Mechanical extractor: parses one translation unit of /repo with clang and dumps, as JSON,
// every function definition written in /repo (including template instantiations), class layouts,
// enums and static/global initialisers.  Nothing is rewritten: the dump is the AST clang built.
// What is dropped: see /verif/DESIGN.md ("What the extraction drops").
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
using namespace clang;
namespace json = llvm::json;
typedef json::Array A;

static std::string RepoRoot = "/repo/";
static std::string OutPath;

struct Dumper {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::map<std::string, int> TypeIdx;
  std::vector<std::string> Types;
  std::map<const Decl *, int> LocalIdx;
  std::map<std::string, int> FnIdx;     // usr -> index in FnRefs
  A FnRefs;
  std::map<std::string, int> VarIdx;
  A VarRefs;
  Dumper(ASTContext &C) : C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
    PP.SuppressTagKeyword = true; PP.FullyQualifiedName = true; PP.PrintCanonicalTypes = true;
    PP.Bool = true; PP.SuppressDefaultTemplateArgs = true; PP.AnonymousTagLocations = false;
  }
  int ty(QualType T) {
    if (T.isNull()) return ty_s("<null>");
    return ty_s(T.getCanonicalType().getAsString(PP));
  }
  int ty_s(const std::string &s) {
    auto it = TypeIdx.find(s);
    if (it != TypeIdx.end()) return it->second;
    int i = Types.size(); Types.push_back(s); TypeIdx[s] = i; return i;
  }
  int local(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = LocalIdx.find(D);
    if (it != LocalIdx.end()) return it->second;
    int i = LocalIdx.size(); LocalIdx[D] = i; return i;
  }
  std::string usr(const Decl *D) {
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(D, b)) return "?";
    return std::string(b.str());
  }
  std::string qname(const NamedDecl *D) {
    if (auto *TS = dyn_cast<ClassTemplateSpecializationDecl>(D)) return C.getTypeDeclType(TS).getCanonicalType().getAsString(PP);
    std::string s; llvm::raw_string_ostream os(s); D->printQualifiedName(os, PP); os.flush(); 
    if (auto *F = dyn_cast<FunctionDecl>(D)) if (auto *TA = F->getTemplateSpecializationArgs()) {
      std::string t; llvm::raw_string_ostream o2(t);
      printTemplateArgumentList(o2, TA->asArray(), PP); o2.flush(); s += t;
    }
    return s;
  }
  bool inRepo(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    if (L.isInvalid()) return false;
    PresumedLoc P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return false;
    llvm::StringRef f = P.getFilename();
    return f.starts_with(RepoRoot) && !f.contains("/_build/");
  }
  std::string file(SourceLocation L) {
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L), false);
    if (P.isInvalid()) return "";
    llvm::StringRef f = P.getFilename();
    if (f.starts_with(RepoRoot)) f = f.substr(RepoRoot.size());
    return f.str();
  }
  int line(SourceLocation L) { return SM.getPresumedLineNumber(SM.getExpansionLoc(L)); }

  int fnref(const FunctionDecl *F) {
    const FunctionDecl *Canon = F->getCanonicalDecl();
    std::string u = usr(Canon) ;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      (void)TA; u += "#" + qname(F);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) { u += "@" + qname(M->getParent()); }
    auto it = FnIdx.find(u);
    if (it != FnIdx.end()) return it->second;
    int i = FnIdx.size(); FnIdx[u] = i;
    json::Object o;
    o["u"] = u; o["q"] = qname(F); 
    o["n"] = F->getDeclName().isIdentifier() ? F->getName().str() : F->getNameAsString();
    A ps; for (auto *P : F->parameters()) ps.push_back(ty(P->getType()));
    o["p"] = std::move(ps); o["r"] = ty(F->getReturnType());
    if (F->isVariadic()) o["va"] = true;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["c"] = qname(M->getParent());
      if (M->isVirtual()) o["v"] = true;
      if (M->isPureVirtual()) o["pv"] = true;
      if (M->isStatic()) o["s"] = true;
      if (M->isConst()) o["const"] = true;
      if (auto *K = dyn_cast<CXXConstructorDecl>(M)) { o["k"] = "ctor"; 
        if (K->isCopyConstructor()) o["cc"] = 1; if (K->isMoveConstructor()) o["cc"] = 2; if (K->isDefaultConstructor()) o["dc"] = true; }
      else if (isa<CXXDestructorDecl>(M)) o["k"] = "dtor";
      else if (isa<CXXConversionDecl>(M)) o["k"] = "conv";
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) o["ca"] = true;
      if (M->isImplicit()) o["imp"] = true;
      if (M->isDefaulted()) o["def"] = true;
      A ov; for (auto *O : M->overridden_methods()) ov.push_back(fnref(O));
      if (!ov.empty()) o["ov"] = std::move(ov);
    }
    if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
    FnRefs.push_back(nullptr);
    while ((int)FnRefs.size() <= i) FnRefs.push_back(nullptr);
    FnRefs[i] = std::move(o);
    return i;
  }
  int varref(const VarDecl *V) {
    std::string u = usr(V->getCanonicalDecl());
    if (auto *R = dyn_cast<CXXRecordDecl>(V->getDeclContext())) u += "@" + qname(R);
    auto it = VarIdx.find(u);
    if (it != VarIdx.end()) return it->second;
    int i = VarIdx.size(); VarIdx[u] = i;
    json::Object o; o["u"] = u; o["q"] = qname(V); o["t"] = ty(V->getType());
    VarRefs.push_back(std::move(o));
    return i;
  }
  const FunctionDecl *CurFn = nullptr;
  json::Value S(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s)) return E(e);
    int L = line(s->getBeginLoc());
    switch (s->getStmtClass()) {
    case Stmt::CompoundStmtClass: { A a{"{}", L}; for (auto *x : cast<CompoundStmt>(s)->body()) a.push_back(S(x)); return a; }
    case Stmt::DeclStmtClass: { A a{"decl", L}; for (auto *d : cast<DeclStmt>(s)->decls()) { if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(V(v)); } return a; }
    case Stmt::IfStmtClass: { auto *i = cast<IfStmt>(s); return A{"if", L, S(i->getInit()), i->getConditionVariable() ? V(i->getConditionVariable()) : json::Value(nullptr), S(i->getCond()), S(i->getThen()), S(i->getElse())}; }
    case Stmt::WhileStmtClass: { auto *i = cast<WhileStmt>(s); return A{"while", L, i->getConditionVariable() ? V(i->getConditionVariable()) : json::Value(nullptr), S(i->getCond()), S(i->getBody())}; }
    case Stmt::DoStmtClass: { auto *i = cast<DoStmt>(s); return A{"do", L, S(i->getCond()), S(i->getBody())}; }
    case Stmt::ForStmtClass: { auto *i = cast<ForStmt>(s); return A{"for", L, S(i->getInit()), S(i->getCond()), S(i->getInc()), S(i->getBody())}; }
    case Stmt::CXXForRangeStmtClass: { auto *i = cast<CXXForRangeStmt>(s); return A{"rfor", L, V(i->getLoopVariable()), S(i->getRangeInit()), S(i->getBody())}; }
    case Stmt::SwitchStmtClass: { auto *i = cast<SwitchStmt>(s); return A{"switch", L, i->getConditionVariable() ? V(i->getConditionVariable()) : json::Value(nullptr), S(i->getCond()), S(i->getBody())}; }
    case Stmt::CaseStmtClass: { auto *i = cast<CaseStmt>(s); return A{"case", L, S(i->getLHS()), S(i->getSubStmt())}; }
    case Stmt::DefaultStmtClass: return A{"default", L, S(cast<DefaultStmt>(s)->getSubStmt())};
    case Stmt::BreakStmtClass: return A{"break", L};
    case Stmt::ContinueStmtClass: return A{"continue", L};
    case Stmt::NullStmtClass: return A{"null", L};
    case Stmt::ReturnStmtClass: return A{"return", L, S(cast<ReturnStmt>(s)->getRetValue())};
    case Stmt::CXXTryStmtClass: { auto *t = cast<CXXTryStmt>(s); A a{"try", L, S(t->getTryBlock())}; for (unsigned i = 0; i < t->getNumHandlers(); i++) { auto *h = t->getHandler(i); a.push_back(A{h->getExceptionDecl() ? V(h->getExceptionDecl()) : json::Value(nullptr), S(h->getHandlerBlock())}); } return a; }
    default: return A{"unsupported-stmt", L, s->getStmtClassName()};
    }
  }
  json::Value V(const VarDecl *v) {
    if (v->isStaticLocal()) return A{"svar", varref(v), v->getName().str(), ty(v->getType()), S(v->getInit())};
    return A{"var", local(v), v->getName().str(), ty(v->getType()), S(v->getInit())};
  }
  json::Value E(const Expr *e) {
    if (!e) return nullptr;
    int L = line(e->getBeginLoc());
    int T = ty(e->getType());
    bool lv = e->isGLValue();
    (void)lv;
    switch (e->getStmtClass()) {
    case Stmt::ParenExprClass: return E(cast<ParenExpr>(e)->getSubExpr());
    case Stmt::ExprWithCleanupsClass: return E(cast<ExprWithCleanups>(e)->getSubExpr());
    case Stmt::ConstantExprClass: return E(cast<ConstantExpr>(e)->getSubExpr());
    case Stmt::CXXBindTemporaryExprClass: return E(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
    case Stmt::SubstNonTypeTemplateParmExprClass: return E(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
    case Stmt::CXXDefaultArgExprClass: return E(cast<CXXDefaultArgExpr>(e)->getExpr());
    case Stmt::CXXDefaultInitExprClass: return E(cast<CXXDefaultInitExpr>(e)->getExpr());
    case Stmt::MaterializeTemporaryExprClass: return A{"mat", L, T, E(cast<MaterializeTemporaryExpr>(e)->getSubExpr())};
    case Stmt::IntegerLiteralClass: { llvm::SmallString<32> b; cast<IntegerLiteral>(e)->getValue().toString(b, 10, e->getType()->isSignedIntegerType()); return A{"int", L, T, std::string(b.str())}; }
    case Stmt::FloatingLiteralClass: { llvm::SmallString<64> b; auto v = cast<FloatingLiteral>(e)->getValue(); char buf[128]; v.convertToHexString(buf, 0, false, llvm::APFloat::rmNearestTiesToEven); 
        return A{"float", L, T, std::string(buf)}; }
    case Stmt::StringLiteralClass: { auto *sl = cast<StringLiteral>(e); if (sl->getCharByteWidth() != 1) return A{"unsupported", L, T, "wide string"}; std::string st = sl->getBytes().str(); if (!json::isUTF8(st)) st = json::fixUTF8(st); return A{"str", L, T, st}; }
    case Stmt::CharacterLiteralClass: return A{"int", L, T, std::to_string((int)cast<CharacterLiteral>(e)->getValue())};
    case Stmt::CXXBoolLiteralExprClass: return A{"bool", L, T, cast<CXXBoolLiteralExpr>(e)->getValue()};
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: return A{"nullptr", L, T};
    case Stmt::PredefinedExprClass: return A{"str", L, T, std::string(cast<PredefinedExpr>(e)->getFunctionName()->getBytes())};
    case Stmt::CXXThisExprClass: return A{"this", L, T};
    case Stmt::DeclRefExprClass: {
      auto *d = cast<DeclRefExpr>(e)->getDecl();
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) { llvm::SmallString<32> b; ec->getInitVal().toString(b, 10); return A{"enum", L, T, std::string(b.str()), ec->getName().str()}; }
      if (auto *f = dyn_cast<FunctionDecl>(d)) return A{"fn", L, T, fnref(f)};
      if (auto *v = dyn_cast<VarDecl>(d)) {
        if (v->isLocalVarDeclOrParm() && !v->isStaticLocal()) return A{"local", L, T, local(v), v->getName().str()};
        return A{"global", L, T, varref(v)};
      }
      return A{"unsupported", L, T, std::string("declref ") + d->getDeclKindName()};
    }
    case Stmt::MemberExprClass: {
      auto *m = cast<MemberExpr>(e);
      if (auto *fd = dyn_cast<FieldDecl>(m->getMemberDecl()))
        return A{"field", L, T, E(m->getBase()), m->isArrow(), fd->getName().str(), qname(cast<NamedDecl>(fd->getParent()))};
      if (auto *v = dyn_cast<VarDecl>(m->getMemberDecl())) return A{"global", L, T, varref(v)};
      if (auto *ec = dyn_cast<EnumConstantDecl>(m->getMemberDecl())) { llvm::SmallString<32> b; ec->getInitVal().toString(b, 10); return A{"enum", L, T, std::string(b.str()), ec->getName().str()}; }
      if (auto *f = dyn_cast<CXXMethodDecl>(m->getMemberDecl())) return A{"method", L, T, E(m->getBase()), m->isArrow(), fnref(f), !m->performsVirtualDispatch(C.getLangOpts())};
      return A{"unsupported", L, T, "memberexpr"};
    }
    case Stmt::CXXOperatorCallExprClass: case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::UserDefinedLiteralClass: {
      auto *c = cast<CallExpr>(e);
      A args; for (auto *a : c->arguments()) args.push_back(E(a));
      if (auto *mc = dyn_cast<CXXMemberCallExpr>(c)) {
        if (auto *me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens()))
         if (auto *md = mc->getMethodDecl())
          return A{"mcall", L, T, fnref(md), E(me->getBase()), me->isArrow(), md->isVirtual() && me->performsVirtualDispatch(C.getLangOpts()), std::move(args)};
        // pointer to member call
        auto *bo = dyn_cast<BinaryOperator>(mc->getCallee()->IgnoreParens());
        if (bo) return A{"ptmcall", L, T, E(bo->getLHS()), bo->getOpcode() == BO_PtrMemI, E(bo->getRHS()), std::move(args)};
        return A{"unsupported", L, T, "membercall"};
      }
      if (auto *fd = c->getDirectCallee()) {
        if (isa<CXXOperatorCallExpr>(c)) return A{"opcall", L, T, fnref(fd), std::move(args)};
        return A{"call", L, T, fnref(fd), std::move(args)};
      }
      return A{"icall", L, T, E(c->getCallee()), std::move(args)};
    }
    case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass: {
      auto *c = cast<CXXConstructExpr>(e);
      A args; for (auto *a : c->arguments()) args.push_back(E(a));
      return A{"construct", L, T, fnref(c->getConstructor()), std::move(args), c->isElidable(), c->isStdInitListInitialization()};
    }
    case Stmt::CXXInheritedCtorInitExprClass: { auto *c = cast<CXXInheritedCtorInitExpr>(e); return A{"inhctor", L, T, fnref(c->getConstructor())}; }
    case Stmt::CXXStdInitializerListExprClass: return A{"initlist", L, T, E(cast<CXXStdInitializerListExpr>(e)->getSubExpr())};
    case Stmt::InitListExprClass: { auto *il = cast<InitListExpr>(e); if (il->isSyntacticForm() && il->getSemanticForm()) il = il->getSemanticForm(); A a{"init", L, T}; A xs; for (auto *x : il->inits()) xs.push_back(E(x)); a.push_back(std::move(xs)); a.push_back(il->hasArrayFiller() ? E(il->getArrayFiller()) : json::Value(nullptr)); return a; }
    case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: return A{"zero", L, T};
    case Stmt::ImplicitCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass: case Stmt::CStyleCastExprClass: case Stmt::CXXDynamicCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass: {
      auto *c = cast<CastExpr>(e);
      CastKind k = c->getCastKind();
      if (k == CK_NoOp || k == CK_ConstructorConversion || k == CK_ArrayToPointerDecay || k == CK_FunctionToPointerDecay) { 
        if (k == CK_ArrayToPointerDecay) return A{"cast", L, T, "ArrayToPointerDecay", E(c->getSubExpr())};
        return E(c->getSubExpr()); }
      return A{"cast", L, T, c->getCastKindName(), E(c->getSubExpr())};
    }
    case Stmt::UnaryOperatorClass: { auto *u = cast<UnaryOperator>(e); 
        if (u->getOpcode() == UO_AddrOf) { if (auto *dr = dyn_cast<DeclRefExpr>(u->getSubExpr()->IgnoreParens())) if (auto *f = dyn_cast<FunctionDecl>(dr->getDecl())) return A{"fn", L, T, fnref(f)}; }
        return A{"un", L, T, UnaryOperator::getOpcodeStr(u->getOpcode()).str(), u->isPostfix(), E(u->getSubExpr())}; }
    case Stmt::BinaryOperatorClass: { auto *b = cast<BinaryOperator>(e); return A{"bin", L, T, b->getOpcodeStr().str(), E(b->getLHS()), E(b->getRHS())}; }
    case Stmt::CompoundAssignOperatorClass: { auto *b = cast<CompoundAssignOperator>(e); return A{"cassign", L, T, b->getOpcodeStr().str(), E(b->getLHS()), E(b->getRHS()), ty(b->getComputationResultType()), ty(b->getComputationLHSType())}; }
    case Stmt::ConditionalOperatorClass: { auto *c = cast<ConditionalOperator>(e); return A{"cond", L, T, E(c->getCond()), E(c->getTrueExpr()), E(c->getFalseExpr())}; }
    case Stmt::ArraySubscriptExprClass: { auto *a = cast<ArraySubscriptExpr>(e); return A{"index", L, T, E(a->getBase()), E(a->getIdx())}; }
    case Stmt::CXXThrowExprClass: return A{"throw", L, T, E(cast<CXXThrowExpr>(e)->getSubExpr())};
    case Stmt::CXXNewExprClass: { auto *n = cast<CXXNewExpr>(e); return A{"new", L, T, ty(n->getAllocatedType()), E(n->getInitializer()), n->isArray()}; }
    case Stmt::CXXDeleteExprClass: return A{"delete", L, T, E(cast<CXXDeleteExpr>(e)->getArgument())};
    case Stmt::LambdaExprClass: { auto *l = cast<LambdaExpr>(e); A caps; for (auto &c : l->captures()) { if (c.capturesThis()) caps.push_back(A{"this"}); else if (c.capturesVariable()) caps.push_back(A{c.getCaptureKind() == LCK_ByRef ? "ref" : "copy", local(c.getCapturedVar())}); }
      A ps; for (auto *p : l->getCallOperator()->parameters()) ps.push_back(A{local(p), p->getName().str(), ty(p->getType())});
      return A{"lambda", L, T, std::move(caps), std::move(ps), S(l->getBody()), ty(l->getCallOperator()->getReturnType())}; }
    case Stmt::UnaryExprOrTypeTraitExprClass: case Stmt::TypeTraitExprClass: case Stmt::CXXNoexceptExprClass: case Stmt::SizeOfPackExprClass: {
      Expr::EvalResult R; if (e->EvaluateAsRValue(R, C) && R.Val.isInt()) { llvm::SmallString<32> b; R.Val.getInt().toString(b, 10); return A{"int", L, T, std::string(b.str())}; }
      return A{"unsupported", L, T, "sizeof"}; }
    case Stmt::CXXTypeidExprClass: return A{"typeid", L, T};
    case Stmt::OpaqueValueExprClass: return E(cast<OpaqueValueExpr>(e)->getSourceExpr());
    default: return A{"unsupported", L, T, e->getStmtClassName()};
    }
  }
  A Functions, Records, Globals, Enums;
  std::set<std::string> SeenFn; std::set<std::string> SeenRec, SeenGlob, SeenEnum;
  void function(const FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext() || F->isDeleted()) return;
    if (F->isDefaulted()) return;
    const FunctionDecl *Pat = F->getTemplateInstantiationPattern();
    SourceLocation loc = (Pat ? Pat : F)->getLocation();
    if (!inRepo(loc)) return;
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
    if (!F->getBody()) return;
    int fr = fnref(F);
    std::string u = FnRefs[fr].getAsObject()->getString("u")->str();
    if (!SeenFn.insert(u).second) return;
    CurFn = F;
    json::Object o; o["f"] = fr; o["file"] = file(loc); o["line"] = line(loc); o["end"] = line((Pat?Pat:F)->getEndLoc());
    A ps; for (auto *p : F->parameters()) ps.push_back(A{local(p), p->getName().str(), ty(p->getType())});
    o["params"] = std::move(ps);
    A ds; bool anyd = false; for (auto *p : F->parameters()) { if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) { ds.push_back(E(p->getDefaultArg())); anyd = true; } else ds.push_back(nullptr); }
    if (anyd) o["defs"] = std::move(ds);
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      A in;
      for (auto *i : K->inits()) {
        if (i->isBaseInitializer()) in.push_back(A{"base", ty(QualType(i->getBaseClass(), 0)), E(i->getInit())});
        else if (i->isDelegatingInitializer()) in.push_back(A{"deleg", nullptr, E(i->getInit())});
        else if (i->getAnyMember()) in.push_back(A{"field", i->getAnyMember()->getName().str(), E(i->getInit())});
      }
      o["inits"] = std::move(in);
    }
    o["body"] = S(F->getBody());
    Functions.push_back(std::move(o));
  }
  void record(const CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    const CXXRecordDecl *Pat = R->getTemplateInstantiationPattern();
    if (!inRepo((Pat ? Pat : R)->getLocation())) return;
    std::string q = qname(R);
    if (!SeenRec.insert(q).second) return;
    json::Object o; o["q"] = q; o["file"] = file((Pat?Pat:R)->getLocation());
    A bs; for (auto &b : R->bases()) bs.push_back(ty(b.getType())); o["bases"] = std::move(bs);
    A fs; for (auto *f : R->fields()) fs.push_back(A{f->getName().str(), ty(f->getType()), f->hasInClassInitializer() ? E(f->getInClassInitializer()) : json::Value(nullptr)});
    o["fields"] = std::move(fs);
    A ms; for (auto *m : R->methods()) { if (m->isVirtual() || isa<CXXConstructorDecl>(m) || m->isCopyAssignmentOperator() || m->isOverloadedOperator() || true) ms.push_back(fnref(m)); }
    o["methods"] = std::move(ms);
    if (R->isAbstract()) o["abstract"] = true;
    if (R->isUnion()) o["union"] = true;
    Records.push_back(std::move(o));
  }
  void global(const VarDecl *Vd) {
    if (!Vd->isFileVarDecl() && !Vd->isStaticDataMember()) return;
    if (Vd->getType()->isDependentType() || Vd->getDeclContext()->isDependentContext()) return;
    const VarDecl *Pat = Vd->getTemplateInstantiationPattern();
    if (!inRepo((Pat?Pat:Vd)->getLocation())) return;
    const VarDecl *I = nullptr; const Expr *init = Vd->getAnyInitializer(I);
    if (!init) return;
    if (init->isValueDependent()) return;
    int v = varref(Vd); std::string u = VarRefs[v].getAsObject()->getString("u")->str();
    if (!SeenGlob.insert(u).second) return;
    Globals.push_back(A{v, file(Vd->getLocation()), line(Vd->getLocation()), E(init)});
  }
  void enumd(const EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || !inRepo(D->getLocation())) return;
    std::string q = qname(D); if (!SeenEnum.insert(q).second) return;
    A vs; for (auto *c : D->enumerators()) { llvm::SmallString<32> b; c->getInitVal().toString(b, 10); vs.push_back(A{c->getName().str(), std::string(b.str())}); }
    Enums.push_back(A{q, std::move(vs)});
  }
};
struct Vis : RecursiveASTVisitor<Vis> {
  Dumper &D; Vis(Dumper &D) : D(D) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool TraverseDecl(Decl *d) {
    if (!d) return true;
    if (auto *ns = dyn_cast<NamespaceDecl>(d)) if (ns->isStdNamespace() || ns->getName() == "boost") {
        // specialisations of std:: templates written in /repo (hash, ...) are still wanted
        if (ns->getName() == "boost") return true;
        for (auto *x : ns->decls()) if (D.inRepo(x->getLocation())) RecursiveASTVisitor<Vis>::TraverseDecl(x);
        return true;
    }
    return RecursiveASTVisitor<Vis>::TraverseDecl(d);
  }
  bool VisitFunctionDecl(FunctionDecl *f) { D.function(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) { D.record(r); return true; }
  bool VisitVarDecl(VarDecl *v) { D.global(v); return true; }
  bool VisitEnumDecl(EnumDecl *e) { D.enumd(e); return true; }
};
struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "parse errors\n"; exit(3); }
    Dumper D(C); Vis v(D); v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o;
    A ts; for (auto &t : D.Types) ts.push_back(t);
    o["types"] = std::move(ts); o["fnrefs"] = std::move(D.FnRefs); o["varrefs"] = std::move(D.VarRefs);
    o["functions"] = std::move(D.Functions); o["records"] = std::move(D.Records); o["globals"] = std::move(D.Globals); o["enums"] = std::move(D.Enums);
    A deps; auto &SM = C.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) { llvm::StringRef n = it->first.getName(); if (n.starts_with(RepoRoot)) deps.push_back(n.str()); }
    o["deps"] = std::move(deps);
    std::error_code ec; llvm::raw_fd_ostream os(OutPath, ec);
    os << json::Value(std::move(o));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override { return std::make_unique<Cons>(); }
};
int main(int argc, char **argv) {
  // vegaextract ROOT OUT SRC -- flags
  if (argc < 5) return 2;
  RepoRoot = argv[1]; if (RepoRoot.back() != '/') RepoRoot += '/';
  OutPath = argv[2];
  std::string src = argv[3];
  std::vector<std::string> args; for (int i = 5; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB(".", args);
  tooling::ClangTool Tool(DB, {src});
  Tool.appendArgumentsAdjuster(tooling::getInsertArgumentAdjuster({"-resource-dir", "/usr/lib/llvm-18/lib/clang/18"}, tooling::ArgumentInsertPosition::END));
  return Tool.run(tooling::newFrontendActionFactory<Act>().get());
}
