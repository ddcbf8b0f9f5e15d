// cfacts: dumps the resolved program (functions with typed syntax trees,
// records, enums, static-storage variables) of one translation unit as JSON
// lines, for the analyses in /verif/analysis.  Nothing is executed: this is a
// pure front-end pass (parse + semantic analysis + template instantiation).
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace {

std::vector<std::string> g_roots;   // files below these are "ours"
std::string g_out;
std::set<std::string> g_deps;

struct Ctx {
  ASTContext* ac;
  SourceManager* sm;
  PrintingPolicy pp;
  llvm::raw_ostream* os;
  std::unordered_map<const Decl*, int> declId;
  std::unordered_map<std::string, int> types;
  std::vector<std::string> typeNames;
  explicit Ctx(ASTContext& c) : ac(&c), sm(&c.getSourceManager()), pp(c.getLangOpts()) {
    pp.SuppressTagKeyword = true;
    pp.PrintCanonicalTypes = true;
    pp.Bool = true;
  }
  int idOf(const Decl* d) {
    d = d->getCanonicalDecl();
    auto it = declId.find(d);
    if (it != declId.end()) return it->second;
    int n = declId.size() + 1;
    return declId[d] = n;
  }
  int typeId(QualType t) {
    std::string s = t.isNull() ? "" : t.getCanonicalType().getAsString(pp);
    auto it = types.find(s);
    if (it != types.end()) return it->second;
    int n = typeNames.size();
    typeNames.push_back(s);
    types[s] = n;
    return n;
  }
  std::string file(SourceLocation l) {
    l = sm->getExpansionLoc(l);
    auto f = sm->getFilename(l);
    return f.str();
  }
  int line(SourceLocation l) { return l.isValid() ? sm->getExpansionLineNumber(l) : 0; }
  bool ours(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = file(l);
    for (auto& r : g_roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  std::string usr(const Decl* d) {
    if (auto* fd0 = dyn_cast<FunctionDecl>(d)) d = fd0->getCanonicalDecl();
    llvm::SmallString<256> b;
    if (index::generateUSRForDecl(d, b)) return "";
    std::string r = b.str().str();
    if (auto* m = dyn_cast<CXXMethodDecl>(d))
      if (m->getParent()->isLambda()) {  // several lambdas in one function share a USR
        SourceLocation l = sm->getExpansionLoc(m->getParent()->getLocation());
        r += "@" + std::to_string(sm->getExpansionLineNumber(l)) + ":" + std::to_string(sm->getExpansionColumnNumber(l));
      }
    // so do the instantiations of one template for several lambdas of one function
    PrintingPolicy p(pp);
    p.AnonymousTagLocations = true;
    for (const DeclContext* c = dyn_cast<DeclContext>(d); c; c = c->getParent()) {
      std::string t;
      llvm::raw_string_ostream o(t);
      const TemplateArgumentList* al = nullptr;
      if (auto* f = dyn_cast<FunctionDecl>(c)) al = f->getTemplateSpecializationArgs();
      if (auto* cs = dyn_cast<ClassTemplateSpecializationDecl>(c)) al = &cs->getTemplateArgs();
      if (al) printTemplateArgumentList(o, al->asArray(), p);
      o.flush();
      if (t.find("(lambda at ") == std::string::npos) continue;
      // the place without the directory
      for (size_t at = 0; (at = t.find("(lambda at ", at)) != std::string::npos;) {
        at += 11;
        size_t e = t.find(')', at), b = t.rfind('/', e);
        r += "@" + t.substr(b == std::string::npos || b < at ? at : b + 1, e - (b == std::string::npos || b < at ? at : b + 1));
      }
    }
    return r;
  }
  std::string qname(const NamedDecl* d) {
    std::string s;
    llvm::raw_string_ostream o(s);
    PrintingPolicy p(pp);
    p.AnonymousTagLocations = false;
    d->printQualifiedName(o, p);
    return o.str();
  }
};

// ---------------------------------------------------------------- AST dump
// node := {"k":kind,"l":line,"t":type-index,...,"c":[children]}
class Dumper {
 public:
  Dumper(Ctx& c, llvm::json::OStream& j) : c_(c), j_(j) {}

  void decl(const ValueDecl* d) {  // attributes of a reference to d
    j_.attribute("d", c_.idOf(d));
    j_.attribute("n", d->getNameAsString());
    const char* k = "other";
    if (isa<ParmVarDecl>(d)) k = "parm";
    else if (auto* v = dyn_cast<VarDecl>(d)) {
      k = v->hasLocalStorage() ? "local" : (v->isStaticLocal() ? "staticlocal" : "global");
      if (!v->hasLocalStorage()) j_.attribute("q", c_.qname(v));
    } else if (isa<FunctionDecl>(d)) { k = "func"; fn(cast<FunctionDecl>(d)); }
    else if (auto* e = dyn_cast<EnumConstantDecl>(d)) {
      k = "enumc"; j_.attribute("q", c_.qname(e));
      if (!e->getType()->isDependentType()) j_.attribute("v", e->getInitVal().getExtValue());
    }
    else if (isa<FieldDecl>(d)) k = "field";
    else if (isa<BindingDecl>(d)) k = "binding";
    j_.attribute("dk", k);
  }
  void fn(const FunctionDecl* f) {
    j_.attribute("u", c_.usr(f));
    j_.attribute("fq", c_.qname(f));
    if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isVirtual()) j_.attribute("virt", 1);
      if (m->isConst()) j_.attribute("cm", 1);
      if (m->isStatic()) j_.attribute("sm", 1);
    }
  }

  void constval(const Expr* e) {
    if (e->isValueDependent() || e->isTypeDependent() || e->isInstantiationDependent()) return;
    QualType t = e->getType();
    if (t.isNull() || !(t->isIntegralOrEnumerationType() || t->isRealFloatingType())) return;
    Expr::EvalResult r;
    if (!e->EvaluateAsRValue(r, *c_.ac) || r.HasSideEffects) return;
    if (r.Val.isInt()) j_.attribute("cv", (int64_t)r.Val.getInt().getExtValue());
    else if (r.Val.isFloat()) {
      llvm::SmallString<40> s; r.Val.getFloat().toString(s, 25, 0);
      j_.attribute("cvf", s.str());
    }
  }

  void null() { j_.value(nullptr); }

  void stmt(const Stmt* s) {
    if (!s) { null(); return; }
    // Transparent wrappers.
    if (auto* e = dyn_cast<Expr>(s)) {
      if (auto* x = dyn_cast<ParenExpr>(e)) return stmt(x->getSubExpr());
      if (auto* x = dyn_cast<ExprWithCleanups>(e)) return stmt(x->getSubExpr());
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) return stmt(x->getSubExpr());
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return stmt(x->getSubExpr());
      if (auto* x = dyn_cast<ConstantExpr>(e)) return stmt(x->getSubExpr());
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return stmt(x->getReplacement());
      if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) return stmt(x->getSubExpr());
      if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { if (++depth_ < 400) { stmt(x->getExpr()); } else null(); --depth_; return; }
      if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_FloatingToIntegral: case CK_IntegralToBoolean: case CK_PointerToBoolean:
          case CK_FloatingToBoolean: case CK_IntegralToFloating: case CK_LValueToRValue:
            if (x->getCastKind() == CK_LValueToRValue || x->getCastKind() == CK_IntegralToFloating) return stmt(x->getSubExpr());
            break;
          case CK_IntegralCast: {
            QualType to = x->getType(), from = x->getSubExpr()->getType();
            if (!to->isDependentType() && !from->isDependentType() && to->isIntegerType() && from->isIntegerType() &&
                c_.ac->getIntWidth(to) < 32 && c_.ac->getIntWidth(from) > c_.ac->getIntWidth(to)) break;
            return stmt(x->getSubExpr());
          }
          default: return stmt(x->getSubExpr());
        }
      }
      if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (x->getSourceExpr()) return stmt(x->getSourceExpr()); }
      if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return stmt(x->getSemanticForm());
    }
    j_.objectBegin();
    node(s);
    j_.objectEnd();
  }

  void kids(llvm::ArrayRef<const Stmt*> v) {
    j_.attributeBegin("c"); j_.arrayBegin();
    for (auto* s : v) stmt(s);
    j_.arrayEnd(); j_.attributeEnd();
  }
  void allKids(const Stmt* s) {
    std::vector<const Stmt*> v;
    for (auto* k : s->children()) v.push_back(k);
    kids(v);
  }
  void vardecl(const VarDecl* v) {
    j_.objectBegin();
    j_.attribute("k", "VarDecl");
    j_.attribute("l", c_.line(v->getLocation()));
    j_.attribute("t", c_.typeId(v->getType()));
    j_.attribute("n", v->getNameAsString());
    j_.attribute("d", c_.idOf(v));
    if (v->isStaticLocal()) j_.attribute("static", 1);
    if (v->isConstexpr()) j_.attribute("constexpr", 1);
    if (v->getType()->isReferenceType()) j_.attribute("ref", 1);
    if (v->isCXXForRangeDecl()) j_.attribute("rangevar", 1);
    if (v->getInit() && v->getInitStyle() != VarDecl::CInit) j_.attribute("direct", 1);
    if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
      j_.attributeBegin("bind"); j_.arrayBegin();
      for (auto* b : dd->bindings()) {
        j_.objectBegin();
        j_.attribute("n", b->getNameAsString()); j_.attribute("d", c_.idOf(b));
        j_.attribute("t", c_.typeId(b->getType()));
        j_.attributeBegin("b"); stmt(b->getBinding()); j_.attributeEnd();
        j_.objectEnd();
      }
      j_.arrayEnd(); j_.attributeEnd();
    }
    j_.attributeBegin("c"); j_.arrayBegin();
    if (v->getInit()) stmt(v->getInit());
    j_.arrayEnd(); j_.attributeEnd();
    j_.objectEnd();
  }

  void node(const Stmt* s) {
    j_.attribute("k", s->getStmtClassName());
    j_.attribute("l", c_.line(s->getBeginLoc()));
    if (auto* e = dyn_cast<Expr>(s)) j_.attribute("t", c_.typeId(e->getType()));
    if (s->getBeginLoc().isMacroID()) {
      // outermost macro name, so that rules can say "in CHECK_NE(...)"
      SourceLocation l = s->getBeginLoc();
      while (c_.sm->isMacroArgExpansion(l)) l = c_.sm->getImmediateExpansionRange(l).getBegin();
    }
    switch (s->getStmtClass()) {
      case Stmt::DeclStmtClass: {
        j_.attributeBegin("c"); j_.arrayBegin();
        for (auto* d : cast<DeclStmt>(s)->decls())
          if (auto* v = dyn_cast<VarDecl>(d)) vardecl(v);
        j_.arrayEnd(); j_.attributeEnd();
        return;
      }
      case Stmt::IfStmtClass: {
        auto* x = cast<IfStmt>(s);
        if (x->isConstexpr()) {
          j_.attribute("constexpr", 1);
          if (!x->getCond()->isValueDependent()) constval(x->getCond());
        }
        kids({x->getInit(), x->getConditionVariableDeclStmt(), x->getCond(), x->getThen(), x->getElse()});
        return;
      }
      case Stmt::ForStmtClass: {
        auto* x = cast<ForStmt>(s);
        kids({x->getInit(), x->getConditionVariableDeclStmt(), x->getCond(), x->getInc(), x->getBody()});
        return;
      }
      case Stmt::WhileStmtClass: {
        auto* x = cast<WhileStmt>(s);
        kids({x->getConditionVariableDeclStmt(), x->getCond(), x->getBody()});
        return;
      }
      case Stmt::DoStmtClass: {
        auto* x = cast<DoStmt>(s);
        kids({x->getBody(), x->getCond()});
        return;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto* x = cast<CXXForRangeStmt>(s);
        // init, loop variable, range expression, body
        kids({x->getInit(), x->getLoopVarStmt(), x->getRangeInit(), x->getBody()});
        return;
      }
      case Stmt::SwitchStmtClass: {
        auto* x = cast<SwitchStmt>(s);
        if (x->isAllEnumCasesCovered()) j_.attribute("allcov", 1);
        kids({x->getInit(), x->getConditionVariableDeclStmt(), x->getCond(), x->getBody()});
        return;
      }
      case Stmt::CaseStmtClass: {
        auto* x = cast<CaseStmt>(s);
        kids({x->getLHS(), x->getRHS(), x->getSubStmt()});
        return;
      }
      case Stmt::DefaultStmtClass: kids({cast<DefaultStmt>(s)->getSubStmt()}); return;
      case Stmt::CXXCatchStmtClass: kids({cast<CXXCatchStmt>(s)->getHandlerBlock()}); return;
      default: break;
    }
    if (auto* x = dyn_cast<DeclRefExpr>(s)) {
      decl(x->getDecl());
      if (auto* v = dyn_cast<VarDecl>(x->getDecl())) { if (v->isConstexpr() || v->getType().isConstQualified()) constval(x); }
      if (x->refersToEnclosingVariableOrCapture()) j_.attribute("cap", 1);
      return;
    }
    if (auto* x = dyn_cast<MemberExpr>(s)) {
      auto* m = x->getMemberDecl();
      j_.attribute("n", m->getNameAsString());
      j_.attribute("q", c_.qname(m));
      if (x->isArrow()) j_.attribute("arrow", 1);
      if (auto* f = dyn_cast<FunctionDecl>(m)) { j_.attribute("dk", "func"); fn(f); }
      else if (isa<FieldDecl>(m)) j_.attribute("dk", "field");
      else if (auto* e = dyn_cast<EnumConstantDecl>(m)) { j_.attribute("dk", "enumc"); j_.attribute("v", e->getInitVal().getExtValue()); }
      else { j_.attribute("dk", "static"); }
      constvalIfConst(x, m);
      kids({x->getBase()});
      return;
    }
    if (auto* x = dyn_cast<LambdaExpr>(s)) {
      j_.attribute("u", c_.usr(x->getCallOperator()));
      j_.attributeBegin("caps"); j_.arrayBegin();
      for (auto& cp : x->captures()) {
        j_.objectBegin();
        if (cp.capturesThis()) j_.attribute("this", 1);
        else if (cp.capturesVariable()) {
          j_.attribute("d", c_.idOf(cp.getCapturedVar()));
          j_.attribute("n", cp.getCapturedVar()->getNameAsString());
          j_.attribute("t", c_.typeId(cp.getCapturedVar()->getType()));
        }
        j_.attribute("ref", cp.getCaptureKind() == LCK_ByRef ? 1 : 0);
        j_.objectEnd();
      }
      j_.arrayEnd(); j_.attributeEnd();
      const FunctionDecl* op = x->getCallOperator();
      bool generic = x->isGenericLambda();
      if (generic) j_.attribute("generic", 1);
      j_.attributeBegin("params"); j_.arrayBegin();
      for (auto* p : op->parameters()) param(p);
      j_.arrayEnd(); j_.attributeEnd();
      if (auto* ft = op->getDescribedFunctionTemplate(); ft && generic) {
        j_.attributeBegin("insts"); j_.arrayBegin();
        for (auto* sp : ft->specializations()) {
          if (!sp->getBody()) continue;
          j_.objectBegin();
          j_.attribute("u", c_.usr(sp));
          j_.attribute("rt", c_.typeId(sp->getReturnType()));
          j_.attributeBegin("params"); j_.arrayBegin();
          for (auto* p : sp->parameters()) param(p);
          j_.arrayEnd(); j_.attributeEnd();
          j_.attributeBegin("body"); stmt(sp->getBody()); j_.attributeEnd();
          j_.objectEnd();
        }
        j_.arrayEnd(); j_.attributeEnd();
      }
      // children: capture initialisers are skipped; body (pattern for generic lambdas)
      kids({x->getBody()});
      return;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(s)) {
      auto* d = x->getConstructor();
      j_.attribute("u", c_.usr(d));
      j_.attribute("fq", c_.qname(d));
      j_.attribute("cls", c_.qname(d->getParent()));
      if (d->isCopyOrMoveConstructor()) j_.attribute("copy", 1);
      if (d->isDefaultConstructor()) j_.attribute("defctor", 1);
      if (isa<CXXTemporaryObjectExpr>(x)) j_.attribute("temp", 1);
      if (x->isListInitialization()) j_.attribute("list", 1);
      std::vector<const Stmt*> v(x->arg_begin(), x->arg_end());
      kids(v);
      return;
    }
    if (auto* x = dyn_cast<CXXNewExpr>(s)) {
      j_.attribute("nt", c_.typeId(x->getAllocatedType()));
      if (x->isArray()) j_.attribute("array", 1);
      std::vector<const Stmt*> v;
      v.push_back(x->isArray() && x->getArraySize() ? *x->getArraySize() : nullptr);
      v.push_back(x->getInitializer());
      kids(v);
      return;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(s)) {
      if (x->isArrayForm()) j_.attribute("array", 1);
      kids({x->getArgument()});
      return;
    }
    if (auto* x = dyn_cast<CallExpr>(s)) {
      if (auto* f = x->getDirectCallee()) {
        fn(f);
        if (auto* m = dyn_cast<CXXMethodDecl>(f)) j_.attribute("cls", c_.qname(m->getParent()));
        if (f->isNoReturn()) j_.attribute("noret", 1);
        if (auto* mce = dyn_cast<CXXMemberCallExpr>(x))
          if (auto* me = dyn_cast<MemberExpr>(mce->getCallee()->IgnoreParenImpCasts()))
            if (me->hasQualifier()) j_.attribute("qual", 1);
        if (f->isConstexpr()) constval(x);
        // which arguments may be written through: non-const reference / pointer
        if (auto* pt = f->getTemplateSpecializationArgs()) {
          std::string s2; llvm::raw_string_ostream o(s2); bool first = true;
          for (auto& a : pt->asArray()) { if (!first) o << ","; first = false; a.print(c_.pp, o, true); }
          o.flush();
          if (s2.size() < 400) j_.attribute("ta", s2);
        }
        j_.attributeBegin("pt"); j_.arrayBegin();
        for (auto* p : f->parameters()) j_.value(c_.typeId(p->getType()));
        j_.arrayEnd(); j_.attributeEnd();
      }
      if (auto* o = dyn_cast<CXXOperatorCallExpr>(x)) {
        j_.attribute("op", getOperatorSpelling(o->getOperator()));
        std::vector<const Stmt*> v(x->arg_begin(), x->arg_end());
        // children: arguments only (callee is "u")
        kids(v);
        return;
      }
      // children: callee, then arguments
      std::vector<const Stmt*> v;
      v.push_back(x->getCallee());
      v.insert(v.end(), x->arg_begin(), x->arg_end());
      kids(v);
      return;
    }
    if (auto* x = dyn_cast<IntegerLiteral>(s)) {
      llvm::SmallString<32> b; x->getValue().toString(b, 10, x->getType()->isSignedIntegerType());
      j_.attribute("v", b.str()); return;
    }
    if (auto* x = dyn_cast<FloatingLiteral>(s)) {
      llvm::SmallString<40> b; x->getValue().toString(b, 25, 0);
      j_.attribute("v", b.str());
      // source spelling (decimal text), to recover the intended real number
      SourceLocation sl = c_.sm->getSpellingLoc(x->getLocation());
      std::string tok = Lexer::getSpelling(sl, buf_, *c_.sm, c_.ac->getLangOpts()).str();
      j_.attribute("src", tok);
      return;
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(s)) { j_.attribute("v", x->getValue() ? 1 : 0); return; }
    if (auto* x = dyn_cast<CharacterLiteral>(s)) { j_.attribute("v", (int64_t)x->getValue()); return; }
    if (auto* x = dyn_cast<clang::StringLiteral>(s)) {
      if (x->getCharByteWidth() == 1 && llvm::json::isUTF8(x->getString())) j_.attribute("v", x->getString()); return;
    }
    if (auto* x = dyn_cast<BinaryOperator>(s)) { j_.attribute("op", x->getOpcodeStr()); constval(x); allKids(s); return; }
    if (auto* x = dyn_cast<UnaryOperator>(s)) {
      j_.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode()));
      if (x->isPostfix()) j_.attribute("post", 1);
      constval(x); allKids(s); return;
    }
    if (auto* x = dyn_cast<CastExpr>(s)) {
      j_.attribute("ck", x->getCastKindName());
      allKids(s); return;
    }
    if (auto* x = dyn_cast<InitListExpr>(s)) {
      auto* sem = x->isSemanticForm() ? x : x->getSemanticForm();
      if (!sem) sem = x;
      std::vector<const Stmt*> v;
      for (unsigned i = 0; i < sem->getNumInits(); ++i) v.push_back(sem->getInit(i));
      if (sem->getArrayFiller()) j_.attribute("filler", 1);
      kids(v); return;
    }
    if (auto* x = dyn_cast<CXXDefaultInitExpr>(s)) { j_.attribute("field", x->getField()->getNameAsString()); kids({x->getExpr()}); return; }
    if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) { constval(x); if (x->isArgumentType()) j_.attribute("at", c_.typeId(x->getArgumentType())); return; }
    if (auto* x = dyn_cast<CXXDependentScopeMemberExpr>(s)) {
      j_.attribute("n", x->getMember().getAsString());
      if (!x->isImplicitAccess()) kids({x->getBase()});
      return;
    }
    if (auto* x = dyn_cast<OverloadExpr>(s)) { j_.attribute("n", x->getName().getAsString()); allKids(s); return; }
    if (auto* x = dyn_cast<DependentScopeDeclRefExpr>(s)) { j_.attribute("n", x->getDeclName().getAsString()); return; }
    if (auto* x = dyn_cast<TypeTraitExpr>(s)) { constval(x); return; }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(s)) { kids({x->getBase(), x->getIdx()}); return; }
    allKids(s);
  }
  void constvalIfConst(const MemberExpr* x, const ValueDecl* m) {
    if (auto* v = dyn_cast<VarDecl>(m)) if (v->isConstexpr() || v->getType().isConstQualified()) constval(x);
  }
  void param(const ParmVarDecl* p) {
    j_.objectBegin();
    j_.attribute("n", p->getNameAsString());
    j_.attribute("d", c_.idOf(p));
    j_.attribute("t", c_.typeId(p->getType()));
    if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) {
      j_.attributeBegin("def"); stmt(p->getDefaultArg()); j_.attributeEnd();
    }
    j_.objectEnd();
  }

 private:
  Ctx& c_;
  llvm::json::OStream& j_;
  int depth_ = 0;
  llvm::SmallString<64> buf_;
};

class V : public RecursiveASTVisitor<V> {
 public:
  V(Ctx& c, llvm::raw_ostream& os) : c_(c), os_(os) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool shouldVisitLambdaBody() const { return true; }

  bool VisitFunctionDecl(FunctionDecl* f) {
    if (!c_.ours(f->getLocation())) return true;
    if (!f->isThisDeclarationADefinition()) return true;
    if (!f->doesThisDeclarationHaveABody() || f->isDefaulted()) return true;
    emitFunction(f);
    return true;
  }

  void emitFunction(FunctionDecl* f) {
    std::string u = c_.usr(f);
    std::string key = u + "@" + std::to_string(f->isDependentContext());
    if (!seen_.insert(key).second) return;
    std::string head, body;
    {
      llvm::raw_string_ostream o(head);
      llvm::json::OStream j(o);
      Dumper d(c_, j);
      j.objectBegin();
      j.attribute("R", "fn");
      j.attribute("u", u);
      j.attribute("q", c_.qname(f));
      j.attribute("n", f->getNameAsString());
      j.attribute("f", c_.file(f->getLocation()));
      j.attribute("l", c_.line(f->getLocation()));
      j.attribute("rt", c_.typeId(f->getReturnType()));
      if (f->isDependentContext()) j.attribute("dep", 1);
      if (f->isTemplateInstantiation()) j.attribute("inst", 1);
      if (auto* pt = f->getTemplateSpecializationArgs()) {
        std::string s2; llvm::raw_string_ostream o2(s2); bool first = true;
        for (auto& a : pt->asArray()) { if (!first) o2 << ","; first = false; a.print(c_.pp, o2, true); }
        o2.flush();
        j.attribute("ta", s2);
      }
      if (f->isStatic()) j.attribute("st", 1);
      if (auto* m = dyn_cast<CXXMethodDecl>(f)) {
        const CXXRecordDecl* rec = m->getParent();
        j.attribute("cls", c_.qname(rec));
        std::string ct; { llvm::raw_string_ostream o2(ct); c_.ac->getRecordType(rec).getCanonicalType().print(o2, c_.pp); }
        j.attribute("clst", ct);
        j.attribute("acc", (int)m->getAccess());
        if (m->isVirtual()) j.attribute("virt", 1);
        if (m->isConst()) j.attribute("const", 1);
        if (m->isStatic()) j.attribute("sm", 1);
        if (rec->isLambda()) j.attribute("lambda", 1);
        j.attributeBegin("ov"); j.arrayBegin();
        std::vector<const CXXMethodDecl*> work(m->begin_overridden_methods(), m->end_overridden_methods());
        for (size_t i = 0; i < work.size() && i < 32; ++i) {
          j.value(c_.usr(work[i]));
          work.insert(work.end(), work[i]->begin_overridden_methods(), work[i]->end_overridden_methods());
        }
        j.arrayEnd(); j.attributeEnd();
        if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
          j.attribute("ctor", 1);
          (void)cd;
        }
        if (isa<CXXDestructorDecl>(f)) j.attribute("dtor", 1);
      }
      j.attributeBegin("params"); j.arrayBegin();
      for (auto* p : f->parameters()) d.param(p);
      j.arrayEnd(); j.attributeEnd();
      j.objectEnd();
    }
    {
      llvm::raw_string_ostream o(body);
      llvm::json::OStream j(o);
      Dumper d(c_, j);
      j.objectBegin();
      if (auto* cd = dyn_cast<CXXConstructorDecl>(f)) {
        j.attributeBegin("inits"); j.arrayBegin();
        for (auto* in : cd->inits()) {
          j.objectBegin();
          if (in->isAnyMemberInitializer()) { j.attribute("field", in->getAnyMember()->getNameAsString()); j.attribute("ft", c_.typeId(in->getAnyMember()->getType())); }
          else if (in->isBaseInitializer()) j.attribute("base", c_.typeId(QualType(in->getBaseClass(), 0)));
          else if (in->isDelegatingInitializer()) j.attribute("deleg", 1);
          if (in->isWritten()) j.attribute("w", 1);
          j.attribute("l", c_.line(in->getSourceLocation()));
          j.attributeBegin("e"); d.stmt(in->getInit()); j.attributeEnd();
          j.objectEnd();
        }
        j.arrayEnd(); j.attributeEnd();
      }
      j.attributeBegin("body"); d.stmt(f->getBody()); j.attributeEnd();
      j.objectEnd();
    }
    os_ << head << "\t" << body << "\n";
  }

  bool VisitCXXRecordDecl(CXXRecordDecl* r) {
    if (!r->isThisDeclarationADefinition() || r->isLambda() || !c_.ours(r->getLocation())) return true;
    if (r->isInvalidDecl()) return true;
    std::string ct; { llvm::raw_string_ostream o2(ct); c_.ac->getRecordType(r).getCanonicalType().print(o2, c_.pp); }
    if (!seen_.insert("R" + ct + (r->isDependentContext() ? "D" : "")).second) return true;
    std::string head;
    llvm::raw_string_ostream o(head);
    llvm::json::OStream j(o);
    Dumper d(c_, j);
    j.objectBegin();
    j.attribute("R", "rec");
    j.attribute("q", c_.qname(r));
    j.attribute("ct", ct);
    j.attribute("f", c_.file(r->getLocation()));
    j.attribute("l", c_.line(r->getLocation()));
    if (r->isDependentContext()) j.attribute("dep", 1);
    if (r->isUnion()) j.attribute("union", 1);
    if (r->isAggregate()) j.attribute("agg", 1);
    if (r->isAbstract()) j.attribute("abstract", 1);
    if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r)) {
      j.attribute("spec", (int)sp->getSpecializationKind());
    }
    j.attributeBegin("bases"); j.arrayBegin();
    for (auto& b : r->bases()) j.value(c_.typeId(b.getType()));
    j.arrayEnd(); j.attributeEnd();
    j.attributeBegin("fields"); j.arrayBegin();
    for (auto* f : r->fields()) {
      j.objectBegin();
      j.attribute("n", f->getNameAsString());
      j.attribute("t", c_.typeId(f->getType()));
      j.attribute("l", c_.line(f->getLocation()));
      j.attribute("acc", (int)f->getAccess());
      if (f->isMutable()) j.attribute("mut", 1);
      if (f->getType()->isScalarType() || f->getType()->isArrayType()) j.attribute("scalar", 1);
      if (f->hasInClassInitializer()) {
        j.attribute("init", 1);
        if (!f->getInClassInitializer()) {
          // not instantiated (yet): the pattern's, unless it depends on the arguments
          if (auto* pat = dyn_cast<CXXRecordDecl>(r) ? cast<CXXRecordDecl>(r)->getTemplateInstantiationPattern() : nullptr)
            for (auto* g : pat->fields())
              if (g->getName() == f->getName() && g->getInClassInitializer() && !g->getInClassInitializer()->isTypeDependent() && !g->getInClassInitializer()->isValueDependent()) {
                j.attributeBegin("e"); d.stmt(g->getInClassInitializer()); j.attributeEnd();
                break;
              }
        }
        if (f->getInClassInitializer()) { j.attributeBegin("e"); d.stmt(f->getInClassInitializer()); j.attributeEnd(); }
      }
      j.objectEnd();
    }
    j.arrayEnd(); j.attributeEnd();
    j.attributeBegin("methods"); j.arrayBegin();
    for (auto* m : r->methods()) {
      if (m->isImplicit()) continue;
      j.objectBegin();
      j.attribute("n", m->getNameAsString());
      j.attribute("u", c_.usr(m));
      j.attribute("acc", (int)m->getAccess());
      j.attribute("l", c_.line(m->getLocation()));
      j.attribute("rt", c_.typeId(m->getReturnType()));
      if (m->isVirtual()) j.attribute("virt", 1);
      if (m->isPureVirtual()) j.attribute("pure", 1);
      if (m->isConst()) j.attribute("const", 1);
      if (m->isStatic()) j.attribute("static", 1);
      if (m->isDeleted()) j.attribute("deleted", 1);
      if (m->isDefaulted()) j.attribute("defaulted", 1);
      if (isa<CXXConstructorDecl>(m)) j.attribute("ctor", 1);
      if (isa<CXXDestructorDecl>(m)) j.attribute("dtor", 1);
      if (m->isCopyAssignmentOperator()) j.attribute("copyassign", 1);
      if (auto* cd = dyn_cast<CXXConstructorDecl>(m)) { if (cd->isCopyConstructor()) j.attribute("copyctor", 1); }
      j.attributeBegin("params"); j.arrayBegin();
      for (auto* p : m->parameters()) d.param(p);
      j.arrayEnd(); j.attributeEnd();
      j.objectEnd();
    }
    j.arrayEnd(); j.attributeEnd();
    j.objectEnd();
    os_ << o.str() << "\n";
    return true;
  }

  bool VisitEnumDecl(EnumDecl* e) {
    if (!e->isThisDeclarationADefinition() || !c_.ours(e->getLocation())) return true;
    std::string head;
    llvm::raw_string_ostream o(head);
    llvm::json::OStream j(o);
    j.objectBegin();
    j.attribute("R", "enum");
    j.attribute("q", c_.qname(e));
    j.attribute("f", c_.file(e->getLocation()));
    j.attribute("l", c_.line(e->getLocation()));
    j.attributeBegin("vals"); j.arrayBegin();
    for (auto* k : e->enumerators()) {
      j.objectBegin();
      j.attribute("n", k->getNameAsString());
      if (!k->getType()->isDependentType()) j.attribute("v", k->getInitVal().getExtValue());
      j.objectEnd();
    }
    j.arrayEnd(); j.attributeEnd();
    j.objectEnd();
    os_ << o.str() << "\n";
    return true;
  }

  bool VisitVarDecl(VarDecl* v) {
    if (!v->hasGlobalStorage() || !c_.ours(v->getLocation())) return true;
    if (v->isThisDeclarationADefinition() == VarDecl::DeclarationOnly && !v->isInline() && !v->isStaticDataMember()) return true;
    std::string head;
    llvm::raw_string_ostream o(head);
    llvm::json::OStream j(o);
    Dumper d(c_, j);
    QualType t = v->getType();
    j.objectBegin();
    j.attribute("R", "var");
    j.attribute("q", c_.qname(v));
    j.attribute("f", c_.file(v->getLocation()));
    j.attribute("l", c_.line(v->getLocation()));
    j.attribute("t", c_.typeId(t));
    if (v->getDeclContext()->isDependentContext()) j.attribute("dep", 1);
    if (t.isConstQualified() || v->isConstexpr() || (c_.ac->getBaseElementType(t).isConstQualified())) j.attribute("const", 1);
    if (v->isConstexpr()) j.attribute("constexpr", 1);
    if (v->isStaticLocal()) j.attribute("staticlocal", 1);
    if (v->getTLSKind() != VarDecl::TLS_None) j.attribute("tls", 1);
    if (v->isStaticDataMember()) j.attribute("member", 1);
    if (v->hasInit() && !v->getDeclContext()->isDependentContext()) { j.attributeBegin("e"); d.stmt(v->getInit()); j.attributeEnd(); }
    j.objectEnd();
    os_ << o.str() << "\n";
    return true;
  }

  bool VisitClassTemplateSpecializationDecl(ClassTemplateSpecializationDecl* s) {
    if (s->getSpecializationKind() != TSK_ExplicitInstantiationDefinition) return true;
    std::string ct; { llvm::raw_string_ostream o2(ct); c_.ac->getRecordType(s).getCanonicalType().print(o2, c_.pp); }
    std::string head; llvm::raw_string_ostream o(head); llvm::json::OStream j(o);
    j.objectBegin(); j.attribute("R", "expinst"); j.attribute("ct", ct);
    SourceLocation pl = s->getPointOfInstantiation();
    j.attribute("f", c_.file(pl)); j.attribute("l", c_.line(pl));
    j.objectEnd(); os_ << o.str() << "\n";
    return true;
  }

 private:
  Ctx& c_;
  llvm::raw_ostream& os_;
  std::set<std::string> seen_;
};

class Consumer : public ASTConsumer {
 public:
  explicit Consumer(CompilerInstance& ci) : ci_(ci) {}
  void HandleTranslationUnit(ASTContext& ac) override {
    if (ci_.getDiagnostics().hasErrorOccurred()) return;
    Ctx c(ac);
    std::string buf;
    llvm::raw_string_ostream os(buf);
    V v(c, os);
    v.TraverseDecl(ac.getTranslationUnitDecl());
    os.flush();
    std::error_code ec;
    llvm::raw_fd_ostream f(g_out, ec);
    {
      llvm::json::OStream j(f);
      j.objectBegin();
      j.attribute("R", "head");
      j.attributeBegin("types"); j.arrayBegin();
      for (auto& t : c.typeNames) j.value(t);
      j.arrayEnd(); j.attributeEnd();
      j.attributeBegin("deps"); j.arrayBegin();
      auto& sm = ac.getSourceManager();
      for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
        std::string n = it->first.getName().str();
        for (auto& r : g_roots) if (n.compare(0, r.size(), r) == 0) { j.value(n); break; }
      }
      j.arrayEnd(); j.attributeEnd();
      j.objectEnd();
    }
    f << "\n" << buf;
  }
 private:
  CompilerInstance& ci_;
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override {
    return std::make_unique<Consumer>(ci);
  }
};
}  // namespace

// usage: cfacts OUT ROOT[,ROOT...] FILE -- compiler-args
int main(int argc, char** argv) {
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  g_out = argv[1];
  std::string roots = argv[2];
  size_t p = 0;
  while (p <= roots.size()) {
    size_t q = roots.find(',', p); if (q == std::string::npos) q = roots.size();
    g_roots.push_back(roots.substr(p, q - p)); p = q + 1;
  }
  std::string file = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {file});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
