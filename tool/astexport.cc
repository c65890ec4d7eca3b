// Exports the resolved (type-checked, template-instantiated) program of one
// translation unit as JSON, restricted to declarations below given roots.
// Usage: astexport OUT.json ROOT[:ROOT...] FILE -- clang args
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/ADT/SmallString.h"
#include "llvm/ADT/DenseMap.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>
using namespace clang;

static std::string gOut;
static std::vector<std::string> gRoots;

namespace {
std::string esc(llvm::StringRef s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    switch (c) {
      case '"': r += "\\\""; break;
      case '\\': r += "\\\\"; break;
      case '\n': r += "\\n"; break;
      case '\t': r += "\\t"; break;
      case '\r': r += "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) {
          char b[8]; snprintf(b, sizeof b, "\\u%04x", c); r += b;
        } else r += c;
    }
  }
  return r + "\"";
}

class Exporter : public RecursiveASTVisitor<Exporter> {
 public:
  explicit Exporter(ASTContext &c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
    PP.SuppressTagKeyword = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  bool inRoots(SourceLocation l) {
    if (l.isInvalid()) return false;
    PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    if (p.isInvalid()) return false;
    llvm::StringRef f(p.getFilename());
    for (auto &r : gRoots) if (f.starts_with(r)) return true;
    return false;
  }
  int type(QualType q) {
    if (q.isNull()) return -1;
    q = q.getCanonicalType();
    auto it = typeIdx.find(q.getAsOpaquePtr());
    if (it != typeIdx.end()) return it->second;
    std::string s = q.getAsString(PP);
    int id = types.size();
    types.push_back(s);
    typeIdx[q.getAsOpaquePtr()] = id;
    return id;
  }
  int declId(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int id = ids.size() + 1;
    ids[d] = id;
    return id;
  }
  std::string qname(const NamedDecl *d) {
    std::string s; llvm::raw_string_ostream os(s);
    PrintingPolicy p = PP;
    d->printQualifiedName(os, p);
    return os.str();
  }
  std::string targs(llvm::ArrayRef<TemplateArgument> as) {
    std::string r = "[";
    bool first = true;
    for (auto &a : as) {
      if (a.getKind() == TemplateArgument::Pack) {
        std::string in = targs(a.getPackAsArray());
        if (in.size() > 2) { if (!first) r += ","; first = false; r += in.substr(1, in.size() - 2); }
        continue;
      }
      if (!first) r += ",";
      first = false;
      if (a.getKind() == TemplateArgument::Type) r += esc(a.getAsType().getCanonicalType().getAsString(PP));
      else if (a.getKind() == TemplateArgument::Integral) { llvm::SmallString<32> s; a.getAsIntegral().toString(s, 10); r += s.c_str(); }
      else { std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); r += esc(os.str()); }
    }
    return r + "]";
  }
  int line(SourceLocation l) {
    if (l.isInvalid()) return 0;
    return SM.getExpansionLineNumber(l);
  }
  std::string file(SourceLocation l) {
    if (l.isInvalid()) return "";
    PresumedLoc p = SM.getPresumedLoc(SM.getExpansionLoc(l));
    return p.isInvalid() ? "" : p.getFilename();
  }
  std::string macro(SourceLocation l) {
    std::string r;
    while (l.isMacroID()) {
      r = Lexer::getImmediateMacroName(l, SM, C.getLangOpts()).str();
      l = SM.getImmediateMacroCallerLoc(l);
    }
    return r;
  }
  std::string k(const char *kind, const Stmt *s) {
    std::string r = std::string("{\"k\":\"") + kind + "\",\"l\":" + std::to_string(line(s->getBeginLoc()));
    return r;
  }
  std::string kt(const char *kind, const Expr *e) {
    return k(kind, e) + ",\"t\":" + std::to_string(type(e->getType())) + (e->isXValue() ? ",\"xv\":1" : "");
  }
  // reference to function
  int fn(const FunctionDecl *f) {
    int id = declId(f);
    if (!refFuncs.count(id)) { refFuncs[id] = f; work.push_back(f); }
    return id;
  }
  std::string fref(const FunctionDecl *f) {
    return ",\"f\":" + std::to_string(fn(f)) + ",\"fn\":" + esc(qname(f));
  }
  std::string list(llvm::ArrayRef<const Expr *> v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) { if (i) r += ","; r += expr(v[i]); }
    return r + "]";
  }
  template <class R> std::string listR(R range) {
    std::vector<const Expr *> v;
    for (auto e : range) v.push_back(e);
    return list(v);
  }
  std::string var(const VarDecl *v, bool withInit = true) {
    std::string r = "{\"d\":" + std::to_string(declId(v)) + ",\"n\":" + esc(v->getNameAsString()) + ",\"t\":" + std::to_string(type(v->getType())) + ",\"l\":" + std::to_string(line(v->getLocation()));
    if (v->isStaticLocal()) r += ",\"static\":1";
    if (auto *dd = dyn_cast<DecompositionDecl>(v)) {
      r += ",\"bind\":[";
      bool first = true;
      for (auto *b : dd->bindings()) {
        if (!first) r += ","; first = false;
        r += "{\"d\":" + std::to_string(declId(b)) + ",\"n\":" + esc(b->getNameAsString());
        if (auto *hv = b->getHoldingVar()) { r += ",\"hv\":" + std::to_string(declId(hv)); }
        r += "}";
      }
      r += "]";
    }
    if (withInit && v->getInit()) r += ",\"init\":" + expr(v->getInit());
    return r + "}";
  }
  std::string lit(const FloatingLiteral *f) {
    bool inv = false;
    CharSourceRange cr = CharSourceRange::getTokenRange(f->getBeginLoc(), f->getEndLoc());
    std::string s;
    if (f->getBeginLoc().isFileID()) s = Lexer::getSourceText(cr, SM, C.getLangOpts(), &inv).str();
    llvm::SmallString<40> b; f->getValue().toString(b, 30);
    return ",\"v\":" + esc(b.str()) + ",\"s\":" + esc(s);
  }
  std::string expr(const Expr *e) {
    if (!e) return "null";
    switch (e->getStmtClass()) {
      case Stmt::ParenExprClass: return expr(cast<ParenExpr>(e)->getSubExpr());
      case Stmt::ExprWithCleanupsClass: return expr(cast<ExprWithCleanups>(e)->getSubExpr());
      case Stmt::MaterializeTemporaryExprClass: return expr(cast<MaterializeTemporaryExpr>(e)->getSubExpr());
      case Stmt::CXXBindTemporaryExprClass: return expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
      case Stmt::SubstNonTypeTemplateParmExprClass: return expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
      case Stmt::ConstantExprClass: return expr(cast<ConstantExpr>(e)->getSubExpr());
      case Stmt::CXXDefaultArgExprClass: return expr(cast<CXXDefaultArgExpr>(e)->getExpr());
      case Stmt::CXXDefaultInitExprClass: return expr(cast<CXXDefaultInitExpr>(e)->getExpr());
      case Stmt::CXXStdInitializerListExprClass: return kt("stdinit", e) + ",\"e\":" + expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr()) + "}";
      case Stmt::CXXRewrittenBinaryOperatorClass: return expr(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
      case Stmt::GenericSelectionExprClass: return expr(cast<GenericSelectionExpr>(e)->getResultExpr());
      case Stmt::ChooseExprClass: return expr(cast<ChooseExpr>(e)->getChosenSubExpr());
      case Stmt::IntegerLiteralClass: { llvm::SmallString<32> s; cast<IntegerLiteral>(e)->getValue().toString(s, 10, e->getType()->isSignedIntegerType()); return kt("int", e) + ",\"v\":" + s.c_str() + "}"; }
      case Stmt::CharacterLiteralClass: return kt("int", e) + ",\"v\":" + std::to_string(cast<CharacterLiteral>(e)->getValue()) + "}";
      case Stmt::CXXBoolLiteralExprClass: return kt("bool", e) + ",\"v\":" + (cast<CXXBoolLiteralExpr>(e)->getValue() ? "true" : "false") + "}";
      case Stmt::FloatingLiteralClass: return kt("float", e) + lit(cast<FloatingLiteral>(e)) + "}";
      case Stmt::StringLiteralClass: { auto *s = cast<StringLiteral>(e); return kt("str", e) + ",\"v\":" + esc(s->getCharByteWidth() == 1 ? s->getString() : llvm::StringRef("")) + "}"; }
      case Stmt::PredefinedExprClass: return kt("str", e) + ",\"v\":\"\"}";
      case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: return kt("null", e) + "}";
      case Stmt::CXXThisExprClass: return kt("this", e) + "}";
      case Stmt::DeclRefExprClass: return declref(cast<DeclRefExpr>(e));
      case Stmt::MemberExprClass: {
        auto *m = cast<MemberExpr>(e);
        const ValueDecl *d = m->getMemberDecl();
        std::string r = kt("member", e) + ",\"b\":" + expr(m->getBase()) + ",\"n\":" + esc(d->getNameAsString()) + ",\"d\":" + std::to_string(declId(d));
        if (m->isArrow()) r += ",\"arrow\":1";
        if (isa<VarDecl>(d)) { r += ",\"sv\":1"; gvars.insert(cast<VarDecl>(d)); }
        return r + "}";
      }
      case Stmt::UnaryOperatorClass: { auto *u = cast<UnaryOperator>(e); return kt("un", e) + ",\"op\":" + esc(UnaryOperator::getOpcodeStr(u->getOpcode()).str() + (u->isPostfix() ? "post" : "")) + ",\"e\":" + expr(u->getSubExpr()) + "}"; }
      case Stmt::BinaryOperatorClass: { auto *b = cast<BinaryOperator>(e); return kt("bin", e) + ",\"op\":" + esc(b->getOpcodeStr()) + ",\"a\":" + expr(b->getLHS()) + ",\"b\":" + expr(b->getRHS()) + "}"; }
      case Stmt::CompoundAssignOperatorClass: { auto *b = cast<CompoundAssignOperator>(e); return kt("cassign", e) + ",\"ct\":" + std::to_string(type(b->getComputationResultType())) + ",\"op\":" + esc(b->getOpcodeStr()) + ",\"a\":" + expr(b->getLHS()) + ",\"b\":" + expr(b->getRHS()) + "}"; }
      case Stmt::ConditionalOperatorClass: { auto *c = cast<ConditionalOperator>(e); return kt("cond", e) + ",\"c\":" + expr(c->getCond()) + ",\"a\":" + expr(c->getTrueExpr()) + ",\"b\":" + expr(c->getFalseExpr()) + "}"; }
      case Stmt::ArraySubscriptExprClass: { auto *a = cast<ArraySubscriptExpr>(e); return kt("index", e) + ",\"a\":" + expr(a->getBase()) + ",\"i\":" + expr(a->getIdx()) + "}"; }
      case Stmt::InitListExprClass: {
        auto *i = cast<InitListExpr>(e);
        std::string r = kt("ilist", e) + ",\"e\":" + listR(i->inits());
        if (i->hasArrayFiller()) r += ",\"fill\":" + expr(i->getArrayFiller());
        return r + "}";
      }
      case Stmt::ImplicitValueInitExprClass: return kt("zero", e) + "}";
      case Stmt::CXXScalarValueInitExprClass: return kt("zero", e) + "}";
      case Stmt::ArrayInitLoopExprClass: return kt("arrcopy", e) + ",\"e\":" + expr(cast<ArrayInitLoopExpr>(e)->getCommonExpr()) + "}";
      case Stmt::OpaqueValueExprClass: return expr(cast<OpaqueValueExpr>(e)->getSourceExpr());
      case Stmt::CXXMemberCallExprClass: {
        auto *c = cast<CXXMemberCallExpr>(e);
        const CXXMethodDecl *m = c->getMethodDecl();
        std::string r = kt("mcall", e);
        const Expr *obj = c->getImplicitObjectArgument();
        bool qualified = false;
        if (auto *me = dyn_cast<MemberExpr>(c->getCallee()->IgnoreParens())) qualified = me->hasQualifier();
        if (m) {
          r += fref(m);
          if (m->isVirtual() && !qualified) r += ",\"virt\":1";
          if (isa<CXXConversionDecl>(m)) r += ",\"conv\":1";
        }
        if (obj && obj->getType()->isPointerType()) r += ",\"arrow\":1";
        r += ",\"obj\":" + expr(obj) + ",\"args\":" + list(llvm::ArrayRef<const Expr *>(c->getArgs(), c->getNumArgs()));
        if (!m) r += ",\"callee\":" + expr(c->getCallee());
        return r + "}";
      }
      case Stmt::CXXOperatorCallExprClass: {
        auto *c = cast<CXXOperatorCallExpr>(e);
        std::string r = kt("opcall", e) + ",\"op\":" + esc(getOperatorSpelling(c->getOperator()));
        if (auto *f = c->getDirectCallee()) { r += fref(f); if (isa<CXXMethodDecl>(f)) r += ",\"mem\":1"; }
        r += ",\"args\":" + list(llvm::ArrayRef<const Expr *>(c->getArgs(), c->getNumArgs()));
        return r + "}";
      }
      case Stmt::UserDefinedLiteralClass:
      case Stmt::CallExprClass: {
        auto *c = cast<CallExpr>(e);
        std::string r = kt("call", e);
        if (auto *f = c->getDirectCallee()) r += fref(f);
        else r += ",\"callee\":" + expr(c->getCallee());
        r += ",\"args\":" + list(llvm::ArrayRef<const Expr *>(c->getArgs(), c->getNumArgs()));
        std::string mn = macro(c->getBeginLoc());
        if (!mn.empty()) r += ",\"m\":" + esc(mn);
        return r + "}";
      }
      case Stmt::CXXConstructExprClass:
      case Stmt::CXXTemporaryObjectExprClass: {
        auto *c = cast<CXXConstructExpr>(e);
        auto *cd = c->getConstructor();
        std::string r = kt("ctor", e) + fref(cd);
        if (cd->isCopyConstructor()) r += ",\"cp\":1";
        if (cd->isMoveConstructor()) r += ",\"mv\":1";
        if (cd->isDefaultConstructor()) r += ",\"df\":1";
        if (c->isListInitialization()) r += ",\"li\":1";
        if (c->isStdInitListInitialization()) r += ",\"sil\":1";
        r += ",\"args\":" + list(llvm::ArrayRef<const Expr *>(c->getArgs(), c->getNumArgs()));
        return r + "}";
      }
      case Stmt::CXXInheritedCtorInitExprClass: {
        auto *c = cast<CXXInheritedCtorInitExpr>(e);
        return kt("inhctor", e) + fref(c->getConstructor()) + "}";
      }
      case Stmt::ImplicitCastExprClass:
      case Stmt::CStyleCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass:
      case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass: case Stmt::CXXDynamicCastExprClass:
      case Stmt::BuiltinBitCastExprClass: {
        auto *c = cast<CastExpr>(e);
        bool expl = isa<ExplicitCastExpr>(e);
        switch (c->getCastKind()) {
          case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
          case CK_UserDefinedConversion: case CK_ConstructorConversion: case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
          case CK_BuiltinFnToFnPtr: case CK_NullToPointer:
            if (!expl) return expr(c->getSubExpr());
            break;
          default: break;
        }
        std::string r = kt("cast", e) + ",\"ck\":" + esc(c->getCastKindName());
        if (expl) r += std::string(",\"x\":") + esc(e->getStmtClassName());
        return r + ",\"e\":" + expr(c->getSubExpr()) + "}";
      }
      case Stmt::LambdaExprClass: {
        auto *L = cast<LambdaExpr>(e);
        std::string r = kt("lambda", e) + ",\"rec\":" + std::to_string(declId(L->getLambdaClass()));
        if (auto *op = L->getCallOperator()) r += ",\"f\":" + std::to_string(fn(op));
        if (auto *ct = L->getLambdaClass()->getDependentLambdaCallOperator()) {
          r += ",\"spec\":[";
          bool fs = true;
          for (auto *sp : ct->specializations()) { if (!fs) r += ","; fs = false; r += std::to_string(fn(sp)); }
          r += "]";
        }
        r += ",\"caps\":[";
        bool first = true;
        auto ci = L->capture_init_begin();
        for (auto c = L->capture_begin(); c != L->capture_end(); ++c, ++ci) {
          if (!first) r += ","; first = false;
          if (c->capturesThis()) r += "{\"this\":1,\"star\":" + std::string(c->getCaptureKind() == LCK_StarThis ? "1" : "0") + "}";
          else if (c->capturesVariable()) {
            r += "{\"d\":" + std::to_string(declId(c->getCapturedVar())) + ",\"n\":" + esc(c->getCapturedVar()->getNameAsString()) + ",\"ref\":" + (c->getCaptureKind() == LCK_ByRef ? "1" : "0");
            if (auto *vd = dyn_cast<VarDecl>(c->getCapturedVar())) if (vd->isInitCapture() && vd->getInit()) r += ",\"init\":" + expr(vd->getInit());
            r += "}";
          } else r += "{}";
        }
        return r + "]}";
      }
      case Stmt::CXXNewExprClass: {
        auto *n = cast<CXXNewExpr>(e);
        std::string r = kt("new", e) + ",\"et\":" + std::to_string(type(n->getAllocatedType()));
        if (n->isArray() && n->getArraySize()) r += ",\"n\":" + expr(*n->getArraySize());
        if (n->getInitializer()) r += ",\"init\":" + expr(n->getInitializer());
        return r + "}";
      }
      case Stmt::CXXDeleteExprClass: return kt("delete", e) + ",\"e\":" + expr(cast<CXXDeleteExpr>(e)->getArgument()) + "}";
      case Stmt::CXXThrowExprClass: return kt("throw", e) + ",\"e\":" + expr(cast<CXXThrowExpr>(e)->getSubExpr()) + "}";
      case Stmt::SubstNonTypeTemplateParmPackExprClass: break;
      case Stmt::SizeOfPackExprClass: return kt("int", e) + ",\"v\":" + std::to_string(cast<SizeOfPackExpr>(e)->getPackLength()) + "}";
      case Stmt::CXXTypeidExprClass: return kt("typeid", e) + "}";
      case Stmt::UnaryExprOrTypeTraitExprClass: case Stmt::TypeTraitExprClass: case Stmt::CXXNoexceptExprClass:
      case Stmt::ConceptSpecializationExprClass: case Stmt::RequiresExprClass: {
        Expr::EvalResult R;
        if (!e->isValueDependent() && e->EvaluateAsRValue(R, C) && R.Val.isInt()) {
          llvm::SmallString<32> s; R.Val.getInt().toString(s, 10);
          return kt("int", e) + ",\"v\":" + s.c_str() + "}";
        }
        break;
      }
      case Stmt::StmtExprClass: return kt("stmtexpr", e) + ",\"s\":" + stmt(cast<StmtExpr>(e)->getSubStmt()) + "}";
      case Stmt::CXXPseudoDestructorExprClass: return kt("pdtor", e) + "}";
      case Stmt::CXXFoldExprClass: break;
      case Stmt::CXXParenListInitExprClass: return kt("ilist", e) + ",\"e\":" + listR(cast<CXXParenListInitExpr>(e)->getInitExprs()) + "}";
      default: break;
    }
    std::string r = kt("unk", e) + ",\"c\":" + esc(e->getStmtClassName()) + ",\"e\":[";
    bool first = true;
    for (const Stmt *ch : e->children()) {
      if (auto *x = dyn_cast_or_null<Expr>(ch)) { if (!first) r += ","; first = false; r += expr(x); }
    }
    return r + "]}";
  }
  std::string declref(const DeclRefExpr *e) {
    const ValueDecl *d = e->getDecl();
    std::string r = kt("ref", e) + ",\"d\":" + std::to_string(declId(d)) + ",\"n\":" + esc(d->getNameAsString());
    if (auto *f = dyn_cast<FunctionDecl>(d)) r += ",\"dk\":\"func\"" + fref(f);
    else if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
      llvm::SmallString<32> s; ec->getInitVal().toString(s, 10);
      r += std::string(",\"dk\":\"enumc\",\"v\":") + s.c_str();
      r += ",\"q\":" + esc(qname(ec));
    } else if (auto *v = dyn_cast<VarDecl>(d)) {
      if (v->isLocalVarDeclOrParm() ) r += ",\"dk\":\"var\"";
      else { r += ",\"dk\":\"gvar\",\"q\":" + esc(qname(v)); gvars.insert(v); 
        Expr::EvalResult R;
        const VarDecl *def = nullptr; const Expr *in = v->getAnyInitializer(def);
        if (in && !in->isValueDependent() && v->getType().isConstQualified() && v->getType()->isIntegralOrEnumerationType() && in->EvaluateAsRValue(R, C) && R.Val.isInt()) {
          llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); r += std::string(",\"v\":") + s.c_str();
        }
      }
      if (v->isStaticLocal()) r += ",\"static\":1";
    } else if (auto *b = dyn_cast<BindingDecl>(d)) {
      r += ",\"dk\":\"bind\"";
      if (b->getBinding() && !b->getHoldingVar()) {}
    } else if (isa<TemplateParamObjectDecl>(d)) {
      r += ",\"dk\":\"tpo\"";
    } else r += ",\"dk\":\"other\"";
    return r + "}";
  }
  std::string stmt(const Stmt *s) {
    if (!s) return "null";
    if (auto *e = dyn_cast<Expr>(s)) return k("expr", s) + ",\"e\":" + expr(e) + "}";
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        std::string r = k("block", s) + ",\"s\":[";
        bool first = true;
        for (auto *c : cast<CompoundStmt>(s)->body()) { if (!first) r += ","; first = false; r += stmt(c); }
        return r + "]}";
      }
      case Stmt::DeclStmtClass: {
        std::string r = k("decl", s) + ",\"v\":[";
        bool first = true;
        for (auto *d : cast<DeclStmt>(s)->decls()) {
          if (auto *v = dyn_cast<VarDecl>(d)) { if (!first) r += ","; first = false; r += var(v);
            if (auto *dd = dyn_cast<DecompositionDecl>(v)) for (auto *b : dd->bindings()) if (auto *hv = b->getHoldingVar()) { r += "," + var(hv); }
          }
        }
        return r + "]}";
      }
      case Stmt::IfStmtClass: {
        auto *i = cast<IfStmt>(s);
        std::string r = k("if", s);
        std::string m = macro(i->getBeginLoc());
        if (!m.empty()) r += ",\"m\":" + esc(m);
        if (i->isConstexpr()) {
          r += ",\"cx\":1";
          Expr::EvalResult R;
          if (!i->getCond()->isValueDependent() && i->getCond()->EvaluateAsRValue(R, C) && R.Val.isInt())
            r += std::string(",\"cv\":") + (R.Val.getInt() != 0 ? "true" : "false");
        }
        if (i->getInit()) r += ",\"init\":" + stmt(i->getInit());
        if (i->getConditionVariable()) r += ",\"var\":" + var(i->getConditionVariable());
        r += ",\"c\":" + expr(i->getCond()) + ",\"a\":" + stmt(i->getThen());
        if (i->getElse()) r += ",\"b\":" + stmt(i->getElse());
        return r + "}";
      }
      case Stmt::ForStmtClass: {
        auto *f = cast<ForStmt>(s);
        return k("for", s) + ",\"init\":" + stmt(f->getInit()) + ",\"c\":" + expr(f->getCond()) + ",\"inc\":" + expr(f->getInc()) + ",\"s\":" + stmt(f->getBody()) + "}";
      }
      case Stmt::CXXForRangeStmtClass: {
        auto *f = cast<CXXForRangeStmt>(s);
        std::string r = k("rfor", s);
        if (f->getInit()) r += ",\"init\":" + stmt(f->getInit());
        const VarDecl *lv = f->getLoopVariable();
        r += ",\"r\":" + expr(f->getRangeInit()) + ",\"v\":" + var(lv, false);
        if (auto *dd = dyn_cast<DecompositionDecl>(lv)) {
          r += ",\"hv\":[";
          bool first = true;
          for (auto *b : dd->bindings()) if (auto *hv = b->getHoldingVar()) { if (!first) r += ","; first = false; r += var(hv); }
          r += "]";
        }
        return r + ",\"s\":" + stmt(f->getBody()) + "}";
      }
      case Stmt::WhileStmtClass: { auto *w = cast<WhileStmt>(s); return k("while", s) + (w->getConditionVariable() ? ",\"var\":" + var(w->getConditionVariable()) : "") + ",\"c\":" + expr(w->getCond()) + ",\"s\":" + stmt(w->getBody()) + "}"; }
      case Stmt::DoStmtClass: { auto *w = cast<DoStmt>(s); std::string m = macro(s->getBeginLoc()); return k("do", s) + (m.empty() ? "" : ",\"m\":" + esc(m)) + ",\"c\":" + expr(w->getCond()) + ",\"s\":" + stmt(w->getBody()) + "}"; }
      case Stmt::ReturnStmtClass: return k("ret", s) + ",\"e\":" + expr(cast<ReturnStmt>(s)->getRetValue()) + "}";
      case Stmt::BreakStmtClass: return k("break", s) + "}";
      case Stmt::ContinueStmtClass: return k("continue", s) + "}";
      case Stmt::NullStmtClass: return k("nop", s) + "}";
      case Stmt::SwitchStmtClass: {
        auto *w = cast<SwitchStmt>(s);
        std::string r = k("switch", s);
        if (w->getInit()) r += ",\"init\":" + stmt(w->getInit());
        if (w->getConditionVariable()) r += ",\"var\":" + var(w->getConditionVariable());
        if (w->isAllEnumCasesCovered()) r += ",\"allenum\":1";
        return r + ",\"c\":" + expr(w->getCond()) + ",\"s\":" + stmt(w->getBody()) + "}";
      }
      case Stmt::CaseStmtClass: {
        auto *c = cast<CaseStmt>(s);
        std::string r = k("case", s);
        Expr::EvalResult R;
        if (!c->getLHS()->isValueDependent() && c->getLHS()->EvaluateAsRValue(R, C) && R.Val.isInt()) {
          llvm::SmallString<32> t; R.Val.getInt().toString(t, 10); r += std::string(",\"v\":") + t.c_str();
        }
        if (c->getRHS() && !c->getRHS()->isValueDependent() && c->getRHS()->EvaluateAsRValue(R, C) && R.Val.isInt()) {
          llvm::SmallString<32> t; R.Val.getInt().toString(t, 10); r += std::string(",\"v2\":") + t.c_str();
        }
        return r + ",\"s\":" + stmt(c->getSubStmt()) + "}";
      }
      case Stmt::DefaultStmtClass: return k("default", s) + ",\"s\":" + stmt(cast<DefaultStmt>(s)->getSubStmt()) + "}";
      case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
      case Stmt::CXXTryStmtClass: {
        auto *t = cast<CXXTryStmt>(s);
        std::string r = k("try", s) + ",\"s\":" + stmt(t->getTryBlock()) + ",\"h\":[";
        for (unsigned i = 0; i < t->getNumHandlers(); ++i) { if (i) r += ","; r += stmt(t->getHandler(i)->getHandlerBlock()); }
        return r + "]}";
      }
      default: {
        return k("unks", s) + ",\"c\":" + esc(s->getStmtClassName()) + "}";
      }
    }
  }
  void exportFunc(const FunctionDecl *f0) {
    int id = declId(f0);
    if (!doneFuncs.insert(id).second) return;
    const FunctionDecl *def = nullptr;
    bool has = f0->isDefined(def) && def;
    const FunctionDecl *f = has ? def : f0;
    std::string r = "{\"id\":" + std::to_string(id) + ",\"q\":" + esc(qname(f)) + ",\"ret\":" + std::to_string(type(f->getReturnType()));
    bool root = inRoots(f->getLocation());
    if (f->getTemplateInstantiationPattern()) root = root || inRoots(f->getTemplateInstantiationPattern()->getLocation());
    r += ",\"file\":" + esc(file(f->getLocation())) + ",\"line\":" + std::to_string(line(f->getLocation())) + ",\"eline\":" + std::to_string(line(f->getEndLoc()));
    r += ",\"root\":" + std::string(root ? "1" : "0");
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      r += ",\"rec\":" + std::to_string(declId(m->getParent()));
      if (m->isVirtual()) { r += ",\"virt\":1"; if (m->isPureVirtual()) r += ",\"pure\":1"; }
      if (m->isStatic()) r += ",\"static\":1";
      if (m->isConst()) r += ",\"const\":1";
      if (m->getAccess() == AS_private || m->getAccess() == AS_protected) r += ",\"priv\":1";
      if (isa<CXXConstructorDecl>(m)) r += ",\"ctor\":1";
      if (isa<CXXDestructorDecl>(m)) r += ",\"dtor\":1";
      if (m->getParent()->isLambda()) r += ",\"lam\":1";
      if (m->size_overridden_methods()) {
        r += ",\"over\":[";
        bool first = true;
        for (auto *o : m->overridden_methods()) { if (!first) r += ","; first = false; r += std::to_string(declId(o)); fn(o); }
        r += "]";
      }
    }
    if (f->isDeleted()) r += ",\"deleted\":1";
    if (f->isDefaulted()) r += ",\"defaulted\":1";
    if (f->isNoReturn()) r += ",\"noret\":1";
    if (auto *ta = f->getTemplateSpecializationArgs()) r += ",\"ta\":" + targs(ta->asArray());
    r += ",\"params\":[";
    for (unsigned i = 0; i < f->getNumParams(); ++i) {
      if (i) r += ",";
      auto *p = f->getParamDecl(i);
      r += "{\"d\":" + std::to_string(declId(p)) + ",\"n\":" + esc(p->getNameAsString()) + ",\"t\":" + std::to_string(type(p->getType()));
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg() && !f->isDependentContext()) r += ",\"def\":" + expr(p->getDefaultArg());
      r += "}";
    }
    r += "]";
    if (has && root && !f->isDependentContext() && f->getBody()) {
      if (auto *c = dyn_cast<CXXConstructorDecl>(f)) {
        r += ",\"inits\":[";
        bool first = true;
        for (auto *i : c->inits()) {
          if (!first) r += ","; first = false;
          r += "{\"l\":" + std::to_string(line(i->getSourceLocation()));
          if (i->isAnyMemberInitializer()) r += ",\"m\":" + esc(i->getAnyMember()->getNameAsString()) + ",\"d\":" + std::to_string(declId(i->getAnyMember()));
          else if (i->isBaseInitializer()) r += ",\"base\":" + std::to_string(type(QualType(i->getBaseClass(), 0)));
          else if (i->isDelegatingInitializer()) r += ",\"deleg\":1";
          if (i->isWritten()) r += ",\"w\":1";
          r += ",\"e\":" + expr(i->getInit()) + "}";
        }
        r += "]";
      }
      r += ",\"body\":" + stmt(f->getBody());
    }
    r += "}";
    funcs.push_back(std::move(r));
  }
  void exportRecord(const CXXRecordDecl *d) {
    d = d->getDefinition();
    if (!d || d->isDependentContext()) return;
    int id = declId(d);
    if (!doneRecs.insert(id).second) return;
    std::string r = "{\"id\":" + std::to_string(id) + ",\"q\":" + esc(qname(d)) + ",\"t\":" + std::to_string(type(C.getRecordType(d))) + ",\"file\":" + esc(file(d->getLocation())) + ",\"line\":" + std::to_string(line(d->getLocation()));
    if (d->isLambda()) r += ",\"lam\":1";
    if (d->isAbstract()) r += ",\"abs\":1";
    if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(d)) r += ",\"ta\":" + targs(sp->getTemplateArgs().asArray());
    r += ",\"bases\":[";
    bool first = true;
    for (auto &b : d->bases()) { if (!first) r += ","; first = false; r += std::to_string(type(b.getType())); 
       if (auto *bd = b.getType()->getAsCXXRecordDecl()) if (inRoots(bd->getLocation())) recWork.push_back(bd); }
    r += "],\"fields\":[";
    first = true;
    for (auto *f : d->fields()) {
      if (!first) r += ","; first = false;
      r += "{\"d\":" + std::to_string(declId(f)) + ",\"n\":" + esc(f->getNameAsString()) + ",\"t\":" + std::to_string(type(f->getType())) + ",\"l\":" + std::to_string(line(f->getLocation()));
      if (f->isMutable()) r += ",\"mut\":1";
      r += ",\"acc\":" + std::to_string((int)f->getAccess());
      if (f->hasInClassInitializer() && f->getInClassInitializer()) r += ",\"init\":" + expr(f->getInClassInitializer());
      r += "}";
    }
    r += "],\"methods\":[";
    first = true;
    for (auto *m : d->methods()) { if (!first) r += ","; first = false; r += std::to_string(fn(m)); }
    for (auto *dd : d->decls())
      if (auto *ft = dyn_cast<FunctionTemplateDecl>(dd))
        if (isa<CXXConstructorDecl>(ft->getTemplatedDecl()))
          for (auto *sp : ft->specializations()) { if (!first) r += ","; first = false; r += std::to_string(fn(sp)); }
    r += "]}";
    recs.push_back(std::move(r));
  }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (f->isDependentContext()) return true;
    if (!inRoots(f->getLocation())) return true;
    fn(f);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *d) {
    if (d->isDependentContext() || !d->getDefinition()) return true;
    if (!inRoots(d->getLocation())) return true;
    exportRecord(d);
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (v->isLocalVarDeclOrParm() || v->getDeclContext()->isDependentContext()) return true;
    if (isa<VarTemplateSpecializationDecl>(v) || !v->getDescribedVarTemplate())
      if (inRoots(v->getLocation())) gvars.insert(v);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *e) {
    if (e->isDependentContext() || !e->getDefinition() || !inRoots(e->getLocation())) return true;
    int id = declId(e);
    if (!doneEnums.insert(id).second) return true;
    std::string r = "{\"q\":" + esc(qname(e)) + ",\"t\":" + std::to_string(type(C.getEnumType(e))) + ",\"file\":" + esc(file(e->getLocation())) + ",\"line\":" + std::to_string(line(e->getLocation())) + ",\"c\":[";
    bool first = true;
    for (auto *c : e->getDefinition()->enumerators()) {
      if (!first) r += ","; first = false;
      llvm::SmallString<32> s; c->getInitVal().toString(s, 10);
      r += "[" + esc(c->getNameAsString()) + "," + s.c_str() + "]";
    }
    enums.push_back(r + "]}");
    return true;
  }
  void run() {
    TraverseDecl(C.getTranslationUnitDecl());
    std::set<const VarDecl *> doneV;
    while (true) {
      bool any = false;
      while (!work.empty()) { auto *f = work.front(); work.pop_front(); exportFunc(f); any = true; }
      while (!recWork.empty()) { auto *d = recWork.front(); recWork.pop_front(); exportRecord(d); any = true; }
      std::vector<const VarDecl *> vs(gvars.begin(), gvars.end());
      for (auto *v : vs) {
        if (!doneV.insert(v).second) continue;
        any = true;
        const VarDecl *def = nullptr;
        const Expr *in = v->getAnyInitializer(def);
        bool root = inRoots(v->getLocation());
        std::string r = "{\"d\":" + std::to_string(declId(v)) + ",\"q\":" + esc(qname(v)) + ",\"n\":" + esc(v->getNameAsString()) + ",\"t\":" + std::to_string(type(v->getType())) + ",\"file\":" + esc(file(v->getLocation())) + ",\"line\":" + std::to_string(line(v->getLocation()));
        if (v->isStaticLocal()) r += ",\"static\":1";
        if (in && !in->isValueDependent() && root) r += ",\"init\":" + expr(in);
        else if (in && !in->isValueDependent()) {
          Expr::EvalResult R;
          if (in->EvaluateAsRValue(R, C) && R.Val.isInt()) { llvm::SmallString<32> s; R.Val.getInt().toString(s, 10); r += std::string(",\"v\":") + s.c_str(); }
        }
        vars.push_back(r + "}");
      }
      if (!any) break;
    }
    std::error_code ec;
    llvm::raw_fd_ostream os(gOut, ec);
    auto dump = [&](const char *n, std::vector<std::string> &v) {
      os << "\"" << n << "\":[";
      for (size_t i = 0; i < v.size(); ++i) { if (i) os << ",\n"; os << v[i]; }
      os << "]";
    };
    os << "{";
    dump("funcs", funcs); os << ",\n";
    dump("recs", recs); os << ",\n";
    dump("vars", vars); os << ",\n";
    dump("enums", enums); os << ",\n\"types\":[";
    for (size_t i = 0; i < types.size(); ++i) { if (i) os << ",\n"; os << esc(types[i]); }
    os << "]}\n";
  }

 private:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::vector<std::string> types, funcs, recs, vars, enums;
  llvm::DenseMap<void *, int> typeIdx;
  llvm::DenseMap<const Decl *, int> ids;
  std::map<int, const FunctionDecl *> refFuncs;
  std::deque<const FunctionDecl *> work;
  std::deque<const CXXRecordDecl *> recWork;
  std::set<int> doneFuncs, doneRecs, doneEnums;
  std::set<const VarDecl *> gvars;
};
struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "astexport: compile errors\n"; return; }
    Exporter(C).run();
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};
}  // namespace

int main(int argc, char **argv) {
  if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
  gOut = argv[1];
  llvm::StringRef roots(argv[2]);
  llvm::SmallVector<llvm::StringRef, 8> rs;
  roots.split(rs, ':');
  for (auto r : rs) gRoots.push_back(r.str());
  std::string f = argv[3];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {f});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
