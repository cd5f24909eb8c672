// Fact extractor: parses one translation unit with clang and dumps, as JSON,
// the type-checked syntax trees of all functions / records / enums / globals
// defined below the given source roots (template instantiations included).
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> roots;
static std::string out_path;
// "main": only what the main file defines, plus template instantiations;
// "all": everything below the roots.
static bool main_only = false;

namespace {

class Dumper {
 public:
  Dumper(ASTContext &c) : ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy()), namegen(c) {
    pp.SuppressTagKeyword = true;
    pp.Bool = true;
    pp.FullyQualifiedName = true;
    pp.SuppressUnwrittenScope = false;
  }
  ASTContext &ctx;
  SourceManager &sm;
  PrintingPolicy pp;
  ASTNameGenerator namegen;
  std::map<const Decl *, int> ids;
  std::map<std::string, int> type_ids;
  Array types;
  std::map<std::string, int> file_ids;
  Array files;
  Array functions, records, enums, globals;
  std::set<std::string> seen_globals;
  std::vector<const VarDecl*> pending_globals;
  bool saw_error = false;

  int id(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids.find(d);
    if (it != ids.end()) return it->second;
    int n = static_cast<int>(ids.size()) + 1;
    ids[d] = n;
    return n;
  }

  std::string fileOf(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    auto f = sm.getFilename(l);
    std::string s = f.str();
    // normalise "a/../b"
    llvm::SmallString<256> p(s);
    llvm::sys::path::remove_dots(p, true);
    return p.str().str();
  }
  bool inRoots(SourceLocation l) {
    if (l.isInvalid()) return false;
    std::string f = fileOf(l);
    for (auto &r : roots)
      if (f.compare(0, r.size(), r) == 0) return true;
    return false;
  }
  bool inMain(SourceLocation l) {
    return sm.getFileID(sm.getExpansionLoc(l)) == sm.getMainFileID();
  }
  int line(SourceLocation l) {
    if (l.isInvalid()) return 0;
    return static_cast<int>(sm.getExpansionLineNumber(l));
  }
  int file(SourceLocation l) {
    std::string f = fileOf(l);
    auto it = file_ids.find(f);
    if (it != file_ids.end()) return it->second;
    int n = static_cast<int>(files.size());
    files.push_back(f);
    file_ids[f] = n;
    return n;
  }

  int type(QualType q) {
    if (q.isNull()) return -1;
    bool ref = q->isReferenceType();
    bool rref = q->isRValueReferenceType();
    QualType nr = q.getNonReferenceType();
    bool cst = nr.isConstQualified();
    QualType c = nr.getCanonicalType().getUnqualifiedType();
    std::string n = c.getAsString(pp);
    std::string key = n + (ref ? (rref ? "&&" : "&") : "") + (cst ? "#c" : "");
    auto it = type_ids.find(key);
    if (it != type_ids.end()) return it->second;
    Object o;
    o["n"] = n;
    std::string k = "o";
    if (c->isDependentType()) k = "dep";
    else if (c->isBooleanType()) k = "b";
    else if (c->isEnumeralType()) k = "e";
    else if (c->isUnsignedIntegerType()) k = "u";
    else if (c->isSignedIntegerType()) k = "i";
    else if (c->isRealFloatingType()) k = "d";
    else if (c->isPointerType()) k = "p";
    else if (c->isRecordType()) k = "r";
    else if (c->isVoidType()) k = "v";
    else if (c->isArrayType()) k = "a";
    else if (c->isNullPtrType()) k = "p";
    o["k"] = k;
    if (k == "u" || k == "i" || k == "d" || k == "e") o["w"] = static_cast<int64_t>(ctx.getTypeSize(c));
    if (ref) o["ref"] = rref ? 2 : 1;
    if (cst) o["c"] = true;
    if (k == "p" && c->isPointerType()) {
      QualType pt = c->getPointeeType();
      o["pc"] = pt.isConstQualified();
      o["pn"] = pt.getCanonicalType().getUnqualifiedType().getAsString(pp);
    }
    if (k == "r") {
      const CXXRecordDecl *rd = c->getAsCXXRecordDecl();
      if (rd) {
        o["rn"] = rd->getQualifiedNameAsString();
        if (rd->isLambda()) o["lam"] = true;
      }
    }
    if (k == "e") o["en"] = c->castAs<EnumType>()->getDecl()->getQualifiedNameAsString();
    int idx = static_cast<int>(types.size());
    types.push_back(std::move(o));
    type_ids[key] = idx;
    return idx;
  }

  std::string diagName(const NamedDecl *d) {
    std::string s;
    llvm::raw_string_ostream os(s);
    d->getNameForDiagnostic(os, pp, true);
    return os.str();
  }
  std::string mangled(const NamedDecl *d) {
    std::string s = namegen.getName(d);
    if (s.empty()) s = diagName(d);
    return s;
  }

  Value fnref(const FunctionDecl *f) {
    Object o;
    o["q"] = f->getQualifiedNameAsString();
    o["m"] = mangled(f);
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) {
      if (m->isStatic()) o["st"] = true;
      else {
        if (m->isConst()) o["const"] = true;
        if (m->isVirtual()) o["virt"] = true;
      }
      o["rec"] = m->getParent()->getQualifiedNameAsString();
      if (m->getParent()->isLambda()) o["lam"] = true;
    }
    if (isa<CXXConversionDecl>(f)) o["conv"] = true;
    if (f->isVariadic()) o["var"] = true;
    // parameter passing modes: v value, c const ref/ptr, m mutable ref/ptr, x rvalue ref
    std::string modes;
    for (auto *p : f->parameters()) {
      QualType t = p->getType();
      if (t->isRValueReferenceType()) modes += 'x';
      else if (t->isReferenceType()) modes += t.getNonReferenceType().isConstQualified() ? 'c' : 'm';
      else if (t->isPointerType()) modes += t->getPointeeType().isConstQualified() ? 'q' : 'p';
      else modes += 'v';
    }
    o["pm"] = modes;
    o["rt"] = type(f->getReturnType());
    if (auto *ta = f->getTemplateSpecializationArgs()) {
      Array a;
      for (auto &t : ta->asArray()) {
        std::string s; llvm::raw_string_ostream os(s);
        t.print(pp, os, true);
        a.push_back(os.str());
      }
      o["ta"] = std::move(a);
    }
    return o;
  }

  Value declref(const ValueDecl *d, const Expr *e) {
    Object o;
    if (auto *f = dyn_cast<FunctionDecl>(d)) {
      o["k"] = "fn";
      o["f"] = fnref(f);
    } else if (auto *ec = dyn_cast<EnumConstantDecl>(d)) {
      o["k"] = "enum";
      o["n"] = ec->getQualifiedNameAsString();
      o["v"] = llvm::toString(ec->getInitVal(), 10);
    } else if (auto *b = dyn_cast<BindingDecl>(d)) {
      o["k"] = "bind";
      o["id"] = id(b);
      o["n"] = b->getNameAsString();
    } else if (auto *v = dyn_cast<VarDecl>(d)) {
      if (v->hasGlobalStorage() && !v->isStaticLocal()) {
        o["k"] = "glob";
        o["n"] = v->getQualifiedNameAsString();
        o["m"] = mangled(v);
        noteGlobal(v);
      } else {
        o["k"] = "var";
        o["id"] = id(v);
        o["n"] = v->getNameAsString();
        if (v->isStaticLocal()) o["stl"] = true;
      }
    } else {
      o["k"] = "other";
      o["c"] = std::string("declref:") + d->getDeclKindName();
    }
    if (e) {
      o["t"] = type(e->getType());
      o["l"] = line(e->getExprLoc());
    }
    return o;
  }

  void noteGlobal(const VarDecl *v) {
    const VarDecl *def = nullptr;
    const Expr *init = v->getAnyInitializer(def);
    (void)init;
    std::string m = mangled(v);
    if (seen_globals.count(m)) return;
    if (!inRoots(v->getLocation())) return;
    if (main_only && !inMain(v->getLocation())) return;
    seen_globals.insert(m);
    pending_globals.push_back(v);
  }
  void flushGlobals() {
    while (!pending_globals.empty()) {
      const VarDecl *v = pending_globals.back();
      pending_globals.pop_back();
      dumpGlobal(v);
    }
  }
  void dumpGlobal(const VarDecl *v) {
    const VarDecl *def = nullptr;
    const Expr *init = v->getAnyInitializer(def);
    Object o;
    o["q"] = v->getQualifiedNameAsString();
    o["m"] = mangled(v);
    o["t"] = type(v->getType());
    o["file"] = file(v->getLocation());
    o["line"] = line(v->getLocation());
    o["const"] = v->getType().isConstQualified() || v->isConstexpr();
    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
    // long tables of numbers: only their text's hash
    if (init && line(init->getEndLoc()) - line(init->getBeginLoc()) > 150 &&
        v->getType().getCanonicalType().getAsString(pp).find("<double") != std::string::npos) {
      bool bad = false;
      llvm::StringRef txt = clang::Lexer::getSourceText(
          clang::CharSourceRange::getTokenRange(init->getSourceRange()), sm, ctx.getLangOpts(), &bad);
      o["tab"] = static_cast<int64_t>(llvm::hash_value(txt) >> 2);
    } else if (init && !init->isValueDependent() && !init->isTypeDependent() &&
        !init->containsErrors()) {
      o["init"] = expr(init);
      if (v->getType().isConstQualified() && v->getType()->isArithmeticType()) {
        Expr::EvalResult r;
        if (init->EvaluateAsRValue(r, ctx) && !r.HasSideEffects) {
          if (r.Val.isInt()) o["val"] = llvm::toString(r.Val.getInt(), 10);
          else if (r.Val.isFloat()) {
            llvm::SmallString<40> s;
            r.Val.getFloat().toString(s, 20);
            o["val"] = s.str().str();
          }
        }
      }
    }
    globals.push_back(std::move(o));
  }

  Value arr(llvm::ArrayRef<const Expr *> es) {
    Array a;
    for (auto *e : es) a.push_back(expr(e));
    return a;
  }

  Value ctorExpr(const CXXConstructExpr *c) {
    Object o;
    const CXXConstructorDecl *cd = c->getConstructor();
    o["k"] = "ctor";
    o["l"] = line(c->getExprLoc());
    o["t"] = type(c->getType());
    if (cd->isCopyOrMoveConstructor() && c->getNumArgs() >= 1) {
      o["cm"] = cd->isMoveConstructor() ? 2 : 1;
      if (cd->isUserProvided()) o["cmu"] = true;
    } else if (cd->isDefaultConstructor()) {
      o["dflt"] = true;
    }
    if (c->isListInitialization()) o["li"] = true;
    if (c->isStdInitListInitialization()) o["sil"] = true;
    o["f"] = fnref(cd);
    Array a;
    for (unsigned i = 0; i < c->getNumArgs(); i++) a.push_back(expr(c->getArg(i)));
    o["a"] = std::move(a);
    return o;
  }

  Value expr(const Expr *e) {
    if (!e) return nullptr;
    // strip transparent nodes
    if (auto *x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<MaterializeTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
    if (auto *x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
    if (auto *x = dyn_cast<CXXStdInitializerListExpr>(e)) return expr(x->getSubExpr());
    if (auto *x = dyn_cast<OpaqueValueExpr>(e)) if (x->getSourceExpr()) return expr(x->getSourceExpr());
    Object o;
    o["l"] = line(e->getExprLoc());
    o["t"] = type(e->getType());
    if (auto *x = dyn_cast<CXXDefaultArgExpr>(e)) {
      Value v = expr(x->getExpr());
      return v;
    }
    if (auto *x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
    if (auto *x = dyn_cast<CastExpr>(e)) {
      CastKind ck = x->getCastKind();
      switch (ck) {
        case CK_IntegralToFloating: case CK_FloatingToIntegral: case CK_IntegralCast:
        case CK_IntegralToBoolean: case CK_FloatingToBoolean: case CK_PointerToBoolean:
        case CK_FloatingCast: case CK_BaseToDerived: case CK_Dynamic:
        case CK_BitCast: case CK_PointerToIntegral: case CK_IntegralToPointer: case CK_ToVoid:
        case CK_MemberPointerToBoolean: case CK_BooleanToSignedIntegral: {
          o["k"] = "cast";
          o["c"] = x->getCastKindName();
          o["e"] = expr(x->getSubExpr());
          o["ex"] = isa<ExplicitCastExpr>(x);
          return o;
        }
        default:
          return expr(x->getSubExpr());
      }
    }
    if (auto *x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "int";
      o["v"] = llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType());
      return o;
    }
    if (auto *x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "float";
      // exact source spelling where available, so that decimals stay exact
      std::string s = Lexer::getSourceText(
          CharSourceRange::getTokenRange(x->getSourceRange()), sm, ctx.getLangOpts()).str();
      if (x->getLocation().isMacroID() || s.empty()) {
        llvm::SmallString<40> b;
        x->getValue().toString(b, 20);
        s = b.str().str();
      }
      o["v"] = s;
      llvm::SmallString<40> b;
      x->getValue().toString(b, 20);
      o["dv"] = b.str().str();
      return o;
    }
    if (auto *x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      std::string s = x->getBytes().str();
      if (!llvm::json::isUTF8(s)) s = llvm::json::fixUTF8(s);
      o["v"] = s;
      return o;
    }
    if (auto *x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "int";
      o["v"] = std::to_string(x->getValue());
      o["ch"] = true;
      return o;
    }
    if (auto *x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "bool";
      o["v"] = x->getValue();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
    if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return o; }
    if (auto *x = dyn_cast<DeclRefExpr>(e)) return declref(x->getDecl(), x);
    if (auto *x = dyn_cast<MemberExpr>(e)) {
      const ValueDecl *d = x->getMemberDecl();
      if (auto *v = dyn_cast<VarDecl>(d)) return declref(v, x);
      if (auto *ec = dyn_cast<EnumConstantDecl>(d)) return declref(ec, x);
      if (auto *f = dyn_cast<FunctionDecl>(d)) {
        o["k"] = "memfn";
        o["f"] = fnref(f);
        o["b"] = expr(x->getBase());
        if (x->isArrow()) o["arrow"] = true;
        if (x->hasQualifier()) o["qual"] = true;
        return o;
      }
      o["k"] = "mem";
      o["n"] = d->getNameAsString();
      if (auto *fd = dyn_cast<FieldDecl>(d)) {
        o["rec"] = fd->getParent()->getQualifiedNameAsString();
        if (d->getNameAsString().empty()) o["n"] = "#" + std::to_string(fd->getFieldIndex());
      }
      if (x->isArrow()) o["arrow"] = true;
      o["b"] = expr(x->getBase());
      return o;
    }
    if (auto *x = dyn_cast<CXXOperatorCallExpr>(e)) {
      const FunctionDecl *f = x->getDirectCallee();
      o["k"] = "opcall";
      o["op"] = getOperatorSpelling(x->getOperator());
      if (f) o["f"] = fnref(f); else o["callee"] = expr(x->getCallee());
      Array a;
      for (unsigned i = 0; i < x->getNumArgs(); i++) a.push_back(expr(x->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "mcall";
      const CXXMethodDecl *m = x->getMethodDecl();
      if (m) o["f"] = fnref(m);
      const Expr *cal = x->getCallee()->IgnoreParens();
      if (auto *me = dyn_cast<MemberExpr>(cal)) {
        o["o"] = expr(me->getBase());
        if (me->isArrow()) o["arrow"] = true;
        if (me->hasQualifier()) o["qual"] = true;
      } else {
        o["callee"] = expr(cal);
      }
      Array a;
      for (unsigned i = 0; i < x->getNumArgs(); i++) a.push_back(expr(x->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<UserDefinedLiteral>(e)) {
      o["k"] = "call";
      if (auto *f = x->getDirectCallee()) o["f"] = fnref(f);
      Array a;
      for (unsigned i = 0; i < x->getNumArgs(); i++) a.push_back(expr(x->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CallExpr>(e)) {
      const FunctionDecl *f = x->getDirectCallee();
      o["k"] = "call";
      if (f) o["f"] = fnref(f); else o["callee"] = expr(x->getCallee());
      Array a;
      for (unsigned i = 0; i < x->getNumArgs(); i++) a.push_back(expr(x->getArg(i)));
      o["a"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<CXXConstructExpr>(e)) return ctorExpr(x);
    if (auto *x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { (void)x; o["k"] = "other"; o["c"] = "inhctor"; return o; }
    if (auto *x = dyn_cast<InitListExpr>(e)) {
      const InitListExpr *s = x->isSemanticForm() ? x : x->getSemanticForm();
      if (!s) s = x;
      o["k"] = "init";
      Array a;
      for (unsigned i = 0; i < s->getNumInits(); i++) a.push_back(expr(s->getInit(i)));
      o["a"] = std::move(a);
      if (s->getArrayFiller()) {
        o["fill"] = expr(s->getArrayFiller());
        if (auto *cat = ctx.getAsConstantArrayType(s->getType()))
          o["n"] = static_cast<int64_t>(cat->getSize().getZExtValue());
      }
      return o;
    }
    if (auto *x = dyn_cast<CompoundAssignOperator>(e)) {
      o["k"] = "casg";
      std::string s = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["op"] = s.substr(0, s.size() - 1);
      o["ct"] = type(x->getComputationResultType());
      o["a"] = Array{expr(x->getLHS()), expr(x->getRHS())};
      return o;
    }
    if (auto *x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = x->getOpcode() == BO_Assign ? "asg" : "bin";
      o["op"] = BinaryOperator::getOpcodeStr(x->getOpcode()).str();
      o["a"] = Array{expr(x->getLHS()), expr(x->getRHS())};
      return o;
    }
    if (auto *x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = true;
      o["e"] = expr(x->getSubExpr());
      return o;
    }
    if (auto *x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond";
      o["a"] = Array{expr(x->getCond()), expr(x->getTrueExpr()), expr(x->getFalseExpr())};
      return o;
    }
    if (auto *x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "sub";
      o["a"] = Array{expr(x->getBase()), expr(x->getIdx())};
      return o;
    }
    if (auto *x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      const CXXMethodDecl *m = x->getCallOperator();
      const FunctionDecl *def = m;
      Array ps;
      for (auto *p : def->parameters()) ps.push_back(param(p));
      o["params"] = std::move(ps);
      Array caps;
      auto ie = x->capture_init_begin();
      for (auto &c : x->captures()) {
        Object co;
        if (c.capturesThis()) {
          co["this"] = true;
          co["copy"] = c.getCaptureKind() == LCK_StarThis;
        } else if (c.capturesVariable()) {
          co["id"] = id(c.getCapturedVar());
          co["n"] = c.getCapturedVar()->getNameAsString();
          co["copy"] = c.getCaptureKind() == LCK_ByCopy;
          if (*ie) co["e"] = expr(*ie);
        }
        caps.push_back(std::move(co));
        ++ie;
      }
      o["caps"] = std::move(caps);
      o["m"] = mangled(m);
      if (x->isGenericLambda()) {
        o["generic"] = true;
        Array insts;
        if (auto *ftd = x->getLambdaClass()->getDependentLambdaCallOperator()) {
          for (auto *s : ftd->specializations()) {
            if (!s->hasBody()) continue;
            Object io;
            io["m"] = mangled(s);
            Array ps2;
            for (auto *p : s->parameters()) ps2.push_back(param(p));
            io["params"] = std::move(ps2);
            io["body"] = stmt(s->getBody());
            insts.push_back(std::move(io));
          }
        }
        o["insts"] = std::move(insts);
      } else {
        o["body"] = stmt(x->getBody());
      }
      o["rt"] = type(m->getReturnType());
      return o;
    }
    if (auto *x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      if (x->getConstructExpr()) o["e"] = expr(x->getConstructExpr());
      else if (x->getInitializer()) o["e"] = expr(x->getInitializer());
      if (x->isArray() && x->getArraySize()) o["n"] = expr(*x->getArraySize());
      o["at"] = type(x->getAllocatedType());
      return o;
    }
    if (auto *x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["e"] = expr(x->getArgument());
      return o;
    }
    if (auto *x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      if (x->getSubExpr()) {
        o["e"] = expr(x->getSubExpr());
        o["tt"] = type(x->getSubExpr()->getType());
      }
      return o;
    }
    if (auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      Expr::EvalResult r;
      if (!x->isValueDependent() && x->EvaluateAsInt(r, ctx)) {
        o["k"] = "int";
        o["v"] = llvm::toString(r.Val.getInt(), 10);
        o["sizeof"] = true;
        if (x->isArgumentType()) o["of"] = type(x->getArgumentType());
        return o;
      }
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["k"] = "zero"; return o; }
    if (auto *x = dyn_cast<TypeTraitExpr>(e)) { o["k"] = "bool"; o["v"] = x->isValueDependent() ? false : x->getValue(); return o; }
    if (auto *x = dyn_cast<CXXNoexceptExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); return o; }
    if (auto *x = dyn_cast<SizeOfPackExpr>(e)) {
      if (!x->isValueDependent()) { o["k"] = "int"; o["v"] = std::to_string(x->getPackLength()); return o; }
    }
    if (auto *x = dyn_cast<PredefinedExpr>(e)) {
      o["k"] = "str";
      o["v"] = x->getFunctionName() ? x->getFunctionName()->getBytes().str() : std::string("");
      return o;
    }
    if (auto *x = dyn_cast<SourceLocExpr>(e)) { (void)x; o["k"] = "str"; o["v"] = "<srcloc>"; return o; }
    o["k"] = "other";
    o["c"] = e->getStmtClassName();
    return o;
  }

  Value param(const ParmVarDecl *p) {
    Object o;
    o["id"] = id(p);
    o["n"] = p->getNameAsString();
    o["t"] = type(p->getType());
    if (isa<CXXConstructorDecl>(p->getDeclContext()) && p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() &&
        !p->hasUnparsedDefaultArg())
      o["def"] = expr(p->getDefaultArg());
    return o;
  }

  Value var(const VarDecl *v) {
    Object o;
    o["id"] = id(v);
    o["n"] = v->getNameAsString();
    o["t"] = type(v->getType());
    o["l"] = line(v->getLocation());
    if (v->isStaticLocal()) o["stl"] = true;
    if (v->getInit()) o["init"] = expr(v->getInit());
    if (v->isStaticLocal() && v->getInit() && v->getType()->isArithmeticType() &&
        v->getType().isConstQualified() && !v->getInit()->isValueDependent()) {
      o["stconst"] = true;
    }
    if (auto *d = dyn_cast<DecompositionDecl>(v)) {
      Array bs;
      for (auto *b : d->bindings()) {
        Object bo;
        bo["id"] = id(b);
        bo["n"] = b->getNameAsString();
        if (auto *hv = b->getHoldingVar()) {
          bo["hold"] = id(hv);
          if (hv->getInit()) bo["init"] = expr(hv->getInit());
        } else if (b->getBinding()) {
          bo["e"] = expr(b->getBinding());
        }
        bs.push_back(std::move(bo));
      }
      o["binds"] = std::move(bs);
    }
    return o;
  }

  Value stmt(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s)) {
      Object o;
      o["s"] = "expr";
      o["e"] = expr(e);
      o["l"] = line(e->getExprLoc());
      return o;
    }
    Object o;
    o["l"] = line(s->getBeginLoc());
    if (auto *x = dyn_cast<CompoundStmt>(s)) {
      o["s"] = "block";
      Array a;
      for (auto *c : x->body()) a.push_back(stmt(c));
      o["b"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<DeclStmt>(s)) {
      o["s"] = "decl";
      Array a;
      for (auto *d : x->decls()) {
        if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
        else if (auto *r = dyn_cast<CXXRecordDecl>(d)) { (void)r; }
      }
      o["v"] = std::move(a);
      return o;
    }
    if (auto *x = dyn_cast<IfStmt>(s)) {
      o["s"] = "if";
      if (x->isConstexpr()) {
        // instantiated: condition is known
        o["cx"] = true;
        clang::Expr::EvalResult ev;
        if (!x->getCond()->isValueDependent() &&
            x->getCond()->EvaluateAsRValue(ev, ctx) && ev.Val.isInt())
          o["cxv"] = ev.Val.getInt() != 0;
      }
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["th"] = stmt(x->getThen());
      if (x->getElse()) o["el"] = stmt(x->getElse());
      return o;
    }
    if (auto *x = dyn_cast<ForStmt>(s)) {
      o["s"] = "for";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      if (x->getCond()) o["c"] = expr(x->getCond());
      if (x->getInc()) o["inc"] = expr(x->getInc());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<CXXForRangeStmt>(s)) {
      o["s"] = "rfor";
      o["v"] = var(x->getLoopVariable());
      o["r"] = expr(x->getRangeInit());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<WhileStmt>(s)) {
      o["s"] = "while";
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<DoStmt>(s)) {
      o["s"] = "do";
      o["c"] = expr(x->getCond());
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<SwitchStmt>(s)) {
      o["s"] = "switch";
      if (x->getInit()) o["init"] = stmt(x->getInit());
      if (x->getConditionVariable()) o["cv"] = var(x->getConditionVariable());
      o["c"] = expr(x->getCond());
      o["allenum"] = x->isAllEnumCasesCovered();
      o["b"] = stmt(x->getBody());
      return o;
    }
    if (auto *x = dyn_cast<CaseStmt>(s)) {
      o["s"] = "case";
      o["v"] = expr(x->getLHS());
      if (x->getRHS()) o["v2"] = expr(x->getRHS());
      o["b"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto *x = dyn_cast<DefaultStmt>(s)) {
      o["s"] = "default";
      o["b"] = stmt(x->getSubStmt());
      return o;
    }
    if (auto *x = dyn_cast<ReturnStmt>(s)) {
      o["s"] = "return";
      if (x->getRetValue()) o["e"] = expr(x->getRetValue());
      return o;
    }
    if (isa<BreakStmt>(s)) { o["s"] = "break"; return o; }
    if (isa<ContinueStmt>(s)) { o["s"] = "continue"; return o; }
    if (isa<NullStmt>(s)) { o["s"] = "null"; return o; }
    if (auto *x = dyn_cast<CXXTryStmt>(s)) {
      o["s"] = "try";
      o["b"] = stmt(x->getTryBlock());
      Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        auto *h = x->getHandler(i);
        Object ho;
        if (h->getExceptionDecl()) {
          ho["v"] = var(h->getExceptionDecl());
          ho["t"] = type(h->getCaughtType());
        }
        ho["b"] = stmt(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs);
      return o;
    }
    if (auto *x = dyn_cast<AttributedStmt>(s)) return stmt(x->getSubStmt());
    if (auto *x = dyn_cast<LabelStmt>(s)) { o["s"] = "label"; o["b"] = stmt(x->getSubStmt()); return o; }
    o["s"] = "other";
    o["c"] = s->getStmtClassName();
    return o;
  }

  bool hasErrors(const Stmt *s) {
    if (!s) return false;
    if (auto *e = dyn_cast<Expr>(s)) { if (e->containsErrors()) return true; }
    for (auto *c : s->children()) if (hasErrors(c)) return true;
    return false;
  }

  std::set<std::string> seen_fn;
  void function(const FunctionDecl *f) {
    if (!f->doesThisDeclarationHaveABody() && !f->isDefaulted()) return;
    if (f->isDependentContext()) return;
    if (!inRoots(f->getLocation())) return;
    if (auto *m = dyn_cast<CXXMethodDecl>(f)) if (m->getParent()->isLambda()) return;
    bool inst = f->isTemplateInstantiation() || (isa<CXXMethodDecl>(f) && isa<ClassTemplateSpecializationDecl>(cast<CXXMethodDecl>(f)->getParent()));
    if (main_only && !inst && !inMain(f->getLocation())) return;
    Object o;
    std::string m = mangled(f);
    if (seen_fn.count(m)) return;
    seen_fn.insert(m);
    ids.clear();
    o["q"] = f->getQualifiedNameAsString();
    o["m"] = m;
    o["n"] = diagName(f);
    o["file"] = file(f->getLocation());
    o["line"] = line(f->getLocation());
    o["end"] = line(f->getSourceRange().getEnd());
    o["rt"] = type(f->getReturnType());
    if (inst) o["inst"] = true;
    if (f->isInvalidDecl()) o["err"] = true;
    if (f->getStorageClass() == SC_Static || f->isInAnonymousNamespace()) o["internal"] = true;
    if (auto *md = dyn_cast<CXXMethodDecl>(f)) {
      o["rec"] = md->getParent()->getQualifiedNameAsString();
      if (!md->isStatic()) {
        o["method"] = true;
        o["thist"] = type(md->getThisType()->getPointeeType());
        if (md->isVirtual()) o["virt"] = true;
        if (md->isConst()) o["const"] = true;
      }
    }
    Array ps;
    for (auto *p : f->parameters()) ps.push_back(param(p));
    o["params"] = std::move(ps);
    if (f->isDefaulted()) {
      o["defaulted"] = true;
      functions.push_back(std::move(o));
      return;
    }
    if (auto *cd = dyn_cast<CXXConstructorDecl>(f)) {
      o["ctor"] = true;
      Array is;
      for (auto *i : cd->inits()) {
        Object io;
        io["l"] = line(i->getSourceLocation());
        if (i->isMemberInitializer()) io["f"] = i->getMember()->getNameAsString();
        else if (i->isIndirectMemberInitializer()) io["f"] = i->getAnyMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"] = QualType(i->getBaseClass(), 0).getCanonicalType().getAsString(pp);
        else if (i->isDelegatingInitializer()) io["deleg"] = true;
        if (!i->isWritten()) io["impl"] = true;
        io["e"] = expr(i->getInit());
        if (hasErrors(i->getInit())) o["err"] = true;
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(f)) o["dtor"] = true;
    const Stmt *b = f->getBody();
    if (hasErrors(b)) o["err"] = true;
    o["body"] = stmt(b);
    functions.push_back(std::move(o));
  }

  std::set<std::string> seen_rec;
  void record(const CXXRecordDecl *r) {
    if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda()) return;
    if (!inRoots(r->getLocation())) return;
    if (main_only && !inMain(r->getLocation()) && !isa<ClassTemplateSpecializationDecl>(r)) return;
    std::string n = diagName(r);
    if (seen_rec.count(n)) return;
    seen_rec.insert(n);
    Object o;
    o["q"] = r->getQualifiedNameAsString();
    o["n"] = n;
    o["file"] = file(r->getLocation());
    o["line"] = line(r->getLocation());
    Array fs;
    for (auto *f : r->fields()) {
      Object fo;
      fo["n"] = f->getNameAsString().empty() ? "#" + std::to_string(f->getFieldIndex()) : f->getNameAsString();
      fo["t"] = type(f->getType());
      fo["l"] = line(f->getLocation());
      if (f->hasInClassInitializer() && f->getInClassInitializer() && !f->getInClassInitializer()->containsErrors())
        fo["init"] = expr(f->getInClassInitializer());
      if (f->isMutable()) fo["mut"] = true;
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    Array bs;
    for (auto &b : r->bases()) bs.push_back(b.getType().getCanonicalType().getAsString(pp));
    o["bases"] = std::move(bs);
    Array ms;
    for (auto *m : r->methods()) {
      Object mo;
      mo["n"] = m->getNameAsString();
      mo["m"] = mangled(m);
      if (m->isConst()) mo["const"] = true;
      if (m->isVirtual()) mo["virt"] = true;
      if (m->isPureVirtual()) mo["pure"] = true;
      if (m->isDeleted()) mo["del"] = true;
      if (m->isImplicit()) mo["impl"] = true;
      if (m->isStatic()) mo["st"] = true;
      mo["acc"] = m->getAccess() == AS_public ? "pub" : m->getAccess() == AS_private ? "priv" : "prot";
      if (auto *c = dyn_cast<CXXConstructorDecl>(m)) { if (c->isCopyConstructor()) mo["cc"] = true; if (c->isMoveConstructor()) mo["mc"] = true; }
      if (m->isCopyAssignmentOperator()) mo["ca"] = true;
      if (m->isMoveAssignmentOperator()) mo["ma"] = true;
      Array ov;
      for (auto *om : m->overridden_methods()) ov.push_back(mangled(om));
      if (!ov.empty()) mo["over"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    records.push_back(std::move(o));
  }
  void enumd(const EnumDecl *e) {
    if (!e->isThisDeclarationADefinition() || !inRoots(e->getLocation())) return;
    if (main_only && !inMain(e->getLocation())) return;
    Object o;
    o["q"] = e->getQualifiedNameAsString();
    o["file"] = file(e->getLocation());
    o["line"] = line(e->getLocation());
    Array cs;
    for (auto *c : e->enumerators())
      cs.push_back(Array{c->getNameAsString(), llvm::toString(c->getInitVal(), 10), line(c->getLocation())});
    o["c"] = std::move(cs);
    enums.push_back(std::move(o));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Visitor(Dumper &d) : d(d) {}
  Dumper &d;
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *f) { d.function(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) { d.record(r); return true; }
  bool VisitEnumDecl(EnumDecl *e) { d.enumd(e); return true; }
  bool VisitVarDecl(VarDecl *v) {
    if (v->hasGlobalStorage() && !v->isStaticLocal() && !v->getDeclContext()->isDependentContext() &&
        !v->getType()->isDependentType() && !isa<VarTemplateSpecializationDecl>(v))
      d.noteGlobal(v);
    return true;
  }
};

static bool use_pch = false;

class Consumer : public ASTConsumer {
 public:
  Consumer(CompilerInstance &ci) : ci(ci) {}
  CompilerInstance &ci;
  // with a precompiled header: what this unit instantiates of its templates
  std::vector<Decl *> made;
  bool HandleTopLevelDecl(DeclGroupRef g) override {
    if (use_pch)
      for (Decl *x : g) made.push_back(x);
    return true;
  }
  void HandleTagDeclDefinition(TagDecl *t) override {
    if (use_pch) made.push_back(t);
  }
  void HandleTranslationUnit(ASTContext &ctx) override {
    Dumper d(ctx);
    Visitor v(d);
    if (!use_pch) {
      for (Decl *x : ctx.getTranslationUnitDecl()->decls())
        if (d.inRoots(x->getLocation())) v.TraverseDecl(x);
    } else {
      for (Decl *x : ctx.getTranslationUnitDecl()->noload_decls())
        if (!x->isFromASTFile()) v.TraverseDecl(x);
      for (size_t i = 0; i < made.size(); i++) {
        if (auto *f = dyn_cast<FunctionDecl>(made[i])) d.function(f);
        else if (auto *r = dyn_cast<CXXRecordDecl>(made[i])) d.record(r);
      }
    }
    d.ids.clear();
    d.flushGlobals();
    Object o;
    o["types"] = std::move(d.types);
    o["files"] = std::move(d.files);
    o["functions"] = std::move(d.functions);
    o["records"] = std::move(d.records);
    o["enums"] = std::move(d.enums);
    o["globals"] = std::move(d.globals);
    o["errors"] = static_cast<int64_t>(ci.getDiagnostics().getClient()->getNumErrors());
    std::error_code ec;
    llvm::raw_fd_ostream os(out_path, ec);
    os << Value(std::move(o));
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &ci, llvm::StringRef) override {
    return std::make_unique<Consumer>(ci);
  }
};

}  // namespace

// usage: xtract OUT ROOT[,ROOT...] FILE main|all flags...
int main(int argc, const char **argv) {
  if (argc < 5) return 64;
  out_path = argv[1];
  {
    std::string r = argv[2];
    size_t p = 0;
    while (p <= r.size()) {
      size_t q = r.find(',', p);
      if (q == std::string::npos) q = r.size();
      if (q > p) roots.push_back(r.substr(p, q - p));
      p = q + 1;
    }
  }
  std::string file = argv[3];
  main_only = std::string(argv[4]) != "all";
  use_pch = std::string(argv[4]) == "pch";
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", flags);
  tooling::ClangTool tool(db, {file});
  int rc = tool.run(tooling::newFrontendActionFactory<Action>().get());
  return rc > 2 ? rc : 0;
}
