// facts: dumps the resolved program (typed AST of every instantiated function
// defined in the analysed source tree) of one translation unit as JSON lines.
//
//   facts ROOT OUT SOURCE -- clang-arguments...
//
// Every line of OUT is one JSON object: {"rec":"fn"|"class"|"enum"|"var", ...}.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/ExprConcepts.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/ADT/StringExtras.h>
#include <llvm/Support/MD5.h>
#include <llvm/Support/raw_ostream.h>
#include <fstream>
#include <set>
#include <sstream>
#include <unordered_map>

using namespace clang;

static std::string Root, OutPath, MainFile;

static void esc(std::string & o, llvm::StringRef s)
{
  o += '"';
  for (unsigned char c : s)
  {
    switch (c)
    {
      case '"':  o += "\\\""; break;
      case '\\': o += "\\\\"; break;
      case '\n': o += "\\n"; break;
      case '\t': o += "\\t"; break;
      case '\r': o += "\\r"; break;
      default:
        if (c < 0x20 || c >= 0x7f) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
  }
  o += '"';
}

struct Dumper
{
  ASTContext & C;
  SourceManager & SM;
  PrintingPolicy PP;
  std::unordered_map<const Decl*, std::string> keys;
  std::unordered_map<const Type*, std::string> types;
  std::vector<const FunctionDecl*> pending;
  std::set<std::string> seen;
  std::string o;

  Dumper(ASTContext & c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
  {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
    PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressInlineNamespace = false;
    PP.AnonymousTagLocations = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.TerseOutput = true;
  }

  // ---- locations ---------------------------------------------------------
  std::string file(SourceLocation l)
  {
    auto f = SM.getFilename(SM.getExpansionLoc(l));
    return f.str();
  }
  bool inRepo(SourceLocation l)
  {
    return l.isValid() && llvm::StringRef(file(l)).starts_with(Root);
  }
  std::string rel(SourceLocation l)
  {
    auto f = file(l);
    return f.size() > Root.size() && f.compare(0, Root.size(), Root) == 0 ? f.substr(Root.size() + 1) : f;
  }
  unsigned line(SourceLocation l) { return l.isValid() ? SM.getExpansionLineNumber(l) : 0; }
  unsigned col(SourceLocation l) { return l.isValid() ? SM.getExpansionColumnNumber(l) : 0; }

  std::string locstr(SourceLocation l) { return rel(l) + ":" + std::to_string(line(l)) + ":" + std::to_string(col(l)) + spell(l); }
  std::string spell(SourceLocation l) // distinguishes entities of one macro expansion
  {
    if (!l.isMacroID()) return "";
    auto d = SM.getDecomposedLoc(SM.getSpellingLoc(l));
    return "/" + std::to_string(d.second);
  }

  // ---- names -------------------------------------------------------------
  std::string type(QualType t)
  {
    std::string s = t.getCanonicalType().getAsString(PP);
    // The tree is analysed wherever it lies: no absolute path in names.
    for (std::string::size_type p; (p = s.find(Root + "/")) != std::string::npos; ) s.erase(p, Root.size() + 1);
    return s;
  }
  std::string qual(const NamedDecl * d)
  {
    // Qualified name without inline namespaces and template arguments.
    std::string s;
    const DeclContext * dc = d->getDeclContext();
    std::vector<std::string> parts;
    parts.push_back(d->getNameAsString());
    while (dc)
    {
      if (auto * ns = dyn_cast<NamespaceDecl>(dc)) { if (!ns->isInline()) parts.push_back(ns->isAnonymousNamespace() ? "(anon)" : ns->getNameAsString()); }
      else if (auto * r = dyn_cast<RecordDecl>(dc)) { parts.push_back(isLambda(r) ? "(lambda)" : r->getNameAsString()); }
      else if (auto * f = dyn_cast<FunctionDecl>(dc)) { parts.push_back(f->getNameAsString() + "()"); }
      else if (auto * e = dyn_cast<EnumDecl>(dc)) { if (e->isScoped()) parts.push_back(e->getNameAsString()); }
      dc = dc->getParent();
    }
    for (auto i = parts.rbegin(); i != parts.rend(); ++i) { if (i != parts.rbegin()) s += "::"; s += *i; }
    return s;
  }
  static bool isLambda(const DeclContext * r)
  {
    auto * c = dyn_cast<CXXRecordDecl>(r);
    return c && c->isLambda();
  }
  std::string targs(const TemplateArgumentList * l)
  {
    std::string s;
    if (!l) return s;
    llvm::raw_string_ostream os(s);
    bool first = true;
    auto one = [&](TemplateArgument const& a, auto & self) -> void
    {
      if (a.getKind() == TemplateArgument::Pack) { for (auto & b : a.pack_elements()) self(b, self); return; }
      if (!first) os << ", ";
      first = false;
      if (a.getKind() == TemplateArgument::Type) os << type(a.getAsType());
      else if (a.getKind() == TemplateArgument::Integral) os << toString(a.getAsIntegral(), 10);
      else a.print(PP, os, true);
    };
    for (auto & a : l->asArray()) one(a, one);
    os.flush();
    return s;
  }
  void targlist(const TemplateArgumentList * l)
  {
    o += '[';
    bool first = true;
    auto one = [&](TemplateArgument const& a, auto & self) -> void
    {
      if (a.getKind() == TemplateArgument::Pack) { for (auto & b : a.pack_elements()) self(b, self); return; }
      if (!first) o += ',';
      first = false;
      std::string s; llvm::raw_string_ostream os(s);
      if (a.getKind() == TemplateArgument::Type) os << type(a.getAsType());
      else if (a.getKind() == TemplateArgument::Integral) os << toString(a.getAsIntegral(), 10);
      else if (a.getKind() == TemplateArgument::Declaration) { if (auto * fd = dyn_cast<FunctionDecl>(a.getAsDecl())) os << "fn:" << key(fd); else a.print(PP, os, true); }
      else a.print(PP, os, true);
      os.flush();
      esc(o, s);
    };
    if (l) for (auto & a : l->asArray()) one(a, one);
    o += ']';
  }

  std::string ctxkey(const DeclContext * dc)
  {
    std::string s;
    for (; dc; dc = dc->getParent())
    {
      if (auto * f = dyn_cast<FunctionDecl>(dc)) return "{" + key(f) + "}" + s;
      if (auto * ts = dyn_cast<ClassTemplateSpecializationDecl>(dc)) s = "::" + ts->getNameAsString() + "<" + targs(&ts->getTemplateArgs()) + ">" + s;
      else if (auto * r = dyn_cast<CXXRecordDecl>(dc))
      {
        s = "::" + (isLambda(r) ? "lambda@" + locstr(r->getLocation()) : r->getNameAsString()) + s;
        if (isLambda(r) && r->getLambdaContextDecl())
        {
          if (auto * vd = dyn_cast<NamedDecl>(r->getLambdaContextDecl())) s = "::" + vd->getNameAsString() + s;
        }
      }
      else if (auto * ns = dyn_cast<NamespaceDecl>(dc)) { if (!ns->isInline()) s = "::" + (ns->isAnonymousNamespace() ? std::string("(anon)") + MainFile : ns->getNameAsString()) + s; }
    }
    return s;
  }
  std::string key(const FunctionDecl * f)
  {
    f = f->getCanonicalDecl();
    auto it = keys.find(f);
    if (it != keys.end()) return it->second;
    keys[f] = "?";
    std::string s = ctxkey(f->getDeclContext()) + "::" + f->getNameAsString();
    if (auto * ta = f->getTemplateSpecializationArgs()) s += "<" + targs(ta) + ">";
    s += type(f->getType());
    if (auto * m = dyn_cast<CXXMethodDecl>(f); m && m->isStatic()) s += "s";
    if (f->getDeclContext()->isFunctionOrMethod() || isLambda(f->getDeclContext())) s += locstr(f->getLocation());
    if (f->getStorageClass() == SC_Static && !isa<CXXMethodDecl>(f)) s += MainFile;
    llvm::MD5 h; h.update(s); llvm::MD5::MD5Result r; h.final(r);
    std::string k = r.digest().str().substr(0, 14).str();
    keys[f] = k;
    return k;
  }
  std::string varid(const ValueDecl * d)
  {
    if (auto * v = dyn_cast<VarDecl>(d); v && (v->hasGlobalStorage() || v->isStaticDataMember()) && !v->isStaticLocal())
    {
      std::string s = ctxkey(v->getDeclContext()) + "::" + v->getNameAsString();
      return "g:" + s.substr(s.compare(0, 2, "::") == 0 ? 2 : 0);
    }
    std::string s = d->getNameAsString() + "@" + std::to_string(line(d->getLocation())) + ":" + std::to_string(col(d->getLocation())) + spell(d->getLocation());
    if (auto * p = dyn_cast<ParmVarDecl>(d)) s += "#" + std::to_string(p->getFunctionScopeIndex());
    return s;
  }
  std::string cls(const CXXRecordDecl * r)
  {
    return type(C.getRecordType(r));
  }

  // ---- JSON helpers ------------------------------------------------------
  void kv(const char * k, llvm::StringRef v, bool comma = true) { if (comma) o += ','; o += '"'; o += k; o += "\":"; esc(o, v); }
  void kn(const char * k, long long v, bool comma = true) { if (comma) o += ','; o += '"'; o += k; o += "\":" + std::to_string(v); }
  void open(const char * k) { o += "{\"k\":\""; o += k; o += '"'; }
  void sub(const char * k, const Stmt * s) { o += ",\""; o += k; o += "\":"; stmt(s); }
  void ln(const Stmt * s) { kn("l", line(s->getBeginLoc())); }
  void ty(const Expr * e) { kv("t", type(e->getType())); }
  template <typename R> void args(const char * k, R && r) { o += ",\""; o += k; o += "\":["; bool f = true; for (auto * a : r) { if (!f) o += ','; f = false; stmt(a); } o += ']'; }

  void want(const FunctionDecl * f)
  {
    const FunctionDecl * d = nullptr;
    if (f->hasBody(d) && d) pending.push_back(d);
    else if (auto * pat = f->getTemplateInstantiationPattern()) (void)pat;
  }
  void fnref(const FunctionDecl * f)
  {
    kv("f", key(f));
    kv("q", qual(f));
    if (auto * ta = f->getTemplateSpecializationArgs()) { o += ",\"ta\":"; targlist(ta); }
    if (auto * m = dyn_cast<CXXMethodDecl>(f)) { kv("cls", cls(m->getParent())); if (m->isVirtual()) kn("virt", 1); if (m->isStatic()) kn("static", 1); }
    if (f->isTrivial()) kn("triv", 1);
    want(f);
  }

  void constant(const Expr * e)
  {
    if (!e->isValueDependent() && e->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(e) && !isa<CXXBoolLiteralExpr>(e) && !isa<CharacterLiteral>(e))
    {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects))
      {
        o += ",\"cv\":\"" + llvm::toString(r.Val.getInt(), 10) + "\"";
      }
    }
  }

  void vardecl(const VarDecl * v)
  {
    open("var"); kv("d", varid(v)); kv("n", v->getNameAsString()); kv("t", type(v->getType())); kn("l", line(v->getLocation()));
    if (v->isStaticLocal()) kn("static", 1);
    if (v->getTLSKind() != VarDecl::TLS_None) kn("tls", 1);
    if (auto * i = v->getInit()) sub("init", i);
    if (auto * dd = dyn_cast<DecompositionDecl>(v))
    {
      o += ",\"bind\":[";
      bool f = true;
      for (auto * b : dd->bindings())
      {
        if (!f) o += ',';
        f = false;
        open("b"); kv("d", varid(b)); kv("n", b->getNameAsString()); kv("t", type(b->getType()));
        if (b->getHoldingVar()) { if (auto * hi = b->getHoldingVar()->getInit()) sub("init", hi); }
        else if (b->getBinding()) sub("init", b->getBinding());
        o += '}';
      }
      o += ']';
    }
    if (auto * rt = v->getType().getNonReferenceType()->getAsCXXRecordDecl()) if (auto * d = rt->getDefinition() ? rt->getDestructor() : nullptr) if (!d->isTrivial() && !v->getType()->isReferenceType()) { kv("dtor", key(d)); want(d); }
    o += '}';
  }

  void stmt(const Stmt * s)
  {
    if (!s) { o += "null"; return; }
    // transparent nodes
    if (auto * e = dyn_cast<ParenExpr>(s)) return stmt(e->getSubExpr());
    if (auto * e = dyn_cast<FullExpr>(s)) return stmt(e->getSubExpr());
    if (auto * e = dyn_cast<MaterializeTemporaryExpr>(s)) return stmt(e->getSubExpr());
    if (auto * e = dyn_cast<CXXBindTemporaryExpr>(s)) return stmt(e->getSubExpr());
    if (auto * e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return stmt(e->getReplacement());
    if (auto * e = dyn_cast<CXXDefaultArgExpr>(s)) return stmt(e->getExpr());
    if (auto * e = dyn_cast<CXXDefaultInitExpr>(s)) return stmt(e->getExpr());
    if (auto * e = dyn_cast<CXXStdInitializerListExpr>(s)) return stmt(e->getSubExpr());
    if (auto * e = dyn_cast<CXXRewrittenBinaryOperator>(s)) return stmt(e->getSemanticForm());
    if (auto * e = dyn_cast<OpaqueValueExpr>(s)) return stmt(e->getSourceExpr());
    if (auto * e = dyn_cast<ImplicitCastExpr>(s))
    {
      switch (e->getCastKind())
      {
        case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay: case CK_ArrayToPointerDecay:
        case CK_ConstructorConversion: case CK_UserDefinedConversion:
        case CK_BuiltinFnToFnPtr: case CK_NullToPointer: case CK_NullToMemberPointer:
          return stmt(e->getSubExpr());
        default: break;
      }
    }
    if (auto * e = dyn_cast<ExplicitCastExpr>(s))
    {
      auto ck = e->getCastKind();
      if (ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion || ck == CK_NoOp || ck == CK_LValueToRValue)
        return stmt(e->getSubExpr());
    }
    if (auto * e = dyn_cast<CastExpr>(s))
    {
      open("cast"); kv("c", e->getCastKindName()); ty(e); ln(s); constant(e);
      if (!isa<ImplicitCastExpr>(e)) kn("x", 1);
      sub("e", e->getSubExpr()); o += '}'; return;
    }
    switch (s->getStmtClass())
    {
      case Stmt::IntegerLiteralClass: { auto * e = cast<IntegerLiteral>(s); open("int"); o += ",\"v\":\"" + toString(e->getValue(), 10, e->getType()->isSignedIntegerType()) + "\""; ty(e); o += '}'; return; }
      case Stmt::FloatingLiteralClass: { auto * e = cast<FloatingLiteral>(s); llvm::SmallString<32> b; e->getValue().toString(b); open("float"); kv("v", b); ty(e); o += '}'; return; }
      case Stmt::CXXBoolLiteralExprClass: { open("bool"); kn("v", cast<CXXBoolLiteralExpr>(s)->getValue()); o += '}'; return; }
      case Stmt::CharacterLiteralClass: { open("char"); kn("v", cast<CharacterLiteral>(s)->getValue()); ty(cast<Expr>(s)); o += '}'; return; }
      case Stmt::StringLiteralClass: { auto * e = cast<StringLiteral>(s); open("str"); if (e->getCharByteWidth() == 1) kv("v", e->getString()); else kv("v", "?"); o += '}'; return; }
      case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: { open("null"); o += '}'; return; }
      case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: { open("zero"); ty(cast<Expr>(s)); o += '}'; return; }
      case Stmt::CXXThisExprClass: { open("this"); ty(cast<Expr>(s)); o += '}'; return; }
      case Stmt::DeclRefExprClass:
      {
        auto * e = cast<DeclRefExpr>(s);
        auto * d = e->getDecl();
        if (auto * f = dyn_cast<FunctionDecl>(d)) { open("fref"); fnref(f); ln(s); o += '}'; return; }
        if (auto * ec = dyn_cast<EnumConstantDecl>(d)) { open("enum"); kv("n", qual(ec)); o += ",\"cv\":\"" + toString(ec->getInitVal(), 10) + "\""; ty(e); o += '}'; return; }
        open("ref"); kv("d", varid(d)); kv("n", d->getNameAsString()); ty(e); ln(s);
        if (isa<ParmVarDecl>(d)) kn("parm", 1);
        if (auto * vd = dyn_cast<VarDecl>(d); vd && vd->hasGlobalStorage()) kv("gq", qual(vd));
        constant(e);
        o += '}'; return;
      }
      case Stmt::MemberExprClass:
      {
        auto * e = cast<MemberExpr>(s);
        auto * d = e->getMemberDecl();
        if (auto * f = dyn_cast<FunctionDecl>(d)) { open("mref"); fnref(f); sub("b", e->getBase()); ln(s); o += '}'; return; }
        if (auto * v = dyn_cast<VarDecl>(d)) { open("ref"); kv("d", varid(v)); kv("n", v->getNameAsString()); kv("gq", qual(v)); ty(e); ln(s); constant(e); o += '}'; return; }
        open("mem"); kv("n", d->getNameAsString()); kv("q", qual(d)); if (e->isArrow()) kn("arrow", 1); ty(e); ln(s); sub("b", e->getBase()); o += '}'; return;
      }
      case Stmt::CallExprClass: case Stmt::CXXMemberCallExprClass: case Stmt::CXXOperatorCallExprClass: case Stmt::UserDefinedLiteralClass:
      {
        auto * e = cast<CallExpr>(s);
        auto * f = e->getDirectCallee();
        open("call");
        if (auto * oc = dyn_cast<CXXOperatorCallExpr>(e)) { kv("op", getOperatorSpelling(oc->getOperator())); }
        ty(e); ln(s); kn("col", col(s->getBeginLoc()));
        constant(e);
        unsigned skip = 0;
        if (f)
        {
          fnref(f);
          if (auto * mc = dyn_cast<CXXMemberCallExpr>(e))
          {
            sub("o", mc->getImplicitObjectArgument());
            if (auto * me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) if (me->hasQualifier()) kn("qualified", 1);
          }
          else if (isa<CXXOperatorCallExpr>(e) && isa<CXXMethodDecl>(f) && e->getNumArgs()) { skip = 1; sub("o", e->getArg(0)); }
        }
        else sub("callee", e->getCallee());
        o += ",\"a\":[";
        bool first = true;
        for (unsigned i = skip; i < e->getNumArgs(); ++i) { if (!first) o += ','; first = false; stmt(e->getArg(i)); }
        o += "]}";
        return;
      }
      case Stmt::CXXConstructExprClass: case Stmt::CXXTemporaryObjectExprClass:
      {
        auto * e = cast<CXXConstructExpr>(s);
        open("ctor"); fnref(e->getConstructor()); ty(e); ln(s);
        if (e->getConstructor()->isCopyOrMoveConstructor()) kn("copy", 1);
        if (e->isElidable()) kn("elide", 1);
        if (e->isListInitialization()) kn("list", 1);
        args("a", e->arguments()); o += '}'; return;
      }
      case Stmt::CXXInheritedCtorInitExprClass: { auto * e = cast<CXXInheritedCtorInitExpr>(s); open("ictor"); fnref(e->getConstructor()); ty(e); ln(s); o += '}'; return; }
      case Stmt::CXXNewExprClass: { auto * e = cast<CXXNewExpr>(s); open("new"); ty(e); ln(s); if (e->getOperatorNew()) { kv("opnew", qual(e->getOperatorNew())); want(e->getOperatorNew()); } if (e->getInitializer()) sub("init", e->getInitializer()); if (e->isArray() && e->getArraySize()) sub("size", *e->getArraySize()); args("place", e->placement_arguments()); o += '}'; return; }
      case Stmt::CXXDeleteExprClass: { auto * e = cast<CXXDeleteExpr>(s); open("delete"); ln(s); kv("dt", type(e->getDestroyedType())); sub("e", e->getArgument()); o += '}'; return; }
      case Stmt::UnaryOperatorClass: { auto * e = cast<UnaryOperator>(s); open("un"); std::string op = UnaryOperator::getOpcodeStr(e->getOpcode()).str(); if (e->isPostfix()) op = "p" + op; kv("op", op); ty(e); ln(s); constant(e); sub("e", e->getSubExpr()); o += '}'; return; }
      case Stmt::BinaryOperatorClass: case Stmt::CompoundAssignOperatorClass:
      {
        auto * e = cast<BinaryOperator>(s);
        open("bin"); kv("op", e->getOpcodeStr()); ty(e); ln(s); constant(e);
        if (auto * ca = dyn_cast<CompoundAssignOperator>(e)) kv("ct", type(ca->getComputationResultType()));
        sub("a", e->getLHS()); sub("b", e->getRHS()); o += '}'; return;
      }
      case Stmt::ConditionalOperatorClass: { auto * e = cast<ConditionalOperator>(s); open("cond"); ty(e); ln(s); sub("c", e->getCond()); sub("a", e->getTrueExpr()); sub("b", e->getFalseExpr()); o += '}'; return; }
      case Stmt::BinaryConditionalOperatorClass: { auto * e = cast<BinaryConditionalOperator>(s); open("elvis"); ty(e); ln(s); sub("a", e->getCommon()); sub("b", e->getFalseExpr()); o += '}'; return; }
      case Stmt::ArraySubscriptExprClass: { auto * e = cast<ArraySubscriptExpr>(s); open("index"); ty(e); ln(s); sub("a", e->getBase()); sub("b", e->getIdx()); o += '}'; return; }
      case Stmt::InitListExprClass: { auto * e = cast<InitListExpr>(s); if (e->isSemanticForm() == false && e->getSemanticForm()) e = e->getSemanticForm(); open("init"); ty(e); ln(s); args("a", e->inits()); if (e->hasArrayFiller()) kn("filler", 1); o += '}'; return; }
      case Stmt::CXXParenListInitExprClass: { auto * e = cast<CXXParenListInitExpr>(s); open("init"); ty(e); ln(s); args("a", e->getInitExprs()); o += '}'; return; }
      case Stmt::UnaryExprOrTypeTraitExprClass: { open("sizeof"); ty(cast<Expr>(s)); auto * e = cast<UnaryExprOrTypeTraitExpr>(s); kv("of", type(e->getTypeOfArgument())); constant(cast<Expr>(s)); o += '}'; return; }
      case Stmt::TypeTraitExprClass: case Stmt::ConceptSpecializationExprClass: case Stmt::RequiresExprClass: case Stmt::SizeOfPackExprClass: case Stmt::CXXNoexceptExprClass:
      { open("const"); ty(cast<Expr>(s)); constant(cast<Expr>(s)); o += '}'; return; }
      case Stmt::CXXTypeidExprClass: { auto * e = cast<CXXTypeidExpr>(s); open("typeid"); ln(s); if (e->isTypeOperand()) kv("of", type(e->getTypeOperand(C))); else sub("e", e->getExprOperand()); o += '}'; return; }
      case Stmt::CXXThrowExprClass: { auto * e = cast<CXXThrowExpr>(s); open("throw"); ln(s); if (e->getSubExpr()) { kv("tt", type(e->getSubExpr()->getType())); } sub("e", e->getSubExpr()); o += '}'; return; }
      case Stmt::LambdaExprClass:
      {
        auto * e = cast<LambdaExpr>(s);
        auto * r = e->getLambdaClass();
        open("lambda"); kv("cls", cls(r)); ln(s);
        o += ",\"ops\":[";
        bool first = true;
        auto add = [&](const FunctionDecl * f) { if (!first) o += ','; first = false; esc(o, key(f)); want(f); };
        if (auto * ft = e->getDependentCallOperator()) { for (auto * sp : ft->specializations()) add(sp); }
        else add(e->getCallOperator());
        o += "],\"caps\":[";
        first = true;
        auto ci = e->capture_init_begin();
        for (auto & cap : e->captures())
        {
          if (!first) o += ',';
          first = false;
          open("cap");
          kn("ref", cap.getCaptureKind() == LCK_ByRef);
          if (cap.capturesVariable()) { kv("d", varid(cap.getCapturedVar())); kv("n", cap.getCapturedVar()->getNameAsString()); if (auto * v = dyn_cast<VarDecl>(cap.getCapturedVar()); v && v->isInitCapture()) kn("initcap", 1); }
          if (cap.capturesThis()) kn("this", 1);
          if (ci != e->capture_init_end()) { sub("init", *ci); ++ci; }
          o += '}';
        }
        o += "]}";
        return;
      }
      // statements
      case Stmt::CompoundStmtClass: { open("block"); ln(s); kn("el", line(s->getEndLoc())); o += ",\"s\":["; bool f1 = true; std::string table;
        for (auto * c : cast<CompoundStmt>(s)->body())
        {
          // Generated tables (include/meevax/unicode/*.hpp) are included by name only.
          auto w = rel(c->getBeginLoc());
          if (w.find("include/meevax/unicode/") == 0) { if (w == table) continue; table = w; if (!f1) o += ','; f1 = false; open("table"); kv("file", w); o += '}'; continue; }
          if (!f1) o += ','; f1 = false; stmt(c);
        }
        o += "]}"; return; }
      case Stmt::DeclStmtClass:
      {
        open("decl"); ln(s); o += ",\"v\":["; bool first = true;
        for (auto * d : cast<DeclStmt>(s)->decls())
        {
          if (auto * v = dyn_cast<VarDecl>(d)) { if (!first) o += ','; first = false; vardecl(v); }
        }
        o += "]}"; return;
      }
      case Stmt::IfStmtClass:
      {
        auto * e = cast<IfStmt>(s);
        open("if"); ln(s); if (e->isConstexpr()) kn("constexpr", 1);
        if (e->getInit()) sub("init", e->getInit());
        if (e->getConditionVariable()) { o += ",\"var\":"; vardecl(e->getConditionVariable()); }
        if (e->isConsteval()) kn("consteval", 1); else sub("c", e->getCond());
        sub("a", e->getThen()); sub("b", e->getElse()); o += '}'; return;
      }
      case Stmt::SwitchStmtClass: { auto * e = cast<SwitchStmt>(s); open("switch"); ln(s); if (e->getInit()) sub("init", e->getInit()); if (e->getConditionVariable()) { o += ",\"var\":"; vardecl(e->getConditionVariable()); } sub("c", e->getCond()); sub("body", e->getBody()); o += '}'; return; }
      case Stmt::CaseStmtClass: { auto * e = cast<CaseStmt>(s); open("case"); ln(s); sub("v", e->getLHS()); if (e->getRHS()) sub("hi", e->getRHS()); sub("s", e->getSubStmt()); o += '}'; return; }
      case Stmt::DefaultStmtClass: { open("default"); ln(s); sub("s", cast<DefaultStmt>(s)->getSubStmt()); o += '}'; return; }
      case Stmt::WhileStmtClass: { auto * e = cast<WhileStmt>(s); open("while"); ln(s); if (e->getConditionVariable()) { o += ",\"var\":"; vardecl(e->getConditionVariable()); } sub("c", e->getCond()); sub("s", e->getBody()); o += '}'; return; }
      case Stmt::DoStmtClass: { auto * e = cast<DoStmt>(s); open("do"); ln(s); sub("c", e->getCond()); sub("s", e->getBody()); o += '}'; return; }
      case Stmt::ForStmtClass: { auto * e = cast<ForStmt>(s); open("for"); ln(s); sub("init", e->getInit()); if (e->getConditionVariable()) { o += ",\"var\":"; vardecl(e->getConditionVariable()); } sub("c", e->getCond()); sub("inc", e->getInc()); sub("s", e->getBody()); o += '}'; return; }
      case Stmt::CXXForRangeStmtClass: { auto * e = cast<CXXForRangeStmt>(s); open("rfor"); ln(s); if (e->getInit()) sub("init", e->getInit()); o += ",\"var\":"; vardecl(e->getLoopVariable()); sub("range", e->getRangeInit()); if (e->getBeginStmt()) sub("begin", e->getBeginStmt()); if (e->getCond()) sub("c", e->getCond()); sub("s", e->getBody()); o += '}'; return; }
      case Stmt::ReturnStmtClass: { open("return"); ln(s); sub("e", cast<ReturnStmt>(s)->getRetValue()); o += '}'; return; }
      case Stmt::BreakStmtClass: { open("break"); o += '}'; return; }
      case Stmt::ContinueStmtClass: { open("continue"); o += '}'; return; }
      case Stmt::NullStmtClass: { open("nop"); o += '}'; return; }
      case Stmt::AttributedStmtClass: return stmt(cast<AttributedStmt>(s)->getSubStmt());
      case Stmt::LabelStmtClass: { auto * e = cast<LabelStmt>(s); open("label"); ln(s); kv("n", e->getName()); sub("s", e->getSubStmt()); o += '}'; return; }
      case Stmt::GotoStmtClass: { auto * e = cast<GotoStmt>(s); open("goto"); ln(s); kv("n", e->getLabel()->getName()); o += '}'; return; }
      case Stmt::CXXTryStmtClass:
      {
        auto * e = cast<CXXTryStmt>(s);
        open("try"); ln(s); sub("s", e->getTryBlock()); o += ",\"h\":[";
        for (unsigned i = 0; i < e->getNumHandlers(); ++i)
        {
          if (i) o += ',';
          auto * h = e->getHandler(i);
          open("catch"); ln(h);
          if (h->getExceptionDecl()) { kv("t", type(h->getExceptionDecl()->getType())); kv("d", varid(h->getExceptionDecl())); }
          sub("s", h->getHandlerBlock()); o += '}';
        }
        o += "]}"; return;
      }
      default: break;
    }
    // anything else: kind plus children
    open("other"); kv("sc", s->getStmtClassName()); ln(s);
    if (auto * e = dyn_cast<Expr>(s)) { ty(e); constant(e); }
    o += ",\"ch\":["; bool first = true;
    for (auto * c : s->children()) { if (!first) o += ','; first = false; stmt(c); }
    o += "]}";
  }

  bool dependent(const FunctionDecl * f)
  {
    if (f->isDependentContext() || f->isTemplated()) return true;
    return false;
  }

  void function(const FunctionDecl * f)
  {
    if (dependent(f) || !f->doesThisDeclarationHaveABody()) return;
    if (!inRepo(f->getLocation())) return;
    auto k = key(f);
    if (!seen.insert(k).second) return;
    o += "{\"rec\":\"fn\""; kv("key", k); kv("q", qual(f)); kv("n", f->getNameAsString()); kv("file", rel(f->getLocation())); kn("l", line(f->getLocation())); kn("el", line(f->getEndLoc()));
    if (auto * ta = f->getTemplateSpecializationArgs()) { o += ",\"ta\":"; targlist(ta); }
    kv("rt", type(f->getReturnType()));
    if (f->isNoReturn()) kn("noreturn", 1);
    if (f->isImplicit() || f->isDefaulted()) kn("implicit", 1);
    o += ",\"params\":["; bool first = true;
    for (auto * p : f->parameters()) { if (!first) o += ','; first = false; open("p"); kv("d", varid(p)); kv("n", p->getNameAsString()); kv("t", type(p->getType())); if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) sub("def", p->getDefaultArg()); o += '}'; }
    o += ']';
    if (auto * m = dyn_cast<CXXMethodDecl>(f))
    {
      kv("cls", cls(m->getParent())); kv("cq", qual(m->getParent()));
      if (m->isStatic()) kn("static", 1);
      if (m->isVirtual()) kn("virt", 1);
      if (isLambda(m->getParent()))
      {
        kn("lambda", 1);
        for (auto * dc = m->getParent()->getDeclContext(); dc; dc = dc->getParent())
          if (auto * pf = dyn_cast<FunctionDecl>(dc)) { kv("parent", key(pf)); break; }
      }
      o += ",\"over\":["; first = true;
      for (auto * b : m->overridden_methods()) { if (!first) o += ','; first = false; esc(o, key(b)); }
      o += ']';
      if (auto * c = dyn_cast<CXXConstructorDecl>(f))
      {
        kn("ctor", 1);
        o += ",\"inits\":["; first = true;
        for (auto * i : c->inits())
        {
          if (!first) o += ',';
          first = false;
          open("i");
          if (i->isAnyMemberInitializer()) { kv("member", i->getAnyMember()->getNameAsString()); kv("mq", qual(i->getAnyMember())); }
          else if (i->getBaseClass()) kv("base", type(QualType(i->getBaseClass(), 0)));
          if (i->isWritten()) kn("written", 1);
          kn("l", line(i->getSourceLocation()));
          sub("init", i->getInit()); o += '}';
        }
        o += ']';
      }
      if (isa<CXXDestructorDecl>(f)) kn("isdtor", 1);
    }
    sub("body", f->getBody());
    o += "}\n";
  }

  std::set<const CXXRecordDecl*> seenrec;
  void record(const CXXRecordDecl * r)
  {
    if (!r->isCompleteDefinition() || r->isDependentContext() || !inRepo(r->getLocation()) || !seenrec.insert(r).second) return;
    o += "{\"rec\":\"class\""; kv("cls", cls(r)); kv("q", qual(r)); kv("n", isLambda(r) ? "(lambda)" : r->getNameAsString()); kv("file", rel(r->getLocation())); kn("l", line(r->getLocation()));
    if (isLambda(r)) kn("lambda", 1);
    if (auto * ts = dyn_cast<ClassTemplateSpecializationDecl>(r)) { o += ",\"ta\":"; targlist(&ts->getTemplateArgs()); }
    o += ",\"bases\":["; bool first = true;
    for (auto & b : r->bases()) { if (!first) o += ','; first = false; esc(o, type(b.getType())); }
    o += "],\"fields\":["; first = true;
    for (auto * f : r->fields()) { if (!first) o += ','; first = false; open("f"); kv("n", f->getNameAsString()); kv("t", type(f->getType())); if (f->hasInClassInitializer() && f->getInClassInitializer()) sub("init", f->getInClassInitializer()); o += '}'; }
    o += "],\"methods\":["; first = true;
    for (auto * m : r->methods()) { if (!first) o += ','; first = false; open("m"); kv("n", m->getNameAsString()); kv("key", key(m)); kv("t", type(m->getType())); if (m->isVirtual()) kn("virt", 1); if (m->isPureVirtual()) kn("pure", 1); if (m->isDeleted()) kn("deleted", 1); if (m->isImplicit()) kn("implicit", 1); if (m->getAccess() != AS_public) kn("nonpublic", 1);
      o += ",\"over\":["; bool f2 = true; for (auto * b : m->overridden_methods()) { if (!f2) o += ','; f2 = false; esc(o, key(b)); } o += ']';
      o += '}'; }
    o += "]}\n";
  }
  void enumeration(const EnumDecl * e)
  {
    if (!e->isCompleteDefinition() || e->isDependentContext() || !inRepo(e->getLocation())) return;
    o += "{\"rec\":\"enum\""; kv("q", qual(e)); kv("t", type(C.getEnumType(e))); kv("file", rel(e->getLocation())); kn("l", line(e->getLocation())); kv("under", type(e->getIntegerType()));
    o += ",\"vals\":["; bool first = true;
    for (auto * c : e->enumerators()) { if (!first) o += ','; first = false; o += '['; esc(o, c->getNameAsString()); o += ",\"" + toString(c->getInitVal(), 10) + "\"]"; }
    o += "]}\n";
  }
  void global(const VarDecl * v)
  {
    if (!v->hasGlobalStorage() || v->isStaticLocal() || v->getDeclContext()->isDependentContext() || isa<ParmVarDecl>(v) || !inRepo(v->getLocation()) || v->getDescribedVarTemplate()) return;
    if (!v->isThisDeclarationADefinition()) return;
    if (v->isTemplated()) return;
    o += "{\"rec\":\"var\""; kv("id", varid(v)); kv("q", qual(v)); kv("file", rel(v->getLocation())); o += ",\"v\":"; vardecl(v); o += "}\n";
  }
};

struct V : RecursiveASTVisitor<V>
{
  Dumper & D;
  V(Dumper & d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl * f) { D.function(f); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl * r) { D.record(r); return true; }
  bool VisitEnumDecl(EnumDecl * e) { D.enumeration(e); return true; }
  bool VisitVarDecl(VarDecl * v) { D.global(v); return true; }
};

struct Consumer : ASTConsumer
{
  void HandleTranslationUnit(ASTContext & C) override
  {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Dumper D(C);
    V v(D);
    for (auto * d : C.getTranslationUnitDecl()->decls())
    {
      // Only walk top-level declarations of the analysed tree.
      if (D.inRepo(d->getLocation())) v.TraverseDecl(d);
    }
    while (!D.pending.empty())
    {
      auto * f = D.pending.back(); D.pending.pop_back();
      D.function(f);
    }
    std::ofstream os(OutPath, std::ios::binary);
    os << D.o;
    if (!os) { llvm::errs() << "cannot write " << OutPath << "\n"; exit(3); }
  }
};
struct Action : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, char const** argv)
{
  if (argc < 5 || std::string(argv[4]) != "--") { llvm::errs() << "usage: facts ROOT OUT SOURCE -- ARGS\n"; return 2; }
  Root = argv[1]; OutPath = argv[2]; MainFile = std::string(argv[3]).substr(Root.size() + 1);
  std::vector<std::string> a(argv + 5, argv + argc);
  tooling::FixedCompilationDatabase db(".", a);
  tooling::ClangTool T(db, { argv[3] });
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
