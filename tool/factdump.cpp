// factdump: dumps the type-resolved program of one translation unit as JSON.
//
// Every function definition (free functions, methods, constructors,
// destructors, lambdas, instantiated templates) that lies under --root is
// written with its statement tree; callees, variables, fields, constants and
// types are resolved by the Clang front end.  Records, enums and global
// variables (with initialisers) are written too.
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecordLayout.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <string>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string Root;
static std::string OutPath;

namespace {

class Dumper {
 public:
  explicit Dumper(ASTContext &c) : ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy()) {
    pp.SuppressTagKeyword = true;
    pp.FullyQualifiedName = true;
    pp.PrintCanonicalTypes = true;
  }

  ASTContext &ctx;
  SourceManager &sm;
  PrintingPolicy pp;
  Array functions, records, enums, globals, types;
  std::map<const void *, int> typeIds;
  std::map<std::string, int> typeNames;
  std::set<std::string> seenFn, seenRec, seenGlobal;
  std::set<const CXXRecordDecl *> wantRec;

  std::string fix(llvm::StringRef s) { return llvm::json::fixUTF8(s); }

  std::string fileOf(SourceLocation l) {
    if (l.isInvalid()) return "";
    l = sm.getExpansionLoc(l);
    return sm.getFilename(l).str();
  }
  unsigned lineOf(SourceLocation l) {
    if (l.isInvalid()) return 0;
    return sm.getExpansionLineNumber(l);
  }
  bool inRoot(SourceLocation l) {
    auto f = fileOf(l);
    if (f.compare(0, Root.size(), Root) != 0) return false;
    auto rest = llvm::StringRef(f).substr(Root.size());
    return rest.contains("/src/") || rest.contains("/include/") || rest.starts_with("src/") ||
           rest.starts_with("include/");
  }
  std::string locKey(SourceLocation l) {
    l = sm.getExpansionLoc(l);
    auto f = sm.getFilename(l);
    auto p = f.rfind('/');
    return (f.substr(p == llvm::StringRef::npos ? 0 : p + 1) + ":" +
            llvm::Twine(sm.getFileOffset(l))).str();
  }

  std::string usrOf(const Decl *d) {
    d = d->getCanonicalDecl();
    llvm::SmallString<128> b;
    if (index::generateUSRForDecl(d, b)) {
      b = "?";
      b += locKey(d->getLocation());
    }
    std::string r = b.str().str();
    if (auto fd = dyn_cast<FunctionDecl>(d)) {
      if (auto md = dyn_cast<CXXMethodDecl>(fd))
        if (md->getParent()->isLambda()) r += "@" + locKey(md->getParent()->getBeginLoc());
      if (auto ta = fd->getTemplateSpecializationArgs()) {
        r += "<";
        for (auto &a : ta->asArray()) {
          std::string s;
          llvm::raw_string_ostream os(s);
          a.print(pp, os, true);
          r += s + ",";
        }
        r += ">";
      }
    }
    return fix(r);
  }
  std::string recKey(const CXXRecordDecl *r) {
    if (r->isLambda()) return "lambda@" + locKey(r->getBeginLoc());
    return ctx.getRecordType(r).getCanonicalType().getAsString(pp);
  }
  std::string localId(const VarDecl *v) {
    if (v->hasGlobalStorage() && !v->isStaticLocal()) return usrOf(v);
    std::string p = v->getNameAsString();
    return p + "@" + locKey(v->getLocation());
  }

  int typeId(QualType q) {
    if (q.isNull()) return -1;
    QualType c = q.getCanonicalType();
    auto it = typeIds.find(c.getAsOpaquePtr());
    if (it != typeIds.end()) return it->second;
    int id = (int)types.size();
    typeIds[c.getAsOpaquePtr()] = id;
    types.push_back(nullptr);
    Object o;
    o["s"] = fix(c.getAsString(pp));
    const char *k = "other";
    if (c->isReferenceType()) {
      k = c->isRValueReferenceType() ? "rref" : "ref";
      o["p"] = typeId(c->getPointeeType());
    } else if (c->isPointerType()) {
      k = "ptr";
      o["p"] = typeId(c->getPointeeType());
    } else if (c->isArrayType()) {
      k = "arr";
      if (auto ca = ctx.getAsConstantArrayType(c)) o["n"] = (int64_t)ca->getSize().getZExtValue();
      o["p"] = typeId(ctx.getAsArrayType(c)->getElementType());
    } else if (c->isBooleanType()) {
      k = "bool";
    } else if (c->isEnumeralType()) {
      k = "enum";
      o["sg"] = c->isSignedIntegerOrEnumerationType();
    } else if (c->isIntegerType()) {
      k = "int";
      o["sg"] = c->isSignedIntegerType();
    } else if (c->isFloatingType()) {
      k = "float";
    } else if (c->isVoidType()) {
      k = "void";
    } else if (c->isRecordType()) {
      k = "rec";
      if (auto rd = c->getAsCXXRecordDecl()) {
        o["r"] = fix(recKey(rd));
        noteRecord(rd);
      }
    } else if (c->isFunctionType()) {
      k = "fn";
    }
    o["k"] = k;
    if (c.isConstQualified()) o["c"] = 1;
    if (!c->isIncompleteType() && !c->isDependentType() && !c->isFunctionType() &&
        !c->isReferenceType() && !c->isPlaceholderType() && !c->isUndeducedType())
      o["z"] = (int64_t)ctx.getTypeSizeInChars(c).getQuantity();
    types[id] = std::move(o);
    return id;
  }

  // name of the integer type a value was declared with
  std::string named(QualType q) {
    for (int i = 0; i < 16 && !q.isNull(); i++) {
      if (auto r = q->getAs<ReferenceType>(); r && !isa<TypedefType>(q)) {
        q = r->getPointeeType();
      } else if (auto p = q->getAs<PointerType>(); p && !isa<TypedefType>(q)) {
        q = p->getPointeeType();
      } else if (isa<ArrayType>(q.getTypePtr())) {
        q = ctx.getAsArrayType(q)->getElementType();
      } else if (auto t = q->getAs<TypedefType>()) {
        return q->getCanonicalTypeInternal()->isIntegerType() ? t->getDecl()->getNameAsString() : "";
      } else {
        return "";
      }
    }
    return "";
  }
  void putNamed(Object &o, QualType q) {
    auto n = named(q);
    if (!n.empty()) o["td"] = n;
  }

  void noteRecord(const CXXRecordDecl *rd) {
    rd = rd->getDefinition();
    if (!rd || rd->isDependentType()) return;
    auto key = recKey(rd);
    if (!seenRec.insert(key).second) return;
    bool mine = inRoot(rd->getLocation());
    Object o;
    o["k"] = fix(key);
    o["n"] = fix(rd->getQualifiedNameAsString());
    o["mine"] = mine;
    o["f"] = fileOf(rd->getLocation());
    o["l"] = lineOf(rd->getLocation());
    o["lambda"] = rd->isLambda();
    o["union"] = rd->isUnion();
    o["trivdtor"] = rd->hasTrivialDestructor();
    if (auto d = rd->getDestructor()) o["dtor"] = usrOf(d);
    size_t idx = records.size();
    records.push_back(nullptr);
    if (mine || rd->isLambda()) {
      o["size"] = (int64_t)ctx.getASTRecordLayout(rd).getSize().getQuantity();
      Array fs;
      auto &lay = ctx.getASTRecordLayout(rd);
      for (auto f : rd->fields()) {
        Object fo;
        fo["n"] = f->getNameAsString();
        fo["t"] = typeId(f->getType());
        putNamed(fo, f->getType());
        fo["off"] = (int64_t)lay.getFieldOffset(f->getFieldIndex());
        if (f->isBitField()) fo["bits"] = (int64_t)f->getBitWidthValue(ctx);
        fo["init"] = f->hasInClassInitializer();
        fo["l"] = lineOf(f->getLocation());
        if (f->isMutable()) fo["mutable"] = 1;
        fo["acc"] = (int)f->getAccess();
        fs.push_back(std::move(fo));
      }
      o["fields"] = std::move(fs);
      Array bs;
      for (auto &b : rd->bases()) bs.push_back(typeId(b.getType()));
      o["bases"] = std::move(bs);
      Array ms;
      for (auto m : rd->methods()) {
        Object mo;
        mo["u"] = usrOf(m);
        mo["n"] = m->getNameAsString();
        mo["imp"] = m->isImplicit();
        mo["def"] = m->isDefaulted();
        mo["del"] = m->isDeleted();
        mo["virt"] = m->isVirtual();
        if (auto c = dyn_cast<CXXConstructorDecl>(m)) {
          mo["ctor"] = 1;
          if (c->isCopyConstructor()) mo["copy"] = 1;
          if (c->isMoveConstructor()) mo["move"] = 1;
        }
        if (m->isCopyAssignmentOperator()) mo["copyas"] = 1;
        if (m->isMoveAssignmentOperator()) mo["moveas"] = 1;
        if (m->size_overridden_methods()) {
          Array ov;
          for (auto om : m->overridden_methods()) ov.push_back(usrOf(om));
          mo["ov"] = std::move(ov);
        }
        ms.push_back(std::move(mo));
      }
      o["methods"] = std::move(ms);
    }
    records[idx] = std::move(o);
  }

  void addEnum(const EnumDecl *e) {
    Object o;
    o["n"] = fix(e->getQualifiedNameAsString());
    o["f"] = fileOf(e->getLocation());
    o["l"] = lineOf(e->getLocation());
    Array vs;
    for (auto c : e->enumerators()) {
      Object v;
      v["n"] = c->getNameAsString();
      v["v"] = c->getInitVal().getExtValue();
      vs.push_back(std::move(v));
    }
    o["v"] = std::move(vs);
    enums.push_back(std::move(o));
  }

  // ---- expressions -------------------------------------------------------
  Value ex(const Expr *e) {
    if (!e) return nullptr;
    Object o = exo(e);
    if (!o.get("l")) o["l"] = lineOf(e->getExprLoc());
    if (!o.get("t")) o["t"] = typeId(e->getType());
    if (!o.get("cv") && e->isPRValue() && !e->isValueDependent() &&
        (e->getType()->isIntegralOrEnumerationType())) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects)) {
        auto v = r.Val.getInt();
        if (v.getBitWidth() <= 64) {
          if (v.isSigned()) o["cv"] = v.getSExtValue();
          else o["cv"] = (uint64_t)v.getZExtValue();
        }
      }
    }
    return o;
  }

  Array exs(llvm::ArrayRef<const Expr *> es) {
    Array a;
    for (auto x : es) a.push_back(ex(x));
    return a;
  }
  template <class It> Array exr(It b, It e) {
    Array a;
    for (; b != e; ++b) a.push_back(ex(*b));
    return a;
  }

  void calleeInfo(Object &o, const FunctionDecl *fd) {
    if (!fd) return;
    o["fn"] = usrOf(fd);
    o["n"] = fix(fd->getQualifiedNameAsString());
    if (auto p = fd->getType()->getAs<FunctionProtoType>())
      if (!isUnresolvedExceptionSpec(p->getExceptionSpecType()) && p->isNothrow()) o["nothrow"] = 1;
    if (fd->isNoReturn()) o["noret"] = 1;
    if (auto md = dyn_cast<CXXMethodDecl>(fd)) {
      if (md->isConst()) o["cm"] = 1;
      if (md->isStatic()) o["sm"] = 1;
      o["rec"] = fix(recKey(md->getParent()));
      noteRecord(md->getParent());
      if (md->getParent()->isLambda()) {
        o["lam"] = 1;
      }
    }
    Array pts;
    for (auto p : fd->parameters()) pts.push_back(typeId(p->getType()));
    o["pt"] = std::move(pts);
  }

  Object exo(const Expr *e) {
    Object o;
    if (auto x = dyn_cast<ParenExpr>(e)) return exo1(x->getSubExpr());
    if (auto x = dyn_cast<ExprWithCleanups>(e)) {
      o["k"] = "ewc";
      o["e"] = ex(x->getSubExpr());
      return o;
    }
    if (auto x = dyn_cast<ConstantExpr>(e)) return exo1(x->getSubExpr());
    if (auto x = dyn_cast<MaterializeTemporaryExpr>(e)) {
      o["k"] = "mat";
      o["e"] = ex(x->getSubExpr());
      o["ext"] = x->getStorageDuration() != SD_FullExpression;
      o["id"] = "tmp@" + locKey(x->getBeginLoc()) + "#" + std::to_string(tmpCtr++);
      return o;
    }
    if (auto x = dyn_cast<CXXBindTemporaryExpr>(e)) {
      o["k"] = "bind";
      o["e"] = ex(x->getSubExpr());
      if (auto d = x->getTemporary()->getDestructor()) o["dtor"] = usrOf(d);
      return o;
    }
    if (auto x = dyn_cast<CXXDefaultArgExpr>(e)) return exo1(x->getExpr());
    if (auto x = dyn_cast<CXXDefaultInitExpr>(e)) return exo1(x->getExpr());
    if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return exo1(x->getReplacement());
    if (auto x = dyn_cast<CastExpr>(e)) {
      switch (x->getCastKind()) {
        case CK_LValueToRValue:
          o["k"] = "ld";
          o["e"] = ex(x->getSubExpr());
          return o;
        case CK_NoOp:
        case CK_UserDefinedConversion:
        case CK_ConstructorConversion:
        case CK_FunctionToPointerDecay:
          if (x->getSubExpr()->isGLValue() == x->isGLValue()) return exo1(x->getSubExpr());
          break;
        default:
          break;
      }
      o["k"] = "cast";
      o["ck"] = x->getCastKindName();
      if (!isa<ImplicitCastExpr>(x)) o["explicit"] = 1;
      o["e"] = ex(x->getSubExpr());
      return o;
    }
    if (auto x = dyn_cast<IntegerLiteral>(e)) {
      o["k"] = "int";
      return o;
    }
    if (auto x = dyn_cast<CharacterLiteral>(e)) {
      o["k"] = "int";
      o["chr"] = 1;
      return o;
    }
    if (auto x = dyn_cast<CXXBoolLiteralExpr>(e)) {
      o["k"] = "int";
      return o;
    }
    if (auto x = dyn_cast<FloatingLiteral>(e)) {
      o["k"] = "flt";
      o["v"] = x->getValueAsApproximateDouble();
      return o;
    }
    if (auto x = dyn_cast<StringLiteral>(e)) {
      o["k"] = "str";
      if (x->getCharByteWidth() == 1) o["v"] = fix(x->getBytes());
      o["len"] = (int64_t)x->getLength();
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
      o["k"] = "null";
      return o;
    }
    if (isa<CXXThisExpr>(e)) {
      o["k"] = "this";
      return o;
    }
    if (auto x = dyn_cast<PredefinedExpr>(e)) {
      o["k"] = "str";
      if (x->getFunctionName()) o["v"] = fix(x->getFunctionName()->getString());
      return o;
    }
    if (auto x = dyn_cast<DeclRefExpr>(e)) {
      auto d = x->getDecl();
      o["k"] = "ref";
      o["n"] = d->getNameAsString();
      if (auto v = dyn_cast<VarDecl>(d)) {
        o["d"] = localId(v);
        o["dk"] = isa<ParmVarDecl>(v) ? "parm" : v->hasGlobalStorage() ? "glob" : "var";
        if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
        o["dt"] = typeId(v->getType());
        if (v->hasGlobalStorage()) o["qn"] = fix(v->getQualifiedNameAsString());
      } else if (auto f = dyn_cast<FunctionDecl>(d)) {
        o["dk"] = "fn";
        calleeInfo(o, f);
      } else if (auto c = dyn_cast<EnumConstantDecl>(d)) {
        o["dk"] = "enum";
        o["cv"] = c->getInitVal().getExtValue();
        o["qn"] = fix(c->getQualifiedNameAsString());
      } else if (auto b = dyn_cast<BindingDecl>(d)) {
        o["dk"] = "binding";
        o["d"] = b->getNameAsString() + "@" + locKey(b->getLocation());
        if (b->getBinding()) o["b"] = ex(b->getBinding());
      } else {
        o["dk"] = "other";
      }
      return o;
    }
    if (auto x = dyn_cast<MemberExpr>(e)) {
      auto d = x->getMemberDecl();
      o["k"] = "mem";
      o["n"] = d->getNameAsString();
      o["arrow"] = x->isArrow();
      o["e"] = ex(x->getBase());
      if (auto f = dyn_cast<FieldDecl>(d)) {
        if (auto rd = dyn_cast<CXXRecordDecl>(f->getParent())) {
          o["rec"] = fix(recKey(rd));
          noteRecord(rd);
        }
        o["dk"] = "field";
      } else if (auto v = dyn_cast<VarDecl>(d)) {
        o["dk"] = "glob";
        o["d"] = localId(v);
      } else if (auto m = dyn_cast<FunctionDecl>(d)) {
        o["dk"] = "fn";
        calleeInfo(o, m);
      }
      return o;
    }
    if (auto x = dyn_cast<ArraySubscriptExpr>(e)) {
      o["k"] = "idx";
      o["e"] = ex(x->getBase());
      o["i"] = ex(x->getIdx());
      return o;
    }
    if (auto x = dyn_cast<UnaryOperator>(e)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isPostfix()) o["post"] = 1;
      o["e"] = ex(x->getSubExpr());
      return o;
    }
    if (auto x = dyn_cast<BinaryOperator>(e)) {
      o["k"] = "bin";
      o["op"] = x->getOpcodeStr().str();
      o["a"] = ex(x->getLHS());
      o["b"] = ex(x->getRHS());
      if (auto ca = dyn_cast<CompoundAssignOperator>(e)) o["ct"] = typeId(ca->getComputationResultType());
      return o;
    }
    if (auto x = dyn_cast<ConditionalOperator>(e)) {
      o["k"] = "cond";
      o["c"] = ex(x->getCond());
      o["a"] = ex(x->getTrueExpr());
      o["b"] = ex(x->getFalseExpr());
      return o;
    }
    if (auto x = dyn_cast<BinaryConditionalOperator>(e)) {
      o["k"] = "elvis";
      o["a"] = ex(x->getCommon());
      o["b"] = ex(x->getFalseExpr());
      return o;
    }
    if (auto x = dyn_cast<OpaqueValueExpr>(e)) {
      if (x->getSourceExpr()) return exo1(x->getSourceExpr());
    }
    if (auto x = dyn_cast<CXXOperatorCallExpr>(e)) {
      o["k"] = "call";
      o["opcall"] = getOperatorSpelling(x->getOperator());
      auto fd = x->getDirectCallee();
      calleeInfo(o, fd);
      if (fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic()) {
        o["obj"] = ex(x->getArg(0));
        Array a;
        for (unsigned i = 1; i < x->getNumArgs(); i++) a.push_back(ex(x->getArg(i)));
        o["args"] = std::move(a);
      } else {
        o["args"] = exr(x->arg_begin(), x->arg_end());
      }
      return o;
    }
    if (auto x = dyn_cast<CXXMemberCallExpr>(e)) {
      o["k"] = "call";
      auto md = x->getMethodDecl();
      calleeInfo(o, md);
      if (auto me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
        o["obj"] = ex(me->getBase());
        if (me->isArrow()) o["arrow"] = 1;
        if (md && md->isVirtual() && !me->hasQualifier()) o["virt"] = 1;
      } else {
        o["fe"] = ex(x->getCallee());
      }
      o["args"] = exr(x->arg_begin(), x->arg_end());
      return o;
    }
    if (auto x = dyn_cast<CallExpr>(e)) {
      o["k"] = "call";
      if (auto fd = x->getDirectCallee())
        calleeInfo(o, fd);
      else
        o["fe"] = ex(x->getCallee());
      o["args"] = exr(x->arg_begin(), x->arg_end());
      return o;
    }
    if (auto x = dyn_cast<CXXConstructExpr>(e)) {
      o["k"] = "ctor";
      calleeInfo(o, x->getConstructor());
      if (x->getConstructor()->isCopyOrMoveConstructor()) o["cpmv"] = x->getConstructor()->isMoveConstructor() ? 2 : 1;
      if (x->isElidable()) o["elide"] = 1;
      o["args"] = exr(x->arg_begin(), x->arg_end());
      return o;
    }
    if (auto x = dyn_cast<CXXNewExpr>(e)) {
      o["k"] = "new";
      if (x->hasInitializer()) o["e"] = ex(x->getInitializer());
      if (x->isArray() && x->getArraySize()) o["n"] = ex(*x->getArraySize());
      o["pl"] = exr(x->placement_arg_begin(), x->placement_arg_end());
      return o;
    }
    if (auto x = dyn_cast<CXXDeleteExpr>(e)) {
      o["k"] = "delete";
      o["e"] = ex(x->getArgument());
      o["at"] = typeId(x->getDestroyedType());
      return o;
    }
    if (auto x = dyn_cast<CXXThrowExpr>(e)) {
      o["k"] = "throw";
      if (x->getSubExpr()) o["e"] = ex(x->getSubExpr());
      return o;
    }
    if (auto x = dyn_cast<LambdaExpr>(e)) {
      o["k"] = "lambda";
      o["fn"] = usrOf(x->getCallOperator());
      o["rec"] = fix(recKey(x->getLambdaClass()));
      if (auto ft = x->getDependentCallOperator()) {
        // generic: its instantiations
        Array fns;
        for (auto sp : ft->specializations()) {
          addFunction(sp, curFn);
          fns.push_back(usrOf(sp));
        }
        if (!fns.empty()) o["fn"] = fns[0];
        o["fns"] = std::move(fns);
      } else {
        addFunction(x->getCallOperator(), curFn);
      }
      Array caps;
      auto ii = x->capture_init_begin();
      for (auto &c : x->captures()) {
        Object co;
        if (c.capturesThis()) co["this"] = 1;
        if (c.capturesVariable()) {
          if (auto v = dyn_cast<VarDecl>(c.getCapturedVar())) co["d"] = localId(v);
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          if (auto v = dyn_cast<VarDecl>(c.getCapturedVar()))
            if (v->isInitCapture()) co["init"] = ex(v->getInit());
        }
        caps.push_back(std::move(co));
        if (ii != x->capture_init_end()) ++ii;
      }
      o["caps"] = std::move(caps);
      return o;
    }
    if (auto x = dyn_cast<InitListExpr>(e)) {
      auto s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
      o["k"] = "ilist";
      Array a;
      for (auto i : s->inits()) a.push_back(ex(i));
      o["a"] = std::move(a);
      if (s->hasArrayFiller()) o["fill"] = 1;
      if (auto rd = s->getType()->getAsCXXRecordDecl()) {
        o["rec"] = fix(recKey(rd));
        noteRecord(rd);
      }
      return o;
    }
    if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
      o["k"] = "zero";
      return o;
    }
    if (auto x = dyn_cast<CXXStdInitializerListExpr>(e)) {
      o["k"] = "stdil";
      o["e"] = ex(x->getSubExpr());
      return o;
    }
    if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
      o["k"] = x->getKind() == UETT_SizeOf ? "sizeof" : "trait";
      o["at"] = typeId(x->getTypeOfArgument());
      return o;
    }
    if (auto x = dyn_cast<OffsetOfExpr>(e)) {
      o["k"] = "offsetof";
      o["at"] = typeId(x->getTypeSourceInfo()->getType());
      std::string p;
      for (unsigned i = 0; i < x->getNumComponents(); i++)
        if (x->getComponent(i).getKind() == OffsetOfNode::Field)
          p += (p.empty() ? "" : ".") + x->getComponent(i).getField()->getNameAsString();
      o["m"] = p;
      return o;
    }
    if (auto x = dyn_cast<StmtExpr>(e)) {
      o["k"] = "stmtexpr";
      o["s"] = st(x->getSubStmt());
      return o;
    }
    if (auto x = dyn_cast<CXXTypeidExpr>(e)) {
      o["k"] = "typeid";
      return o;
    }
    if (auto x = dyn_cast<ArrayInitLoopExpr>(e)) {
      o["k"] = "arrcopy";
      o["e"] = ex(x->getCommonExpr());
      return o;
    }
    if (auto x = dyn_cast<VAArgExpr>(e)) {
      o["k"] = "vaarg";
      return o;
    }
    if (auto x = dyn_cast<SourceLocExpr>(e)) {
      o["k"] = "str";
      return o;
    }
    o["k"] = "other";
    o["cls"] = e->getStmtClassName();
    Array a;
    for (auto c : e->children())
      if (auto ce = dyn_cast_or_null<Expr>(c)) a.push_back(ex(ce));
    o["a"] = std::move(a);
    return o;
  }
  Object exo1(const Expr *e) {
    Value v = ex(e);
    return std::move(*v.getAsObject());
  }

  // ---- statements --------------------------------------------------------
  int tmpCtr = 0;
  const FunctionDecl *curFn = nullptr;

  Object varObj(const VarDecl *v) {
    Object o;
    o["d"] = localId(v);
    o["n"] = v->getNameAsString();
    o["t"] = typeId(v->getType());
    putNamed(o, v->getType());
    o["l"] = lineOf(v->getLocation());
    if (v->isStaticLocal()) o["static"] = 1;
    if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = 1;
    if (v->getInit()) o["init"] = ex(v->getInit());
    if (auto dd = dyn_cast<DecompositionDecl>(v)) {
      Array bs;
      for (auto b : dd->bindings()) {
        Object bo;
        bo["d"] = b->getNameAsString() + "@" + locKey(b->getLocation());
        if (auto hv = b->getHoldingVar()) bo["hv"] = varObj(hv);
        bs.push_back(std::move(bo));
      }
      o["bindings"] = std::move(bs);
    }
    return o;
  }

  Value st(const Stmt *s) {
    if (!s) return nullptr;
    Object o;
    o["l"] = lineOf(s->getBeginLoc());
    if (auto x = dyn_cast<CompoundStmt>(s)) {
      o["k"] = "block";
      o["el"] = lineOf(x->getRBracLoc());
      Array a;
      for (auto c : x->body()) a.push_back(st(c));
      o["b"] = std::move(a);
    } else if (auto x = dyn_cast<DeclStmt>(s)) {
      o["k"] = "decl";
      Array a;
      for (auto d : x->decls()) {
        if (auto v = dyn_cast<VarDecl>(d)) a.push_back(varObj(v));
      }
      o["v"] = std::move(a);
    } else if (auto x = dyn_cast<IfStmt>(s)) {
      o["k"] = "if";
      if (x->isConstexpr()) o["constexpr"] = 1;
      if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getConditionVariable()) o["cvd"] = varObj(x->getConditionVariable());
      o["c"] = ex(x->getCond());
      o["a"] = st(x->getThen());
      if (x->getElse()) o["b"] = st(x->getElse());
    } else if (auto x = dyn_cast<WhileStmt>(s)) {
      o["k"] = "while";
      if (x->getConditionVariable()) o["cvd"] = varObj(x->getConditionVariable());
      o["c"] = ex(x->getCond());
      o["b"] = st(x->getBody());
    } else if (auto x = dyn_cast<DoStmt>(s)) {
      o["k"] = "do";
      o["c"] = ex(x->getCond());
      o["b"] = st(x->getBody());
    } else if (auto x = dyn_cast<ForStmt>(s)) {
      o["k"] = "for";
      if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getCond()) o["c"] = ex(x->getCond());
      if (x->getInc()) o["inc"] = ex(x->getInc());
      o["b"] = st(x->getBody());
    } else if (auto x = dyn_cast<CXXForRangeStmt>(s)) {
      o["k"] = "rfor";
      if (x->getInit()) o["init"] = st(x->getInit());
      o["range"] = st(x->getRangeStmt());
      o["begin"] = st(x->getBeginStmt());
      o["end"] = st(x->getEndStmt());
      o["c"] = ex(x->getCond());
      o["inc"] = ex(x->getInc());
      o["var"] = st(x->getLoopVarStmt());
      o["b"] = st(x->getBody());
      o["re"] = ex(x->getRangeInit());
    } else if (auto x = dyn_cast<SwitchStmt>(s)) {
      o["k"] = "switch";
      if (x->getInit()) o["init"] = st(x->getInit());
      if (x->getConditionVariable()) o["cvd"] = varObj(x->getConditionVariable());
      o["c"] = ex(x->getCond());
      o["b"] = st(x->getBody());
    } else if (auto x = dyn_cast<CaseStmt>(s)) {
      o["k"] = "case";
      o["v"] = ex(x->getLHS());
      Expr::EvalResult r;
      if (x->getLHS()->EvaluateAsInt(r, ctx)) o["cv"] = r.Val.getInt().getExtValue();
      if (x->getRHS()) {
        Expr::EvalResult r2;
        if (x->getRHS()->EvaluateAsInt(r2, ctx)) o["cv2"] = r2.Val.getInt().getExtValue();
      }
      o["s"] = st(x->getSubStmt());
    } else if (auto x = dyn_cast<DefaultStmt>(s)) {
      o["k"] = "default";
      o["s"] = st(x->getSubStmt());
    } else if (isa<BreakStmt>(s)) {
      o["k"] = "break";
    } else if (isa<ContinueStmt>(s)) {
      o["k"] = "continue";
    } else if (auto x = dyn_cast<ReturnStmt>(s)) {
      o["k"] = "return";
      if (x->getRetValue()) o["e"] = ex(x->getRetValue());
    } else if (auto x = dyn_cast<CXXTryStmt>(s)) {
      o["k"] = "try";
      o["b"] = st(x->getTryBlock());
      Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        auto h = x->getHandler(i);
        Object ho;
        ho["l"] = lineOf(h->getBeginLoc());
        if (h->getExceptionDecl()) {
          ho["t"] = typeId(h->getCaughtType());
          ho["v"] = varObj(h->getExceptionDecl());
        } else {
          ho["all"] = 1;
        }
        ho["b"] = st(h->getHandlerBlock());
        hs.push_back(std::move(ho));
      }
      o["h"] = std::move(hs);
    } else if (auto x = dyn_cast<GotoStmt>(s)) {
      o["k"] = "goto";
      o["n"] = x->getLabel()->getNameAsString();
    } else if (auto x = dyn_cast<LabelStmt>(s)) {
      o["k"] = "label";
      o["n"] = x->getDecl()->getNameAsString();
      o["s"] = st(x->getSubStmt());
    } else if (isa<NullStmt>(s)) {
      o["k"] = "null";
    } else if (auto x = dyn_cast<AttributedStmt>(s)) {
      return st(x->getSubStmt());
    } else if (auto x = dyn_cast<Expr>(s)) {
      o["k"] = "expr";
      o["e"] = ex(x);
    } else {
      o["k"] = "otherstmt";
      o["cls"] = s->getStmtClassName();
    }
    return o;
  }

  void addFunction(const FunctionDecl *fd, const FunctionDecl *encl = nullptr) {
    if (!fd->doesThisDeclarationHaveABody() && !fd->isDefaulted()) return;
    if (fd->isDependentContext()) return;
    if (!inRoot(fd->getLocation())) return;
    auto u = usrOf(fd);
    if (!seenFn.insert(u).second) return;
    auto body = fd->getBody();
    if (!body && !isa<CXXConstructorDecl>(fd)) return;
    auto saved = curFn;
    curFn = fd;
    Object o;
    o["u"] = u;
    o["n"] = fix(fd->getQualifiedNameAsString());
    o["f"] = fileOf(fd->getLocation());
    o["l"] = lineOf(fd->getLocation());
    o["el"] = lineOf(fd->getEndLoc());
    o["externc"] = fd->isExternC();
    o["static"] = fd->getFormalLinkage() == Linkage::Internal;
    o["implicit"] = fd->isImplicit();
    o["inline"] = fd->isInlined();
    if (auto p = fd->getType()->getAs<FunctionProtoType>()) 
      o["nothrow"] = !isUnresolvedExceptionSpec(p->getExceptionSpecType()) && p->isNothrow();
    if (fd->isNoReturn()) o["noret"] = 1;
    o["rt"] = typeId(fd->getReturnType());
    if (auto n = named(fd->getReturnType()); !n.empty()) o["rtd"] = n;
    o["variadic"] = fd->isVariadic();
    if (encl) o["encl"] = usrOf(encl);
    Array ps;
    for (auto p : fd->parameters()) {
      Object po;
      po["d"] = localId(p);
      po["n"] = p->getNameAsString();
      po["t"] = typeId(p->getType());
      putNamed(po, p->getType());
      ps.push_back(std::move(po));
    }
    o["p"] = std::move(ps);
    if (auto md = dyn_cast<CXXMethodDecl>(fd)) {
      o["rec"] = fix(recKey(md->getParent()));
      noteRecord(md->getParent());
      o["virt"] = md->isVirtual();
      o["sm"] = md->isStatic();
      o["cm"] = md->isConst();
      if (md->getParent()->isLambda()) o["lam"] = 1;
    }
    if (auto cd = dyn_cast<CXXConstructorDecl>(fd)) {
      o["ctor"] = 1;
      Array is;
      for (auto i : cd->inits()) {
        Object io;
        if (i->isMemberInitializer()) io["m"] = i->getMember()->getNameAsString();
        else if (i->isBaseInitializer()) io["base"] = typeId(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer()) io["deleg"] = 1;
        io["e"] = ex(i->getInit());
        io["written"] = i->isWritten();
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(fd)) o["dtor"] = 1;
    o["b"] = st(body);
    functions.push_back(std::move(o));
    curFn = saved;
  }

  void addGlobal(const VarDecl *v) {
    if (!inRoot(v->getLocation())) return;
    if (v->getType()->isDependentType()) return;
    auto u = v->isStaticLocal() ? localId(v) : usrOf(v);
    bool def = v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
    if (!def) return;
    if (!seenGlobal.insert(u).second) return;
    Object o = varObj(v);
    o["d"] = u;
    o["f"] = fileOf(v->getLocation());
    o["qn"] = fix(v->getQualifiedNameAsString());
    o["internal"] = v->getFormalLinkage() == Linkage::Internal;
    globals.push_back(std::move(o));
  }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
 public:
  Dumper &d;
  explicit Visitor(Dumper &x) : d(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *f) {
    if (auto md = dyn_cast<CXXMethodDecl>(f))
      if (md->getParent()->isLambda()) return true;  // from LambdaExpr
    d.addFunction(f);
    return true;
  }
  bool VisitVarDecl(VarDecl *v) {
    if (v->hasGlobalStorage() && !v->isStaticLocal()) d.addGlobal(v);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *e) {
    if (d.inRoot(e->getLocation()) && e->isCompleteDefinition()) d.addEnum(e);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *r) {
    if (d.inRoot(r->getLocation()) && r->isCompleteDefinition() && !r->isDependentType() && !r->isLambda())
      d.noteRecord(r);
    return true;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &ctx) override {
    Dumper d(ctx);
    Visitor v(d);
    v.TraverseDecl(ctx.getTranslationUnitDecl());
    Object o;
    o["errors"] = (int64_t)ctx.getDiagnostics().getClient()->getNumErrors();
    o["functions"] = std::move(d.functions);
    o["records"] = std::move(d.records);
    o["enums"] = std::move(d.enums);
    o["globals"] = std::move(d.globals);
    o["types"] = std::move(d.types);
    Array files;
    auto &sm = ctx.getSourceManager();
    for (auto it = sm.fileinfo_begin(); it != sm.fileinfo_end(); ++it) {
      auto n = it->first.getName();
      if (n.starts_with(Root)) files.push_back(n.str());
    }
    o["files"] = std::move(files);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    os << Value(std::move(o));
  }
};

class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Consumer>();
  }
};

}  // namespace

int main(int argc, char **argv) {
  // factdump ROOT SRC OUT flags...
  if (argc < 4) return 2;
  Root = argv[1];
  std::string src = argv[2];
  OutPath = argv[3];
  std::vector<std::string> args;
  for (int i = 4; i < argc; i++) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {src});
  return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
