// cxx2json: mechanical extraction of function bodies from the real C++ sources.
// Parses one translation unit with clang and writes, as JSON, every function
// definition located under the given source prefix that is reachable (by static
// references) from functions whose qualified name matches a root pattern.
// Nothing is rewritten: the output is the type-checked AST, templates instantiated.
//
// usage: cxx2json OUT.json PREFIX[:PREFIX..] ROOTS(comma separated regexes) FILE -- clang-args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <regex>
#include <set>

using namespace clang;
namespace js = llvm::json;

static std::string              outPath;
static std::vector<std::string> prefixes;
static std::vector<std::regex>  roots;

namespace {

struct Extract {
  ASTContext             &C;
  SourceManager          &SM;
  std::map<const void *, int> ids;
  js::Array               types;
  std::map<std::string, int>  typeIdx;
  std::map<const Type *, int> cache[2];
  std::deque<const FunctionDecl *> work;
  std::set<const FunctionDecl *>   queued;
  std::set<const CXXRecordDecl *>  recQueued;
  std::deque<const CXXRecordDecl *> recWork;

  explicit Extract(ASTContext &C)
      : C(C), SM(C.getSourceManager()) {}

  int id(const void *p)
  {
    auto it = ids.find(p);
    if (it != ids.end())
      return it->second;
    int n  = ids.size() + 1;
    ids[p] = n;
    return n;
  }

  std::string qn(const NamedDecl *D)
  {
    std::string              s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy           pp(C.getLangOpts());
    pp.SuppressInlineNamespace = true;
    D->printQualifiedName(os, pp);
    os.flush();
    return s;
  }

  bool inPrefix(SourceLocation L)
  {
    L = SM.getExpansionLoc(L);
    auto f = SM.getFilename(L);
    if (f.empty())
      return false;
    for (auto &p : prefixes)
      if (f.starts_with(p))
        return true;
    return false;
  }

  std::string loc(SourceLocation L)
  {
    L      = SM.getExpansionLoc(L);
    auto f = SM.getFilename(L).str();
    return f + ":" + std::to_string(SM.getExpansionLineNumber(L));
  }
  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  // outermost macro name
  std::string macroName(SourceLocation L)
  {
    std::string name;
    if (!L.isMacroID())
      return name;
    while (L.isMacroID()) {
      name = Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str();
      L    = SM.getImmediateMacroCallerLoc(L);
    }
    return name;
  }
  js::Array macroStack(SourceLocation L)
  {
    js::Array a;
    while (L.isMacroID()) {
      a.push_back(Lexer::getImmediateMacroName(L, SM, C.getLangOpts()).str());
      L = SM.getImmediateMacroCallerLoc(L);
    }
    return a;
  }

  js::Value targ(const TemplateArgument &A)
  {
    switch (A.getKind()) {
    case TemplateArgument::Type:
      return js::Object{{"t", type(A.getAsType())}};
    case TemplateArgument::Integral:
      return js::Object{{"v", llvm::toString(A.getAsIntegral(), 10)}};
    case TemplateArgument::Pack: {
      js::Array a;
      for (auto &e : A.getPackAsArray())
        a.push_back(targ(e));
      return js::Object{{"p", std::move(a)}};
    }
    default:
      return js::Object{{"o", 1}};
    }
  }

  int type(QualType Q)
  {
    Q = Q.getCanonicalType();
    bool cst = Q.isConstQualified();
    const Type *T = Q.getTypePtr();
    auto it = cache[cst].find(T);
    if (it != cache[cst].end())
      return it->second;
    js::Object o;
    if (cst)
      o["c"] = 1;
    if (auto *B = dyn_cast<BuiltinType>(T)) {
      o["k"] = "b";
      o["n"] = B->getName(PrintingPolicy(C.getLangOpts())).str();
      if (B->isInteger()) {
        o["w"] = (int) C.getTypeSize(T);
        o["s"] = B->isSignedInteger() ? 1 : 0;
      }
    } else if (auto *R = dyn_cast<RecordType>(T)) {
      // reserve to break recursion
      auto *D = R->getDecl();
      o["k"]  = "r";
      o["n"]  = qn(D);
      if (auto *CR = dyn_cast<CXXRecordDecl>(D)) {
        if (CR->isLambda()) {
          o["lam"] = id(CR);
        }
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(CR)) {
          js::Array a;
          for (auto &ta : S->getTemplateArgs().asArray())
            a.push_back(targ(ta));
          o["a"] = std::move(a);
        }
        if (auto *O = dyn_cast<CXXRecordDecl>(CR->getDeclContext())) {
          if (isa<ClassTemplateSpecializationDecl>(O))
            o["in"] = type(QualType(O->getTypeForDecl(), 0));
        }
        o["rid"] = id(CR->getCanonicalDecl());
        if (inPrefix(CR->getLocation()))
          queueRec(CR);
      }
    } else if (auto *P = dyn_cast<PointerType>(T)) {
      o["k"] = "p";
      o["t"] = type(P->getPointeeType());
    } else if (auto *P = dyn_cast<LValueReferenceType>(T)) {
      o["k"] = "l";
      o["t"] = type(P->getPointeeType());
    } else if (auto *P = dyn_cast<RValueReferenceType>(T)) {
      o["k"] = "x";
      o["t"] = type(P->getPointeeType());
    } else if (auto *P = dyn_cast<ConstantArrayType>(T)) {
      o["k"] = "a";
      o["t"] = type(P->getElementType());
      o["sz"] = (int64_t) P->getSize().getZExtValue();
    } else if (auto *P = dyn_cast<EnumType>(T)) {
      o["k"] = "e";
      o["n"] = qn(P->getDecl());
    } else if (auto *P = dyn_cast<FunctionProtoType>(T)) {
      o["k"] = "f";
      o["r"] = type(P->getReturnType());
    } else {
      o["k"] = "o";
      o["n"] = Q.getAsString();
    }
    int n = types.size();
    types.push_back(std::move(o));
    cache[cst][T] = n;
    return n;
  }

  void queueRec(const CXXRecordDecl *R)
  {
    R = R->getDefinition();
    if (!R)
      return;
    if (recQueued.insert(R).second)
      recWork.push_back(R);
  }

  void queueFn(const FunctionDecl *F)
  {
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D)) {
      // ctor that is defaulted etc.
      return;
    }
    if (!inPrefix(D->getLocation()))
      return;
    if (queued.insert(D).second)
      work.push_back(D);
  }

  js::Value fnRef(const FunctionDecl *F)
  {
    const FunctionDecl *D = nullptr;
    js::Object o;
    if (F->hasBody(D)) {
    } else {
      D = F->getCanonicalDecl();
    }
    bool userBody = F->hasBody(D) && inPrefix(D->getLocation()) && !D->isDefaulted();
    o["id"] = id(D);
    o["qn"] = qn(F);
    if (userBody) {
      o["b"] = 1;
      queueFn(D);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual())
        o["virt"] = 1;
      if (M->isStatic())
        o["static"] = 1;
      else if (!isa<CXXConstructorDecl>(M))
        o["cls"] = type(QualType(M->getParent()->getTypeForDecl(), 0));
      if (M->getParent()->isLambda())
        o["lam"] = id(M->getParent());
    }
    if (F->isDefaulted() || F->isImplicit())
      o["def"] = 1;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      js::Array a;
      for (auto &ta : TA->asArray())
        a.push_back(targ(ta));
      o["ta"] = std::move(a);
    }
    js::Array ps;
    for (auto *p : F->parameters())
      ps.push_back(type(p->getType()));
    o["pt"] = std::move(ps);
    o["rt"] = type(F->getReturnType());
    return o;
  }

  static const Expr *strip(const Expr *E)
  {
    while (true) {
      if (auto *X = dyn_cast<ParenExpr>(E)) {
        E = X->getSubExpr();
      } else if (auto *X = dyn_cast<FullExpr>(E)) {
        E = X->getSubExpr();
      } else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) {
        E = X->getSubExpr();
      } else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) {
        E = X->getSubExpr();
      } else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) {
        E = X->getReplacement();
      } else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) {
        E = X->getExpr();
      } else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) {
        E = X->getExpr();
      } else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
        E = X->getSubExpr();
      } else
        break;
    }
    return E;
  }

  void constVal(js::Object &o, const Expr *E)
  {
    if (E->isValueDependent() || E->isTypeDependent())
      return;
    QualType T = E->getType();
    if (!(T->isArithmeticType() || T->isEnumeralType()))
      return;
    Expr::EvalResult R;
    if (!E->EvaluateAsRValue(R, C) || R.HasSideEffects)
      return;
    if (R.Val.isInt())
      o["cv"] = llvm::toString(R.Val.getInt(), 10);
    else if (R.Val.isFloat()) {
      // exact hexadecimal rendering
      char buf[64];
      double d = R.Val.getFloat().convertToDouble();
      snprintf(buf, sizeof buf, "%a", d);
      o["cf"] = std::string(buf);
    }
  }

  js::Array exprs(llvm::ArrayRef<const Expr *> a)
  {
    js::Array r;
    for (auto *e : a)
      r.push_back(expr(e));
    return r;
  }

  js::Value expr(const Expr *E0)
  {
    if (!E0)
      return nullptr;
    // remember default argument marker
    const Expr *E = strip(E0);
    js::Object  o;
    auto        fin = [&](const char *k) -> js::Value {
      o["k"] = k;
      if (!o.get("t"))
        o["t"] = type(E->getType());
      if (E->isLValue())
        o["lv"] = 1;
      else if (E->isXValue())
        o["lv"] = 2;
      o["ln"] = line(E->getExprLoc());
      return js::Value(std::move(o));
    };
    if (isa<CXXDefaultArgExpr>(E0))
      o["defarg"] = 1;
    if (auto *X = dyn_cast<IntegerLiteral>(E)) {
      o["v"] = llvm::toString(X->getValue(), 10, X->getType()->isSignedIntegerType());
      return fin("int");
    }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o["v"] = X->getValue();
      return fin("bool");
    }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) {
      o["v"] = std::to_string(X->getValue());
      return fin("int");
    }
    if (isa<FloatingLiteral>(E)) {
      constVal(o, E);
      return fin("float");
    }
    if (auto *X = dyn_cast<StringLiteral>(E)) {
      o["v"] = X->getCharByteWidth() == 1 ? X->getString().str() : std::string("?");
      return fin("str");
    }
    if (isa<PredefinedExpr>(E)) {
      o["v"] = "__func__";
      return fin("str");
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
      return fin("null");
    if (isa<CXXThisExpr>(E))
      return fin("this");
    if (auto *X = dyn_cast<DeclRefExpr>(E)) {
      auto *D = X->getDecl();
      o["n"]  = D->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["fn"] = fnRef(F);
        return fin("fnref");
      }
      if (auto *B = dyn_cast<BindingDecl>(D)) {
        o["id"] = id(B);
        if (auto *hv = B->getHoldingVar())
          o["id"] = id(hv);
        return fin("ref");
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["v"] = llvm::toString(EC->getInitVal(), 10);
        return fin("int");
      }
      o["id"] = id(D->getCanonicalDecl());
      if (auto *V = dyn_cast<VarDecl>(D)) {
        if (V->hasGlobalStorage()) {
          o["g"] = qn(V);
          constVal(o, E);
        }
        if (isa<ParmVarDecl>(V))
          o["parm"] = 1;
      }
      return fin("ref");
    }
    if (auto *X = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(X->getMemberDecl())) {
        o["n"] = F->getNameAsString();
        o["cls"] = type(QualType(F->getParent()->getTypeForDecl(), 0));
        if (X->isArrow())
          o["arrow"] = 1;
        o["e"] = expr(X->getBase());
        return fin("mem");
      }
      if (auto *V = dyn_cast<VarDecl>(X->getMemberDecl())) {
        o["n"]  = V->getNameAsString();
        o["id"] = id(V->getCanonicalDecl());
        o["g"]  = qn(V);
        constVal(o, E);
        return fin("ref");
      }
      o["n"] = X->getMemberDecl()->getNameAsString();
      if (auto *F = dyn_cast<FunctionDecl>(X->getMemberDecl()))
        o["fn"] = fnRef(F);
      o["e"] = expr(X->getBase());
      return fin("memfn");
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      return call(X, o, fin);
    }
    if (auto *X = dyn_cast<CallExpr>(E))
      return call(X, o, fin);
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["fn"]   = fnRef(X->getConstructor());
      o["cls"]  = type(QualType(X->getConstructor()->getParent()->getTypeForDecl(), 0));
      o["args"] = exprs(llvm::ArrayRef(X->getArgs(), X->getNumArgs()));
      if (X->getConstructor()->isCopyConstructor())
        o["copy"] = 1;
      if (X->getConstructor()->isMoveConstructor())
        o["move"] = 1;
      if (X->getConstructor()->isDefaultConstructor())
        o["dflt"] = 1;
      if (X->isListInitialization())
        o["li"] = 1;
      if (X->requiresZeroInitialization())
        o["zero"] = 1;
      if (X->isStdInitListInitialization())
        o["il"] = 1;
      return fin("ctor");
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["fn"]  = fnRef(X->getConstructor());
      o["cls"] = type(QualType(X->getConstructor()->getParent()->getTypeForDecl(), 0));
      return fin("inhctor");
    }
    if (auto *X = dyn_cast<CastExpr>(E)) {
      auto K = X->getCastKind();
      if (K == CK_NoOp || K == CK_UserDefinedConversion || K == CK_ConstructorConversion) {
        if (isa<ImplicitCastExpr>(E) || isa<CXXFunctionalCastExpr>(E) || isa<CXXStaticCastExpr>(E) || isa<CStyleCastExpr>(E) || isa<CXXConstCastExpr>(E)) {
          if (!(isa<CXXStaticCastExpr>(E) && X->getType()->isReferenceType()))
            return expr(X->getSubExpr());
        }
      }
      o["c"] = std::string(X->getCastKindName());
      o["e"] = expr(X->getSubExpr());
      return fin("cast");
    }
    if (auto *X = dyn_cast<BinaryOperator>(E)) {
      o["op"] = X->getOpcodeStr().str();
      o["l"]  = expr(X->getLHS());
      o["r"]  = expr(X->getRHS());
      if (auto *CA = dyn_cast<CompoundAssignOperator>(X)) {
        o["ct"] = type(CA->getComputationLHSType());
      }
      return fin(X->isCompoundAssignmentOp() ? "cassign" : X->isAssignmentOp() ? "assign" : "bin");
    }
    if (auto *X = dyn_cast<UnaryOperator>(E)) {
      o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix())
        o["post"] = 1;
      o["e"] = expr(X->getSubExpr());
      return fin("un");
    }
    if (auto *X = dyn_cast<AbstractConditionalOperator>(E)) {
      o["cnd"] = expr(X->getCond());
      o["a"]   = expr(X->getTrueExpr());
      o["b"]   = expr(X->getFalseExpr());
      return fin("cond");
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) {
      o["e"] = expr(X->getBase());
      o["i"] = expr(X->getIdx());
      return fin("sub");
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      if (auto *S = X->getSemanticForm())
        X = S;
      o["args"] = exprs(llvm::ArrayRef(X->getInits(), X->getNumInits()));
      if (X->hasArrayFiller())
        o["fill"] = expr(X->getArrayFiller());
      return fin("ilist");
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E))
      return fin("zero");
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      auto *R  = X->getLambdaClass();
      o["lam"] = id(R);
      js::Array caps;
      auto      ci = X->capture_init_begin();
      auto      fi = R->field_begin();
      for (auto &c : X->captures()) {
        js::Object co;
        if (c.capturesThis()) {
          co["this"] = 1;
          if (c.getCaptureKind() == LCK_StarThis)
            co["star"] = 1;
        } else if (c.capturesVariable()) {
          auto *v    = c.getCapturedVar();
          co["id"]   = id(v->getCanonicalDecl());
          co["n"]    = v->getNameAsString();
          co["byref"] = c.getCaptureKind() == LCK_ByRef;
          co["init"] = expr(*ci);
        }
        caps.push_back(std::move(co));
        ++ci;
        ++fi;
      }
      o["caps"] = std::move(caps);
      // non-generic call operator
      if (!X->isGenericLambda()) {
        auto *op = X->getCallOperator();
        o["op"]  = fnRef(op);
        forceQueue(op);
      } else {
        js::Array ops;
        if (auto *FT = R->getDependentLambdaCallOperator()) {
          for (auto *S : FT->specializations()) {
            ops.push_back(fnRef(S));
            forceQueue(S);
          }
        }
        o["ops"] = std::move(ops);
      }
      return fin("lambda");
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      o["ty"]   = type(X->getAllocatedType());
      o["init"] = X->hasInitializer() ? expr(X->getInitializer()) : js::Value(nullptr);
      return fin("new");
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      o["e"] = expr(X->getArgument());
      return fin("delete");
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["e"] = X->getSubExpr() ? expr(X->getSubExpr()) : js::Value(nullptr);
      return fin("throw");
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      constVal(o, E);
      return fin("const");
    }
    if (isa<TypeTraitExpr>(E) || isa<CXXNoexceptExpr>(E) || isa<SizeOfPackExpr>(E)) {
      constVal(o, E);
      return fin("const");
    }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
      if (X->getSourceExpr())
        return expr(X->getSourceExpr());
    }
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E))
      return expr(X->getSemanticForm());
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) {
      o["e"] = expr(X->getCommonExpr());
      return fin("arrcopy");
    }
    o["cls"] = std::string(E->getStmtClassName());
    return fin("unsupported");
  }

  void forceQueue(const FunctionDecl *F)
  {
    const FunctionDecl *D = nullptr;
    if (F->hasBody(D) && queued.insert(D).second)
      work.push_back(D);
  }

  template <class Fin>
  js::Value call(const CallExpr *X, js::Object &o, Fin &fin)
  {
    constVal(o, X);
    std::string m = macroName(X->getBeginLoc());
    if (!m.empty()) {
      o["mac"] = macroStack(X->getBeginLoc());
    }
    if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
      auto *M = MC->getMethodDecl();
      if (M) {
        o["fn"] = fnRef(M);
        auto *me = dyn_cast<MemberExpr>(strip(MC->getCallee()));
        if (me) {
          o["obj"] = expr(me->getBase());
          if (me->isArrow())
            o["arrow"] = 1;
          if (me->hasQualifier())
            o["qual"] = 1;
        }
        o["args"] = exprs(llvm::ArrayRef(X->getArgs(), X->getNumArgs()));
        return fin("mcall");
      }
    }
    if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) {
      auto *F = OC->getDirectCallee();
      if (F) {
        o["fn"] = fnRef(F);
        if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
          o["obj"]  = expr(X->getArg(0));
          o["args"] = exprs(llvm::ArrayRef(X->getArgs() + 1, X->getNumArgs() - 1));
          return fin("mcall");
        }
        o["args"] = exprs(llvm::ArrayRef(X->getArgs(), X->getNumArgs()));
        return fin("call");
      }
    }
    if (auto *F = X->getDirectCallee()) {
      o["fn"] = fnRef(F);
    } else {
      o["callee"] = expr(X->getCallee());
    }
    o["args"] = exprs(llvm::ArrayRef(X->getArgs(), X->getNumArgs()));
    return fin("call");
  }

  js::Value varDecl(const VarDecl *V)
  {
    js::Object o;
    o["k"]  = "var";
    o["id"] = id(V->getCanonicalDecl());
    o["n"]  = V->getNameAsString();
    o["t"]  = type(V->getType());
    o["ln"] = line(V->getLocation());
    if (V->isStaticLocal())
      o["static"] = 1;
    if (V->getInit())
      o["init"] = expr(V->getInit());
    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
      js::Array b;
      for (auto *B : DD->bindings()) {
        js::Object bo;
        bo["n"]  = B->getNameAsString();
        bo["id"] = id(B);
        bo["t"]  = type(B->getType());
        if (auto *hv = B->getHoldingVar()) {
          bo["id"]   = id(hv);
          bo["hold"] = hv->getInit() ? expr(hv->getInit()) : js::Value(nullptr);
          bo["ht"]   = type(hv->getType());
        } else if (B->getBinding()) {
          bo["bind"] = expr(B->getBinding());
        }
        b.push_back(std::move(bo));
      }
      o["binds"] = std::move(b);
    }
    return o;
  }

  js::Value stmt(const Stmt *S)
  {
    if (!S)
      return nullptr;
    js::Object o;
    auto       fin = [&](const char *k) -> js::Value {
      o["k"]  = k;
      o["ln"] = line(S->getBeginLoc());
      return js::Value(std::move(o));
    };
    if (auto *X = dyn_cast<CompoundStmt>(S)) {
      js::Array a;
      for (auto *s : X->body())
        a.push_back(stmt(s));
      o["s"] = std::move(a);
      return fin("block");
    }
    if (auto *X = dyn_cast<DeclStmt>(S)) {
      js::Array a;
      for (auto *d : X->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d))
          a.push_back(varDecl(V));
      }
      o["d"] = std::move(a);
      return fin("decl");
    }
    if (auto *X = dyn_cast<IfStmt>(S)) {
      if (X->isConstexpr()) {
        if (auto nd = X->getNondiscardedCase(C)) {
          js::Array a;
          if (X->getInit())
            a.push_back(stmt(X->getInit()));
          if (*nd)
            a.push_back(stmt(*nd));
          o["s"] = std::move(a);
          return fin("block");
        }
      }
      if (X->getInit())
        o["init"] = stmt(X->getInit());
      if (X->getConditionVariable())
        o["var"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["a"] = stmt(X->getThen());
      o["b"] = stmt(X->getElse());
      {
        auto m = macroName(X->getBeginLoc());
        if (!m.empty())
          o["mac"] = m;
      }
      return fin("if");
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) {
      if (X->getConditionVariable())
        o["var"] = varDecl(X->getConditionVariable());
      o["c"] = expr(X->getCond());
      o["body"] = stmt(X->getBody());
      return fin("while");
    }
    if (auto *X = dyn_cast<DoStmt>(S)) {
      o["c"]    = expr(X->getCond());
      o["body"] = stmt(X->getBody());
      return fin("do");
    }
    if (auto *X = dyn_cast<ForStmt>(S)) {
      o["init"] = stmt(X->getInit());
      if (X->getConditionVariable())
        o["var"] = varDecl(X->getConditionVariable());
      o["c"]    = expr(X->getCond());
      o["inc"]  = expr(X->getInc());
      o["body"] = stmt(X->getBody());
      return fin("for");
    }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
      if (X->getInit())
        o["init"] = stmt(X->getInit());
      o["range"] = expr(X->getRangeInit());
      o["rt"]    = type(X->getRangeInit()->getType());
      o["rvar"]  = stmt(X->getRangeStmt());
      o["begin"] = stmt(X->getBeginStmt());
      o["end"]   = stmt(X->getEndStmt());
      o["c"]     = expr(X->getCond());
      o["inc"]   = expr(X->getInc());
      o["var"]   = varDecl(X->getLoopVariable());
      o["body"]  = stmt(X->getBody());
      return fin("rfor");
    }
    if (auto *X = dyn_cast<ReturnStmt>(S)) {
      o["e"] = expr(X->getRetValue());
      return fin("ret");
    }
    if (isa<BreakStmt>(S))
      return fin("break");
    if (isa<ContinueStmt>(S))
      return fin("cont");
    if (isa<NullStmt>(S))
      return fin("nop");
    if (auto *X = dyn_cast<SwitchStmt>(S)) {
      if (X->getInit())
        o["init"] = stmt(X->getInit());
      o["c"]    = expr(X->getCond());
      o["body"] = stmt(X->getBody());
      return fin("switch");
    }
    if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["v"]   = expr(X->getLHS());
      o["sub"] = stmt(X->getSubStmt());
      return fin("case");
    }
    if (auto *X = dyn_cast<DefaultStmt>(S)) {
      o["sub"] = stmt(X->getSubStmt());
      return fin("default");
    }
    if (auto *X = dyn_cast<CXXTryStmt>(S)) {
      o["body"] = stmt(X->getTryBlock());
      js::Array h;
      for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
        js::Object ho;
        auto      *H = X->getHandler(i);
        if (H->getExceptionDecl())
          ho["var"] = varDecl(H->getExceptionDecl());
        ho["body"] = stmt(H->getHandlerBlock());
        h.push_back(std::move(ho));
      }
      o["h"] = std::move(h);
      return fin("try");
    }
    if (auto *X = dyn_cast<AttributedStmt>(S))
      return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<Expr>(S)) {
      o["e"] = expr(X);
      return fin("expr");
    }
    o["cls"] = std::string(S->getStmtClassName());
    return fin("unsupported");
  }

  js::Value function(const FunctionDecl *F)
  {
    js::Object o;
    o["id"] = id(F);
    o["qn"] = qn(F);
    o["loc"] = loc(F->getLocation());
    o["ret"] = type(F->getReturnType());
    js::Array ps;
    for (auto *p : F->parameters()) {
      js::Object po;
      po["id"] = id(p->getCanonicalDecl());
      po["n"]  = p->getNameAsString();
      po["t"]  = type(p->getType());
      if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
        po["d"] = expr(p->getDefaultArg());
      ps.push_back(std::move(po));
    }
    o["params"] = std::move(ps);
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      js::Array a;
      for (auto &ta : TA->asArray())
        a.push_back(targ(ta));
      o["ta"] = std::move(a);
    }
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = type(QualType(M->getParent()->getTypeForDecl(), 0));
      if (M->isStatic())
        o["static"] = 1;
      if (M->isVirtual())
        o["virt"] = 1;
      if (M->isConst())
        o["const"] = 1;
      if (M->getParent()->isLambda())
        o["lam"] = id(M->getParent());
      js::Array ov;
      std::function<void(const CXXMethodDecl *)> rec = [&](const CXXMethodDecl *m) {
        for (auto *b : m->overridden_methods()) {
          const FunctionDecl *D = nullptr;
          if (!b->hasBody(D))
            D = b->getCanonicalDecl();
          ov.push_back(id(D));
          rec(b);
        }
      };
      rec(M);
      if (!ov.empty())
        o["ovr"] = std::move(ov);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = 1;
      js::Array in;
      for (auto *I : K->inits()) {
        js::Object io;
        if (I->isAnyMemberInitializer())
          io["f"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer())
          io["base"] = type(QualType(I->getBaseClass(), 0));
        else
          io["deleg"] = 1;
        io["e"] = expr(I->getInit());
        in.push_back(std::move(io));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(F))
      o["dtor"] = 1;
    o["body"] = stmt(F->getBody());
    return o;
  }

  js::Value record(const CXXRecordDecl *R)
  {
    js::Object o;
    o["rid"] = id(R->getCanonicalDecl());
    o["qn"]  = qn(R);
    o["t"]   = type(QualType(R->getTypeForDecl(), 0));
    js::Array b;
    for (auto &x : R->bases())
      b.push_back(type(x.getType()));
    o["bases"] = std::move(b);
    js::Array f;
    for (auto *x : R->fields()) {
      js::Object fo;
      fo["n"] = x->getNameAsString();
      fo["t"] = type(x->getType());
      if (x->hasInClassInitializer() && x->getInClassInitializer())
        fo["init"] = expr(x->getInClassInitializer());
      f.push_back(std::move(fo));
    }
    o["fields"] = std::move(f);
    if (auto *D = R->getDestructor()) {
      const FunctionDecl *BD = nullptr;
      if (D->hasBody(BD) && !D->isDefaulted() && inPrefix(BD->getLocation())) {
        o["dtor"] = fnRef(BD);
      }
    }
    return o;
  }
};

struct Finder : RecursiveASTVisitor<Finder> {
  Extract &X;
  explicit Finder(Extract &X)
      : X(X) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F)
  {
    if (!F->isThisDeclarationADefinition() || F->isDependentContext() || F->isDefaulted())
      return true;
    if (F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplate)
      return true;
    if (!X.inPrefix(F->getLocation()))
      return true;
    std::string q = X.qn(F);
    for (auto &r : roots)
      if (std::regex_match(q, r)) {
        X.queueFn(F);
        break;
      }
    return true;
  }
};

struct Consumer : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override
  {
    if (C.getDiagnostics().hasErrorOccurred())
      return;
    Extract X(C);
    Finder(X).TraverseDecl(C.getTranslationUnitDecl());
    js::Array fns, recs;
    while (!X.work.empty() || !X.recWork.empty()) {
      while (!X.work.empty()) {
        auto *F = X.work.front();
        X.work.pop_front();
        fns.push_back(X.function(F));
      }
      while (!X.recWork.empty()) {
        auto *R = X.recWork.front();
        X.recWork.pop_front();
        if (R->isDependentContext() || R->isLambda())
          continue;
        recs.push_back(X.record(R));
      }
    }
    js::Object top;
    top["functions"] = std::move(fns);
    top["records"]   = std::move(recs);
    top["types"]     = std::move(X.types);
    std::error_code      ec;
    llvm::raw_fd_ostream os(outPath, ec);
    os << js::Value(std::move(top));
  }
};

struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override
  {
    return std::make_unique<Consumer>();
  }
};
} // namespace

int main(int argc, const char **argv)
{
  if (argc < 6) {
    llvm::errs() << "usage\n";
    return 2;
  }
  outPath = argv[1];
  {
    std::string s = argv[2], cur;
    for (char c : s + ":") {
      if (c == ':') {
        if (!cur.empty())
          prefixes.push_back(cur);
        cur.clear();
      } else
        cur += c;
    }
  }
  {
    std::string s = argv[3], cur;
    for (char c : s + ",") {
      if (c == ',') {
        if (!cur.empty())
          roots.emplace_back(cur);
        cur.clear();
      } else
        cur += c;
    }
  }
  std::string              file = argv[4];
  std::vector<std::string> args;
  for (int i = 5; i < argc; ++i)
    if (std::string(argv[i]) != "--")
      args.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase db(".", args);
  clang::tooling::ClangTool                tool(db, {file});
  return tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
}
