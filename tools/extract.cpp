// AST fact extractor: parses one translation unit with clang and writes the
// type-checked program (resolved callees, types, template instantiations) of
// every function whose source is under a chosen root as compact JSON.
#include <set>
#include <unordered_map>
#include "clang/AST/ASTContext.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> Roots;
static std::string OutPath;

namespace {
struct Dumper {
  ASTContext& C;
  SourceManager& SM;
  PrintingPolicy PP;
  ASTNameGenerator NG;
  Array Types, Fns, Funcs, Classes, Enums, Uninst, GVars;
  std::unordered_map<std::string, int> TypeIds;
  std::unordered_map<const FunctionDecl*, int> FnIds;
  std::unordered_map<const Decl*, int> VarIds;
  std::set<const FunctionDecl*> Done;
  std::set<std::string> DoneKeys;
  std::set<const CXXRecordDecl*> DoneC;
  std::vector<const FunctionDecl*> Pending;
  int LambdaDepth = 0;

  explicit Dumper(ASTContext& c)
      : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), NG(c) {
    PP.SuppressTagKeyword = true;
    PP.SuppressUnwrittenScope = true;
    PP.SuppressInlineNamespace = true;
    PP.Bool = true;
    PP.PrintCanonicalTypes = true;
    PP.SuppressDefaultTemplateArgs = true;
    PP.AnonymousTagLocations = false;
  }
  std::string file(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto P = SM.getPresumedLoc(L, false);
    if (P.isInvalid()) return "";
    return P.getFilename();
  }
  int line(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    return L.isValid() ? (int)SM.getExpansionLineNumber(L) : 0;
  }
  bool inRoot(SourceLocation L) {
    std::string f = file(L);
    for (auto& r : Roots)
      if (f.rfind(r, 0) == 0) return true;
    return false;
  }
  int type(QualType T) {
    if (T.isNull()) return -1;
    std::string s = T.getCanonicalType().getAsString(PP);
    auto it = TypeIds.find(s);
    if (it != TypeIds.end()) return it->second;
    int id = Types.size();
    TypeIds[s] = id;
    Types.push_back(s);
    return id;
  }
  int var(const Decl* D) {
    D = D->getCanonicalDecl();
    auto it = VarIds.find(D);
    if (it != VarIds.end()) return it->second;
    int id = VarIds.size();
    VarIds[D] = id;
    return id;
  }
  std::string key(const FunctionDecl* F) {
    if (auto* M = dyn_cast<CXXMethodDecl>(F))
      if (M->getParent()->isLambda())
        return "lambda@" + file(M->getBeginLoc()) + ":" +
            std::to_string(line(M->getBeginLoc())) + ":" +
            std::to_string(SM.getExpansionColumnNumber(M->getBeginLoc())) + "#" +
            M->getType().getAsString(PP);
    std::string s;
    if (!F->isDependentContext() && !F->getType()->isDependentType()) {
      if (isa<CXXConstructorDecl>(F)) s = "C1:";
      if (isa<CXXDestructorDecl>(F)) s = "D1:";
      s += NG.getName(F);
    } else {
      s = "dep:" + F->getQualifiedNameAsString() + "@" + std::to_string(line(F->getLocation()));
    }
    return s;
  }
  std::string className(const CXXRecordDecl* R) {
    if (!R) return "";
    return QualType(R->getTypeForDecl(), 0).getCanonicalType().getAsString(PP);
  }
  std::string qname(const NamedDecl* D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy P2 = PP;
    D->printQualifiedName(os, P2);
    return os.str();
  }
  int fn(const FunctionDecl* F) {
    auto it = FnIds.find(F);
    if (it != FnIds.end()) return it->second;
    int id = Fns.size();
    FnIds[F] = id;
    Fns.push_back(nullptr);
    Object o;
    o["k"] = key(F);
    o["q"] = qname(F);
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["c"] = className(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->getParent()->isLambda()) o["lam"] = true;
      if (M->isDefaulted()) o["def"] = true;
      if (isa<CXXConversionDecl>(M)) o["conv"] = type(F->getReturnType());
    }
    if (auto* CD = dyn_cast<CXXConstructorDecl>(F))
      o["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    if (F->isVariadic()) o["variadic"] = true;
    Array ps;
    for (auto* P : F->parameters()) ps.push_back(type(P->getType()));
    o["p"] = std::move(ps);
    o["r"] = type(F->getReturnType());
    if (inRoot(F->getLocation())) o["repo"] = true;
    const FunctionDecl* Def = nullptr;
    if (F->hasBody(Def) && Def && inRoot(Def->getLocation())) Pending.push_back(Def);
    Fns[id] = std::move(o);
    return id;
  }
  Array node(const char* k, SourceLocation L) {
    Array a;
    a.push_back(k);
    a.push_back(line(L));
    return a;
  }
  template <class R> Array list(R&& r) {
    Array a;
    for (auto* e : r) a.push_back(E(e));
    return a;
  }
  static const Expr* strip(const Expr* e) {
    for (;;) {
      if (auto* x = dyn_cast<ParenExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ExprWithCleanups>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<ConstantExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) { e = x->getReplacement(); continue; }
      if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) { e = x->getExpr(); continue; }
      if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { e = x->getSubExpr(); continue; }
      if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) { e = x->getSemanticForm(); continue; }
      if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
        switch (x->getCastKind()) {
          case CK_LValueToRValue: case CK_NoOp: case CK_FunctionToPointerDecay:
          case CK_ArrayToPointerDecay: case CK_UncheckedDerivedToBase:
          case CK_DerivedToBase: case CK_ConstructorConversion:
          case CK_UserDefinedConversion: case CK_BuiltinFnToFnPtr:
            e = x->getSubExpr(); continue;
          default: break;
        }
      }
      return e;
    }
  }
  Value callee(const FunctionDecl* F) { return F ? Value(fn(F)) : Value(-1); }

  Value E(const Expr* e0) {
    if (!e0) return nullptr;
    const Expr* e = strip(e0);
    SourceLocation L = e->getBeginLoc();
    // compile-time integral constants
    if (!e->isValueDependent() && !e->isTypeDependent() && e->isPRValue() &&
        e->getType()->isIntegralOrEnumerationType() && !isa<InitListExpr>(e)) {
      Expr::EvalResult R;
      if (!e->HasSideEffects(C) && e->EvaluateAsInt(R, C)) {
        llvm::SmallString<24> s;
        R.Val.getInt().toString(s, 10);
        Array a;
        if (e->getType()->isBooleanType()) {
          a = node("bool", L);
          a.push_back(R.Val.getInt() != 0);
          return a;
        }
        if (auto* DR = dyn_cast<DeclRefExpr>(e))
          if (auto* EC = dyn_cast<EnumConstantDecl>(DR->getDecl())) {
            a = node("enum", L);
            a.push_back(s.str().str());
            a.push_back(type(e->getType()));
            a.push_back(EC->getNameAsString());
            return a;
          }
        a = node("int", L);
        a.push_back(s.str().str());
        a.push_back(type(e->getType()));
        return a;
      }
    }
    if (auto* x = dyn_cast<IntegerLiteral>(e)) {
      Array a = node("int", L); llvm::SmallString<24> s; x->getValue().toString(s, 10, false);
      a.push_back(s.str().str()); a.push_back(type(e->getType())); return a;
    }
    if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { Array a = node("bool", L); a.push_back(x->getValue()); return a; }
    if (auto* x = dyn_cast<StringLiteral>(e)) {
      Array a = node("str", L);
      std::string s = x->getCharByteWidth() == 1 ? x->getString().str() : "?";
      a.push_back(json::isUTF8(s) ? s : json::fixUTF8(s)); return a; }
    if (auto* x = dyn_cast<FloatingLiteral>(e)) { Array a = node("flt", L); a.push_back(x->getValueAsApproximateDouble()); return a; }
    if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) return node("null", L);
    if (isa<CXXThisExpr>(e)) return node("this", L);
    if (auto* x = dyn_cast<DeclRefExpr>(e)) {
      const ValueDecl* D = x->getDecl();
      if (auto* F = dyn_cast<FunctionDecl>(D)) { Array a = node("fn", L); a.push_back(fn(F)); return a; }
      if (auto* V = dyn_cast<VarDecl>(D)) {
        if (V->isLocalVarDeclOrParm()) {
          Array a = node("var", L); a.push_back(var(V)); a.push_back(V->getNameAsString()); a.push_back(type(V->getType())); return a;
        }
        gvar(V);
        Array a = node("gvar", L); a.push_back(qname(V)); a.push_back(type(V->getType())); return a;
      }
      if (auto* B = dyn_cast<BindingDecl>(D)) {
        Array a = node("var", L); a.push_back(var(B)); a.push_back(B->getNameAsString()); a.push_back(type(B->getType())); return a;
      }
      Array a = node("unk", L); a.push_back(std::string("DeclRef:") + D->getDeclKindName()); return a;
    }
    if (auto* x = dyn_cast<MemberExpr>(e)) {
      auto* M = x->getMemberDecl();
      if (auto* V = dyn_cast<VarDecl>(M)) { gvar(V); Array a = node("gvar", L); a.push_back(qname(V)); a.push_back(type(V->getType())); return a; }
      Value b = E(x->getBase());
      if (x->isArrow() && !isa<CXXThisExpr>(strip(x->getBase()))) { Array d = node("deref", L); d.push_back(std::move(b)); b = std::move(d); }
      if (auto* F = dyn_cast<FieldDecl>(M)) {
        Array a = node("mem", x->getMemberLoc()); a.push_back(std::move(b)); a.push_back(F->getNameAsString()); a.push_back(type(F->getType()));
        a.push_back(className(dyn_cast<CXXRecordDecl>(F->getParent()))); return a;
      }
      if (auto* F = dyn_cast<FunctionDecl>(M)) { Array a = node("mfn", L); a.push_back(std::move(b)); a.push_back(fn(F)); return a; }
      Array a = node("unk", L); a.push_back("Member"); return a;
    }
    if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
      Array a = node("op", x->getOperatorLoc());
      a.push_back(getOperatorSpelling(x->getOperator()));
      a.push_back(list(x->arguments()));
      a.push_back(callee(x->getDirectCallee()));
      a.push_back(type(e->getType()));
      a.push_back(x->isGLValue());
      return a;
    }
    if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
      auto* M = x->getMethodDecl();
      const Expr* cal = x->getCallee()->IgnoreParens();
      auto* ME = dyn_cast<MemberExpr>(cal);
      if (!M || !ME) { Array a = node("icall", L); a.push_back(E(x->getCallee())); a.push_back(list(x->arguments())); a.push_back(type(e->getType())); return a; }
      Value b = E(ME->getBase());
      if (ME->isArrow() && !isa<CXXThisExpr>(strip(ME->getBase()))) { Array d = node("deref", L); d.push_back(std::move(b)); b = std::move(d); }
      Array a = node("mcall", ME->getMemberLoc());
      a.push_back(std::move(b)); a.push_back(callee(M)); a.push_back(list(x->arguments())); a.push_back(type(e->getType()));
      // explicit qualification (Base::f()) disables virtual dispatch
      a.push_back(ME->hasQualifier());
      a.push_back(type(ME->getBase()->getType()));
      return a;
    }
    if (auto* x = dyn_cast<CallExpr>(e)) {
      if (auto* F = x->getDirectCallee()) {
        Array a = node("call", L); a.push_back(callee(F)); a.push_back(list(x->arguments())); a.push_back(type(e->getType())); return a;
      }
      Array a = node("icall", L); a.push_back(E(x->getCallee())); a.push_back(list(x->arguments())); a.push_back(type(e->getType())); return a;
    }
    if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
      Array a = node("ctor", L);
      a.push_back(type(e->getType())); a.push_back(callee(x->getConstructor())); a.push_back(list(x->arguments()));
      a.push_back(x->isListInitialization() ? 1 : 0);
      return a;
    }
    if (auto* x = dyn_cast<InitListExpr>(e)) {
      if (auto* s = x->getSemanticForm()) x = s;
      if (x->isTransparent() && x->getNumInits() == 1) return E(x->getInit(0));
      Array a = node("ilist", L); a.push_back(list(x->inits())); a.push_back(type(e->getType())); return a;
    }
    if (auto* x = dyn_cast<LambdaExpr>(e)) return lambda(x);
    if (auto* x = dyn_cast<UnaryOperator>(e)) {
      if (x->getOpcode() == UO_AddrOf) { Array a = node("addr", L); a.push_back(E(x->getSubExpr())); return a; }
      if (x->getOpcode() == UO_Deref) { Array a = node("deref", L); a.push_back(E(x->getSubExpr())); return a; }
      if (x->getOpcode() == UO_Extension) return E(x->getSubExpr());
      Array a = node("un", L);
      std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
      if (x->isIncrementDecrementOp() && x->isPostfix()) op = "p" + op;
      a.push_back(op); a.push_back(E(x->getSubExpr())); a.push_back(type(e->getType())); return a;
    }
    if (auto* x = dyn_cast<BinaryOperator>(e)) {
      Array a = node(x->isAssignmentOp() ? "asg" : x->getOpcode() == BO_Comma ? "comma" : "bin", x->getOperatorLoc());
      a.push_back(x->getOpcodeStr().str()); a.push_back(E(x->getLHS())); a.push_back(E(x->getRHS())); a.push_back(type(e->getType()));
      if (auto* ca = dyn_cast<CompoundAssignOperator>(x)) a.push_back(type(ca->getComputationResultType()));
      return a;
    }
    if (auto* x = dyn_cast<ConditionalOperator>(e)) {
      Array a = node("cond", L); a.push_back(E(x->getCond())); a.push_back(E(x->getTrueExpr())); a.push_back(E(x->getFalseExpr())); a.push_back(type(e->getType())); return a;
    }
    if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
      Array a = node("idx", L); a.push_back(E(x->getBase())); a.push_back(E(x->getIdx())); a.push_back(type(e->getType())); return a;
    }
    if (auto* x = dyn_cast<CXXThrowExpr>(e)) { Array a = node("throw", L); a.push_back(E(x->getSubExpr())); return a; }
    if (auto* x = dyn_cast<CXXNewExpr>(e)) {
      Array a = node("new", L); a.push_back(type(x->getAllocatedType())); a.push_back(E(x->getInitializer()));
      a.push_back(x->isArray() && x->getArraySize() ? E(*x->getArraySize()) : Value(nullptr)); return a;
    }
    if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { Array a = node("delete", L); a.push_back(E(x->getArgument())); return a; }
    if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) { Array a = node("zero", L); a.push_back(type(e->getType())); return a; }
    if (auto* x = dyn_cast<CastExpr>(e)) {
      switch (x->getCastKind()) {
        case CK_NoOp: case CK_LValueToRValue: case CK_ConstructorConversion: case CK_UserDefinedConversion:
        case CK_UncheckedDerivedToBase: case CK_DerivedToBase: case CK_ArrayToPointerDecay: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
          return E(x->getSubExpr());
        default: break;
      }
      Array a = node("cast", L); a.push_back(x->getCastKindName()); a.push_back(E(x->getSubExpr())); a.push_back(type(e->getType())); return a;
    }
    if (auto* x = dyn_cast<OpaqueValueExpr>(e)) if (x->getSourceExpr()) return E(x->getSourceExpr());
    if (auto* x = dyn_cast<StmtExpr>(e)) { Array a = node("stmtexpr", L); a.push_back(S(x->getSubStmt())); return a; }
    Array a = node("unk", L); a.push_back(e->getStmtClassName()); return a;
  }
  std::set<const VarDecl*> DoneG;
  void gvar(const VarDecl* V) {
    const VarDecl* D = nullptr;
    const Expr* I = V->getAnyInitializer(D);
    if (!D) D = V;
    if (!DoneG.insert(D->getCanonicalDecl()).second) return;
    if (!inRoot(D->getLocation())) return;
    Object o;
    o["q"] = qname(D); o["t"] = type(D->getType()); o["file"] = file(D->getLocation()); o["line"] = line(D->getLocation());
    o["init"] = (I && !I->isValueDependent()) ? E(I) : Value(nullptr);
    GVars.push_back(std::move(o));
  }
  Value lambda(const LambdaExpr* x) {
    Array a = node("lambda", x->getBeginLoc());
    Array caps;
    auto ii = x->capture_init_begin();
    for (auto& c : x->captures()) {
      Array cc;
      if (c.capturesThis()) { cc.push_back("this"); }
      else if (c.capturesVariable()) {
        cc.push_back(c.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
        cc.push_back(var(c.getCapturedVar()));
        cc.push_back(c.getCapturedVar()->getNameAsString());
        bool initcap = isa<VarDecl>(c.getCapturedVar()) && cast<VarDecl>(c.getCapturedVar())->isInitCapture();
        cc.push_back(initcap ? E(*ii) : Value(nullptr));
      }
      ++ii;
      caps.push_back(std::move(cc));
    }
    a.push_back(std::move(caps));
    const CXXMethodDecl* M = x->getCallOperator();
    const Stmt* body = x->getBody();
    if (auto* FT = M->getDescribedFunctionTemplate()) {
      const CXXMethodDecl* best = nullptr; int n = 0;
      for (auto* s : FT->specializations()) if (s->hasBody()) { best = cast<CXXMethodDecl>(s); n++; }
      if (best) { M = best; body = best->getBody(); }
    }
    Array ps;
    for (auto* P : M->parameters()) ps.push_back(param(P));
    a.push_back(std::move(ps));
    a.push_back(M->isDependentContext() && M->getDescribedFunctionTemplate() ? S(nullptr) : S(body));
    a.push_back(key(M));
    return a;
  }
  Value param(const ParmVarDecl* P) {
    Array p; p.push_back(var(P)); p.push_back(P->getNameAsString()); p.push_back(type(P->getType())); return p;
  }
  Value decl(const VarDecl* V) {
    Array d;
    d.push_back(var(V)); d.push_back(V->getNameAsString()); d.push_back(type(V->getType()));
    d.push_back(V->getInit() ? E(V->getInit()) : Value(nullptr));
    d.push_back(V->isStaticLocal() ? 1 : 0);
    if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
      Array bs;
      for (auto* B : DD->bindings()) { Array b; b.push_back(var(B)); b.push_back(B->getNameAsString()); bs.push_back(std::move(b)); }
      d.push_back(std::move(bs));
    }
    return d;
  }
  Value S(const Stmt* s) {
    if (!s) return nullptr;
    SourceLocation L = s->getBeginLoc();
    if (auto* x = dyn_cast<CompoundStmt>(s)) { Array a = node("blk", L); Array b; for (auto* c : x->body()) b.push_back(S(c)); a.push_back(std::move(b)); return a; }
    if (auto* x = dyn_cast<DeclStmt>(s)) {
      Array a = node("decl", L); Array ds;
      for (auto* D : x->decls()) if (auto* V = dyn_cast<VarDecl>(D)) ds.push_back(decl(V));
      a.push_back(std::move(ds)); return a;
    }
    if (auto* x = dyn_cast<ReturnStmt>(s)) { Array a = node("ret", L); a.push_back(E(x->getRetValue())); return a; }
    if (auto* x = dyn_cast<IfStmt>(s)) {
      Array a = node("if", L);
      a.push_back(S(x->getInit()));
      a.push_back(x->getConditionVariable() ? decl(x->getConditionVariable()) : Value(nullptr));
      a.push_back(E(x->getCond())); a.push_back(S(x->getThen())); a.push_back(S(x->getElse())); return a;
    }
    if (auto* x = dyn_cast<ForStmt>(s)) {
      Array a = node("for", L); a.push_back(S(x->getInit())); a.push_back(E(x->getCond())); a.push_back(x->getInc() ? E(x->getInc()) : Value(nullptr)); a.push_back(S(x->getBody())); return a;
    }
    if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
      Array a = node("rfor", L); a.push_back(decl(x->getLoopVariable())); a.push_back(E(x->getRangeInit())); a.push_back(S(x->getBody())); a.push_back(S(x->getInit())); return a;
    }
    if (auto* x = dyn_cast<WhileStmt>(s)) { Array a = node("while", L); a.push_back(E(x->getCond())); a.push_back(S(x->getBody()));
      a.push_back(x->getConditionVariable() ? decl(x->getConditionVariable()) : Value(nullptr)); return a; }
    if (auto* x = dyn_cast<DoStmt>(s)) { Array a = node("do", L); a.push_back(S(x->getBody())); a.push_back(E(x->getCond())); return a; }
    if (isa<BreakStmt>(s)) return node("break", L);
    if (isa<ContinueStmt>(s)) return node("cont", L);
    if (isa<NullStmt>(s)) return nullptr;
    if (auto* x = dyn_cast<SwitchStmt>(s)) { Array a = node("switch", L); a.push_back(E(x->getCond())); a.push_back(S(x->getBody())); a.push_back(S(x->getInit())); return a; }
    if (auto* x = dyn_cast<CaseStmt>(s)) { Array a = node("case", L); a.push_back(E(x->getLHS())); a.push_back(S(x->getSubStmt())); return a; }
    if (auto* x = dyn_cast<DefaultStmt>(s)) { Array a = node("default", L); a.push_back(S(x->getSubStmt())); return a; }
    if (auto* x = dyn_cast<CXXTryStmt>(s)) {
      Array a = node("try", L); a.push_back(S(x->getTryBlock())); Array hs;
      for (unsigned i = 0; i < x->getNumHandlers(); i++) {
        auto* h = x->getHandler(i); Array hh; hh.push_back(h->getExceptionDecl() ? decl(h->getExceptionDecl()) : Value(nullptr)); hh.push_back(S(h->getHandlerBlock())); hs.push_back(std::move(hh)); }
      a.push_back(std::move(hs)); return a;
    }
    if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
    if (auto* x = dyn_cast<Expr>(s)) { Array a = node("expr", L); a.push_back(E(x)); return a; }
    if (isa<GotoStmt>(s) || isa<LabelStmt>(s) || isa<GCCAsmStmt>(s)) { Array a = node("sunk", L); a.push_back(s->getStmtClassName()); return a; }
    Array a = node("sunk", L); a.push_back(s->getStmtClassName()); return a;
  }
  void func(const FunctionDecl* F) {
    if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
    if (!Done.insert(F).second) return;
    if (!inRoot(F->getLocation())) return;
    if (F->isDependentContext()) {
      Object o; o["q"] = qname(F); o["file"] = file(F->getLocation()); o["line"] = line(F->getLocation()); Uninst.push_back(std::move(o)); return;
    }
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return;
    if (!F->getBody()) return;
    std::string k = key(F);
    if (!DoneKeys.insert(k).second) return;
    Object o;
    o["fn"] = fn(F); o["k"] = k; o["q"] = qname(F); o["file"] = file(F->getLocation()); o["line"] = line(F->getLocation());
    if (F->isImplicit()) o["implicit"] = true;
    if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
      o["c"] = className(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
      Array ov; for (auto* b : M->overridden_methods()) ov.push_back(key(b)); if (!ov.empty()) o["ov"] = std::move(ov);
    }
    o["pname"] = F->getNameAsString();
    if (F->getTemplateSpecializationArgs()) {
      std::string s; llvm::raw_string_ostream os(s);
      printTemplateArgumentList(os, F->getTemplateSpecializationArgs()->asArray(), PP); o["targs"] = os.str();
    }
    if (auto* P = F->getTemplateInstantiationPattern()) { o["pat"] = file(P->getLocation()) + ":" + std::to_string(line(P->getLocation())); }
    Array ps; for (auto* P : F->parameters()) ps.push_back(param(P)); o["p"] = std::move(ps);
    o["r"] = type(F->getReturnType());
    if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = CD->isCopyConstructor() ? "copy" : CD->isMoveConstructor() ? "move" : CD->isDefaultConstructor() ? "default" : "other";
      Array is;
      for (auto* I : CD->inits()) {
        Array i;
        if (I->isMemberInitializer()) { i.push_back("m"); i.push_back(I->getMember()->getNameAsString()); }
        else if (I->isBaseInitializer()) { i.push_back("b"); i.push_back(type(QualType(I->getBaseClass(), 0))); }
        else if (I->isDelegatingInitializer()) { i.push_back("d"); i.push_back(""); }
        else { i.push_back("?"); i.push_back(""); }
        i.push_back(E(I->getInit())); i.push_back(I->isWritten()); is.push_back(std::move(i));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    o["body"] = S(F->getBody());
    Funcs.push_back(std::move(o));
  }
  void cls(const CXXRecordDecl* R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
    if (!inRoot(R->getLocation())) return;
    if (!DoneC.insert(R).second) return;
    Object o;
    o["q"] = className(R); o["file"] = file(R->getLocation()); o["line"] = line(R->getLocation());
    Array bs; for (auto& b : R->bases()) bs.push_back(type(b.getType())); o["bases"] = std::move(bs);
    Array fs;
    for (auto* f : R->fields()) {
      Array a; a.push_back(f->getNameAsString()); a.push_back(type(f->getType())); a.push_back(f->isMutable());
      a.push_back(f->getInClassInitializer() && !f->getInClassInitializer()->isValueDependent() ? E(f->getInClassInitializer()) : Value(nullptr));
      a.push_back((int)f->getAccess());
      fs.push_back(std::move(a)); }
    o["fields"] = std::move(fs);
    Array ms;
    for (auto* m : R->methods()) {
      Array a; a.push_back(m->getNameAsString()); a.push_back(key(m)); a.push_back(m->isVirtual()); a.push_back(m->isPureVirtual()); a.push_back((int)m->getAccess());
      a.push_back(m->isDeleted()); a.push_back(m->isConst()); a.push_back(type(m->getType())); a.push_back(m->isImplicit());
      ms.push_back(std::move(a)); }
    o["methods"] = std::move(ms);
    o["abstract"] = R->isAbstract();
    Classes.push_back(std::move(o));
  }
  void drain() {
    while (!Pending.empty()) { auto* F = Pending.back(); Pending.pop_back(); func(F); }
  }
};

struct Visitor : RecursiveASTVisitor<Visitor> {
  Dumper& D;
  explicit Visitor(Dumper& d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl* F) { D.func(F); return true; }
  bool VisitCXXRecordDecl(CXXRecordDecl* R) { D.cls(R); return true; }
  bool VisitVarDecl(VarDecl* V) {
    if (!V->isLocalVarDeclOrParm() && !V->isTemplated() && V->hasGlobalStorage()) D.gvar(V);
    return true;
  }
  bool VisitEnumDecl(EnumDecl* En) {
    if (!D.inRoot(En->getLocation()) || En->isDependentContext()) return true;
    Object o; o["q"] = D.qname(En); Array es;
    for (auto* c : En->enumerators()) { Array a; a.push_back(c->getNameAsString()); llvm::SmallString<24> s; c->getInitVal().toString(s, 10); a.push_back(s.str().str()); es.push_back(std::move(a)); }
    o["e"] = std::move(es); D.Enums.push_back(std::move(o)); return true;
  }
};
struct Consumer : ASTConsumer {
  CompilerInstance& CI;
  explicit Consumer(CompilerInstance& c) : CI(c) {}
  void HandleTranslationUnit(ASTContext& C) override {
    Dumper D(C);
    Visitor V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    D.drain();
    Object o;
    o["types"] = std::move(D.Types); o["fns"] = std::move(D.Fns); o["funcs"] = std::move(D.Funcs); o["classes"] = std::move(D.Classes);
    o["enums"] = std::move(D.Enums); o["uninst"] = std::move(D.Uninst); o["gvars"] = std::move(D.GVars);
    o["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    os << Value(std::move(o));
  }
};
struct Action : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override { return std::make_unique<Consumer>(CI); }
};
} // namespace

int main(int argc, char** argv) {
  // extract OUT SRC ROOT[,ROOT...] -- flags
  if (argc < 5) return 2;
  OutPath = argv[1];
  std::string src = argv[2], roots = argv[3];
  size_t p = 0;
  while (p <= roots.size()) { size_t q = roots.find(',', p); if (q == std::string::npos) q = roots.size(); Roots.push_back(roots.substr(p, q - p)); p = q + 1; }
  std::vector<std::string> flags;
  for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase DB("/", flags);
  tooling::ClangTool T(DB, {src});
  T.clearArgumentsAdjusters();
  return T.run(tooling::newFrontendActionFactory<Action>().get());
}
