// qdfacts: parse C++ translation units of QDng with the real compiler front end and
// dump the resolved program (classes, functions, resolved expression trees, control flow graphs)
// as one JSON object per line.  Output is consumed by /verif/qa/*.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/OpenMPClause.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Analysis/CFG.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using namespace clang::tooling;
namespace json = llvm::json;

static std::vector<std::string> Roots;   // file prefixes that belong to the program
static std::set<std::string> SeenFn, SeenRec, SeenEnum, SeenVar;
static llvm::raw_ostream *Out;

static int64_t ext(const llvm::APSInt &V) { return V.isRepresentableByInt64() ? V.getExtValue() : (int64_t)0x7fffffffffffffffLL; }
static PrintingPolicy policy(ASTContext &C) {
  PrintingPolicy P(C.getLangOpts());
  P.SuppressTagKeyword = true;
  P.FullyQualifiedName = true;
  P.Bool = true;
  P.SuppressUnwrittenScope = true;
  return P;
}

static std::string typeStr(ASTContext &C, QualType T) {
  if (T.isNull()) return "";
  return T.getCanonicalType().getAsString(policy(C));
}

static std::string declName(ASTContext &C, const NamedDecl *D) {
  std::string S;
  llvm::raw_string_ostream OS(S);
  D->getNameForDiagnostic(OS, policy(C), true);
  OS.flush();
  return S;
}

static std::string fileOf(SourceManager &SM, SourceLocation L) {
  L = SM.getExpansionLoc(L);
  auto F = SM.getFileEntryRefForID(SM.getFileID(L));
  if (!F) return "";
  llvm::StringRef R = F->getFileEntry().tryGetRealPathName();
  return R.empty() ? F->getName().str() : R.str();
}
static unsigned lineOf(SourceManager &SM, SourceLocation L) {
  return SM.getExpansionLineNumber(L);
}
static bool inRoots(const std::string &F) {
  for (auto &R : Roots) if (F.compare(0, R.size(), R) == 0) return true;
  return false;
}

static std::string fnId(ASTContext &C, const FunctionDecl *F) {
  std::string S = declName(C, F) + "(";
  bool first = true;
  for (auto *P : F->parameters()) {
    if (!first) S += ", ";
    first = false;
    S += typeStr(C, P->getType());
  }
  S += ")";
  if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isConst()) S += " const";
  if (!F->isExternallyVisible()) S += "@" + fileOf(C.getSourceManager(), F->getLocation());
  return S;
}

static std::string fieldId(ASTContext &C, const ValueDecl *D) {
  if (auto *F = dyn_cast<FieldDecl>(D))
    return declName(C, cast<NamedDecl>(F->getParent())) + "::" + F->getNameAsString();
  return declName(C, D);
}

class FnDumper {
  ASTContext &C;
  SourceManager &SM;
  const FunctionDecl *F;
public:
  json::Array Nodes;                          // node table
  std::map<const Stmt *, int> Id;
  std::map<const Decl *, std::string> Local;  // local variable ids
  std::map<const Decl *, int> VarNode;        // VarDecl -> node
  json::Object Locals;
  int nloc = 0;

  FnDumper(ASTContext &C, const FunctionDecl *F) : C(C), SM(C.getSourceManager()), F(F) {}

  std::string varId(const VarDecl *V) {
    V = V->getCanonicalDecl();
    if (!V->isLocalVarDeclOrParm()) return declName(C, V);
    auto it = Local.find(V);
    if (it != Local.end()) return it->second;
    std::string id = "%" + std::to_string(nloc++) + "." + V->getNameAsString();
    Local[V] = id;
    json::Object o{{"n", V->getNameAsString()}, {"t", typeStr(C, V->getType())},
                   {"l", (int64_t)lineOf(SM, V->getLocation())}};
    if (isa<ParmVarDecl>(V)) { o["p"] = (int64_t)cast<ParmVarDecl>(V)->getFunctionScopeIndex(); }
    if (V->isStaticLocal()) o["s"] = true;
    Locals[id] = std::move(o);
    return id;
  }

  static const Expr *strip(const Expr *E) {
    while (true) {
      const Expr *O = E;
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ImplicitCastExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXFunctionalCastExpr>(E)) {
        if (P->getCastKind() == CK_ConstructorConversion || isa<CXXConstructExpr>(P->getSubExpr()->IgnoreImplicit())) E = P->getSubExpr();
      }
      if (E == O) return E;
    }
  }

  int dump(const Stmt *S) {
    if (!S) return -1;
    if (auto *E = dyn_cast<Expr>(S)) {
      const Expr *K = strip(E);
      int r = dump1(K);
      // map the stripped chain
      const Expr *X = E;
      while (X != K) {
        Id[X] = r;
        if (auto *P = dyn_cast<ParenExpr>(X)) X = P->getSubExpr();
        else if (auto *P = dyn_cast<ImplicitCastExpr>(X)) X = P->getSubExpr();
        else if (auto *P = dyn_cast<ExprWithCleanups>(X)) X = P->getSubExpr();
        else if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) X = P->getSubExpr();
        else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) X = P->getSubExpr();
        else if (auto *P = dyn_cast<ConstantExpr>(X)) X = P->getSubExpr();
        else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) X = P->getReplacement();
        else if (auto *P = dyn_cast<CXXDefaultArgExpr>(X)) X = P->getExpr();
        else if (auto *P = dyn_cast<CXXDefaultInitExpr>(X)) X = P->getExpr();
        else if (auto *P = dyn_cast<CXXFunctionalCastExpr>(X)) X = P->getSubExpr();
        else break;
      }
      return r;
    }
    return dump1(S);
  }

  int dumpVar(const VarDecl *V) {
    auto it = VarNode.find(V);
    if (it != VarNode.end()) return it->second;
    int id = Nodes.size();
    VarNode[V] = id;
    Nodes.push_back(nullptr);
    json::Object o{{"k", "Var"}, {"d", varId(V)}, {"l", (int64_t)lineOf(SM, V->getLocation())}, {"t", typeStr(C, V->getType())}};
    json::Array ch;
    if (V->getInit()) ch.push_back(dump(V->getInit()));
    o["c"] = std::move(ch);
    Nodes[id] = std::move(o);
    return id;
  }

  void omp(const OMPExecutableDirective *D, json::Object &o) {
    o["omp"] = llvm::omp::getOpenMPDirectiveName(D->getDirectiveKind()).str();
    json::Array cl;
    for (const OMPClause *X : D->clauses()) {
      if (!X) continue;
      json::Object c{{"k", llvm::omp::getOpenMPClauseName(X->getClauseKind()).str()}};
      json::Array vars;
      auto addv = [&](const Expr *E) {
        E = E->IgnoreParenImpCasts();
        if (auto *R = dyn_cast<DeclRefExpr>(E)) { if (auto *V = dyn_cast<VarDecl>(R->getDecl())) vars.push_back(varId(V)); else vars.push_back(fieldId(C, R->getDecl())); }
        else if (auto *M = dyn_cast<MemberExpr>(E)) vars.push_back(fieldId(C, M->getMemberDecl()));
        else vars.push_back("?");
      };
      if (auto *P = dyn_cast<OMPPrivateClause>(X)) for (auto *E : P->varlists()) addv(E);
      else if (auto *P = dyn_cast<OMPFirstprivateClause>(X)) for (auto *E : P->varlists()) addv(E);
      else if (auto *P = dyn_cast<OMPLastprivateClause>(X)) for (auto *E : P->varlists()) addv(E);
      else if (auto *P = dyn_cast<OMPSharedClause>(X)) for (auto *E : P->varlists()) addv(E);
      else if (auto *P = dyn_cast<OMPReductionClause>(X)) {
        for (auto *E : P->varlists()) addv(E);
        c["op"] = P->getNameInfo().getName().getAsString();
      }
      else if (auto *P = dyn_cast<OMPLinearClause>(X)) for (auto *E : P->varlists()) addv(E);
      else if (auto *P = dyn_cast<OMPDefaultClause>(X)) c["v"] = (int64_t)P->getDefaultKind();
      else if (auto *P = dyn_cast<OMPIfClause>(X)) c["e"] = dump(P->getCondition());
      else if (auto *P = dyn_cast<OMPScheduleClause>(X)) c["v"] = (int64_t)P->getScheduleKind();
      c["vars"] = std::move(vars);
      cl.push_back(std::move(c));
    }
    o["clauses"] = std::move(cl);
    if (auto *L = dyn_cast<OMPLoopDirective>(D)) (void)L;
    if (auto *CD = dyn_cast<OMPCriticalDirective>(D)) o["name"] = CD->getDirectiveName().getAsString();
  }

  int dump1(const Stmt *S) {
    auto it = Id.find(S);
    if (it != Id.end()) return it->second;
    int id = Nodes.size();
    Id[S] = id;
    Nodes.push_back(nullptr);
    json::Object o;
    json::Array ch;
    o["l"] = (int64_t)lineOf(SM, S->getBeginLoc());
    bool children = true;
    if (auto *E = dyn_cast<Expr>(S)) o["t"] = typeStr(C, E->getType());

    if (auto *D = dyn_cast<OMPExecutableDirective>(S)) {
      o["k"] = "OMP";
      omp(D, o);
      if (!D->isStandaloneDirective()) ch.push_back(dump(D->getRawStmt()));
      children = false;
    } else if (auto *X = dyn_cast<CapturedStmt>(S)) {
      o["k"] = "Captured"; ch.push_back(dump(X->getCapturedStmt())); children = false;
    } else if (auto *X = dyn_cast<DeclRefExpr>(S)) {
      const ValueDecl *V = X->getDecl();
      if (auto *VD = dyn_cast<VarDecl>(V)) { o["k"] = "Ref"; o["d"] = varId(VD); }
      else if (auto *FD = dyn_cast<FunctionDecl>(V)) { o["k"] = "FnRef"; o["d"] = fnId(C, FD); }
      else if (auto *EC = dyn_cast<EnumConstantDecl>(V)) { o["k"] = "Enum"; o["d"] = declName(C, EC); o["v"] = ext(EC->getInitVal()); }
      else { o["k"] = "Ref"; o["d"] = declName(C, V); }
      children = false;
    } else if (auto *X = dyn_cast<MemberExpr>(S)) {
      const ValueDecl *V = X->getMemberDecl();
      if (auto *FD = dyn_cast<FunctionDecl>(V)) { o["k"] = "MethRef"; o["d"] = fnId(C, FD); }
      else { o["k"] = "Member"; o["d"] = fieldId(C, V); }
      o["n"] = V->getNameAsString();
      if (X->isArrow()) o["arrow"] = true;
      ch.push_back(dump(X->getBase()));
      children = false;
    } else if (isa<CXXThisExpr>(S)) {
      o["k"] = "This"; children = false;
    } else if (auto *X = dyn_cast<CallExpr>(S)) {
      o["k"] = "Call";
      const FunctionDecl *FD = X->getDirectCallee();
      if (FD) {
        o["f"] = fnId(C, FD);
        o["fn"] = FD->getNameAsString();
        o["q"] = FD->getQualifiedNameAsString();
        if (auto *M = dyn_cast<CXXMethodDecl>(FD)) {
          o["cls"] = declName(C, M->getParent());
          if (M->isVirtual()) {
            bool dv = true;
            if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
              auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParenImpCasts());
              if (ME && ME->hasQualifier()) dv = false;
            }
            if (dv) o["virt"] = true;
          }
        }
      }
      if (auto *OC = dyn_cast<CXXOperatorCallExpr>(X)) {
        o["op"] = getOperatorSpelling(OC->getOperator());
        if (FD && isa<CXXMethodDecl>(FD) && !cast<CXXMethodDecl>(FD)->isStatic()) o["m"] = true;
        for (auto *A : X->arguments()) ch.push_back(dump(A));
      } else if (auto *MC = dyn_cast<CXXMemberCallExpr>(X)) {
        o["m"] = true;
        const Expr *Obj = MC->getImplicitObjectArgument();
        ch.push_back(Obj ? dump(Obj) : -1);
        if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParenImpCasts())) { if (ME->isArrow()) o["arrow"] = true; }
        for (auto *A : X->arguments()) ch.push_back(dump(A));
      } else {
        if (!FD) { o["ind"] = true; ch.push_back(dump(X->getCallee())); }
        for (auto *A : X->arguments()) ch.push_back(dump(A));
      }
      if (!FD) o["t"] = typeStr(C, X->getType());
      children = false;
    } else if (auto *X = dyn_cast<CXXConstructExpr>(S)) {
      o["k"] = "Construct";
      o["f"] = fnId(C, X->getConstructor());
      o["cls"] = declName(C, X->getConstructor()->getParent());
      if (X->getConstructor()->isCopyOrMoveConstructor()) o["copy"] = true;
      for (auto *A : X->arguments()) ch.push_back(dump(A));
      children = false;
    } else if (auto *X = dyn_cast<CXXNewExpr>(S)) {
      o["k"] = "New"; o["ty"] = typeStr(C, X->getAllocatedType());
      if (X->isArray()) { o["arr"] = true; if (X->getArraySize()) ch.push_back(dump(*X->getArraySize())); }
      for (unsigned i = 0; i < X->getNumPlacementArgs(); i++) ch.push_back(dump(X->getPlacementArg(i)));
      if (X->getInitializer()) ch.push_back(dump(X->getInitializer()));
      children = false;
    } else if (auto *X = dyn_cast<CXXDeleteExpr>(S)) {
      o["k"] = "Delete"; if (X->isArrayForm()) o["arr"] = true;
      o["ty"] = typeStr(C, X->getDestroyedType());
      ch.push_back(dump(X->getArgument())); children = false;
    } else if (auto *X = dyn_cast<BinaryOperator>(S)) {
      o["k"] = X->isAssignmentOp() ? "Assign" : "Bin"; o["op"] = X->getOpcodeStr().str();
    } else if (auto *X = dyn_cast<UnaryOperator>(S)) {
      o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = true;
    } else if (isa<ArraySubscriptExpr>(S)) {
      auto *X2 = cast<ArraySubscriptExpr>(S);
      o["k"] = "Index"; ch.push_back(dump(X2->getBase())); ch.push_back(dump(X2->getIdx())); children = false;
    } else if (isa<ConditionalOperator>(S)) o["k"] = "Cond";
    else if (auto *X = dyn_cast<IntegerLiteral>(S)) { o["k"] = "Int"; o["v"] = (int64_t)X->getValue().getLimitedValue(); }
    else if (auto *X = dyn_cast<FloatingLiteral>(S)) { o["k"] = "Float"; o["v"] = X->getValueAsApproximateDouble(); }
    else if (auto *X = dyn_cast<CXXBoolLiteralExpr>(S)) { o["k"] = "Bool"; o["v"] = X->getValue(); }
    else if (auto *X = dyn_cast<CharacterLiteral>(S)) { o["k"] = "Char"; o["v"] = (int64_t)X->getValue(); }
    else if (auto *X = dyn_cast<StringLiteral>(S)) { o["k"] = "Str"; std::string v = X->isOrdinary() || X->isUTF8() ? X->getString().str() : ""; o["v"] = json::fixUTF8(v); }
    else if (isa<GNUNullExpr>(S) || isa<CXXNullPtrLiteralExpr>(S)) { o["k"] = "Null"; }
    else if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(S)) {
      o["k"] = "Sizeof"; o["ty"] = typeStr(C, X->getTypeOfArgument());
      if (X->getKind() == UETT_SizeOf) { Expr::EvalResult R; if (!X->isValueDependent() && X->EvaluateAsInt(R, C)) o["v"] = ext(R.Val.getInt()); }
      if (!X->isArgumentType()) ch.push_back(dump(X->getArgumentExpr()));
      children = false;
    } else if (auto *X = dyn_cast<ExplicitCastExpr>(S)) {
      o["k"] = "Cast";
      if (isa<CXXDynamicCastExpr>(S)) o["ck"] = "dynamic"; else if (isa<CXXStaticCastExpr>(S)) o["ck"] = "static";
      else if (isa<CXXReinterpretCastExpr>(S)) o["ck"] = "reinterpret"; else if (isa<CXXConstCastExpr>(S)) o["ck"] = "const"; else o["ck"] = "c";
      ch.push_back(dump(X->getSubExpr())); children = false;
    } else if (auto *X = dyn_cast<CXXThrowExpr>(S)) {
      o["k"] = "Throw"; if (X->getSubExpr()) { o["ty"] = typeStr(C, X->getSubExpr()->getType()); 
        json::Array bs; if (auto *R = X->getSubExpr()->getType()->getAsCXXRecordDecl()) { if (R->hasDefinition()) R->forallBases([&](const CXXRecordDecl *B){ bs.push_back(declName(C, B)); return true; }); } o["bases"] = std::move(bs); }
    } else if (auto *X = dyn_cast<IfStmt>(S)) {
      o["k"] = "If";
      o["cond"] = dump(X->getCond()); o["then"] = dump(X->getThen()); o["else"] = dump(X->getElse());
      if (X->getConditionVariableDeclStmt()) ch.push_back(dump(X->getConditionVariableDeclStmt()));
      ch.push_back(dump(X->getCond())); ch.push_back(dump(X->getThen())); if (X->getElse()) ch.push_back(dump(X->getElse()));
      children = false;
    } else if (auto *X = dyn_cast<ForStmt>(S)) {
      o["k"] = "For"; int a = dump(X->getInit()), b = dump(X->getCond()), c = dump(X->getInc()), d = dump(X->getBody());
      o["init"] = a; o["cond"] = b; o["inc"] = c; o["body"] = d;
      for (int v : {a, b, c, d}) if (v >= 0) ch.push_back(v);
      children = false;
    } else if (auto *X = dyn_cast<WhileStmt>(S)) {
      o["k"] = "While"; int b = dump(X->getCond()), d = dump(X->getBody()); o["cond"] = b; o["body"] = d; ch.push_back(b); ch.push_back(d); children = false;
    } else if (auto *X = dyn_cast<DoStmt>(S)) {
      o["k"] = "Do"; int b = dump(X->getCond()), d = dump(X->getBody()); o["cond"] = b; o["body"] = d; ch.push_back(d); ch.push_back(b); children = false;
    } else if (auto *X = dyn_cast<SwitchStmt>(S)) {
      o["k"] = "Switch"; int b = dump(X->getCond()), d = dump(X->getBody()); o["cond"] = b; o["body"] = d; ch.push_back(b); ch.push_back(d); children = false;
    } else if (auto *X = dyn_cast<CaseStmt>(S)) {
      o["k"] = "Case"; Expr::EvalResult R; if (X->getLHS()->EvaluateAsInt(R, C)) o["v"] = ext(R.Val.getInt());
      int a = dump(X->getLHS()), b = dump(X->getSubStmt()); o["lhs"] = a; ch.push_back(a); ch.push_back(b); children = false;
    } else if (isa<DefaultStmt>(S)) o["k"] = "Default";
    else if (isa<ReturnStmt>(S)) o["k"] = "Return";
    else if (isa<BreakStmt>(S)) o["k"] = "Break";
    else if (isa<ContinueStmt>(S)) o["k"] = "Continue";
    else if (isa<CompoundStmt>(S)) o["k"] = "Compound";
    else if (isa<NullStmt>(S)) o["k"] = "NullStmt";
    else if (auto *X = dyn_cast<CXXTryStmt>(S)) { o["k"] = "Try"; ch.push_back(dump(X->getTryBlock())); for (unsigned i = 0; i < X->getNumHandlers(); i++) ch.push_back(dump(X->getHandler(i))); children = false; }
    else if (auto *X = dyn_cast<CXXCatchStmt>(S)) {
      o["k"] = "Catch"; o["ty"] = X->getExceptionDecl() ? typeStr(C, X->getCaughtType()) : "...";
      if (X->getExceptionDecl()) ch.push_back(dumpVar(X->getExceptionDecl()));
      ch.push_back(dump(X->getHandlerBlock())); children = false;
    } else if (auto *X = dyn_cast<DeclStmt>(S)) {
      o["k"] = "Decl";
      for (auto *D : X->decls()) if (auto *V = dyn_cast<VarDecl>(D)) ch.push_back(dumpVar(V));
      children = false;
    } else if (auto *X = dyn_cast<InitListExpr>(S)) { o["k"] = "InitList"; (void)X; }
    else if (auto *X = dyn_cast<LambdaExpr>(S)) { o["k"] = "Lambda"; ch.push_back(dump(X->getBody())); children = false; }
    else if (isa<ImplicitValueInitExpr>(S) || isa<CXXScalarValueInitExpr>(S)) { o["k"] = "ZeroInit"; children = false; }
    else o["k"] = S->getStmtClassName();

    if (children) for (const Stmt *K : S->children()) if (K) ch.push_back(dump(K));
    // integer constant folding
    if (auto *E = dyn_cast<Expr>(S)) {
      if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && !isa<IntegerLiteral>(E) && !isa<CallExpr>(E)) {
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) o["cv"] = ext(R.Val.getInt());
      }
    }
    o["c"] = std::move(ch);
    Nodes[id] = std::move(o);
    return id;
  }

  json::Object run() {
    json::Object o;
    o["kind"] = "fn";
    o["id"] = fnId(C, F);
    o["name"] = F->getNameAsString();
    o["q"] = F->getQualifiedNameAsString();
    o["file"] = fileOf(SM, F->getLocation());
    o["l"] = (int64_t)lineOf(SM, F->getLocation());
    o["ret"] = typeStr(C, F->getReturnType());
    json::Array ps;
    for (auto *P : F->parameters()) ps.push_back(varId(P));
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = declName(C, M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->getAccess() == AS_private) o["priv"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isStatic()) o["static"] = true;
      json::Array ov; for (auto *B : M->overridden_methods()) ov.push_back(fnId(C, B)); o["over"] = std::move(ov);
      if (isa<CXXConstructorDecl>(M)) o["ctor"] = true;
      if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
    }
    if (F->getTemplateInstantiationPattern()) o["tmpl"] = true;
    if (F->isImplicit() || F->isDefaulted()) o["impl"] = true;
    json::Array inits;
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F))
      for (auto *I : CD->inits()) {
        json::Object io;
        if (I->isAnyMemberInitializer()) io["field"] = fieldId(C, I->getAnyMember());
        else if (I->isBaseInitializer()) io["base"] = typeStr(C, QualType(I->getBaseClass(), 0));
        else io["deleg"] = true;
        io["written"] = I->isWritten();
        io["e"] = dump(I->getInit());
        inits.push_back(std::move(io));
      }
    o["inits"] = std::move(inits);
    o["body"] = dump(F->getBody());
    CFG::BuildOptions BO;
    BO.setAllAlwaysAdd();
    BO.AddInitializers = true;
    BO.PruneTriviallyFalseEdges = false;
    auto G = CFG::buildCFG(F, F->getBody(), &C, BO);
    if (G) {
      json::Object g;
      g["entry"] = (int64_t)G->getEntry().getBlockID();
      g["exit"] = (int64_t)G->getExit().getBlockID();
      json::Array bl;
      for (const CFGBlock *B : *G) {
        json::Object b; b["i"] = (int64_t)B->getBlockID();
        json::Array el; int last = -1;
        for (const CFGElement &E : *B) {
          if (auto SE = E.getAs<CFGStmt>()) {
            const Stmt *S = SE->getStmt();
            if (auto *DS = dyn_cast<DeclStmt>(S)) {
              for (auto *D : DS->decls()) if (auto *V = dyn_cast<VarDecl>(D)) { int n = dumpVar(V); el.push_back(n); last = n; }
              continue;
            }
            auto it = Id.find(S);
            if (it == Id.end()) continue;
            if (it->second == last) continue;
            last = it->second; el.push_back(last);
          } else if (auto IE = E.getAs<CFGInitializer>()) {
            auto it = Id.find(IE->getInitializer()->getInit());
            (void)it;
          }
        }
        b["e"] = std::move(el);
        const Stmt *T = B->getTerminatorStmt();
        if (T) { auto it = Id.find(T); if (it != Id.end()) b["t"] = it->second; 
          const Stmt *TC = B->getTerminatorCondition(true); if (TC) { auto i2 = Id.find(TC); if (i2 != Id.end()) b["tc"] = i2->second; } }
        if (const Stmt *L = B->getLabel()) { auto it = Id.find(L); if (it != Id.end()) b["label"] = it->second; }
        json::Array su;
        for (auto I = B->succ_begin(); I != B->succ_end(); ++I) {
          const CFGBlock *X = I->getReachableBlock(); if (!X) X = I->getPossiblyUnreachableBlock();
          su.push_back(X ? (int64_t)X->getBlockID() : (int64_t)-1);
        }
        b["s"] = std::move(su);
        if (B->hasNoReturnElement()) b["nr"] = true;
        bl.push_back(std::move(b));
      }
      g["blocks"] = std::move(bl);
      o["cfg"] = std::move(g);
    }
    o["nodes"] = std::move(Nodes);
    o["locals"] = std::move(Locals);
    return o;
  }
};

class V : public RecursiveASTVisitor<V> {
  ASTContext &C; SourceManager &SM;
public:
  std::set<std::string> Files;
  V(ASTContext &C) : C(C), SM(C.getSourceManager()) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  void put(json::Object o) { std::string s; llvm::raw_string_ostream os(s); os << json::Value(std::move(o)); os.flush(); *Out << s << "\n"; }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->doesThisDeclarationHaveABody() && !(F->isThisDeclarationADefinition() && F->hasBody())) return true;
    if (F->isDependentContext() || F->isDeleted()) return true;
    std::string file = fileOf(SM, F->getLocation());
    if (!inRoots(file)) return true;
    if (!F->getBody()) return true;
    std::string id = fnId(C, F);
    if (!F->isExternallyVisible()) {}
    if (!SeenFn.insert(id).second) return true;
    FnDumper D(C, F);
    put(D.run());
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext()) return true;
    std::string file = fileOf(SM, R->getLocation());
    if (!inRoots(file)) return true;
    std::string id = declName(C, R);
    if (!SeenRec.insert(id).second) return true;
    json::Object o{{"kind", "rec"}, {"id", id}, {"file", file}, {"l", (int64_t)lineOf(SM, R->getLocation())}};
    json::Array bs; for (auto &B : R->bases()) bs.push_back(typeStr(C, B.getType())); o["bases"] = std::move(bs);
    json::Array fs;
    for (auto *F : R->fields()) {
      json::Object fo{{"id", fieldId(C, F)}, {"n", F->getNameAsString()}, {"t", typeStr(C, F->getType())}, {"tw", F->getType().getAsString(policy(C))}, {"l", (int64_t)lineOf(SM, F->getLocation())}};
      if (F->hasInClassInitializer()) fo["init"] = true;
      if (auto *AT = C.getAsConstantArrayType(F->getType())) fo["n_elem"] = (int64_t)AT->getSize().getLimitedValue();
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto *M : R->methods()) {
      json::Object mo{{"id", fnId(C, M)}, {"n", M->getNameAsString()}, {"l", (int64_t)lineOf(SM, M->getLocation())}};
      if (M->isVirtual()) mo["virt"] = true;
      if (M->isPureVirtual()) mo["pure"] = true;
      if (M->isImplicit()) mo["impl"] = true;
      if (M->isDeleted()) mo["del"] = true;
      if (M->isCopyAssignmentOperator()) mo["copyassign"] = true;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(M)) { mo["ctor"] = true; if (CD->isCopyConstructor()) mo["copyctor"] = true; }
      mo["acc"] = (int64_t)M->getAccess();
      json::Array ov; for (auto *B : M->overridden_methods()) ov.push_back(fnId(C, B)); mo["over"] = std::move(ov);
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    if (R->hasDefinition() && R->isAbstract()) o["abstract"] = true;
    put(std::move(o));
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E) {
    if (!E->isThisDeclarationADefinition() || E->isDependentContext()) return true;
    std::string file = fileOf(SM, E->getLocation());
    if (!inRoots(file)) return true;
    std::string id = declName(C, E);
    if (id.empty() || E->getNameAsString().empty()) id += "@" + file + ":" + std::to_string(lineOf(SM, E->getLocation()));
    if (!SeenEnum.insert(id).second) return true;
    json::Object o{{"kind", "enum"}, {"id", id}, {"file", file}, {"l", (int64_t)lineOf(SM, E->getLocation())}};
    json::Array cs; for (auto *X : E->enumerators()) cs.push_back(json::Object{{"id", declName(C, X)}, {"n", X->getNameAsString()}, {"v", ext(X->getInitVal())}});
    o["consts"] = std::move(cs);
    put(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *D) {
    if (D->isLocalVarDeclOrParm() || D->getDeclContext()->isDependentContext() || D->getType()->isDependentType()) return true;
    if (isa<VarTemplatePartialSpecializationDecl>(D)) return true;
    std::string file = fileOf(SM, D->getLocation());
    if (!inRoots(file)) return true;
    if (!D->getInit() && !D->isThisDeclarationADefinition()) return true;
    std::string id = declName(C, D);
    if (!SeenVar.insert(id).second) return true;
    FnDumper F(C, nullptr);
    json::Object o{{"kind", "var"}, {"id", id}, {"file", file}, {"l", (int64_t)lineOf(SM, D->getLocation())}, {"t", typeStr(C, D->getType())}};
    if (D->getInit() && !D->getInit()->isValueDependent()) { o["init"] = F.dump(D->getInit()); o["nodes"] = std::move(F.Nodes); o["locals"] = std::move(F.Locals); }
    if (auto *AT = C.getAsConstantArrayType(D->getType())) o["n_elem"] = (int64_t)AT->getSize().getLimitedValue();
    put(std::move(o));
    return true;
  }
};

class Cons : public ASTConsumer {
  std::string File;
public:
  Cons(std::string F) : File(F) {}
  void HandleTranslationUnit(ASTContext &C) override {
    V v(C);
    v.TraverseDecl(C.getTranslationUnitDecl());
    json::Object o{{"kind", "tu"}, {"file", File}, {"errors", C.getDiagnostics().hasErrorOccurred()}};
    SourceManager &SM = C.getSourceManager();
    json::Array fs;
    for (auto I = SM.fileinfo_begin(); I != SM.fileinfo_end(); ++I) {
      llvm::StringRef R = I->first.getFileEntry().tryGetRealPathName();
      if (inRoots(R.str())) fs.push_back(R.str());
    }
    o["files"] = std::move(fs);
    v.put(std::move(o));
  }
};
class Act : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef F) override {
    return std::make_unique<Cons>(F.str());
  }
};

// usage: qdfacts OUT root1[,root2..] file.. -- flags
int main(int argc, const char **argv) {
  std::string out = argv[1];
  { std::string r = argv[2]; size_t p = 0; while (true) { size_t q = r.find(',', p); Roots.push_back(r.substr(p, q == std::string::npos ? q : q - p)); if (q == std::string::npos) break; p = q + 1; } }
  std::vector<std::string> files, flags; bool fl = false;
  for (int i = 3; i < argc; i++) { std::string a = argv[i]; if (!fl && a == "--") { fl = true; continue; } (fl ? flags : files).push_back(a); }
  std::error_code EC; llvm::raw_fd_ostream OS(out, EC); if (EC) { llvm::errs() << EC.message(); return 3; }
  Out = &OS;
  FixedCompilationDatabase DB(".", flags);
  ClangTool T(DB, files);
  T.setPrintErrorMessage(false);
  int r = T.run(newFrontendActionFactory<Act>().get());
  OS.flush();
  return r;
}
