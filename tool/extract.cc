// cobalt-extract: dumps the type-checked program of /repo (every concrete
// function body, instantiated templates included) as JSON for the rule engine.
#include "clang/AST/ASTContext.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/JSON.h"
#include "llvm/ADT/SmallString.h"
#include <set>
#include <map>
#include <deque>

using namespace clang;
using llvm::json::Object;
using llvm::json::Array;
using llvm::json::Value;

static std::string Root = "/repo/";
static std::string Extra;      // second root (drivers)
static std::string OutPath;

namespace {

struct Dumper
{
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unique_ptr<ItaniumMangleContext> Mg;
  std::string tu;
  std::map<const Decl*, std::string> ids;
  std::map<std::string, const Decl*> usedIds;
  std::deque<const FunctionDecl*> queue;
  std::set<const FunctionDecl*> seen;
  std::map<const CXXRecordDecl*, std::string> recs;
  std::deque<const CXXRecordDecl*> recq;
  Array functions;
  Array records;
  Array enums;
  std::map<const VarDecl*, int> varIds;
  std::map<const Expr*, int> opaque;

  Dumper(ASTContext &c, std::string tu) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()), tu(tu)
  {
    PP.SuppressTagKeyword = true; PP.Bool = true; PP.FullyQualifiedName = true;
    PP.PrintCanonicalTypes = true; PP.SuppressDefaultTemplateArgs=false;
    PP.AnonymousTagLocations = true; PP.TerseOutput = true;
    Mg.reset(ItaniumMangleContext::create(c, c.getDiagnostics()));
  }

  std::string fileOf(SourceLocation L)
  {
    if (L.isInvalid()) return "";
    PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L), false);
    if (P.isInvalid()) return "";
    llvm::SmallString<256> s(P.getFilename());
    if (auto fe = SM.getFileEntryRefForID(SM.getFileID(SM.getExpansionLoc(L))))
    {
      auto rp = fe->getFileEntry().tryGetRealPathName();
      if (!rp.empty()) return rp.str();
    }
    return s.str().str();
  }
  unsigned lineOf(SourceLocation L) { return L.isInvalid() ? 0 : SM.getExpansionLineNumber(L); }
  unsigned colOf(SourceLocation L) { return L.isInvalid() ? 0 : SM.getExpansionColumnNumber(L); }
  bool inRoot(const std::string & f)
  {
    return f.rfind(Root, 0) == 0 || (!Extra.empty() && f.rfind(Extra, 0) == 0);
  }
  std::map<std::pair<unsigned, unsigned>, bool> fileCache;
  bool inRoot(SourceLocation L)
  {
    if (L.isInvalid()) return false;
    FileID F = SM.getFileID(SM.getExpansionLoc(L));
    auto k = std::make_pair(F.getHashValue(), 0u);
    auto it = fileCache.find(k);
    if (it != fileCache.end()) return it->second;
    bool r = inRoot(fileOf(L));
    fileCache[k] = r;
    return r;
  }

  // qualified name without template arguments
  std::string patName(const NamedDecl *D)
  {
    std::string s;
    const DeclContext *DC = D->getDeclContext();
    std::vector<std::string> parts;
    auto nm = [&](const NamedDecl *N) -> std::string {
      if (auto *R = dyn_cast<CXXRecordDecl>(N))
      {
        if (R->isLambda()) return "(lambda)";
        if (!R->getIdentifier()) return "(anon)";
        return R->getNameAsString();
      }
      if (auto *CD = dyn_cast<CXXConstructorDecl>(N)) return CD->getParent()->isLambda() ? "(lambda-ctor)" : CD->getParent()->getNameAsString();
      if (auto *DD = dyn_cast<CXXDestructorDecl>(N)) return "~" + DD->getParent()->getNameAsString();
      if (isa<CXXConversionDecl>(N)) return "operator " + cast<CXXConversionDecl>(N)->getConversionType().getAsString(PP);
      return N->getNameAsString();
    };
    parts.push_back(nm(D));
    while (DC && !DC->isTranslationUnit())
    {
      if (auto *N = dyn_cast<NamedDecl>(DC))
      {
        if (auto * NS = dyn_cast<NamespaceDecl>(DC))
        {
          if (!NS->isInline())
            parts.push_back(NS->isAnonymousNamespace() ? "(anon)" : NS->getNameAsString());
        }
        else parts.push_back(nm(N));
      }
      DC = DC->getParent();
    }
    for (auto it = parts.rbegin(); it != parts.rend(); ++it)
    {
      if (!s.empty()) s += "::";
      s += *it;
    }
    return s;
  }

  std::string typeStr(QualType T)
  {
    if (T.isNull()) return "";
    return T.getCanonicalType().getAsString(PP);
  }

  static int64_t ext(const llvm::APSInt &i)
  {
    if (i.isRepresentableByInt64()) return i.getExtValue();
    return (int64_t)i.extOrTrunc(64).getZExtValue();
  }
  static bool noThrow(const FunctionProtoType *FP)
  {
    auto k = FP->getExceptionSpecType();
    if (isUnresolvedExceptionSpec(k) || k == EST_Unparsed || k == EST_DependentNoexcept) return false;
    return FP->canThrow() == CT_Cannot;
  }

  const FunctionDecl *canon(const FunctionDecl *F) { return F->getCanonicalDecl(); }

  std::string fnId(const FunctionDecl *F0)
  {
    const FunctionDecl *F = canon(F0);
    auto it = ids.find(F);
    if (it != ids.end()) return it->second;
    std::string s;
    bool dependent = F->isDependentContext();
    bool lambda = false, local = false;
    for (const DeclContext *d = F; d; d = d->getParent())
    {
      if (auto R = dyn_cast<CXXRecordDecl>(d)) if (R->isLambda() || R->isLocalClass()) lambda = true;
      if (d != F && isa<FunctionDecl>(d)) local = true;
    }
    if (!dependent && !lambda && !local && F->getNumParams() < 100)
    {
      llvm::raw_string_ostream os(s);
      GlobalDecl GD;
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) GD = GlobalDecl(CD, Ctor_Complete);
      else if (auto *DD = dyn_cast<CXXDestructorDecl>(F)) GD = GlobalDecl(DD, Dtor_Complete);
      else GD = GlobalDecl(F);
      if (Mg->shouldMangleDeclName(F)) Mg->mangleName(GD, os);
      else os << F->getNameAsString();
      os.flush();
      if (F->getFormalLinkage() == Linkage::Internal || F->isInAnonymousNamespace()) s = tu + "|" + s;
    }
    else
      s = tu + "|" + patName(F) + "@" + std::to_string(lineOf(F->getLocation())) + ":" + std::to_string(colOf(F->getLocation()));
    std::string base = s;
    int n = 1;
    while (usedIds.count(s) && usedIds[s] != F) s = base + "#" + std::to_string(n++);
    usedIds[s] = F;
    ids[F] = s;
    return s;
  }

  int varId(const VarDecl *V)
  {
    auto *K = V->getCanonicalDecl();
    auto it = varIds.find(K);
    if (it != varIds.end()) return it->second;
    int n = varIds.size() + 1;
    varIds[K] = n;
    return n;
  }

  // a member that hides one of a base class gets a name of its own
  static std::string fieldName(const FieldDecl *F)
  {
    std::string n = F->getNameAsString();
    auto *R = dyn_cast<CXXRecordDecl>(F->getParent());
    if (n.empty() || !R || !R->hasDefinition()) return n;
    bool hides = false;
    R->getDefinition()->forallBases([&](const CXXRecordDecl *B)
    {
      for (auto *G : B->fields()) if (G->getIdentifier() && G->getIdentifier() == F->getIdentifier()) hides = true;
      return true;
    });
    return hides ? n + "'" : n;
  }

  std::string recId(const CXXRecordDecl *R)
  {
    if (!R) return "";
    R = R->getCanonicalDecl();
    auto it = recs.find(R);
    if (it != recs.end()) return it->second;
    std::string n = typeStr(QualType(R->getTypeForDecl(), 0));
    if (R->isLambda() || R->isLocalClass()) n = tu + "|" + n + "@" + std::to_string(lineOf(R->getLocation())) + ":" + std::to_string(colOf(R->getLocation()));
    recs[R] = n;
    recq.push_back(R);
    return n;
  }

  void want(const FunctionDecl *F)
  {
    if (!F) return;
    const FunctionDecl *D = nullptr;
    if (!F->hasBody(D)) { F->isDefined(D); }
    if (!D) return;
    if (D->isDependentContext()) return;
    if (!inRoot(D->getLocation()) && !(D->isImplicit() && inRoot(D->getLocation())))
    {
      return;
    }
    if (seen.insert(canon(D)).second) queue.push_back(D);
  }

  Value fnRef(const FunctionDecl *F)
  {
    want(F);
    Object o;
    o["id"] = fnId(F);
    o["n"] = patName(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
    {
      o["cls"] = recId(M->getParent());
      if (M->isStatic()) o["static"] = true;
      else if (M->isConst()) o["const"] = true;
      if (M->isVirtual() && !M->hasAttr<FinalAttr>() && !M->getParent()->hasAttr<FinalAttr>()) o["virtual"] = true;
      if (isa<CXXConstructorDecl>(M))
      {
        auto CD = cast<CXXConstructorDecl>(M);
        o["ctor"] = CD->isMoveConstructor() ? "move" : CD->isCopyConstructor() ? "copy" : CD->isDefaultConstructor() ? "default" : "other";
        o["trivial"] = CD->isTrivial();
      }
      if (M->isMoveAssignmentOperator()) o["assign"] = "move";
      if (M->isCopyAssignmentOperator()) o["assign"] = "copy";
      if (M->isTrivial()) o["trivial"] = true;
      if (M->isDefaulted()) o["defaulted"] = true;
    }
    if (auto *FP = F->getType()->getAs<FunctionProtoType>())
    {
      if (noThrow(FP)) o["ne"] = true;
    }
    if (F->isNoReturn()) o["noret"] = true;
    Array pt;
    for (auto *P : F->parameters())
    {
      QualType T = P->getType();
      std::string k = "v";
      if (T->isRValueReferenceType()) k = "rr";
      else if (T->isLValueReferenceType()) k = T->getPointeeType().isConstQualified() ? "cr" : "lr";
      else if (T->isPointerType()) k = T->getPointeeType().isConstQualified() ? "cp" : "p";
      pt.push_back(k);
    }
    if (!pt.empty()) o["pk"] = std::move(pt);
    if (auto *TA = F->getTemplateSpecializationArgs())
      for (auto &A : TA->asArray())
        if (A.getKind() == TemplateArgument::Type)
        {
          if (auto *R = A.getAsType()->getAsCXXRecordDecl())
          {
            o["ta"] = patName(R);
            o["tr"] = recId(R);
          }
          break;
        }
        else if (A.getKind() != TemplateArgument::Pack) break;
    return o;
  }

  std::string loc(SourceLocation L)
  {
    return std::to_string(lineOf(L));
  }

  void locInto(Object &o, const Stmt *S)
  {
    o["l"] = (int64_t)lineOf(S->getBeginLoc());
  }

  Value declRef(const ValueDecl *D, const Expr *E)
  {
    Object o;
    if (auto *F = dyn_cast<FunctionDecl>(D))
    {
      o["k"] = "fn"; o["fn"] = fnRef(F);
      return o;
    }
    if (auto *EC = dyn_cast<EnumConstantDecl>(D))
    {
      o["k"] = "enum"; o["n"] = patName(EC); o["v"] = ext(EC->getInitVal());
      return o;
    }
    if (auto *V = dyn_cast<VarDecl>(D))
    {
      o["k"] = "var"; o["n"] = V->getNameAsString(); 
      if (V->hasGlobalStorage())
      {
        o["g"] = patName(V);
        if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (V->isStaticLocal()) o["sl"] = true;
        o["id"] = "g:" + patName(V);
        if (V->isConstexpr() || V->getType().isConstQualified()) o["const"] = true;
      }
      else o["id"] = varId(V);
      o["t"] = typeStr(V->getType());
      if (auto *RD = V->getType().getNonReferenceType()->getAsCXXRecordDecl()) o["tc"] = recId(RD);
      if (V->getType()->isReferenceType()) o["ref"] = true;
      if (isa<ParmVarDecl>(V)) o["parm"] = true;
      return o;
    }
    if (auto *BD = dyn_cast<BindingDecl>(D))
    {
      o["k"] = "binding"; o["n"] = BD->getNameAsString();
      if (auto *H = BD->getHoldingVar()) { o["id"] = varId(H); o["k"] = "var"; o["t"] = typeStr(H->getType()); if (H->getType()->isReferenceType()) o["ref"]=true; }
      else if (BD->getBinding()) { return expr(BD->getBinding()); }
      return o;
    }
    if (auto *TP = dyn_cast<NonTypeTemplateParmDecl>(D)) { o["k"] = "ntp"; o["n"] = TP->getNameAsString(); return o; }
    o["k"] = "decl"; o["n"] = patName(D);
    return o;
  }

  Array exprs(llvm::ArrayRef<const Expr*> es)
  {
    Array a;
    for (auto *e : es) a.push_back(expr(e));
    return a;
  }

  Value constOr(const Expr *E, Object o)
  {
    if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType())
    {
      Expr::EvalResult R;
      if (E->EvaluateAsInt(R, C) && R.Val.isInt()) o["cv"] = ext(R.Val.getInt());
    }
    return o;
  }

  Value expr(const Expr *E)
  {
    if (!E) return nullptr;
    Object o;
    if (auto *X = dyn_cast<ParenExpr>(E)) return expr(X->getSubExpr());
    if (auto *X = dyn_cast<ConstantExpr>(E)) { return expr(X->getSubExpr()); }
    if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E))
    {
      return expr(X->getSubExpr());
    }
    if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E))
    {
      o["k"] = "tmp"; o["e"] = expr(X->getSubExpr());
      if (auto *R = X->getType()->getAsCXXRecordDecl()) { o["tc"] = recId(R); if (auto *D = X->getTemporary()->getDestructor()) o["dtor"] = fnRef(D); }
      locInto(o, E);
      return o;
    }
    if (auto *X = dyn_cast<ExprWithCleanups>(E)) { o["k"] = "full"; o["e"] = expr(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return expr(X->getReplacement());
    if (auto *X = dyn_cast<CXXDefaultArgExpr>(E))
    { 
       o["k"] = "defarg"; 
       o["e"] = expr(X->getExpr()); return o; }
    if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) { return expr(X->getExpr()); }
    if (auto *X = dyn_cast<OpaqueValueExpr>(E))
    {
      auto it = opaque.find(X);
      o["k"] = "opaque";
      if (it == opaque.end()) { int n = opaque.size() + 1; opaque[X] = n; o["id"] = n; if (X->getSourceExpr()) o["e"] = expr(X->getSourceExpr()); }
      else { o["id"] = it->second; if (X->getSourceExpr()) o["e"] = expr(X->getSourceExpr()); }
      return o;
    }
    if (auto *X = dyn_cast<ImplicitCastExpr>(E))
    {
      switch (X->getCastKind())
      {
        case CK_ArrayToPointerDecay: { o["k"] = "decay"; o["e"] = expr(X->getSubExpr()); return o; }
        case CK_LValueToRValue: { o["k"] = "rv"; o["e"] = expr(X->getSubExpr()); return o; }
        case CK_UserDefinedConversion: case CK_ConstructorConversion:
        case CK_NoOp: case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr:
           return expr(X->getSubExpr());
        case CK_DerivedToBase: case CK_UncheckedDerivedToBase:
        {
          o["k"] = "upcast"; o["e"] = expr(X->getSubExpr());
          Array path; for (auto *b : X->path()) if (auto *R = b->getType()->getAsCXXRecordDecl()) path.push_back(recId(R));
          o["path"] = std::move(path);
          if (X->getType()->isPointerType()) o["ptr"] = true;
          return o;
        }
        case CK_PointerToBoolean: case CK_IntegralToBoolean: case CK_MemberPointerToBoolean: case CK_FloatingToBoolean:
          o["k"] = "tobool"; o["e"] = expr(X->getSubExpr()); return o;
        case CK_NullToPointer: case CK_NullToMemberPointer:
          o["k"] = "null"; return o;
        default:
          o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["e"] = expr(X->getSubExpr()); o["t"] = typeStr(X->getType());
          return constOr(E, std::move(o));
      }
    }
    if (auto *X = dyn_cast<ExplicitCastExpr>(E))
    {
      auto ck = X->getCastKind();
      if (ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion || (ck == CK_NoOp))
        return expr(X->getSubExpr());
      if (ck == CK_LValueToRValue) { o["k"] = "rv"; o["e"] = expr(X->getSubExpr()); return o; }
      if (ck == CK_ToVoid) { o["k"] = "tovoid"; o["e"] = expr(X->getSubExpr()); return o; }
      if (ck == CK_DerivedToBase || ck == CK_UncheckedDerivedToBase || ck == CK_BaseToDerived)
      {
        o["k"] = ck == CK_BaseToDerived ? "downcast" : "upcast"; o["e"] = expr(X->getSubExpr());
        Array path; for (auto *b : X->path()) if (auto *R = b->getType()->getAsCXXRecordDecl()) path.push_back(recId(R));
        o["path"] = std::move(path);
        if (X->getType()->isPointerType()) o["ptr"] = true;
        return o;
      }
      if (ck == CK_PointerToBoolean || ck == CK_IntegralToBoolean) { o["k"] = "tobool"; o["e"] = expr(X->getSubExpr()); return o; }
      if (ck == CK_NullToPointer) { o["k"] = "null"; return o; }
      o["k"] = "cast"; o["ck"] = X->getCastKindName(); o["x"] = true; o["e"] = expr(X->getSubExpr()); o["t"] = typeStr(X->getType());
      locInto(o, E);
      return constOr(E, std::move(o));
    }
    locInto(o, E);
    if (auto *X = dyn_cast<DeclRefExpr>(E))
    {
      Value v = declRef(X->getDecl(), E);
      if (auto *ob = v.getAsObject()) { (*ob)["l"] = (int64_t)lineOf(E->getBeginLoc()); 
        if (auto *V = dyn_cast<VarDecl>(X->getDecl())) if (!E->isValueDependent() && E->getType()->isIntegralOrEnumerationType() && V->getType().isConstQualified())
        { Expr::EvalResult R; if (E->EvaluateAsInt(R, C) && R.Val.isInt()) (*ob)["cv"] = ext(R.Val.getInt()); }
      }
      return v;
    }
    if (auto *X = dyn_cast<MemberExpr>(E))
    {
      auto *MD = X->getMemberDecl();
      if (auto *V = dyn_cast<VarDecl>(MD)) return declRef(V, E);
      if (isa<EnumConstantDecl>(MD)) return declRef(MD, E);
      o["k"] = "mem"; o["b"] = expr(X->getBase()); o["n"] = isa<FieldDecl>(MD) ? fieldName(cast<FieldDecl>(MD)) : MD->getNameAsString();
      if (X->isArrow()) o["ar"] = true;
      if (auto *F = dyn_cast<FieldDecl>(MD))
      {
        if (F->isAnonymousStructOrUnion()) o["anon"] = true;
        if (F->getType()->isReferenceType()) o["ref"] = true;
        o["t"] = typeStr(F->getType());
        if (auto *RD = F->getType().getNonReferenceType()->getAsCXXRecordDecl()) o["tc"] = recId(RD);
        o["own"] = recId(dyn_cast<CXXRecordDecl>(F->getParent()));
      }
      else if (auto *FD = dyn_cast<FunctionDecl>(MD)) { o["k"] = "memfn"; o["fn"] = fnRef(FD); }
      return o;
    }
    if (isa<CXXThisExpr>(E)) { o["k"] = "this"; return o; }
    if (auto *X = dyn_cast<CXXBoolLiteralExpr>(E)) { o["k"] = "bool"; o["v"] = X->getValue(); return o; }
    if (auto *X = dyn_cast<IntegerLiteral>(E)) { o["k"] = "int"; o["v"] = (int64_t)X->getValue().getLimitedValue(INT64_MAX); return o; }
    if (auto *X = dyn_cast<CharacterLiteral>(E)) { o["k"] = "int"; o["v"] = (int64_t)(uint64_t)X->getValue(); return o; }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) { o["k"] = "null"; return o; }
    if (auto *X = dyn_cast<StringLiteral>(E)) { o["k"] = "str"; if (X->getCharByteWidth() == 1) o["v"] = X->getString().str().find_first_of("\x80\xff") == std::string::npos && llvm::json::isUTF8(X->getString()) ? X->getString().str() : "?"; return o; }
    if (isa<FloatingLiteral>(E)) { o["k"] = "float"; return o; }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E))
    {
      o["k"] = "call";
      if (auto *M = X->getMethodDecl())
      {
        o["fn"] = fnRef(M);
        o["o"] = expr(X->getImplicitObjectArgument());
        if (auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens())) { if (ME->isArrow()) o["ar"] = true; if (ME->hasQualifier()) o["qual"] = true; }
      }
      else { o["callee"] = expr(X->getCallee()); o["o"] = expr(X->getImplicitObjectArgument()); }
      o["a"] = exprs(llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
      o["t"] = typeStr(X->getType());
      if (X->isGLValue()) o["lv"] = true;
      if (auto *RD = X->getType()->getAsCXXRecordDecl()) o["tc"] = recId(RD);
      return o;
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E))
    {
      o["k"] = "call"; o["op"] = getOperatorSpelling(X->getOperator());
      auto *FD = X->getDirectCallee();
      Array args;
      unsigned i = 0;
      if (FD)
      {
        o["fn"] = fnRef(FD);
        if (auto *M = dyn_cast<CXXMethodDecl>(FD); M && !M->isStatic()) { o["o"] = expr(X->getArg(0)); i = 1; }
      }
      else o["callee"] = expr(X->getCallee());
      for (; i < X->getNumArgs(); i++) args.push_back(expr(X->getArg(i)));
      o["a"] = std::move(args);
      o["t"] = typeStr(X->getType());
      if (X->isGLValue()) o["lv"] = true;
      if (auto *RD = X->getType()->getAsCXXRecordDecl()) o["tc"] = recId(RD);
      return o;
    }
    if (auto *X = dyn_cast<CXXRewrittenBinaryOperator>(E)) return expr(X->getSemanticForm());
    if (auto *X = dyn_cast<CallExpr>(E))
    {
      o["k"] = "call";
      if (auto *FD = X->getDirectCallee()) o["fn"] = fnRef(FD);
      else o["callee"] = expr(X->getCallee());
      o["a"] = exprs(llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
      o["t"] = typeStr(X->getType());
      if (X->isGLValue()) o["lv"] = true;
      if (auto *RD = X->getType()->getAsCXXRecordDecl()) o["tc"] = recId(RD);
      return constOr(E, std::move(o));
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E))
    {
      o["k"] = "ctor"; o["fn"] = fnRef(X->getConstructor()); o["tc"] = recId(X->getConstructor()->getParent());
      o["a"] = exprs(llvm::ArrayRef<const Expr*>(X->getArgs(), X->getNumArgs()));
      o["t"] = typeStr(X->getType());
      if (X->isElidable()) o["elid"] = true;
      if (X->isListInitialization()) o["li"] = true;
      return o;
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E))
    {
      o["k"] = "ctor"; o["fn"] = fnRef(X->getConstructor()); o["tc"] = recId(X->getConstructor()->getParent()); o["inh"] = true; o["a"] = Array(); o["t"] = typeStr(X->getType());
      return o;
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E))
    {
      if (auto AT = X->getAllocatedType(); !AT->isDependentType() && !AT->isIncompleteType()) o["sz"] = (int64_t)C.getTypeSizeInChars(AT).getQuantity();
      o["k"] = "new"; 
      if (X->getOperatorNew()) o["fn"] = fnRef(X->getOperatorNew());
      Array pl; for (unsigned i = 0; i < X->getNumPlacementArgs(); i++) pl.push_back(expr(X->getPlacementArg(i)));
      o["pl"] = std::move(pl);
      if (X->getInitializer()) o["e"] = expr(X->getInitializer());
      o["t"] = typeStr(X->getAllocatedType());
      return o;
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E))
    {
      o["k"] = "delete"; o["e"] = expr(X->getArgument()); 
      if (auto *RD = X->getDestroyedType()->getAsCXXRecordDecl()) { o["tc"] = recId(RD); if (RD->hasDefinition() && RD->getDestructor()) o["dtor"] = fnRef(RD->getDestructor()); }
      return o;
    }
    if (auto *X = dyn_cast<UnaryOperator>(E))
    {
      o["k"] = "un"; o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode()).str();
      if (X->isPostfix()) o["post"] = true;
      o["e"] = expr(X->getSubExpr());
      return constOr(E, std::move(o));
    }
    if (auto *X = dyn_cast<BinaryOperator>(E))
    {
      o["k"] = "bin"; o["op"] = X->getOpcodeStr().str(); o["a"] = expr(X->getLHS()); o["b"] = expr(X->getRHS());
      if (X->getType()->isPointerType() && (X->isAdditiveOp() || X->getOpcode() == BO_AddAssign || X->getOpcode() == BO_SubAssign))
        if (auto PT = X->getType()->getPointeeType(); !PT->isDependentType() && !PT->isIncompleteType() && !PT->isFunctionType())
          o["psz"] = (int64_t)C.getTypeSizeInChars(PT).getQuantity();
      o["t"] = typeStr(X->getType());
      return constOr(E, std::move(o));
    }
    if (auto *X = dyn_cast<ConditionalOperator>(E))
    {
      o["k"] = "cond"; o["c"] = expr(X->getCond()); o["a"] = expr(X->getTrueExpr()); o["b"] = expr(X->getFalseExpr());
      return constOr(E, std::move(o));
    }
    if (auto *X = dyn_cast<BinaryConditionalOperator>(E))
    { o["k"] = "elvis"; o["c"] = expr(X->getCommon()); o["b"] = expr(X->getFalseExpr()); return o; }
    if (auto *X = dyn_cast<InitListExpr>(E))
    {
      auto *S = X->isSemanticForm() ? X : X->getSemanticForm() ? X->getSemanticForm() : X;
      o["k"] = "list"; o["a"] = exprs(S->inits()); o["t"] = typeStr(S->getType());
      if (auto *RD = S->getType()->getAsCXXRecordDecl())
      {
        o["tc"] = recId(RD);
        if (RD->getDeclContext()->getRedeclContext()->isTranslationUnit() && RD->hasDefinition() && !RD->isUnion())
        { // structures of C
          llvm::json::Array fs;
          for (auto *F : RD->fields()) fs.push_back(F->getNameAsString());
          o["flds"] = std::move(fs);
        }
      }
      return o;
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) { o["k"] = "zero"; o["t"] = typeStr(E->getType()); return o; }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) { o["k"] = "ilist"; o["e"] = expr(X->getSubExpr()); return o; }
    if (auto *X = dyn_cast<LambdaExpr>(E))
    {
      o["k"] = "lambda";
      auto *Cls = X->getLambdaClass();
      o["tc"] = recId(Cls);
      if (!Cls->isGenericLambda()) o["fn"] = fnRef(X->getCallOperator());
      else
      {
        Array specs;
        if (auto *T = X->getCallOperator()->getDescribedFunctionTemplate())
          for (auto *S : T->specializations()) specs.push_back(fnRef(S));
        o["specs"] = std::move(specs);
        o["generic"] = true;
      }
      Array caps;
      auto fields = Cls->field_begin();
      auto ii = X->capture_init_begin();
      for (auto it = X->capture_begin(); it != X->capture_end(); ++it, ++ii)
      {
        Object c;
        if (it->capturesThis()) { c["k"] = it->getCaptureKind() == LCK_StarThis ? "starthis" : "this"; }
        else if (it->capturesVariable())
        {
          auto *V = it->getCapturedVar();
          c["k"] = it->getCaptureKind() == LCK_ByRef ? "ref" : "copy";
          c["n"] = V->getNameAsString();
          if (auto *VD = dyn_cast<VarDecl>(V)) { c["id"] = varId(VD); if (VD->isInitCapture()) c["init"] = true; 
              if (VD->getType()->isReferenceType()) c["vref"] = true; }
        }
        if (*ii) c["e"] = expr(*ii);
        if (fields != Cls->field_end()) { ++fields; }
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      return o;
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) { o["k"] = "throw"; if (X->getSubExpr()) { o["e"] = expr(X->getSubExpr()); o["t"] = typeStr(X->getSubExpr()->getType()); } return o; }
    if (auto *X = dyn_cast<CoroutineSuspendExpr>(E))
    {
      o["k"] = isa<CoyieldExpr>(E) ? "co_yield" : "co_await";
      if (auto *A = dyn_cast<CoawaitExpr>(E)) { if (A->isImplicit()) o["impl"] = true; }
      o["e"] = expr(X->getOperand());
      o["common"] = expr(X->getCommonExpr());
      o["t"] = typeStr(X->getType());
      // resolved protocol callees
      auto callee = [&](const Expr *e) -> Value {
        struct F : RecursiveASTVisitor<F> { const FunctionDecl *f = nullptr; bool VisitCallExpr(CallExpr *c) { if (!f) { f = c->getDirectCallee(); if (f && !(f->getNameAsString().rfind("await_",0)==0)) f = nullptr; } return true; } bool shouldVisitImplicitCode() const {return true;} } v;
        v.TraverseStmt(const_cast<Expr*>(e));
        if (v.f) return fnRef(v.f);
        return nullptr;
      };
      o["ready"] = callee(X->getReadyExpr());
      o["suspend"] = callee(X->getSuspendExpr());
      o["resume"] = callee(X->getResumeExpr());
      return o;
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E))
    {
      o["k"] = "sizeof"; o["op"] = X->getKind() == UETT_SizeOf ? "sizeof" : "alignof";
      o["t"] = typeStr(X->getTypeOfArgument());
      if (!X->isArgumentType()) { o["e"] = expr(X->getArgumentExpr()); }
      return constOr(E, std::move(o));
    }
    if (auto *X = dyn_cast<ArraySubscriptExpr>(E)) { o["k"] = "idx"; o["a"] = expr(X->getBase()); o["b"] = expr(X->getIdx()); return o; }
    if (auto *X = dyn_cast<CXXPseudoDestructorExpr>(E)) { o["k"] = "pdtor"; o["e"] = expr(X->getBase()); return o; }
    if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) { o["k"] = "bool"; o["v"] = X->getValue(); return o; }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) { o["k"] = "bool"; o["v"] = X->isValueDependent() ? false : X->getValue(); return o; }
    if (isa<ConceptSpecializationExpr>(E) || isa<RequiresExpr>(E))
    { o["k"] = "bool"; bool v = false; if (auto *Y = dyn_cast<ConceptSpecializationExpr>(E)) { if (!Y->isValueDependent()) v = Y->isSatisfied(); } else if (auto *Z = dyn_cast<RequiresExpr>(E)) { if (!Z->isValueDependent()) v = Z->isSatisfied(); } o["v"] = v; return o; }
    if (auto *X = dyn_cast<SizeOfPackExpr>(E)) { o["k"] = "int"; o["v"] = X->isValueDependent() ? 0 : (int64_t)X->getPackLength(); return o; }
    if (auto *X = dyn_cast<OffsetOfExpr>(E)) { o["k"] = "offsetof"; std::string f; for (unsigned i = 0; i < X->getNumComponents(); i++) if (X->getComponent(i).getKind() == OffsetOfNode::Field) f = X->getComponent(i).getField()->getNameAsString(); o["n"] = f; return constOr(E, std::move(o)); }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) { o["k"] = "typeid"; return o; }
    if (auto *X = dyn_cast<PredefinedExpr>(E)) { o["k"] = "str"; return o; }
    if (auto *X = dyn_cast<SourceLocExpr>(E)) { o["k"] = "srcloc"; return o; }
    if (auto *X = dyn_cast<ArrayInitLoopExpr>(E)) { o["k"] = "arrcopy"; o["e"] = expr(X->getCommonExpr()->getSourceExpr()); return o; }
    if (auto *X = dyn_cast<PseudoObjectExpr>(E)) { return expr(X->getResultExpr()); }
    if (auto *X = dyn_cast<StmtExpr>(E)) { o["k"] = "stmtexpr"; o["e"] = stmt(X->getSubStmt()); return o; }
    o["k"] = "other"; o["c"] = E->getStmtClassName();
    Array ch; for (auto *c : E->children()) if (auto *e = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(e));
    o["a"] = std::move(ch);
    return o;
  }

  Value varDecl(const VarDecl *V)
  {
    Object o;
    o["n"] = V->getNameAsString(); o["id"] = varId(V); o["t"] = typeStr(V->getType());
    if (V->getType()->isReferenceType()) o["ref"] = true;
    if (V->hasGlobalStorage()) { o["static"] = true; o["id"] = "g:" + patName(V); if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true; }
    if (V->hasInit()) o["e"] = expr(V->getInit());
    if (auto *RD = V->getType().getNonReferenceType()->getAsCXXRecordDecl())
    {
      o["tc"] = recId(RD);
      if (!V->getType()->isReferenceType() && RD->hasDefinition() && RD->getDestructor() && !RD->hasTrivialDestructor()) o["dtor"] = fnRef(RD->getDestructor());
    }
    if (V->isNRVOVariable()) o["nrvo"] = true;
    if (auto *DD = dyn_cast<DecompositionDecl>(V))
    {
      Array bs;
      for (auto *B : DD->bindings()) { Object b; b["n"] = B->getNameAsString(); if (auto *H = B->getHoldingVar()) { b["id"] = varId(H); if (H->hasInit()) b["e"] = expr(H->getInit()); if (H->getType()->isReferenceType()) b["ref"]=true; b["t"]=typeStr(H->getType()); } bs.push_back(std::move(b)); }
      o["bind"] = std::move(bs);
    }
    o["l"] = (int64_t)lineOf(V->getLocation());
    return o;
  }

  Value stmt(const Stmt *S)
  {
    if (!S) return nullptr;
    if (auto *E = dyn_cast<Expr>(S)) { Object o; o["s"] = "expr"; o["e"] = expr(E); o["l"] = (int64_t)lineOf(S->getBeginLoc()); return o; }
    Object o;
    o["l"] = (int64_t)lineOf(S->getBeginLoc());
    if (auto *X = dyn_cast<CompoundStmt>(S))
    {
      o["s"] = "block"; Array a; for (auto *c : X->body()) a.push_back(stmt(c)); o["b"] = std::move(a); 
      o["le"] = (int64_t)lineOf(S->getEndLoc());
      return o;
    }
    if (auto *X = dyn_cast<DeclStmt>(S))
    {
      o["s"] = "decl"; Array a; for (auto *d : X->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(varDecl(V)); o["v"] = std::move(a); return o;
    }
    if (auto *X = dyn_cast<IfStmt>(S))
    {
      o["s"] = "if";
      if (X->getInit()) o["init"] = stmt(X->getInit());
      if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt());
      if (X->isConsteval()) { o["consteval"] = X->isNegatedConsteval(); }
      else o["c"] = expr(X->getCond());
      if (X->isConstexpr())
      {
        o["constexpr"] = true;
        if (!X->getCond()->isValueDependent()) { Expr::EvalResult R; if (X->getCond()->EvaluateAsInt(R, C)) o["cval"] = R.Val.getInt().getBoolValue(); }
      }
      o["t"] = stmt(X->getThen()); if (X->getElse()) o["f"] = stmt(X->getElse());
      return o;
    }
    if (auto *X = dyn_cast<WhileStmt>(S)) { o["s"] = "while"; if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt()); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<DoStmt>(S)) { o["s"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<ForStmt>(S))
    { o["s"] = "for"; o["init"] = stmt(X->getInit()); o["c"] = X->getCond() ? expr(X->getCond()) : Value(nullptr); o["inc"] = X->getInc() ? expr(X->getInc()) : Value(nullptr); o["b"] = stmt(X->getBody()); return o; }
    if (auto *X = dyn_cast<CXXForRangeStmt>(S))
    {
      o["s"] = "range"; o["range"] = stmt(X->getRangeStmt()); o["begin"] = stmt(X->getBeginStmt()); o["end"] = stmt(X->getEndStmt());
      o["c"] = expr(X->getCond()); o["inc"] = expr(X->getInc()); o["var"] = stmt(X->getLoopVarStmt()); o["b"] = stmt(X->getBody());
      if (X->getInit()) o["init"] = stmt(X->getInit());
      return o;
    }
    if (auto *X = dyn_cast<SwitchStmt>(S))
    { o["s"] = "switch"; if (X->getInit()) o["init"] = stmt(X->getInit()); if (X->getConditionVariableDeclStmt()) o["cv"] = stmt(X->getConditionVariableDeclStmt()); o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody()); o["ct"] = typeStr(X->getCond()->IgnoreImpCasts()->getType());
      return o; }
    if (auto *X = dyn_cast<CaseStmt>(S))
    { o["s"] = "case"; o["c"] = expr(X->getLHS()); 
      Expr::EvalResult R; if (!X->getLHS()->isValueDependent() && X->getLHS()->EvaluateAsInt(R, C)) o["v"] = ext(R.Val.getInt());
      if (X->getRHS()) { if (X->getRHS()->EvaluateAsInt(R, C)) o["v2"] = ext(R.Val.getInt()); }
      o["b"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<DefaultStmt>(S)) { o["s"] = "default"; o["b"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<ReturnStmt>(S)) { o["s"] = "ret"; if (X->getRetValue()) o["e"] = expr(X->getRetValue()); return o; }
    if (auto *X = dyn_cast<CoreturnStmt>(S)) { o["s"] = "co_return"; if (X->getOperand()) o["e"] = expr(X->getOperand()); if (X->getPromiseCall()) o["p"] = expr(X->getPromiseCall()); return o; }
    if (isa<BreakStmt>(S)) { o["s"] = "break"; return o; }
    if (isa<ContinueStmt>(S)) { o["s"] = "continue"; return o; }
    if (isa<NullStmt>(S)) { o["s"] = "null"; return o; }
    if (auto *X = dyn_cast<CXXTryStmt>(S))
    {
      o["s"] = "try"; o["b"] = stmt(X->getTryBlock());
      Array hs;
      for (unsigned i = 0; i < X->getNumHandlers(); i++)
      {
        auto *H = X->getHandler(i);
        Object h; if (H->getExceptionDecl()) { h["v"] = varDecl(H->getExceptionDecl()); h["t"] = typeStr(H->getCaughtType()); }
        h["b"] = stmt(H->getHandlerBlock());
        hs.push_back(std::move(h));
      }
      o["h"] = std::move(hs);
      return o;
    }
    if (auto *X = dyn_cast<CoroutineBodyStmt>(S))
    {
      o["s"] = "coro"; o["b"] = stmt(X->getBody());
      if (X->getPromiseDecl()) { o["pt"] = typeStr(X->getPromiseDecl()->getType()); }
      if (auto *e = X->getInitSuspendStmt()) o["is"] = stmt(e);
      if (auto *e = X->getFinalSuspendStmt()) o["fs"] = stmt(e);
      if (auto *e = X->getExceptionHandler()) o["eh"] = stmt(e);
      if (auto *e = X->getFallthroughHandler()) o["ft"] = stmt(e);
      if (auto *e = X->getReturnValueInit()) o["ri"] = expr(e);
      if (auto *e = X->getAllocate()) o["alloc"] = expr(e);
      if (auto *e = X->getDeallocate()) o["dealloc"] = expr(e);
      return o;
    }
    if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
    if (auto *X = dyn_cast<LabelStmt>(S)) { o["s"] = "label"; o["n"] = X->getName(); o["b"] = stmt(X->getSubStmt()); return o; }
    if (auto *X = dyn_cast<GotoStmt>(S)) { o["s"] = "goto"; o["n"] = X->getLabel()->getNameAsString(); return o; }
    o["s"] = "other"; o["c"] = S->getStmtClassName();
    Array ch; for (auto *c : S->children()) if (c) ch.push_back(stmt(c));
    o["b"] = std::move(ch);
    return o;
  }

  void dumpFunction(const FunctionDecl *F)
  {
    opaque.clear();
    Object o;
    o["id"] = fnId(F);
    o["n"] = patName(F);
    std::string q;
    { llvm::raw_string_ostream os(q); F->getNameForDiagnostic(os, PP, true); }
    o["q"] = q;
    auto f = fileOf(F->getLocation());
    if (f.rfind(Root, 0) == 0) f = f.substr(Root.size());
    o["file"] = f;
    o["line"] = (int64_t)lineOf(F->getLocation());
    Array ps;
    for (auto *P : F->parameters())
    {
      Object p; p["n"] = P->getNameAsString(); p["id"] = varId(P); p["t"] = typeStr(P->getType());
      if (P->getType()->isReferenceType()) p["ref"] = P->getType()->isRValueReferenceType() ? "rr" : P->getType()->getPointeeType().isConstQualified() ? "cr" : "lr";
      if (auto *RD = P->getType().getNonReferenceType()->getAsCXXRecordDecl()) { p["tc"] = recId(RD); 
         if (!P->getType()->isReferenceType() && RD->hasDefinition() && RD->getDestructor() && !RD->hasTrivialDestructor()) p["dtor"] = fnRef(RD->getDestructor()); }
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    o["ret"] = typeStr(F->getReturnType());
    if (auto *RD = F->getReturnType()->getAsCXXRecordDecl()) o["rtc"] = recId(RD);
    if (auto *FP = F->getType()->getAs<FunctionProtoType>()) { if (noThrow(FP)) o["ne"] = true; }
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
    {
      o["cls"] = recId(M->getParent());
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["const"] = true;
      if (M->isVirtual()) o["virtual"] = true;
      if (M->isDefaulted()) o["defaulted"] = true;
      if (M->getParent()->isLambda()) o["lambda"] = true;
      Array ov; for (auto *OM : M->overridden_methods()) ov.push_back(fnId(OM));
      if (!ov.empty()) o["overrides"] = std::move(ov);
      if (M->getRefQualifier() == RQ_RValue) o["rq"] = "&&";
      if (M->getRefQualifier() == RQ_LValue) o["rq"] = "&";
      if (M->isMoveAssignmentOperator()) o["assign"] = "move";
      if (M->isCopyAssignmentOperator()) o["assign"] = "copy";
      o["access"] = M->getAccess() == AS_public ? "pub" : M->getAccess() == AS_private ? "priv" : "prot";
    }
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F))
    {
      o["ctor"] = CD->isMoveConstructor() ? "move" : CD->isCopyConstructor() ? "copy" : CD->isDefaultConstructor() ? "default" : "other";
      if (CD->isDelegatingConstructor()) o["delegating"] = true;
      Array in;
      for (auto *I : CD->inits())
      {
        Object i;
        if (I->isAnyMemberInitializer()) { i["f"] = fieldName(I->getAnyMember()); i["t"] = typeStr(I->getAnyMember()->getType()); if (I->getAnyMember()->getType()->isReferenceType()) i["ref"] = true; 
             if (I->isIndirectMemberInitializer()) { i["indirect"] = true; } }
        else if (I->isBaseInitializer()) { i["b"] = recId(I->getBaseClass()->getAsCXXRecordDecl()); }
        else if (I->isDelegatingInitializer()) i["d"] = true;
        i["e"] = expr(I->getInit());
        i["l"] = (int64_t)lineOf(I->getSourceLocation());
        if (I->isWritten()) i["w"] = true;
        in.push_back(std::move(i));
      }
      o["inits"] = std::move(in);
    }
    if (isa<CXXDestructorDecl>(F)) o["isdtor"] = true;
    if (isa<CXXConversionDecl>(F)) o["conv"] = true;
    if (F->isImplicit()) o["implicit"] = true;
    if (auto *TSI = F->getTemplateSpecializationArgs())
    {
      std::string ta; llvm::raw_string_ostream os(ta); printTemplateArgumentList(os, TSI->asArray(), PP); os.flush(); o["targs"] = ta;
    }
    if (F->getBody()) o["body"] = stmt(F->getBody());
    functions.push_back(std::move(o));
  }

  void dumpRecord(const CXXRecordDecl *R)
  {
    Object o;
    o["id"] = recs[R->getCanonicalDecl()];
    o["n"] = patName(R);
    auto *D = R->getDefinition();
    if (!D || D->isDependentContext()) { records.push_back(std::move(o)); return; }
    auto f = fileOf(D->getLocation());
    bool in = f.rfind(Root, 0) == 0;
    if (in) f = f.substr(Root.size());
    o["file"] = f; o["line"] = (int64_t)lineOf(D->getLocation());
    o["in"] = in;
    Array bs;
    for (auto &B : D->bases()) if (auto *BR = B.getType()->getAsCXXRecordDecl()) bs.push_back(recId(BR));
    o["bases"] = std::move(bs);
    if (in || inRoot(D->getLocation()))
    {
      Array fs;
      for (auto *Fd : D->fields())
      {
        Object fo; fo["n"] = fieldName(Fd); fo["t"] = typeStr(Fd->getType());
        if (Fd->getType()->isReferenceType()) fo["ref"] = true;
        if (Fd->isAnonymousStructOrUnion()) fo["anon"] = true;
        if (auto *RD = Fd->getType().getNonReferenceType()->getAsCXXRecordDecl())
        { fo["tc"] = recId(RD);
          if (!Fd->getType()->isReferenceType() && RD->hasDefinition() && !RD->hasTrivialDestructor() && RD->getDestructor()) fo["dtor"] = fnRef(RD->getDestructor()); }
        fo["access"] = Fd->getAccess() == AS_public ? "pub" : Fd->getAccess() == AS_private ? "priv" : "prot";
        if (Fd->hasInClassInitializer() && Fd->getInClassInitializer()) fo["init"] = expr(Fd->getInClassInitializer());
        fs.push_back(std::move(fo));
      }
      o["fields"] = std::move(fs);
      Array ms;
      for (auto *M : D->methods())
      {
        Object m; m["n"] = patName(M); m["id"] = fnId(M); m["deleted"] = M->isDeleted(); m["defaulted"] = M->isDefaulted();
        if (M->isVirtual()) m["virtual"] = true;
        if (M->isPureVirtual()) m["pure"] = true;
        if (isa<CXXConstructorDecl>(M)) { auto CD = cast<CXXConstructorDecl>(M); m["ctor"] = CD->isMoveConstructor() ? "move" : CD->isCopyConstructor() ? "copy" : "other"; }
        if (M->isMoveAssignmentOperator()) m["assign"] = "move";
        if (M->isCopyAssignmentOperator()) m["assign"] = "copy";
        if (M->isImplicit()) m["implicit"] = true;
        m["access"] = M->getAccess() == AS_public ? "pub" : M->getAccess() == AS_private ? "priv" : "prot";
        m["t"] = typeStr(M->getType());
        if (M->hasAttr<WarnUnusedResultAttr>()) m["nodiscard"] = true;
        ms.push_back(std::move(m));
        if (M->isDefined() || M->doesThisDeclarationHaveABody()) want(M);
        Object dummy;
      }
      // member function template specialisations
      for (auto *DD : D->decls())
        if (auto *FT = dyn_cast<FunctionTemplateDecl>(DD))
          for (auto *S : FT->specializations()) want(S);
      o["methods"] = std::move(ms);
      if (D->getDestructor() && !D->hasTrivialDestructor()) { o["dtor"] = fnRef(D->getDestructor()); }
      if (D->isUnion()) o["union"] = true;
      o["abstract"] = D->isAbstract();
      if (D->hasAttr<WarnUnusedResultAttr>()) o["nodiscard"] = true;
    }
    records.push_back(std::move(o));
  }

  void dumpEnum(const EnumDecl *E)
  {
    Object o; o["n"] = patName(E); o["t"] = typeStr(E->getIntegerType());
    auto f = fileOf(E->getLocation()); if (f.rfind(Root, 0) == 0) f = f.substr(Root.size());
    o["file"] = f; o["line"] = (int64_t)lineOf(E->getLocation());
    Array a; for (auto *c : E->enumerators()) { Object e; e["n"] = c->getNameAsString(); e["v"] = ext(c->getInitVal()); a.push_back(std::move(e)); }
    o["e"] = std::move(a);
    enums.push_back(std::move(o));
  }
};

struct Collect : RecursiveASTVisitor<Collect>
{
  Dumper &D;
  Collect(Dumper &d) : D(d) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool VisitFunctionDecl(FunctionDecl *F)
  {
    if (F->isThisDeclarationADefinition() && !F->isDependentContext() && D.inRoot(F->getLocation())) D.want(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R)
  {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && D.inRoot(R->getLocation())) D.recId(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *E)
  {
    if (E->isThisDeclarationADefinition() && D.inRoot(E->getLocation())) D.dumpEnum(E);
    return true;
  }
  bool TraverseDecl(Decl *X)
  {
    // prune system namespaces fast: only enter decls that may be in root
    return RecursiveASTVisitor<Collect>::TraverseDecl(X);
  }
};

struct Consumer : ASTConsumer
{
  std::string tu;
  Consumer(std::string t) : tu(t) {}
  void HandleTranslationUnit(ASTContext &C) override
  {
    Dumper D(C, tu);
    Collect V(D);
    V.TraverseDecl(C.getTranslationUnitDecl());
    while (!D.queue.empty() || !D.recq.empty())
    {
      if (!D.queue.empty()) { auto *F = D.queue.front(); D.queue.pop_front(); D.dumpFunction(F); }
      else { auto *R = D.recq.front(); D.recq.pop_front(); D.dumpRecord(R); }
    }
    Object o; o["tu"] = tu; o["functions"] = std::move(D.functions); o["records"] = std::move(D.records); o["enums"] = std::move(D.enums);
    std::vector<std::string> deps;
    Array fl;
    for (auto it = C.getSourceManager().fileinfo_begin(); it != C.getSourceManager().fileinfo_end(); ++it)
    { auto rp = it->first.getFileEntry().tryGetRealPathName(); if (rp.starts_with(Root)) fl.push_back(rp.str()); }
    o["files"] = std::move(fl);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutPath, ec);
    os << Value(std::move(o));
  }
};

struct Action : ASTFrontendAction
{
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef In) override
  {
    auto s = In.str();
    auto p = s.rfind('/');
    return std::make_unique<Consumer>(p == std::string::npos ? s : s.substr(p + 1));
  }
};
}

int main(int argc, const char **argv)
{
  // usage: cobalt-extract OUT.json ROOT EXTRA SRC -- flags...
  if (argc < 6) { llvm::errs() << "usage: cobalt-extract OUT ROOT EXTRA SRC -- flags\n"; return 2; }
  OutPath = argv[1]; Root = argv[2]; Extra = argv[3];
  std::string src = argv[4];
  std::vector<std::string> flags(argv + 6, argv + argc);
  clang::tooling::FixedCompilationDatabase DB(".", flags);
  clang::tooling::ClangTool Tool(DB, {src});
  int rc = Tool.run(clang::tooling::newFrontendActionFactory<Action>().get());
  return rc;
}
