// ovsa: extracts a resolved, type-checked intermediate representation of every function defined under a root
// directory (normally /repo) from one translation unit.  One JSON object per line on the output file.
//   {"rec":"fn",...}  function definition (also instantiated templates, constructors, destructors, lambdas inline)
//   {"rec":"class",...} record definition: bases, fields, methods
//   {"rec":"enum",...}
//   {"rec":"types","tab":[...]} type table (always last but one)
//   {"rec":"files","tab":[...]} every file under the root that the unit read
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Attr.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <cstdlib>
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <sstream>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot = "/repo/";
static std::string gOut;
static std::vector<std::string> gExtraRoots;

class Extract : public RecursiveASTVisitor<Extract> {
public:
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  llvm::raw_ostream &OS;
  std::vector<std::string> types;
  std::map<std::string, int> typeIdx;
  std::map<const void *, int> tcache;
  std::map<const Decl *, int> declIds;
  std::set<std::string> seen;
  std::string curFile;
  int nfn = 0;

  Extract(ASTContext &c, llvm::raw_ostream &os) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()), OS(os) {
    PP.SuppressTagKeyword = true;
    PP.Bool = true;
  }
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  std::map<unsigned, bool> fidCache;
  bool rootLoc(SourceLocation L) {
    if (L.isInvalid()) return true;
    L = SM.getExpansionLoc(L);
    FileID F = SM.getFileID(L);
    auto it = fidCache.find(F.getHashValue());
    if (it != fidCache.end()) return it->second;
    bool r = inRoot(fileOf(L));
    fidCache[F.getHashValue()] = r;
    return r;
  }
  // never walk into declarations written outside the root
  bool TraverseDecl(Decl *D) {
    if (D && !isa<TranslationUnitDecl>(D) && !isa<NamespaceDecl>(D) && !isa<LinkageSpecDecl>(D) && !rootLoc(D->getLocation())) return true;
    return RecursiveASTVisitor<Extract>::TraverseDecl(D);
  }

  // ---------------------------------------------------------------- locations
  std::string fileOf(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    auto F = SM.getFilename(L);
    std::string s = F.str();
    if (auto FE = SM.getFileEntryRefForID(SM.getFileID(L))) {
      auto rp = FE->getFileEntry().tryGetRealPathName();
      if (!rp.empty())
        s = rp.str();
    }
    return s;
  }
  unsigned lineOf(SourceLocation L) { return SM.getExpansionLineNumber(L); }
  bool inRoot(const std::string &f) {
    for (auto &r : gExtraRoots)
      if (f.rfind(r, 0) == 0)
        return true;
    return f.rfind(gRoot, 0) == 0 && f.find("matplotlibcpp.h") == std::string::npos && f.find("/_build/") == std::string::npos;
  }
  // ---------------------------------------------------------------- types
  std::string tyStr(QualType T, int depth = 0) {
    if (T.isNull())
      return "?";
    T = T.getCanonicalType();
    if (depth > 5)
      return "..";
    std::string q = T.isConstQualified() ? "const " : "";
    const clang::Type *t = T.getTypePtr();
    if (auto R = dyn_cast<ReferenceType>(t))
      return (isa<RValueReferenceType>(t) ? "RR<" : "R<") + tyStr(R->getPointeeType(), depth) + ">";
    if (auto P = dyn_cast<PointerType>(t))
      return q + "P<" + tyStr(P->getPointeeType(), depth) + ">";
    if (auto A = dyn_cast<ConstantArrayType>(t))
      return "A<" + tyStr(A->getElementType(), depth) + "," + std::to_string(A->getSize().getZExtValue()) + ">";
    if (auto RT = dyn_cast<RecordType>(t)) {
      auto D = RT->getDecl();
      std::string n;
      if (auto CR = dyn_cast<CXXRecordDecl>(D); CR && CR->isLambda())
        return q + "lambda";
      n = ctxName(D->getDeclContext()) + D->getNameAsString();
      if (n.rfind("Eigen::", 0) == 0) {
        int64_t r, c;
        if (eigDims(dyn_cast<CXXRecordDecl>(D), r, c)) return q + "Eig<" + std::to_string(r) + "," + std::to_string(c) + ">";
      }
      if (auto S = dyn_cast<ClassTemplateSpecializationDecl>(D)) {
        n += "<";
        bool first = true;
        int cnt = 0;
        bool isMat = n == "Eigen::Matrix<" || n == "Eigen::Array<";
        for (auto &A : S->getTemplateArgs().asArray()) {
          if (isMat && cnt >= 3)
            break;
          if (A.getKind() == TemplateArgument::Type) {
            std::string s = tyStr(A.getAsType(), depth + 1);
            if (s.rfind("std::allocator", 0) == 0 || s.rfind("std::char_traits", 0) == 0 || s.rfind("Eigen::aligned_allocator", 0) == 0 ||
                s.rfind("std::less", 0) == 0 || s.rfind("std::hash", 0) == 0 || s.rfind("std::equal_to", 0) == 0 || s.rfind("std::default_delete", 0) == 0)
              continue;
            n += (first ? "" : ",") + s;
          } else if (A.getKind() == TemplateArgument::Integral) {
            llvm::SmallString<16> ss;
            A.getAsIntegral().toString(ss, 10);
            n += (first ? "" : ",") + std::string(ss.str());
          } else {
            n += (first ? "" : ",") + std::string("_");
          }
          first = false;
          cnt++;
        }
        n += ">";
      }
      return q + n;
    }
    if (auto ET = dyn_cast<EnumType>(t))
      return q + ET->getDecl()->getQualifiedNameAsString();
    if (auto FT = dyn_cast<FunctionProtoType>(t)) {
      std::string s = "F<" + tyStr(FT->getReturnType(), depth + 1);
      for (auto p : FT->getParamTypes())
        s += "," + tyStr(p, depth + 1);
      return s + ">";
    }
    std::string s = T.getUnqualifiedType().getAsString(PP);
    if (s.size() > 80)
      s = s.substr(0, 80);
    return q + s;
  }
  int ty(QualType T) {
    if (T.isNull())
      return -1;
    T = T.getCanonicalType();
    const void *key = T.getAsOpaquePtr();
    auto it = tcache.find(key);
    if (it != tcache.end())
      return it->second;
    std::string s = tyStr(T);
    auto r = typeIdx.emplace(s, (int)types.size());
    if (r.second)
      types.push_back(s);
    tcache[key] = r.first->second;
    return r.first->second;
  }
  int did(const Decl *D) {
    D = D->getCanonicalDecl();
    auto r = declIds.emplace(D, (int)declIds.size() + 1);
    return r.first->second;
  }
  int64_t enumv(const llvm::APSInt &v) { return v.isRepresentableByInt64() ? v.getExtValue() : -1; }
  // ---------------------------------------------------------------- names
  // enclosing scopes without template arguments and inline namespaces
  std::string ctxName(const DeclContext *DC) {
    std::string r;
    for (; DC && !DC->isTranslationUnit(); DC = DC->getParent()) {
      if (auto N = dyn_cast<NamespaceDecl>(DC)) { if (N->isInline() || N->isAnonymousNamespace()) continue; r = N->getNameAsString() + "::" + r; }
      else if (auto R = dyn_cast<RecordDecl>(DC)) r = R->getNameAsString() + "::" + r;
      else if (auto Fn = dyn_cast<FunctionDecl>(DC)) r = Fn->getNameAsString() + "()::" + r;
    }
    return r;
  }
  // compile-time dimensions of anything deriving from Eigen::DenseBase
  int eigMajor = -1; // storage order seen by the last successful eigDims
  bool eigDims(const CXXRecordDecl *D, int64_t &rows, int64_t &cols, int depth = 0) {
    if (!D || depth > 6) return false;
    D = D->getDefinition();
    if (!D) return false;
    if (D->getNameAsString() == "DenseBase") {
      int got = 0;
      for (auto d : D->decls())
        if (auto En = dyn_cast<EnumDecl>(d))
          for (auto e : En->enumerators()) {
            if (e->getName() == "RowsAtCompileTime") { rows = enumv(e->getInitVal()); got |= 1; }
            if (e->getName() == "ColsAtCompileTime") { cols = enumv(e->getInitVal()); got |= 2; }
            if (e->getName() == "IsRowMajor") eigMajor = (int)enumv(e->getInitVal());
          }
      return got == 3;
    }
    for (auto &b : D->bases())
      if (auto B = b.getType()->getAsCXXRecordDecl())
        if (eigDims(B, rows, cols, depth + 1)) return true;
    return false;
  }
  std::string fnName(const FunctionDecl *F) {
    std::string n;
    if (auto M = dyn_cast<CXXMethodDecl>(F); M && M->getParent()->isLambda())
      return "lambda::operator()";
    if (isa<CXXConstructorDecl>(F)) n = "(ctor)";
    else if (isa<CXXDestructorDecl>(F)) n = "(dtor)";
    else if (isa<CXXConversionDecl>(F)) n = "operator " + tyStr(cast<CXXConversionDecl>(F)->getConversionType(), 3);
    else n = F->getNameAsString();
    return ctxName(F->getDeclContext()) + n;
  }
  json::Array tmplArgs(const FunctionDecl *F) {
    json::Array r;
    if (auto TA = F->getTemplateSpecializationArgs())
      for (auto &A : TA->asArray())
        addTA(r, A);
    return r;
  }
  void addTA(json::Array &r, const TemplateArgument &A) {
    if (A.getKind() == TemplateArgument::Integral) {
      auto v = A.getAsIntegral();
      if (v.isRepresentableByInt64()) r.push_back((int64_t)v.getExtValue()); else r.push_back("big");
    } else if (A.getKind() == TemplateArgument::Type)
      r.push_back(tyStr(A.getAsType(), 1));
    else if (A.getKind() == TemplateArgument::Pack)
      for (auto &B : A.getPackAsArray())
        addTA(r, B);
    else
      r.push_back("_");
  }
  std::string fnKey(const FunctionDecl *F) {
    std::string k = fnName(F);
    auto ta = tmplArgs(F);
    if (!ta.empty()) {
      std::string s;
      llvm::raw_string_ostream o(s);
      o << json::Value(std::move(ta));
      k += s;
    }
    k += "(";
    for (unsigned i = 0; i < F->getNumParams(); i++)
      k += (i ? "," : "") + tyStr(F->getParamDecl(i)->getType());
    k += ")";
    if (auto M = dyn_cast<CXXMethodDecl>(F))
      if (M->isConst())
        k += "c";
    return k;
  }
  // ---------------------------------------------------------------- expressions
  json::Object node(const char *k, const Stmt *S) {
    json::Object o;
    o["k"] = k;
    if (S) {
      o["l"] = (int64_t)lineOf(S->getBeginLoc());
      std::string f = fileOf(S->getBeginLoc());
      if (f != curFile && !f.empty())
        o["f"] = f;
    }
    return o;
  }
  json::Array args(llvm::ArrayRef<const Expr *> A) {
    json::Array r;
    for (auto a : A)
      r.push_back(expr(a));
    return r;
  }
  template <class It> json::Array argsR(It b, It e) {
    json::Array r;
    for (; b != e; ++b)
      r.push_back(expr(*b));
    return r;
  }
  static bool isEigenish(const std::string &s) { return s.rfind("Eigen::", 0) == 0; }
  void putCallee(json::Object &o, const FunctionDecl *F) {
    if (!F) {
      o["fn"] = "?";
      return;
    }
    o["fn"] = fnName(F);
    auto ta = tmplArgs(F);
    if (!ta.empty() && ta.size() < 8) {
      bool ok = true;
      json::Array out;
      for (auto &v : ta)
        out.push_back(v);
      if (ok)
        o["ta"] = std::move(out);
    }
    const FunctionDecl *Def = nullptr;
    std::string f = fileOf(F->getLocation());
    if (F->hasBody(Def) && Def)
      f = fileOf(Def->getLocation());
    if (inRoot(f) || inRoot(fileOf(F->getLocation())))
      o["key"] = fnKey(F);
    // which parameters may be written through
    std::string w;
    bool anyw = false;
    for (unsigned i = 0; i < F->getNumParams(); i++) {
      QualType T = F->getParamDecl(i)->getType();
      char c = 'v';
      if (T->isReferenceType())
        c = T->getPointeeType().isConstQualified() ? 'c' : (T->isRValueReferenceType() ? 'm' : 'w');
      else if (T->isPointerType())
        c = T->getPointeeType().isConstQualified() ? 'q' : 'p';
      w += c;
      if (c == 'w' || c == 'p')
        anyw = true;
    }
    (void)anyw;
    if (!w.empty())
      o["pm"] = w;
    if (F->isVariadic())
      o["va"] = true;
    if (auto M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->isVirtual())
        o["virt"] = true;
      if (M->isConst())
        o["cst"] = true;
      if (M->isStatic())
        o["stat"] = true;
    }
    if (F->isNoReturn() || F->hasAttr<NoReturnAttr>())
      o["noret"] = true;
  }
  json::Value constInt(const Expr *E, const llvm::APSInt &v) {
    auto o = node("int", E);
    if (v.isRepresentableByInt64())
      o["v"] = (int64_t)v.getExtValue();
    else {
      llvm::SmallString<32> ss;
      v.toString(ss, 10);
      o["s"] = std::string(ss.str());
    }
    o["t"] = ty(E->getType());
    return std::move(o);
  }
  json::Value expr(const Expr *E) {
    if (!E)
      return nullptr;
    // strip transparent nodes
    while (true) {
      if (auto P = dyn_cast<ParenExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto P = dyn_cast<ExprWithCleanups>(E)) { E = P->getSubExpr(); continue; }
      if (auto P = dyn_cast<ConstantExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto P = dyn_cast<MaterializeTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto P = dyn_cast<CXXBindTemporaryExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) { E = P->getReplacement(); continue; }
      if (auto P = dyn_cast<CXXDefaultArgExpr>(E)) { E = P->getExpr(); continue; }
      if (auto P = dyn_cast<CXXDefaultInitExpr>(E)) { E = P->getExpr(); continue; }
      if (auto P = dyn_cast<CXXStdInitializerListExpr>(E)) { E = P->getSubExpr(); continue; }
      if (auto P = dyn_cast<OpaqueValueExpr>(E); P && P->getSourceExpr()) { E = P->getSourceExpr(); continue; }
      if (auto P = dyn_cast<CXXRewrittenBinaryOperator>(E)) { E = P->getSemanticForm(); continue; }
      if (auto P = dyn_cast<CastExpr>(E)) {
        bool keep = false;
        switch (P->getCastKind()) {
        case CK_FloatingToIntegral: case CK_IntegralToFloating: case CK_IntegralToBoolean: case CK_FloatingToBoolean:
        case CK_PointerToBoolean: case CK_Dynamic: case CK_FloatingCast:
          keep = true; break;
        case CK_IntegralCast:
          keep = isa<ExplicitCastExpr>(P); break;
        default: break;
        }
        if (isa<ExplicitCastExpr>(P) && P->getCastKind() == CK_BaseToDerived) keep = true;
        if (keep) {
          // a literal int converted to double is just a double literal
          auto o = node("cast", E);
          o["ck"] = P->getCastKindName();
          o["t"] = ty(P->getType());
          if (isa<ExplicitCastExpr>(P)) o["ex"] = true;
          o["e"] = expr(P->getSubExpr());
          return std::move(o);
        }
        E = P->getSubExpr();
        continue;
      }
      break;
    }
    if (auto L = dyn_cast<IntegerLiteral>(E)) {
      return constInt(E, llvm::APSInt(L->getValue(), !L->getType()->isSignedIntegerType()));
    }
    if (auto L = dyn_cast<CharacterLiteral>(E)) {
      auto o = node("char", E); o["v"] = (int64_t)L->getValue(); return std::move(o);
    }
    if (auto L = dyn_cast<FloatingLiteral>(E)) {
      auto o = node("flt", E);
      llvm::SmallString<64> ss; 
      double d = L->getValueAsApproximateDouble();
      char buf[64]; snprintf(buf, sizeof buf, "%.17g", d);
      o["v"] = std::string(buf); o["t"] = ty(E->getType());
      return std::move(o);
    }
    if (auto L = dyn_cast<StringLiteral>(E)) {
      auto o = node("str", E);
      std::string v = L->getCharByteWidth() == 1 ? L->getString().str() : std::string("?");
      if (!json::isUTF8(v)) v = json::fixUTF8(v);
      o["v"] = v; return std::move(o);
    }
    if (auto L = dyn_cast<CXXBoolLiteralExpr>(E)) {
      auto o = node("bool", E); o["v"] = L->getValue(); return std::move(o);
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", E);
    if (isa<SourceLocExpr>(E) || isa<PredefinedExpr>(E)) { auto o = node("str", E); o["v"] = "__func__"; return std::move(o); }
    if (isa<CXXThisExpr>(E)) { auto o = node("this", E); o["t"] = ty(E->getType()); return std::move(o); }
    if (auto D = dyn_cast<DeclRefExpr>(E)) {
      auto VD = D->getDecl();
      if (auto EC = dyn_cast<EnumConstantDecl>(VD)) {
        auto o = node("enum", E); o["n"] = EC->getQualifiedNameAsString();
        o["v"] = enumv(EC->getInitVal()); o["t"] = ty(E->getType()); return std::move(o);
      }
      if (auto F = dyn_cast<FunctionDecl>(VD)) {
        auto o = node("fnref", E); putCallee(o, F); return std::move(o);
      }
      auto o = node("var", E);
      o["n"] = VD->getNameAsString();
      o["t"] = ty(VD->getType());
      if (auto V = dyn_cast<VarDecl>(VD)) {
        if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["g"] = V->getQualifiedNameAsString(); 
          if (auto I = V->getAnyInitializer(); I && V->getType().isConstQualified() && !I->isValueDependent()) {
            Expr::EvalResult R; if (I->EvaluateAsInt(R, C)) return constInt(E, R.Val.getInt());
          } }
        else { o["id"] = did(VD); if (V->isStaticLocal()) o["sl"] = true; if (isa<ParmVarDecl>(V)) o["p"] = true; }
      } else o["id"] = did(VD);
      if (auto B = dyn_cast<BindingDecl>(VD)) { o["bind"] = true; }
      return std::move(o);
    }
    if (auto M = dyn_cast<MemberExpr>(E)) {
      if (auto FD = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        auto o = node("mem", E);
        o["n"] = FD->getNameAsString();
        o["c"] = FD->getParent()->getQualifiedNameAsString();
        o["t"] = ty(FD->getType());
        if (M->isArrow()) o["arrow"] = true;
        o["o"] = expr(M->getBase());
        return std::move(o);
      }
      if (auto V = dyn_cast<VarDecl>(M->getMemberDecl())) {
        if (auto I = V->getAnyInitializer(); I && V->getType().isConstQualified() && !I->isValueDependent()) {
            Expr::EvalResult R; if (I->EvaluateAsInt(R, C)) return constInt(E, R.Val.getInt()); }
        auto o = node("var", E); o["n"] = V->getNameAsString(); o["g"] = V->getQualifiedNameAsString(); o["t"] = ty(V->getType()); return std::move(o);
      }
      auto o = node("memfn", E);
      if (auto F = dyn_cast<FunctionDecl>(M->getMemberDecl())) putCallee(o, F);
      o["o"] = expr(M->getBase());
      return std::move(o);
    }
    if (auto O = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto o = node("op", E);
      o["op"] = getOperatorSpelling(O->getOperator());
      putCallee(o, O->getDirectCallee());
      o["a"] = argsR(O->arg_begin(), O->arg_end());
      if (auto M = dyn_cast_or_null<CXXMethodDecl>(O->getDirectCallee())) o["m"] = true;
      o["t"] = ty(E->getType());
      return std::move(o);
    }
    if (auto M = dyn_cast<CXXMemberCallExpr>(E)) {
      auto o = node("call", E);
      putCallee(o, M->getMethodDecl());
      if (auto ME = dyn_cast<MemberExpr>(M->getCallee()->IgnoreParenImpCasts())) {
        o["o"] = expr(ME->getBase());
        if (ME->isArrow()) o["arrow"] = true;
        if (ME->hasQualifier()) o.erase("virt");
        o["ot"] = ty(ME->getBase()->getType());
      } else o["o"] = expr(M->getImplicitObjectArgument());
      o["a"] = argsR(M->arg_begin(), M->arg_end());
      o["t"] = ty(E->getType());
      return std::move(o);
    }
    if (auto Cc = dyn_cast<CallExpr>(E)) {
      auto o = node("call", E);
      if (auto F = Cc->getDirectCallee()) putCallee(o, F);
      else { o["fn"] = "?"; o["ce"] = expr(Cc->getCallee()); }
      o["a"] = argsR(Cc->arg_begin(), Cc->arg_end());
      o["t"] = ty(E->getType());
      return std::move(o);
    }
    if (auto K = dyn_cast<CXXConstructExpr>(E)) {
      auto CD = K->getConstructor();
      if ((CD->isCopyOrMoveConstructor()) && K->getNumArgs() == 1) {
        // value copy: transparent apart from being a copy
        auto o = node("copy", E);
        if (CD->isMoveConstructor()) o["mv"] = true;
        o["t"] = ty(E->getType());
        o["e"] = expr(K->getArg(0));
        return std::move(o);
      }
      auto o = node("ctor", E);
      o["c"] = CD->getParent()->getQualifiedNameAsString();
      putCallee(o, CD);
      o["a"] = argsR(K->arg_begin(), K->arg_end());
      if (K->isListInitialization()) o["li"] = true;
      if (CD->getParent()->getName() == "Map") {
        int64_t r, c;
        eigMajor = -1;
        if (eigDims(CD->getParent(), r, c)) o["maj"] = eigMajor;
      }
      o["t"] = ty(E->getType());
      return std::move(o);
    }
    if (auto V = dyn_cast<CXXScalarValueInitExpr>(E)) { auto o = node("zero", E); o["t"] = ty(E->getType()); return std::move(o); }
    if (isa<ImplicitValueInitExpr>(E)) { auto o = node("zero", E); o["t"] = ty(E->getType()); return std::move(o); }
    if (auto U = dyn_cast<UnaryOperator>(E)) {
      if (U->getOpcode() == UO_Extension || U->getOpcode() == UO_Plus) return expr(U->getSubExpr());
      auto o = node("un", E);
      o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      if (U->isPostfix()) o["post"] = true;
      o["e"] = expr(U->getSubExpr());
      o["t"] = ty(E->getType());
      return std::move(o);
    }
    if (auto B = dyn_cast<BinaryOperator>(E)) {
      auto o = node("bin", E);
      o["op"] = B->getOpcodeStr().str();
      o["a"] = expr(B->getLHS());
      o["b"] = expr(B->getRHS());
      o["t"] = ty(E->getType());
      if (auto CA = dyn_cast<CompoundAssignOperator>(B)) o["ct"] = ty(CA->getComputationResultType());
      return std::move(o);
    }
    if (auto Q = dyn_cast<AbstractConditionalOperator>(E)) {
      auto o = node("cond", E);
      o["c"] = expr(Q->getCond()); o["a"] = expr(Q->getTrueExpr()); o["b"] = expr(Q->getFalseExpr());
      o["t"] = ty(E->getType());
      return std::move(o);
    }
    if (auto S = dyn_cast<ArraySubscriptExpr>(E)) {
      auto o = node("idx", E); o["a"] = expr(S->getBase()); o["b"] = expr(S->getIdx()); o["t"] = ty(E->getType()); return std::move(o);
    }
    if (auto N = dyn_cast<CXXNewExpr>(E)) {
      auto o = node("new", E); o["t"] = ty(N->getAllocatedType()); o["e"] = expr(N->getInitializer());
      if (N->isArray() && N->getArraySize() && *N->getArraySize()) o["sz"] = expr(*N->getArraySize());
      return std::move(o);
    }
    if (auto N = dyn_cast<CXXDeleteExpr>(E)) { auto o = node("delete", E); o["e"] = expr(N->getArgument()); return std::move(o); }
    if (auto T = dyn_cast<CXXThrowExpr>(E)) { auto o = node("throw", E); o["e"] = expr(T->getSubExpr()); return std::move(o); }
    if (auto I = dyn_cast<InitListExpr>(E)) {
      if (I->isSyntacticForm() && I->getSemanticForm()) I = I->getSemanticForm();
      auto o = node("list", E);
      json::Array r; for (auto x : I->inits()) r.push_back(expr(x));
      o["a"] = std::move(r); o["t"] = ty(E->getType()); return std::move(o);
    }
    if (auto L = dyn_cast<LambdaExpr>(E)) {
      auto o = node("lambda", E);
      json::Array caps;
      for (auto &c : L->captures()) {
        json::Object co;
        if (c.capturesThis()) co["this"] = true;
        else if (c.capturesVariable()) { co["id"] = did(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); co["t"] = ty(c.getCapturedVar()->getType());
          if (auto V = dyn_cast<VarDecl>(c.getCapturedVar()); V && V->isInitCapture()) co["init"] = expr(V->getInit()); }
        co["ref"] = c.getCaptureKind() == LCK_ByRef;
        caps.push_back(std::move(co));
      }
      o["caps"] = std::move(caps);
      json::Array ps;
      for (auto p : L->getCallOperator()->parameters()) ps.push_back(param(p));
      o["ps"] = std::move(ps);
      o["rt"] = ty(L->getCallOperator()->getReturnType());
      o["body"] = stmt(L->getBody());
      return std::move(o);
    }
    if (auto U = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult R;
      if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) return constInt(E, R.Val.getInt());
    }
    if (auto T = dyn_cast<CXXTypeidExpr>(E)) return node("typeid", E);
    if (auto SE = dyn_cast<StmtExpr>(E)) { auto o = node("stmtexpr", E); o["b"] = stmt(SE->getSubStmt()); return std::move(o); }
    {
      Expr::EvalResult R;
      if (!E->isValueDependent() && !E->isTypeDependent() && E->getType()->isIntegralOrEnumerationType() && E->EvaluateAsInt(R, C)) return constInt(E, R.Val.getInt());
    }
    auto o = node("unk", E);
    o["cls"] = E->getStmtClassName();
    json::Array ch;
    for (auto c : E->children())
      if (auto ce = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(ce));
    o["ch"] = std::move(ch);
    return std::move(o);
  }
  json::Object param(const ParmVarDecl *p) {
    json::Object o;
    o["id"] = did(p); o["n"] = p->getNameAsString(); o["t"] = ty(p->getType());
    return o;
  }
  json::Value varDecl(const VarDecl *V) {
    json::Object o;
    o["k"] = "vd";
    o["id"] = did(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType());
    o["l"] = (int64_t)lineOf(V->getLocation());
    if (V->isStaticLocal()) o["static"] = true;
    if (V->getInit()) o["i"] = expr(V->getInit());
    if (auto DD = dyn_cast<DecompositionDecl>(V)) {
      json::Array b;
      for (auto x : DD->bindings()) { json::Object bo; bo["id"] = did(x); bo["n"] = x->getNameAsString(); 
        if (x->getBinding()) bo["e"] = expr(x->getBinding());
        b.push_back(std::move(bo)); }
      o["binds"] = std::move(b);
    }
    return std::move(o);
  }
  // ---------------------------------------------------------------- statements
  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    if (auto E = dyn_cast<Expr>(S)) { auto o = node("expr", S); o["e"] = expr(E); return std::move(o); }
    if (auto B = dyn_cast<CompoundStmt>(S)) {
      auto o = node("block", S);
      json::Array r; for (auto x : B->body()) { auto v = stmt(x); if (v.kind() != json::Value::Null) r.push_back(std::move(v)); }
      o["b"] = std::move(r);
      o["le"] = (int64_t)lineOf(B->getEndLoc());
      return std::move(o);
    }
    if (auto D = dyn_cast<DeclStmt>(S)) {
      auto o = node("decl", S); json::Array r;
      for (auto d : D->decls()) if (auto V = dyn_cast<VarDecl>(d)) r.push_back(varDecl(V));
      o["v"] = std::move(r); return std::move(o);
    }
    if (auto I = dyn_cast<IfStmt>(S)) {
      auto o = node("if", S);
      if (I->isConstexpr() && !I->getCond()->isValueDependent()) {
        Expr::EvalResult R;
        if (I->getCond()->EvaluateAsInt(R, C)) return R.Val.getInt() != 0 ? stmt(I->getThen()) : stmt(I->getElse());
      }
      if (I->getInit()) o["init"] = stmt(I->getInit());
      if (I->getConditionVariable()) o["cv"] = varDecl(I->getConditionVariable());
      o["c"] = expr(I->getCond()); o["a"] = stmt(I->getThen()); 
      if (I->getElse()) o["b"] = stmt(I->getElse());
      return std::move(o);
    }
    if (auto F = dyn_cast<ForStmt>(S)) {
      auto o = node("for", S);
      if (F->getInit()) o["init"] = stmt(F->getInit());
      if (F->getCond()) o["c"] = expr(F->getCond());
      if (F->getInc()) o["inc"] = expr(F->getInc());
      o["b"] = stmt(F->getBody());
      return std::move(o);
    }
    if (auto F = dyn_cast<CXXForRangeStmt>(S)) {
      auto o = node("rfor", S);
      o["range"] = expr(F->getRangeInit());
      if (F->getRangeInit()) o["rt"] = ty(F->getRangeInit()->getType());
      o["v"] = varDecl(F->getLoopVariable());
      o["b"] = stmt(F->getBody());
      return std::move(o);
    }
    if (auto W = dyn_cast<WhileStmt>(S)) {
      auto o = node("while", S); 
      if (W->getConditionVariable()) o["cv"] = varDecl(W->getConditionVariable());
      o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody()); return std::move(o);
    }
    if (auto W = dyn_cast<DoStmt>(S)) { auto o = node("do", S); o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody()); return std::move(o); }
    if (auto R = dyn_cast<ReturnStmt>(S)) { auto o = node("ret", S); if (R->getRetValue()) o["e"] = expr(R->getRetValue()); return std::move(o); }
    if (isa<BreakStmt>(S)) return node("break", S);
    if (isa<ContinueStmt>(S)) return node("continue", S);
    if (isa<NullStmt>(S)) return nullptr;
    if (auto W = dyn_cast<SwitchStmt>(S)) { auto o = node("switch", S); o["c"] = expr(W->getCond()); o["b"] = stmt(W->getBody()); return std::move(o); }
    if (auto W = dyn_cast<CaseStmt>(S)) { auto o = node("case", S); o["c"] = expr(W->getLHS()); o["b"] = stmt(W->getSubStmt()); return std::move(o); }
    if (auto W = dyn_cast<DefaultStmt>(S)) { auto o = node("default", S); o["b"] = stmt(W->getSubStmt()); return std::move(o); }
    if (auto T = dyn_cast<CXXTryStmt>(S)) {
      auto o = node("try", S); o["b"] = stmt(T->getTryBlock()); json::Array h;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) h.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
      o["h"] = std::move(h); return std::move(o);
    }
    if (auto A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
    auto o = node("unks", S);
    o["cls"] = S->getStmtClassName();
    json::Array ch;
    for (auto c : S->children()) if (c) ch.push_back(stmt(c));
    o["ch"] = std::move(ch);
    return std::move(o);
  }
  // ---------------------------------------------------------------- declarations
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (!F->isThisDeclarationADefinition() || !F->hasBody() || F->isDependentContext()) return true;
    if (F->isDefaulted() && F->isImplicit()) return true;
    if (auto M = dyn_cast<CXXMethodDecl>(F); M && M->getParent()->isLambda()) return true;
    std::string file = fileOf(F->getLocation());
    if (!inRoot(file)) return true;
    std::string key = fnKey(F);
    if (!seen.insert("F" + key).second) return true;
    curFile = file;
    json::Object o;
    o["rec"] = "fn"; o["key"] = key; o["n"] = fnName(F); o["file"] = file; o["l"] = (int64_t)lineOf(F->getLocation());
    o["le"] = (int64_t)lineOf(F->getEndLoc());
    auto ta = tmplArgs(F);
    if (!ta.empty()) o["ta"] = std::move(ta);
    json::Array ps; for (auto p : F->parameters()) ps.push_back(param(p));
    o["ps"] = std::move(ps);
    o["rt"] = ty(F->getReturnType());
    if (auto M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = M->getParent()->getQualifiedNameAsString();
      if (M->isStatic()) o["stat"] = true;
      if (M->isConst()) o["cst"] = true;
      if (M->isVirtual()) o["virt"] = true;
      json::Array ov;
      for (auto b : M->overridden_methods()) ov.push_back(fnKey(b));
      if (!ov.empty()) o["over"] = std::move(ov);
      o["acc"] = (int64_t)M->getAccess();
    }
    if (auto K = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array is;
      for (auto I : K->inits()) {
        json::Object io;
        if (I->isAnyMemberInitializer()) { io["m"] = I->getAnyMember()->getNameAsString(); io["t"] = ty(I->getAnyMember()->getType()); io["w"] = I->isWritten();}
        else if (I->isBaseInitializer()) { io["base"] = tyStr(QualType(I->getBaseClass(), 0)); }
        else if (I->isDelegatingInitializer()) io["deleg"] = true;
        io["e"] = expr(I->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(F->getBody());
    OS << json::Value(std::move(o)) << "\n";
    nfn++;
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return true;
    std::string file = fileOf(R->getLocation());
    if (!inRoot(file)) return true;
    std::string n = R->getQualifiedNameAsString();
    if (!seen.insert("C" + n).second) return true;
    curFile = file;
    json::Object o;
    o["rec"] = "class"; o["n"] = n; o["file"] = file; o["l"] = (int64_t)lineOf(R->getLocation());
    json::Array b; for (auto &x : R->bases()) b.push_back(tyStr(x.getType()));
    o["bases"] = std::move(b);
    json::Array fs;
    for (auto f : R->fields()) {
      json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = ty(f->getType()); fo["l"] = (int64_t)lineOf(f->getLocation()); fo["acc"] = (int64_t)f->getAccess();
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["i"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    json::Array ms;
    for (auto m : R->methods()) {
      if (m->isImplicit()) continue;
      json::Object mo; mo["key"] = fnKey(m); mo["acc"] = (int64_t)m->getAccess(); if (m->isVirtual()) mo["virt"] = true; if (m->isPureVirtual()) mo["pure"] = true;
      ms.push_back(std::move(mo));
    }
    o["methods"] = std::move(ms);
    OS << json::Value(std::move(o)) << "\n";
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition()) return true;
    std::string file = fileOf(D->getLocation());
    if (!inRoot(file)) return true;
    std::string n = D->getQualifiedNameAsString();
    if (!seen.insert("E" + n).second) return true;
    json::Object o; o["rec"] = "enum"; o["n"] = n; o["file"] = file; json::Array v;
    for (auto e : D->enumerators()) { json::Object eo; eo["n"] = e->getQualifiedNameAsString(); eo["v"] = enumv(e->getInitVal()); v.push_back(std::move(eo)); }
    o["v"] = std::move(v);
    OS << json::Value(std::move(o)) << "\n";
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (!V->hasGlobalStorage() || V->isStaticLocal() || V->getDeclContext()->isDependentContext()) return true;
    if (V->isThisDeclarationADefinition() == VarDecl::DeclarationOnly) return true;
    std::string file = fileOf(V->getLocation());
    if (!inRoot(file)) return true;
    std::string n = V->getQualifiedNameAsString();
    if (!seen.insert("V" + n).second) return true;
    curFile = file;
    json::Object o; o["rec"] = "gvar"; o["n"] = n; o["file"] = file; o["t"] = ty(V->getType()); o["l"] = (int64_t)lineOf(V->getLocation());
    if (V->getInit()) o["i"] = expr(V->getInit());
    OS << json::Value(std::move(o)) << "\n";
    return true;
  }
};

// the compiler's own diagnostics about the analysed sources
struct DiagRec { std::string file, group, msg; unsigned line; };
static std::vector<DiagRec> gDiags;
class DiagCap : public DiagnosticConsumer {
public:
  void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &D) override {
    DiagnosticConsumer::HandleDiagnostic(L, D);
    SmallString<256> m; D.FormatDiagnostic(m);
    if (L >= DiagnosticsEngine::Error) llvm::errs() << "error: " << m << "\n";
    if (L != DiagnosticsEngine::Warning || !D.hasSourceManager() || D.getLocation().isInvalid()) return;
    auto &SM = D.getSourceManager();
    SourceLocation loc = SM.getExpansionLoc(D.getLocation());
    auto FE = SM.getFileEntryRefForID(SM.getFileID(loc));
    if (!FE) return;
    gDiags.push_back({FE->getFileEntry().tryGetRealPathName().str(), DiagnosticIDs::getWarningOptionForDiag(D.getID()).str(), m.str().str(), SM.getExpansionLineNumber(loc)});
  }
};

class Consumer : public ASTConsumer {
public:
  CompilerInstance &CI;
  Consumer(CompilerInstance &ci) : CI(ci) {}
  // the printing function is declared without a format attribute: give it one, so that every call is type checked
  void HandleTagDeclDefinition(TagDecl *D) override {
    auto R = dyn_cast<CXXRecordDecl>(D);
    if (!R || R->getQualifiedNameAsString() != "ov_core::Printer") return;
    for (auto M : R->methods())
      if (M->isVariadic() && M->getNumParams() >= 1 && !M->hasAttr<FormatAttr>())
        M->addAttr(FormatAttr::CreateImplicit(CI.getASTContext(), &CI.getASTContext().Idents.get("printf"), M->getNumParams() + (M->isStatic() ? 0 : 1), M->getNumParams() + (M->isStatic() ? 1 : 2)));
  }
  // bodies of functions defined outside the root are never looked at: do not parse (and instantiate) them
  bool shouldSkipFunctionBody(Decl *D) override {
    auto &SM = CI.getSourceManager();
    SourceLocation L = SM.getExpansionLoc(D->getLocation());
    std::string s = SM.getFilename(L).str();
    if (s.find("..") != std::string::npos || s.rfind("/usr/", 0) != 0) return false;
    return true;
  }
  void HandleTranslationUnit(ASTContext &Ctx) override {
    std::error_code EC;
    llvm::raw_fd_ostream os(gOut, EC);
    Extract X(Ctx, os);
    X.TraverseDecl(Ctx.getTranslationUnitDecl());
    json::Object o; o["rec"] = "types";
    json::Array t; for (auto &s : X.types) t.push_back(json::fixUTF8(s));
    o["tab"] = std::move(t);
    os << json::Value(std::move(o)) << "\n";
    json::Object fo; fo["rec"] = "files"; json::Array fs; std::set<std::string> fset;
    auto &SM = Ctx.getSourceManager();
    for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it) {
      std::string rp = it->first.getFileEntry().tryGetRealPathName().str();
      if (rp.rfind(gRoot, 0) == 0) fset.insert(rp);
    }
    for (auto &s : fset) fs.push_back(s);
    fo["tab"] = std::move(fs);
    json::Array ds;
    for (auto &d : gDiags) if (d.file.rfind(gRoot, 0) == 0) { json::Object e; e["f"] = d.file; e["g"] = d.group; e["m"] = json::fixUTF8(d.msg); e["l"] = (int64_t)d.line; ds.push_back(std::move(e)); }
    fo["diags"] = std::move(ds);
    fo["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
    os << json::Value(std::move(fo)) << "\n";
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef) override { CI.getFrontendOpts().SkipFunctionBodies = true; return std::make_unique<Consumer>(CI); }
};

// usage: ovsa ROOT OUT.json SOURCE [--extra-root DIR] -- compiler flags
int main(int argc, const char **argv) {
  if (argc < 5) { std::cerr << "usage: ovsa ROOT OUT SRC [--extra-root D] -- flags\n"; return 2; }
  gRoot = argv[1]; if (gRoot.back() != '/') gRoot += '/';
  gOut = argv[2];
  std::string src = argv[3];
  int i = 4;
  for (; i < argc && std::string(argv[i]) != "--"; i++)
    if (std::string(argv[i]) == "--extra-root") gExtraRoots.push_back(argv[++i]);
  std::vector<std::string> flags;
  for (i++; i < argc; i++) flags.push_back(argv[i]);
  clang::tooling::FixedCompilationDatabase db(".", flags);
  clang::tooling::ClangTool T(db, {src});
  DiagCap cap; T.setDiagnosticConsumer(&cap);
  int rc = T.run(clang::tooling::newFrontendActionFactory<Action>().get());
  return rc;
}
