// Clang-18 plugin: dumps, as compact JSON, every function definition that lives under the repository
// root (including each implicit template instantiation and lambda body), the class layouts and the
// evaluated constexpr tables those functions refer to. It performs no rewriting beyond dropping
// nodes that carry no meaning of their own (parentheses, cleanups, temporaries' bindings).
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>

using namespace clang;
namespace {
std::string esc(const std::string &s) {
  std::string r = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { r += '\\'; r += c; }
    else if (c < 32 || c >= 127) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
    else r += c;
  }
  return r + "\"";
}

class Dumper : public RecursiveASTVisitor<Dumper> {
  ASTContext &C; std::string Root; std::string Out; ASTNameGenerator Names; llvm::raw_fd_ostream &OS;
  std::map<std::string, int> types; std::vector<std::string> typeRecs;
  std::map<const Decl *, int> ids; std::set<std::string> doneFn; std::map<std::string, std::string> decls, globals, classes;
  std::vector<std::string> fns; std::set<const FunctionDecl *> pending;
public:
  Dumper(ASTContext &C, std::string Root, llvm::raw_fd_ostream &OS) : C(C), Root(Root), Names(C), OS(OS) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }
  bool shouldVisitLambdaBody() const { return true; }

  int id(const Decl *D) { D = D->getCanonicalDecl(); auto it = ids.find(D); if (it != ids.end()) return it->second; int n = ids.size(); ids[D] = n; return n; }
  std::string file(SourceLocation L, unsigned *line = nullptr) {
    L = C.getSourceManager().getExpansionLoc(L); if (L.isInvalid()) return "";
    auto P = C.getSourceManager().getPresumedLoc(L); if (P.isInvalid()) return ""; if (line) *line = P.getLine(); return P.getFilename();
  }
  bool inRepo(const Decl *D) { std::string f = file(D->getLocation()); return f.rfind(Root, 0) == 0; }

  int ty(QualType Q) {
    QualType K = Q.getCanonicalType(); bool cst = K.isConstQualified(); std::string s = K.getAsString();
    if (auto *RT = K->getAs<RecordType>()) if (RT->getAsCXXRecordDecl() && RT->getAsCXXRecordDecl()->isLambda()) s += " #" + std::to_string(id(RT->getAsCXXRecordDecl()));
    auto it = types.find(s); if (it != types.end()) return it->second;
    int n = types.size(); types[s] = n; typeRecs.emplace_back();
    std::string r = "{\"s\":" + esc(s);
    QualType U = K.getUnqualifiedType();
    if (cst) r += ",\"const\":1";
    if (U->isReferenceType()) r += ",\"c\":\"ref\",\"e\":" + std::to_string(ty(U->getPointeeType())) + (U->isRValueReferenceType() ? ",\"rv\":1" : "");
    else if (U->isPointerType()) r += ",\"c\":\"ptr\",\"e\":" + std::to_string(ty(U->getPointeeType()));
    else if (U->isBooleanType()) r += ",\"c\":\"bool\"";
    else if (U->isEnumeralType()) { auto *E = U->castAs<EnumType>()->getDecl(); r += ",\"c\":\"enum\",\"n\":" + esc(E->getQualifiedNameAsString()) + ",\"bits\":" + std::to_string(C.getTypeSize(U)) + ",\"sg\":" + (E->getIntegerType()->isSignedIntegerType() ? "1" : "0"); }
    else if (U->isIntegerType()) r += ",\"c\":\"int\",\"bits\":" + std::to_string(C.getTypeSize(U)) + ",\"sg\":" + (U->isSignedIntegerType() ? "1" : "0");
    else if (U->isFloatingType()) r += ",\"c\":\"float\",\"bits\":" + std::to_string(C.getTypeSize(U));
    else if (U->isVoidType()) r += ",\"c\":\"void\"";
    else if (U->isNullPtrType()) r += ",\"c\":\"nullptr\"";
    else if (U->isFunctionType()) r += ",\"c\":\"func\"";
    else if (auto *AT = C.getAsConstantArrayType(U)) r += ",\"c\":\"array\",\"e\":" + std::to_string(ty(AT->getElementType())) + ",\"n\":" + std::to_string(AT->getSize().getZExtValue());
    else if (auto *IT = C.getAsIncompleteArrayType(U)) r += ",\"c\":\"array\",\"e\":" + std::to_string(ty(IT->getElementType())) + ",\"n\":0";
    else if (auto *RD = U->getAsCXXRecordDecl()) {
      r += ",\"c\":\"rec\",\"n\":" + esc(RD->getQualifiedNameAsString());
      if (RD->isLambda()) r += ",\"lam\":" + std::to_string(id(RD));
      if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(RD)) { r += ",\"ta\":["; bool f = true; for (auto &A : S->getTemplateArgs().asArray()) { if (!f) r += ","; f = false; r += targ(A); } r += "]"; }
      if (inRepo(RD) && !RD->isLambda()) cls(RD);
    } else r += ",\"c\":\"other\"";
    typeRecs[n] = r + "}"; return n;
  }
  std::string targ(const TemplateArgument &A) {
    switch (A.getKind()) {
    case TemplateArgument::Type: return std::to_string(ty(A.getAsType()));
    case TemplateArgument::Integral: return "{\"i\":\"" + std::string(llvm::toString(A.getAsIntegral(), 10)) + "\"}";
    case TemplateArgument::Pack: { std::string r = "["; bool f = true; for (auto &B : A.pack_elements()) { if (!f) r += ","; f = false; r += targ(B); } return r + "]"; }
    default: return "null";
    }
  }
  void cls(const CXXRecordDecl *RD) {
    RD = RD->getDefinition(); if (!RD || RD->isDependentType()) return; std::string n = RD->getQualifiedNameAsString();
    if (classes.count(n)) return; classes[n] = "";
    std::string r = "{\"bases\":["; bool f = true;
    for (auto &B : RD->bases()) { if (!f) r += ","; f = false; r += std::to_string(ty(B.getType())); }
    r += "],\"fields\":["; f = true;
    for (auto *F : RD->fields()) { if (!f) r += ","; f = false; r += "{\"n\":" + esc(F->getNameAsString()) + ",\"t\":" + std::to_string(ty(F->getType())); if (F->hasInClassInitializer() && F->getInClassInitializer()) r += ",\"init\":" + ex(F->getInClassInitializer()); r += "}"; }
    r += "],\"virt\":{"; f = true;
    for (auto *M : RD->methods()) if (M->isVirtual() && !isa<CXXDestructorDecl>(M)) { if (!f) r += ","; f = false; r += esc(vsig(M)) + ":" + (M->isPureVirtual() ? "null" : esc(fn(M))); }
    classes[n] = r + "}}";
  }
  std::string vsig(const CXXMethodDecl *M) { std::string s = M->getNameAsString() + "("; for (auto *P : M->parameters()) s += P->getType().getCanonicalType().getAsString() + ","; return s + ")" + (M->isConst() ? "c" : ""); }

  std::string keyOf(const FunctionDecl *F) {
    F = F->getCanonicalDecl();
    std::string k = Names.getName(F);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) k += "#" + std::to_string(id(M->getParent()));
    if (F->getFormalLinkage() == Linkage::Internal) k += "@" + file(F->getLocation());
    return k;
  }
  // registers a function and returns its key
  std::string fn(const FunctionDecl *F) {
    std::string k = keyOf(F); if (decls.count(k)) return k; decls[k] = "";
    std::string r = "{\"q\":" + esc(F->getQualifiedNameAsString()) + ",\"n\":" + esc(F->getNameAsString()) + ",\"ret\":" + std::to_string(ty(F->getReturnType())) + ",\"pt\":[";
    bool f = true; for (auto *P : F->parameters()) { if (!f) r += ","; f = false; r += std::to_string(ty(P->getType())); } r += "]";
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      r += ",\"cls\":" + esc(M->getParent()->getQualifiedNameAsString()) + ",\"static\":" + (M->isStatic() ? "1" : "0");
      r += ",\"ct\":" + std::to_string(ty(C.getRecordType(M->getParent())));
      if (M->isVirtual()) r += ",\"vsig\":" + esc(vsig(M));
      if (M->getParent()->isLambda()) r += ",\"lam\":" + std::to_string(id(M->getParent()));
      if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
        r += ",\"ctor\":1"; if (CD->isCopyConstructor()) r += ",\"copy\":1"; if (CD->isMoveConstructor()) r += ",\"move\":1"; if (CD->isDefaultConstructor()) r += ",\"dflt\":1";
        if (CD->isDefaulted()) r += ",\"defaulted\":1";
        if (auto IC = CD->getInheritedConstructor()) r += ",\"inh\":" + esc(fn(IC.getConstructor()));
      }
      if (M->isCopyAssignmentOperator() || M->isMoveAssignmentOperator()) r += ",\"asg\":1"; if (M->isDefaulted()) r += ",\"defaulted\":1";
      if (isa<CXXConversionDecl>(M)) r += ",\"conv\":1";
    }
    if (auto *TA = F->getTemplateSpecializationArgs()) { r += ",\"ta\":["; f = true; for (auto &A : TA->asArray()) { if (!f) r += ","; f = false; r += targ(A); } r += "]"; }
    unsigned line = 0; std::string fl = file(F->getLocation(), &line);
    r += ",\"file\":" + esc(fl) + ",\"line\":" + std::to_string(line) + "}";
    decls[k] = r; return k;
  }

  std::string apv(const APValue &V, int depth = 0) {
    switch (V.getKind()) {
    case APValue::Int: return "{\"i\":\"" + std::string(llvm::toString(V.getInt(), 10)) + "\"}";
    case APValue::Array: { std::string r = "{\"a\":["; unsigned n = V.getArraySize(), m = V.getArrayInitializedElts(); for (unsigned i = 0; i < n; i++) { if (i) r += ","; r += apv(i < m ? V.getArrayInitializedElt(i) : V.getArrayFiller(), depth + 1); } return r + "]}"; }
    case APValue::Struct: { std::string r = "{\"st\":["; for (unsigned i = 0; i < V.getStructNumFields(); i++) { if (i) r += ","; r += apv(V.getStructField(i), depth + 1); } return r + "]}"; }
    case APValue::LValue: { auto B = V.getLValueBase(); if (!B) return "{\"null\":1}"; if (auto *D = B.dyn_cast<const ValueDecl *>()) if (auto *F = dyn_cast<FunctionDecl>(D)) return "{\"fn\":" + esc(fn(F)) + "}"; return "{\"lv\":1}"; }
    default: return "{\"x\":1}";
    }
  }
  void global(const VarDecl *V) {
    std::string k = std::to_string(id(V)); if (globals.count(k)) return; globals[k] = "";
    std::string r = "{\"n\":" + esc(V->getQualifiedNameAsString()) + ",\"t\":" + std::to_string(ty(V->getType()));
    const VarDecl *Def = nullptr; const Expr *I = V->getAnyInitializer(Def);
    if (I && Def && !I->isValueDependent() && (Def->isConstexpr() || Def->getType().isConstQualified())) if (auto *AV = Def->evaluateValue()) r += ",\"v\":" + apv(*AV);
    globals[k] = r + "}";
  }

  std::string list(llvm::ArrayRef<const Expr *> A) { std::string r = "["; bool f = true; for (auto *E : A) { if (!f) r += ","; f = false; r += ex(E); } return r + "]"; }
  template <class R> std::string lst(R &&range) { std::string r = "["; bool f = true; for (const Expr *E : range) { if (!f) r += ","; f = false; r += ex(E); } return r + "]"; }
  std::string T(const Expr *E) { return ",\"t\":" + std::to_string(ty(E->getType())) + (E->isLValue() ? ",\"lv\":1" : E->isXValue() ? ",\"lv\":2" : ""); }
  unsigned ln(const Stmt *S) { unsigned l = 0; file(S->getBeginLoc(), &l); return l; }

  std::string ex(const Expr *E) {
    if (!E) return "null";
    if (auto *P = dyn_cast<ParenExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<ExprWithCleanups>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<ConstantExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) return ex(P->getSubExpr());
    if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) return ex(P->getReplacement());
    if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) return ex(P->getExpr());
    if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) return ex(P->getExpr());
    if (auto *P = dyn_cast<MaterializeTemporaryExpr>(E)) return "{\"k\":\"mat\"" + T(E) + ",\"e\":" + ex(P->getSubExpr()) + "}";
    if (auto *P = dyn_cast<IntegerLiteral>(E)) return "{\"k\":\"int\"" + T(E) + ",\"v\":\"" + std::string(llvm::toString(P->getValue(), 10, P->getType()->isSignedIntegerType())) + "\"}";
    if (auto *P = dyn_cast<CXXBoolLiteralExpr>(E)) return std::string("{\"k\":\"int\"") + T(E) + ",\"v\":\"" + (P->getValue() ? "1" : "0") + "\"}";
    if (auto *P = dyn_cast<CharacterLiteral>(E)) return "{\"k\":\"int\"" + T(E) + ",\"v\":\"" + std::to_string(P->getValue()) + "\"}";
    if (auto *P = dyn_cast<FloatingLiteral>(E)) { llvm::SmallString<32> s; P->getValue().toString(s, 40); return "{\"k\":\"flt\"" + T(E) + ",\"v\":" + esc(s.str().str()) + "}"; }
    if (auto *P = dyn_cast<StringLiteral>(E)) return "{\"k\":\"str\"" + T(E) + ",\"v\":" + esc(P->getCharByteWidth() == 1 ? P->getString().str() : "") + "}";
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return "{\"k\":\"null\"" + T(E) + "}";
    if (isa<CXXThisExpr>(E)) return "{\"k\":\"this\"" + T(E) + "}";
    if (isa<CXXScalarValueInitExpr>(E) || isa<ImplicitValueInitExpr>(E)) return "{\"k\":\"zero\"" + T(E) + "}";
    if (auto *P = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) { Expr::EvalResult R; if (!E->isValueDependent() && E->EvaluateAsInt(R, C)) return "{\"k\":\"int\"" + T(E) + ",\"v\":\"" + std::string(llvm::toString(R.Val.getInt(), 10)) + "\"}"; }
    if (auto *P = dyn_cast<DeclRefExpr>(E)) {
      auto *D = P->getDecl();
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) return "{\"k\":\"int\"" + T(E) + ",\"v\":\"" + std::string(llvm::toString(EC->getInitVal(), 10)) + "\"}";
      if (auto *F = dyn_cast<FunctionDecl>(D)) return "{\"k\":\"fref\"" + T(E) + ",\"fn\":" + esc(fn(F)) + "}";
      if (auto *V = dyn_cast<VarDecl>(D)) { bool g = V->hasGlobalStorage(); if (g) global(V); return std::string("{\"k\":\"") + (g ? "gref" : "ref") + "\"" + T(E) + ",\"d\":" + std::to_string(id(V)) + ",\"n\":" + esc(V->getNameAsString()) + (P->refersToEnclosingVariableOrCapture() ? ",\"cap\":1" : "") + "}"; }
      return "{\"k\":\"unsup\",\"w\":\"DeclRef " + std::string(D->getDeclKindName()) + "\"" + T(E) + "}";
    }
    if (auto *P = dyn_cast<MemberExpr>(E)) {
      if (auto *F = dyn_cast<FieldDecl>(P->getMemberDecl())) return "{\"k\":\"mem\"" + T(E) + ",\"b\":" + ex(P->getBase()) + (P->isArrow() ? ",\"ar\":1" : "") + ",\"f\":" + esc(F->getNameAsString()) + ",\"fc\":" + esc(cast<CXXRecordDecl>(F->getParent())->getQualifiedNameAsString()) + "}";
      if (auto *V = dyn_cast<VarDecl>(P->getMemberDecl())) { global(V); return "{\"k\":\"gref\"" + T(E) + ",\"d\":" + std::to_string(id(V)) + ",\"n\":" + esc(V->getNameAsString()) + "}"; }
      return "{\"k\":\"unsup\",\"w\":\"MemberExpr\"" + T(E) + "}";
    }
    if (auto *P = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *M = P->getMethodDecl(); auto *ME = dyn_cast<MemberExpr>(P->getCallee()->IgnoreParens());
      if (!M || !ME) return "{\"k\":\"unsup\",\"w\":\"pmf call\"" + T(E) + "}";
      bool virt = M->isVirtual() && !ME->hasQualifier();
      return "{\"k\":\"call\"" + T(E) + ",\"l\":" + std::to_string(ln(E)) + ",\"fn\":" + esc(fn(M)) + ",\"obj\":" + ex(ME->getBase()) + (ME->isArrow() ? ",\"ar\":1" : "") + (virt ? ",\"virt\":1" : "") + ",\"args\":" + lst(P->arguments()) + "}";
    }
    if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) return ex(P->getSemanticForm());
    if (auto *P = dyn_cast<CallExpr>(E)) {
      if (auto *F = P->getDirectCallee()) {
        if (F->getBuiltinID() && F->getNameAsString().rfind("__builtin_expect", 0) == 0) return ex(P->getArg(0));
        std::string fk = fn(F); std::string r = "{\"k\":\"call\"" + T(E) + ",\"l\":" + std::to_string(ln(E)) + ",\"fn\":" + esc(fk);
        auto *M = dyn_cast<CXXMethodDecl>(F);
        if (isa<CXXOperatorCallExpr>(P) && M && !M->isStatic()) { std::vector<const Expr *> a(P->arg_begin() + 1, P->arg_end()); return r + ",\"obj\":" + ex(P->getArg(0)) + (M->isVirtual() ? ",\"virt\":1" : "") + ",\"args\":" + list(a) + "}"; }
        return r + ",\"args\":" + lst(P->arguments()) + "}";
      }
      return "{\"k\":\"icall\"" + T(E) + ",\"l\":" + std::to_string(ln(E)) + ",\"f\":" + ex(P->getCallee()) + ",\"args\":" + lst(P->arguments()) + "}";
    }
    if (auto *P = dyn_cast<CXXConstructExpr>(E)) {
      return "{\"k\":\"ctor\"" + T(E) + ",\"l\":" + std::to_string(ln(E)) + ",\"fn\":" + esc(fn(P->getConstructor())) + ",\"args\":" + lst(P->arguments()) + (P->isListInitialization() ? ",\"list\":1" : "") + (P->isStdInitListInitialization() ? ",\"sil\":1" : "") + "}";
    }
    if (auto *P = dyn_cast<CXXInheritedCtorInitExpr>(E)) return "{\"k\":\"inhctor\"" + T(E) + ",\"fn\":" + esc(fn(P->getConstructor())) + "}";
    if (auto *P = dyn_cast<CastExpr>(E)) {
      std::string r = std::string("{\"k\":\"cast\"") + T(E) + ",\"ck\":\"" + P->getCastKindName() + "\"";
      return r + ",\"e\":" + ex(P->getSubExpr()) + "}";
    }
    if (auto *P = dyn_cast<UnaryOperator>(E)) return "{\"k\":\"un\"" + T(E) + ",\"op\":" + esc((P->isPostfix() ? "p" : "") + UnaryOperator::getOpcodeStr(P->getOpcode()).str()) + ",\"e\":" + ex(P->getSubExpr()) + "}";
    if (auto *P = dyn_cast<CompoundAssignOperator>(E)) return "{\"k\":\"casg\"" + T(E) + ",\"op\":" + esc(P->getOpcodeStr().str()) + ",\"ct\":" + std::to_string(ty(P->getComputationLHSType())) + ",\"rt\":" + std::to_string(ty(P->getComputationResultType())) + ",\"a\":" + ex(P->getLHS()) + ",\"b\":" + ex(P->getRHS()) + "}";
    if (auto *P = dyn_cast<BinaryOperator>(E)) return "{\"k\":\"bin\"" + T(E) + ",\"op\":" + esc(P->getOpcodeStr().str()) + ",\"a\":" + ex(P->getLHS()) + ",\"b\":" + ex(P->getRHS()) + "}";
    if (auto *P = dyn_cast<ConditionalOperator>(E)) return "{\"k\":\"cond\"" + T(E) + ",\"c\":" + ex(P->getCond()) + ",\"a\":" + ex(P->getTrueExpr()) + ",\"b\":" + ex(P->getFalseExpr()) + "}";
    if (auto *P = dyn_cast<ArraySubscriptExpr>(E)) return "{\"k\":\"sub\"" + T(E) + ",\"a\":" + ex(P->getBase()) + ",\"i\":" + ex(P->getIdx()) + "}";
    if (auto *P = dyn_cast<CXXStdInitializerListExpr>(E)) { const Expr *S = P->getSubExpr(); while (true) { if (auto *M = dyn_cast<MaterializeTemporaryExpr>(S)) S = M->getSubExpr(); else if (auto *B = dyn_cast<CXXBindTemporaryExpr>(S)) S = B->getSubExpr(); else if (auto *W = dyn_cast<ExprWithCleanups>(S)) S = W->getSubExpr(); else if (auto *IC = dyn_cast<ImplicitCastExpr>(S)) S = IC->getSubExpr(); else break; } return "{\"k\":\"sil\"" + T(E) + ",\"e\":" + ex(S) + "}"; }
    if (auto *P = dyn_cast<InitListExpr>(E)) { if (P->isTransparent()) return ex(P->getInit(0)); auto *S = P->isSemanticForm() ? P : P->getSemanticForm(); if (!S) S = P; return "{\"k\":\"ilist\"" + T(E) + ",\"es\":" + lst(S->inits()) + "}"; }
    if (auto *P = dyn_cast<LambdaExpr>(E)) {
      std::string r = "{\"k\":\"lambda\"" + T(E) + ",\"lam\":" + std::to_string(id(P->getLambdaClass())) + ",\"caps\":["; bool f = true; auto ci = P->capture_init_begin();
      for (auto c = P->capture_begin(); c != P->capture_end(); ++c, ++ci) { if (!f) r += ","; f = false;
        if (c->capturesThis()) r += "{\"this\":1}"; else if (c->capturesVariable()) { auto *V = c->getCapturedVar(); r += "{\"d\":" + std::to_string(id(V)) + ",\"n\":" + esc(V->getNameAsString()) + ",\"ref\":" + (c->getCaptureKind() == LCK_ByRef ? "1" : "0") + ",\"t\":" + std::to_string(ty(V->getType())) + ",\"init\":" + ex(*ci) + "}"; } else r += "{\"x\":1}"; }
      r += "]"; auto *Op = P->getCallOperator(); bool gen = Op->getDescribedFunctionTemplate() != nullptr;
      if (!gen) r += ",\"fn\":" + esc(fn(Op)); else r += ",\"gen\":1"; return r + "}";
    }
    if (auto *P = dyn_cast<CXXNewExpr>(E)) { std::string r = "{\"k\":\"new\"" + T(E) + ",\"at\":" + std::to_string(ty(P->getAllocatedType())); if (P->isArray()) r += ",\"n\":" + (P->getArraySize() ? ex(*P->getArraySize()) : "null"); if (P->getInitializer()) r += ",\"init\":" + ex(P->getInitializer()); return r + "}"; }
    if (auto *P = dyn_cast<CXXDeleteExpr>(E)) return "{\"k\":\"del\"" + T(E) + ",\"e\":" + ex(P->getArgument()) + "}";
    if (auto *P = dyn_cast<CXXThrowExpr>(E)) return "{\"k\":\"throw\"" + T(E) + ",\"l\":" + std::to_string(ln(E)) + ",\"e\":" + ex(P->getSubExpr()) + "}";
    if (auto *P = dyn_cast<ArrayInitLoopExpr>(E)) {}
    return std::string("{\"k\":\"unsup\",\"w\":\"") + E->getStmtClassName() + "\"" + T(E) + ",\"l\":" + std::to_string(ln(E)) + "}";
  }

  std::string var(const VarDecl *V) {
    std::string r = "{\"d\":" + std::to_string(id(V)) + ",\"n\":" + esc(V->getNameAsString()) + ",\"t\":" + std::to_string(ty(V->getType()));
    if (V->isStaticLocal()) r += ",\"stat\":1";
    if (V->hasInit()) r += ",\"i\":" + ex(V->getInit());
    return r + "}";
  }
  std::string st(const Stmt *S) {
    if (!S) return "null";
    std::string L = ",\"l\":" + std::to_string(ln(S));
    if (auto *E = dyn_cast<Expr>(S)) return "{\"k\":\"expr\"" + L + ",\"e\":" + ex(E) + "}";
    if (auto *P = dyn_cast<CompoundStmt>(S)) { std::string r = "{\"k\":\"block\",\"b\":["; bool f = true; for (auto *c : P->body()) { if (!f) r += ","; f = false; r += st(c); } return r + "]}"; }
    if (auto *P = dyn_cast<DeclStmt>(S)) { std::string r = "{\"k\":\"decl\"" + L + ",\"v\":["; bool f = true; for (auto *D : P->decls()) { auto *V = dyn_cast<VarDecl>(D); if (!V) { if (isa<DecompositionDecl>(D)) return "{\"k\":\"unsup\",\"w\":\"decomposition\"}"; continue; } if (!f) r += ","; f = false; r += var(V); } return r + "]}"; }
    if (auto *P = dyn_cast<IfStmt>(S)) {
      std::string r = "{\"k\":\"if\"" + L; if (P->getInit()) r += ",\"init\":" + st(P->getInit()); if (P->getConditionVariable()) r += ",\"cv\":" + var(P->getConditionVariable());
      if (P->isConstexpr() && !P->getCond()->isValueDependent()) { auto v = P->getNondiscardedCase(C); if (v) return *v ? st(*v) : "{\"k\":\"block\",\"b\":[]}"; }
      return r + ",\"c\":" + ex(P->getCond()) + ",\"a\":" + st(P->getThen()) + ",\"b\":" + st(P->getElse()) + "}"; }
    if (auto *P = dyn_cast<WhileStmt>(S)) return "{\"k\":\"while\"" + L + (P->getConditionVariable() ? ",\"cv\":" + var(P->getConditionVariable()) : "") + ",\"c\":" + ex(P->getCond()) + ",\"b\":" + st(P->getBody()) + "}";
    if (auto *P = dyn_cast<DoStmt>(S)) return "{\"k\":\"do\"" + L + ",\"c\":" + ex(P->getCond()) + ",\"b\":" + st(P->getBody()) + "}";
    if (auto *P = dyn_cast<ForStmt>(S)) return "{\"k\":\"for\"" + L + ",\"init\":" + st(P->getInit()) + ",\"c\":" + ex(P->getCond()) + ",\"inc\":" + ex(P->getInc()) + ",\"b\":" + st(P->getBody()) + (P->getConditionVariable() ? ",\"cv\":1" : "") + "}";
    if (auto *P = dyn_cast<CXXForRangeStmt>(S)) return "{\"k\":\"rfor\"" + L + ",\"init\":" + st(P->getInit()) + ",\"r\":" + ex(P->getRangeInit()) + ",\"v\":" + var(P->getLoopVariable()) + ",\"b\":" + st(P->getBody()) + "}";
    if (auto *P = dyn_cast<ReturnStmt>(S)) return "{\"k\":\"ret\"" + L + ",\"e\":" + ex(P->getRetValue()) + "}";
    if (isa<BreakStmt>(S)) return "{\"k\":\"break\"}";
    if (isa<ContinueStmt>(S)) return "{\"k\":\"cont\"}";
    if (isa<NullStmt>(S)) return "{\"k\":\"block\",\"b\":[]}";
    if (auto *P = dyn_cast<AttributedStmt>(S)) return st(P->getSubStmt());
    if (auto *P = dyn_cast<SwitchStmt>(S)) return "{\"k\":\"switch\"" + L + ",\"init\":" + st(P->getInit()) + ",\"c\":" + ex(P->getCond()) + ",\"b\":" + st(P->getBody()) + "}";
    if (auto *P = dyn_cast<CaseStmt>(S)) { Expr::EvalResult R; std::string v = "null"; if (P->getLHS()->EvaluateAsInt(R, C)) v = "\"" + std::string(llvm::toString(R.Val.getInt(), 10)) + "\""; return "{\"k\":\"case\",\"v\":" + v + (P->getRHS() ? ",\"range\":1" : "") + ",\"b\":" + st(P->getSubStmt()) + "}"; }
    if (auto *P = dyn_cast<DefaultStmt>(S)) return "{\"k\":\"default\",\"b\":" + st(P->getSubStmt()) + "}";
    if (auto *P = dyn_cast<CXXTryStmt>(S)) { std::string r = "{\"k\":\"try\"" + L + ",\"b\":" + st(P->getTryBlock()) + ",\"h\":["; for (unsigned i = 0; i < P->getNumHandlers(); i++) { auto *H = P->getHandler(i); if (i) r += ","; r += "{\"v\":" + (H->getExceptionDecl() ? var(H->getExceptionDecl()) : std::string("null")) + ",\"b\":" + st(H->getHandlerBlock()) + "}"; } return r + "]}"; }
    return std::string("{\"k\":\"unsup\",\"w\":\"") + S->getStmtClassName() + "\"" + L + "}";
  }

  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isDependentContext() || !F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return true;
    if (F->isDefaulted() && !F->doesThisDeclarationHaveABody()) return true;
    if (!inRepo(F)) return true;
    if (F->isTemplated()) return true;
    if (F->isConsteval()) return true;
    std::string k = fn(F); if (!doneFn.insert(k).second) return true;
    std::string r = esc(k) + ":{\"params\":["; bool f = true;
    for (auto *P : F->parameters()) { if (!f) r += ","; f = false; r += "{\"d\":" + std::to_string(id(P)) + ",\"n\":" + esc(P->getNameAsString()) + ",\"t\":" + std::to_string(ty(P->getType())); if (P->hasDefaultArg() && !P->hasUnparsedDefaultArg() && !P->hasUninstantiatedDefaultArg()) r += ",\"def\":" + ex(P->getDefaultArg()); r += "}"; }
    r += "]";
    if (auto *CD = dyn_cast<CXXConstructorDecl>(F)) {
      r += ",\"inits\":["; f = true;
      for (auto *I : CD->inits()) { if (!f) r += ","; f = false;
        if (I->isMemberInitializer()) r += "{\"f\":" + esc(I->getMember()->getNameAsString()) + ",\"fc\":" + esc(cast<CXXRecordDecl>(I->getMember()->getParent())->getQualifiedNameAsString()) + ",\"ft\":" + std::to_string(ty(I->getMember()->getType())) + ",\"e\":" + ex(I->getInit()) + "}";
        else if (I->isBaseInitializer()) r += "{\"base\":" + std::to_string(ty(QualType(I->getBaseClass(), 0))) + ",\"e\":" + ex(I->getInit()) + "}";
        else if (I->isDelegatingInitializer()) r += "{\"deleg\":1,\"e\":" + ex(I->getInit()) + "}"; else r += "{\"x\":1}"; }
      r += "]";
    }
    r += ",\"body\":" + st(F->getBody()) + "}";
    fns.push_back(r); return true;
  }
  void finish() {
    // classes reachable only through dynamic types (Backward subclasses)
    for (auto *D : C.getTranslationUnitDecl()->decls()) walk(D);
    OS << "{\"fns\":{"; bool f = true; for (auto &s : fns) { if (!f) OS << ",\n"; f = false; OS << s; }
    OS << "},\n\"decls\":{"; f = true; for (auto &p : decls) { if (!f) OS << ",\n"; f = false; OS << esc(p.first) << ":" << p.second; }
    OS << "},\n\"globals\":{"; f = true; for (auto &p : globals) { if (!f) OS << ",\n"; f = false; OS << "\"" << p.first << "\":" << p.second; }
    OS << "},\n\"classes\":{"; f = true; for (auto &p : classes) { if (!f) OS << ",\n"; f = false; OS << esc(p.first) << ":" << p.second; }
    OS << "},\n\"types\":["; f = true; for (auto &s : typeRecs) { if (!f) OS << ",\n"; f = false; OS << s; } OS << "]}\n";
  }
  void walk(const Decl *D) {
    if (auto *N = dyn_cast<NamespaceDecl>(D)) { for (auto *X : N->decls()) walk(X); return; }
    if (auto *R = dyn_cast<CXXRecordDecl>(D)) if (R->isThisDeclarationADefinition() && inRepo(R) && !R->isDependentType()) cls(R);
  }
};
class Consumer : public ASTConsumer {
  std::string Root, Path;
public:
  Consumer(std::string R, std::string P) : Root(R), Path(P) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    std::error_code EC; llvm::raw_fd_ostream OS(Path, EC); Dumper D(C, Root, OS); D.TraverseDecl(C.getTranslationUnitDecl()); D.finish();
  }
};
class Action : public PluginASTAction {
  std::string Root = "/repo/", Path = "out.json";
protected:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Consumer>(Root, Path); }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &A) override { for (size_t i = 0; i + 1 < A.size(); i += 2) { if (A[i] == "-root") Root = A[i + 1]; if (A[i] == "-out") Path = A[i + 1]; } return true; }
};
} // namespace
static FrontendPluginRegistry::Add<Action> X("innc-extract", "dump functions for the VC generator");
