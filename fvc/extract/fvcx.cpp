// fvcx: clang plugin that lowers the functions of a translation unit to a
// small JSON intermediate form.  It is the mechanical extraction step of the
// verifier: nothing is rewritten by hand, every statement of every function
// body that is defined outside the system headers is emitted.
// What it drops: comments, source formatting, attributes, access control,
// parentheses, no-op casts.  Anything it does not know is emitted as
// {"k":"Unsup"} and makes the obligation that reaches it undecided.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendPluginRegistry.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

namespace {

struct Ctx {
  ASTContext &C;
  SourceManager &SM;
  json::Array types;
  std::map<std::string, int> typeIds;
  std::map<const Decl *, int> declIds;
  std::deque<const FunctionDecl *> work;
  std::set<const FunctionDecl *> seenFn;
  std::map<const VarDecl *, bool> globals;
  std::deque<const VarDecl *> gwork;
  std::set<const CXXRecordDecl *> recs;
  std::deque<const CXXRecordDecl *> rwork;

  Ctx(ASTContext &c) : C(c), SM(c.getSourceManager()) {}

  int declId(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIds.find(D);
    if (it != declIds.end()) return it->second;
    int n = declIds.size() + 1;
    declIds[D] = n;
    return n;
  }

  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    PrintingPolicy PP(C.getLangOpts());
    PP.SuppressUnwrittenScope = true;
    PP.SuppressInlineNamespace = true;
    D->printQualifiedName(os, PP);
    return os.str();
  }
  std::string recName(const RecordDecl *R) {
    return C.getTypeDeclType(R).getCanonicalType().getAsString(PrintingPolicy(C.getLangOpts()));
  }

  int typeId(QualType Q) {
    Q = Q.getCanonicalType();
    std::string key = Q.getAsString();
    auto it = typeIds.find(key);
    if (it != typeIds.end()) return it->second;
    int id = typeIds.size();
    typeIds[key] = id;
    types.push_back(json::Value(nullptr));
    json::Object o;
    o["s"] = key;
    if (Q.isConstQualified()) o["const"] = true;
    const Type *T = Q.getTypePtr();
    if (T->isDependentType()) { o["k"] = "dep"; }
    else if (T->isVoidType()) o["k"] = "void";
    else if (T->isBooleanType()) o["k"] = "bool";
    else if (T->isNullPtrType()) o["k"] = "nullptr";
    else if (T->isEnumeralType()) {
      const EnumType *ET = T->getAs<EnumType>();
      o["k"] = "enum";
      o["name"] = qname(ET->getDecl());
      o["scoped"] = ET->getDecl()->isScoped();
    } else if (T->isIntegerType()) {
      o["k"] = "int";
      o["w"] = (int64_t)C.getTypeSize(Q);
      o["sg"] = T->isSignedIntegerType();
    } else if (T->isRealFloatingType()) {
      o["k"] = "real";
      o["w"] = (int64_t)C.getTypeSize(Q);
    } else if (T->isReferenceType()) {
      o["k"] = "ref";
      o["to"] = typeId(T->getPointeeType());
    } else if (T->isPointerType()) {
      o["k"] = "ptr";
      if (T->getPointeeType()->isFunctionType()) o["k"] = "fptr";
      else o["to"] = typeId(T->getPointeeType());
    } else if (const ConstantArrayType *AT = C.getAsConstantArrayType(Q)) {
      o["k"] = "arr";
      o["n"] = (int64_t)AT->getSize().getZExtValue();
      o["el"] = typeId(AT->getElementType());
    } else if (const ArrayType *AT2 = C.getAsArrayType(Q)) {
      o["k"] = "arr";
      o["n"] = -1;
      o["el"] = typeId(AT2->getElementType());
    } else if (const RecordType *RT = T->getAs<RecordType>()) {
      o["k"] = "rec";
      o["name"] = recName(RT->getDecl());
      o["q"] = qname(RT->getDecl());
      if (auto *CR = dyn_cast<CXXRecordDecl>(RT->getDecl())) noteRec(CR);
      if (auto *SP = dyn_cast<ClassTemplateSpecializationDecl>(RT->getDecl())) {
        json::Array args;
        for (auto &A : SP->getTemplateArgs().asArray()) {
          if (A.getKind() == TemplateArgument::Type) args.push_back(typeId(A.getAsType()));
          else if (A.getKind() == TemplateArgument::Integral)
            args.push_back(json::Object{{"int", A.getAsIntegral().getExtValue()}});
          else args.push_back(nullptr);
        }
        o["targs"] = std::move(args);
      }
    } else if (T->isFunctionType()) o["k"] = "func";
    else if (T->isMemberPointerType()) o["k"] = "memptr";
    else o["k"] = "other";
    types[id] = std::move(o);
    return id;
  }

  bool sys(SourceLocation L) {
    if (L.isInvalid()) return true;
    return SM.isInSystemHeader(SM.getExpansionLoc(L));
  }
  void noteFn(const FunctionDecl *F) {
    if (!F) return;
    const FunctionDecl *Def = nullptr;
    if (!F->hasBody(Def)) {
      if (auto *CC = dyn_cast<CXXConstructorDecl>(F)) { if (!CC->isDefaulted()) return; }
      return;
    }
    if (sys(Def->getLocation())) return;
    if (Def->isDependentContext()) return;
    if (seenFn.insert(Def).second) work.push_back(Def);
  }
  void noteRec(const CXXRecordDecl *R) {
    if (!R) return;
    R = R->getDefinition();
    if (!R || R->isDependentContext()) return;
    if (recs.insert(R).second) rwork.push_back(R);
  }
  void noteGlobal(const VarDecl *V) {
    const VarDecl *Def = nullptr;
    for (auto *D : V->redecls()) if (D->getInit()) Def = D;
    if (!Def) Def = V;
    if (globals.count(Def)) return;
    globals[Def] = true;
    gwork.push_back(Def);
  }

  int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }

  json::Value E(const Expr *X) {
    if (!X) return nullptr;
    json::Value v = E0(X);
    return v;
  }
  json::Object mk(const char *k, const Expr *X) {
    json::Object o;
    o["k"] = k;
    o["t"] = typeId(X->getType());
    o["ln"] = line(X->getExprLoc());
    if (X->isGLValue()) o["lv"] = 1;
    return o;
  }
  json::Array args(const CallExpr *X, unsigned from = 0) {
    json::Array a;
    for (unsigned i = from; i < X->getNumArgs(); i++) a.push_back(E(X->getArg(i)));
    return a;
  }
  json::Object fnref(const FunctionDecl *F) {
    json::Object o;
    const FunctionDecl *Def = nullptr;
    if (F->hasBody(Def)) { noteFn(Def); }
    o["id"] = declId(F);
    o["q"] = qname(F);
    o["n"] = F->getNameAsString();
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = recName(M->getParent());
      o["clsq"] = qname(M->getParent());
      if (M->isVirtual()) o["virt"] = true;
      if (M->isStatic()) o["static"] = true;
      if (M->isConst()) o["cm"] = true;
      noteRec(M->getParent());
    }
    if (F->isDefaulted() && !F->isUserProvided()) o["dflt"] = true;
    if (F->isTrivial()) o["triv"] = true;
    if (F->isNoReturn()) o["noret"] = true;
    json::Array ps;
    for (auto *P : F->parameters()) ps.push_back(typeId(P->getType()));
    o["pt"] = std::move(ps);
    o["rt"] = typeId(F->getReturnType());
    return o;
  }

  json::Value E0(const Expr *X) {
    X = X->IgnoreParens();
    if (auto *S = dyn_cast<ExprWithCleanups>(X)) return E(S->getSubExpr());
    if (auto *S = dyn_cast<CXXBindTemporaryExpr>(X)) return E(S->getSubExpr());
    if (auto *S = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) return E(S->getReplacement());
    if (auto *S = dyn_cast<ConstantExpr>(X)) return E(S->getSubExpr());
    if (auto *S = dyn_cast<CXXDefaultArgExpr>(X)) return E(S->getExpr());
    if (auto *S = dyn_cast<CXXDefaultInitExpr>(X)) {
      return E(S->getExpr());
    }
    if (auto *S = dyn_cast<CXXStdInitializerListExpr>(X)) {
      auto o = mk("StdInit", X);
      o["e"] = E(S->getSubExpr());
      return o;
    }
    if (auto *S = dyn_cast<MaterializeTemporaryExpr>(X)) {
      auto o = mk("Mat", X);
      o["e"] = E(S->getSubExpr());
      return o;
    }
    if (auto *S = dyn_cast<IntegerLiteral>(X)) {
      auto o = mk("Int", X);
      llvm::SmallString<40> b;
      S->getValue().toString(b, 10, S->getType()->isSignedIntegerType());
      o["v"] = b.str().str();
      return o;
    }
    if (auto *S = dyn_cast<FloatingLiteral>(X)) {
      auto o = mk("Real", X);
      llvm::SmallString<80> b;
      llvm::APFloat f = S->getValue();
      bool lost;
      f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lost);
      char buf[64];
      snprintf(buf, sizeof buf, "%a", f.convertToDouble());
      o["v"] = std::string(buf);
      // source spelling, for decimal literals that a real-number reading keeps exact
      SourceLocation L = SM.getSpellingLoc(S->getLocation());
      o["src"] = Lexer::getSourceText(CharSourceRange::getTokenRange(L), SM, C.getLangOpts()).str();
      return o;
    }
    if (auto *S = dyn_cast<CXXBoolLiteralExpr>(X)) {
      auto o = mk("Bool", X);
      o["v"] = S->getValue();
      return o;
    }
    if (auto *S = dyn_cast<CharacterLiteral>(X)) {
      auto o = mk("Int", X);
      o["v"] = std::to_string((long long)(S->getType()->isCharType() ? (signed char)S->getValue() : (long long)S->getValue()));
      return o;
    }
    if (auto *S = dyn_cast<clang::StringLiteral>(X)) {
      auto o = mk("Str", X);
      json::Array a;
      if (S->getCharByteWidth() == 1)
        for (unsigned char c : S->getBytes()) a.push_back((int)c);
      o["v"] = std::move(a);
      return o;
    }
    if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) return mk("Null", X);
    if (auto *S = dyn_cast<PredefinedExpr>(X)) {
      return E(S->getFunctionName());
    }
    if (auto *S = dyn_cast<DeclRefExpr>(X)) {
      const ValueDecl *D = S->getDecl();
      if (auto *V = dyn_cast<VarDecl>(D)) {
        auto o = mk("Var", X);
        o["id"] = declId(V);
        o["n"] = V->getNameAsString();
        if (V->hasGlobalStorage()) {
          o["g"] = 1;
          o["q"] = qname(V);
          noteGlobal(V);
          const VarDecl *Def = nullptr;
          for (auto *R : V->redecls()) if (R->getInit()) Def = R;
          o["id"] = declId(Def ? Def : V);
        }
        return o;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        auto o = mk("Int", X);
        llvm::SmallString<40> b;
        EC->getInitVal().toString(b, 10);
        o["v"] = b.str().str();
        o["en"] = EC->getNameAsString();
        return o;
      }
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        auto o = mk("Fn", X);
        o["fn"] = fnref(F);
        return o;
      }
      if (auto *B = dyn_cast<BindingDecl>(D)) {
        auto o = mk("Binding", X);
        o["n"] = D->getNameAsString();
        if (B->getHoldingVar()) { o["id"] = declId(B->getHoldingVar()); }
        else if (B->getBinding()) o["e"] = E(B->getBinding());
        return o;
      }
      auto o = mk("Unsup", X);
      o["what"] = std::string("DeclRef:") + D->getDeclKindName();
      return o;
    }
    if (auto *S = dyn_cast<MemberExpr>(X)) {
      if (auto *F = dyn_cast<FieldDecl>(S->getMemberDecl())) {
        auto o = mk("Mem", X);
        o["b"] = E(S->getBase());
        o["arrow"] = S->isArrow();
        o["f"] = F->getNameAsString();
        o["cls"] = recName(F->getParent());
        return o;
      }
      if (auto *V = dyn_cast<VarDecl>(S->getMemberDecl())) {
        auto o = mk("Var", X);
        o["n"] = V->getNameAsString();
        o["g"] = 1;
        o["q"] = qname(V);
        noteGlobal(V);
        const VarDecl *Def = nullptr;
        for (auto *R : V->redecls()) if (R->getInit()) Def = R;
        o["id"] = declId(Def ? Def : V);
        return o;
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(S->getMemberDecl())) {
        auto o = mk("Int", X);
        llvm::SmallString<40> b;
        EC->getInitVal().toString(b, 10);
        o["v"] = b.str().str();
        o["en"] = EC->getNameAsString();
        return o;
      }
      auto o = mk("Method", X);
      o["b"] = E(S->getBase());
      o["arrow"] = S->isArrow();
      if (auto *F = dyn_cast<FunctionDecl>(S->getMemberDecl())) o["fn"] = fnref(F);
      return o;
    }
    if (isa<CXXThisExpr>(X)) return mk("This", X);
    if (auto *S = dyn_cast<CastExpr>(X)) {
      CastKind K = S->getCastKind();
      if (K == CK_NoOp || K == CK_FunctionToPointerDecay || K == CK_BuiltinFnToFnPtr) {
        // keep value category of the sub expression
        return E(S->getSubExpr());
      }
      if (K == CK_ConstructorConversion) return E(S->getSubExpr());
      if (K == CK_UserDefinedConversion) return E(S->getSubExpr());
      auto o = mk("Cast", X);
      o["ck"] = S->getCastKindName();
      o["e"] = E(S->getSubExpr());
      if (isa<CXXReinterpretCastExpr>(X)) o["rc"] = 1;
      if (isa<CXXDynamicCastExpr>(X)) o["dc"] = 1;
      return o;
    }
    if (auto *S = dyn_cast<CompoundAssignOperator>(X)) {
      auto o = mk("CAsg", X);
      std::string op = S->getOpcodeStr().str();
      op.pop_back();
      o["op"] = op;
      o["ct"] = typeId(S->getComputationLHSType());
      o["crt"] = typeId(S->getComputationResultType());
      o["l"] = E(S->getLHS());
      o["r"] = E(S->getRHS());
      return o;
    }
    if (auto *S = dyn_cast<BinaryOperator>(X)) {
      if (S->isAssignmentOp()) {
        auto o = mk("Asg", X);
        o["l"] = E(S->getLHS());
        o["r"] = E(S->getRHS());
        return o;
      }
      auto o = mk("Bin", X);
      o["op"] = S->getOpcodeStr().str();
      o["l"] = E(S->getLHS());
      o["r"] = E(S->getRHS());
      return o;
    }
    if (auto *S = dyn_cast<UnaryOperator>(X)) {
      auto o = mk("Un", X);
      o["op"] = UnaryOperator::getOpcodeStr(S->getOpcode()).str();
      if (S->isPostfix()) o["post"] = 1;
      o["e"] = E(S->getSubExpr());
      return o;
    }
    if (auto *S = dyn_cast<ConditionalOperator>(X)) {
      auto o = mk("Cond", X);
      o["c"] = E(S->getCond());
      o["a"] = E(S->getTrueExpr());
      o["b"] = E(S->getFalseExpr());
      return o;
    }
    if (auto *S = dyn_cast<ArraySubscriptExpr>(X)) {
      auto o = mk("Idx", X);
      o["b"] = E(S->getBase());
      o["i"] = E(S->getIdx());
      return o;
    }
    if (auto *S = dyn_cast<CXXOperatorCallExpr>(X)) {
      auto o = mk("OpCall", X);
      o["op"] = getOperatorSpelling(S->getOperator());
      if (auto *F = S->getDirectCallee()) {
        o["fn"] = fnref(F);
        if (isa<CXXMethodDecl>(F)) o["mem"] = 1;
      }
      o["args"] = args(S);
      return o;
    }
    if (auto *S = dyn_cast<CXXMemberCallExpr>(X)) {
      auto o = mk("MCall", X);
      if (auto *F = S->getMethodDecl()) o["fn"] = fnref(F);
      const Expr *obj = S->getImplicitObjectArgument();
      o["o"] = E(obj);
      bool arrow = false;
      if (auto *ME = dyn_cast<MemberExpr>(S->getCallee()->IgnoreParens())) {
        arrow = ME->isArrow();
        if (ME->hasQualifier()) o["qual"] = 1;
      }
      o["arrow"] = arrow;
      o["args"] = args(S);
      return o;
    }
    if (auto *S = dyn_cast<CallExpr>(X)) {
      auto o = mk("Call", X);
      if (auto *F = S->getDirectCallee()) {
        o["fn"] = fnref(F);
        if (auto *TA = F->getTemplateSpecializationArgs()) {
          json::Array a;
          for (auto &A : TA->asArray()) {
            if (A.getKind() == TemplateArgument::Type) a.push_back(json::Object{{"ty", typeId(A.getAsType())}});
            else if (A.getKind() == TemplateArgument::Integral)
              a.push_back(json::Object{{"int", A.getAsIntegral().getExtValue()}});
            else a.push_back(nullptr);
          }
          o["targs"] = std::move(a);
        }
      } else o["callee"] = E(S->getCallee());
      o["args"] = args(S);
      return o;
    }
    if (auto *S = dyn_cast<CXXConstructExpr>(X)) {
      auto o = mk("Ctor", X);
      o["fn"] = fnref(S->getConstructor());
      json::Array a;
      for (unsigned i = 0; i < S->getNumArgs(); i++) a.push_back(E(S->getArg(i)));
      o["args"] = std::move(a);
      if (S->isListInitialization()) o["list"] = 1;
      if (S->requiresZeroInitialization()) o["zero"] = 1;
      if (S->getConstructor()->isCopyConstructor()) o["copy"] = 1;
      if (S->getConstructor()->isMoveConstructor()) o["move"] = 1;
      return o;
    }
    if (auto *S = dyn_cast<InitListExpr>(X)) {
      const InitListExpr *Sem = S->isSemanticForm() ? S : S->getSemanticForm();
      if (!Sem) Sem = S;
      if (Sem->isTransparent() && Sem->getNumInits() == 1) return E(Sem->getInit(0));
      auto o = mk("IL", X);
      json::Array a;
      for (unsigned i = 0; i < Sem->getNumInits(); i++) a.push_back(E(Sem->getInit(i)));
      o["v"] = std::move(a);
      if (Sem->hasArrayFiller()) o["fill"] = E(Sem->getArrayFiller());
      return o;
    }
    if (isa<ImplicitValueInitExpr>(X) || isa<CXXScalarValueInitExpr>(X)) return mk("Zero", X);
    if (auto *S = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) {
      Expr::EvalResult R;
      if (S->EvaluateAsInt(R, C)) {
        auto o = mk("Int", X);
        llvm::SmallString<40> b;
        R.Val.getInt().toString(b, 10);
        o["v"] = b.str().str();
        return o;
      }
    }
    if (isa<TypeTraitExpr>(X) || isa<CXXNoexceptExpr>(X)) {
      Expr::EvalResult R;
      if (X->EvaluateAsInt(R, C)) {
        auto o = mk("Bool", X);
        o["v"] = (bool)R.Val.getInt().getBoolValue();
        return o;
      }
    }
    if (auto *S = dyn_cast<LambdaExpr>(X)) {
      auto o = mk("Lambda", X);
      o["fn"] = fnref(S->getCallOperator());
      noteFn(S->getCallOperator());
      json::Array caps;
      for (auto &Cp : S->captures()) {
        json::Object c;
        if (Cp.capturesThis()) c["this"] = 1;
        else if (Cp.capturesVariable()) {
          c["id"] = declId(Cp.getCapturedVar());
          c["n"] = Cp.getCapturedVar()->getNameAsString();
        }
        c["ref"] = Cp.getCaptureKind() == LCK_ByRef;
        caps.push_back(std::move(c));
      }
      o["caps"] = std::move(caps);
      return o;
    }
    if (auto *S = dyn_cast<CXXThrowExpr>(X)) {
      auto o = mk("Throw", X);
      o["e"] = E(S->getSubExpr());
      return o;
    }
    if (auto *S = dyn_cast<CXXNewExpr>(X)) {
      auto o = mk("New", X);
      o["at"] = typeId(S->getAllocatedType());
      if (S->isArray()) o["n"] = S->getArraySize() ? E(*S->getArraySize()) : json::Value(nullptr);
      o["init"] = E(S->getInitializer());
      return o;
    }
    if (auto *S = dyn_cast<CXXDeleteExpr>(X)) {
      auto o = mk("Delete", X);
      o["e"] = E(S->getArgument());
      o["arr"] = S->isArrayForm();
      return o;
    }
    if (auto *S = dyn_cast<OpaqueValueExpr>(X)) return E(S->getSourceExpr());
    if (auto *S = dyn_cast<ArrayInitLoopExpr>(X)) {
      auto o = mk("ArrCopy", X);
      o["e"] = E(S->getCommonExpr()->getSourceExpr());
      return o;
    }
    auto o = mk("Unsup", X);
    o["what"] = X->getStmtClassName();
    return o;
  }

  json::Object sk(const char *k, const Stmt *S) {
    json::Object o;
    o["k"] = k;
    o["ln"] = line(S->getBeginLoc());
    return o;
  }

  json::Object var(const VarDecl *V) {
    json::Object o;
    o["id"] = declId(V);
    o["n"] = V->getNameAsString();
    o["t"] = typeId(V->getType());
    if (V->isStaticLocal()) o["static"] = 1;
    if (V->getInit()) o["init"] = E(V->getInit());
    if (V->getType()->isVariableArrayType()) {
      auto *VT = C.getAsVariableArrayType(V->getType());
      o["vla"] = E(VT->getSizeExpr());
    }
    return o;
  }

  json::Value S(const Stmt *X) {
    if (!X) return nullptr;
    if (auto *e = dyn_cast<Expr>(X)) {
      auto o = sk("Ex", X);
      o["e"] = E(e);
      return o;
    }
    switch (X->getStmtClass()) {
    case Stmt::CompoundStmtClass: {
      auto o = sk("Blk", X);
      json::Array a;
      for (auto *c : cast<CompoundStmt>(X)->body()) a.push_back(S(c));
      o["b"] = std::move(a);
      return o;
    }
    case Stmt::DeclStmtClass: {
      auto o = sk("Decl", X);
      json::Array a;
      for (auto *d : cast<DeclStmt>(X)->decls()) {
        if (auto *V = dyn_cast<VarDecl>(d)) {
          if (V->isStaticLocal()) { noteGlobal(V); }
          json::Object vo = var(V);
          if (auto *DD = dyn_cast<DecompositionDecl>(d)) {
            json::Array bs;
            for (auto *B : DD->bindings())
              if (B->getHoldingVar()) bs.push_back(var(B->getHoldingVar()));
            vo["bind"] = std::move(bs);
          }
          a.push_back(std::move(vo));
        }
      }
      o["d"] = std::move(a);
      return o;
    }
    case Stmt::IfStmtClass: {
      auto *I = cast<IfStmt>(X);
      if (I->isConstexpr()) {
        Expr::EvalResult R;
        if (!I->getCond()->isValueDependent() && I->getCond()->EvaluateAsInt(R, C)) {
          if (R.Val.getInt().getBoolValue()) return S(I->getThen());
          if (I->getElse()) return S(I->getElse());
          return sk("Nop", X);
        }
      }
      auto o = sk("If", X);
      if (I->getInit()) o["init"] = S(I->getInit());
      if (I->getConditionVariable()) o["cv"] = var(I->getConditionVariable());
      o["c"] = E(I->getCond());
      o["a"] = S(I->getThen());
      if (I->getElse()) o["b"] = S(I->getElse());
      return o;
    }
    case Stmt::ForStmtClass: {
      auto *F = cast<ForStmt>(X);
      auto o = sk("For", X);
      o["init"] = S(F->getInit());
      o["c"] = E(F->getCond());
      o["inc"] = E(F->getInc());
      o["b"] = S(F->getBody());
      return o;
    }
    case Stmt::WhileStmtClass: {
      auto *W = cast<WhileStmt>(X);
      auto o = sk("While", X);
      if (W->getConditionVariable()) o["cv"] = var(W->getConditionVariable());
      o["c"] = E(W->getCond());
      o["b"] = S(W->getBody());
      return o;
    }
    case Stmt::DoStmtClass: {
      auto *W = cast<DoStmt>(X);
      auto o = sk("Do", X);
      o["c"] = E(W->getCond());
      o["b"] = S(W->getBody());
      return o;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto *F = cast<CXXForRangeStmt>(X);
      auto o = sk("Range", X);
      o["rng"] = E(F->getRangeInit());
      o["rv"] = S(F->getRangeStmt());
      o["bs"] = S(F->getBeginStmt());
      o["es"] = S(F->getEndStmt());
      o["c"] = E(F->getCond());
      o["inc"] = E(F->getInc());
      o["v"] = var(F->getLoopVariable());
      o["b"] = S(F->getBody());
      return o;
    }
    case Stmt::ReturnStmtClass: {
      auto o = sk("Ret", X);
      if (auto *e = cast<ReturnStmt>(X)->getRetValue()) o["e"] = E(e);
      return o;
    }
    case Stmt::BreakStmtClass: return sk("Break", X);
    case Stmt::ContinueStmtClass: return sk("Cont", X);
    case Stmt::NullStmtClass: return sk("Nop", X);
    case Stmt::SwitchStmtClass: {
      auto *W = cast<SwitchStmt>(X);
      auto o = sk("Switch", X);
      if (W->getInit()) o["init"] = S(W->getInit());
      if (W->getConditionVariable()) o["cv"] = var(W->getConditionVariable());
      o["c"] = E(W->getCond());
      o["b"] = S(W->getBody());
      return o;
    }
    case Stmt::CaseStmtClass: {
      auto *W = cast<CaseStmt>(X);
      auto o = sk("Case", X);
      Expr::EvalResult R;
      if (W->getLHS()->EvaluateAsInt(R, C)) {
        llvm::SmallString<40> b;
        R.Val.getInt().toString(b, 10);
        o["v"] = b.str().str();
      }
      o["s"] = S(W->getSubStmt());
      return o;
    }
    case Stmt::DefaultStmtClass: {
      auto o = sk("Default", X);
      o["s"] = S(cast<DefaultStmt>(X)->getSubStmt());
      return o;
    }
    case Stmt::GotoStmtClass: {
      auto o = sk("Goto", X);
      o["l"] = declId(cast<GotoStmt>(X)->getLabel());
      return o;
    }
    case Stmt::LabelStmtClass: {
      auto o = sk("Label", X);
      o["l"] = declId(cast<LabelStmt>(X)->getDecl());
      o["s"] = S(cast<LabelStmt>(X)->getSubStmt());
      return o;
    }
    case Stmt::AttributedStmtClass: return S(cast<AttributedStmt>(X)->getSubStmt());
    case Stmt::CXXTryStmtClass: {
      auto *T = cast<CXXTryStmt>(X);
      auto o = sk("Try", X);
      o["b"] = S(T->getTryBlock());
      json::Array a;
      for (unsigned i = 0; i < T->getNumHandlers(); i++) {
        auto *H = T->getHandler(i);
        json::Object h;
        if (H->getExceptionDecl()) h["v"] = var(H->getExceptionDecl());
        h["b"] = S(H->getHandlerBlock());
        a.push_back(std::move(h));
      }
      o["h"] = std::move(a);
      return o;
    }
    default: {
      auto o = sk("Unsup", X);
      o["what"] = X->getStmtClassName();
      return o;
    }
    }
  }

  json::Object fn(const FunctionDecl *F) {
    json::Object o = fnref(F);
    const FunctionDecl *D = F;
    o["file"] = SM.getFilename(SM.getExpansionLoc(D->getLocation())).str();
    o["ln"] = line(D->getLocation());
    o["end"] = line(D->getEndLoc());
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array a;
      for (auto &A : TA->asArray()) {
        if (A.getKind() == TemplateArgument::Type) a.push_back(json::Object{{"ty", typeId(A.getAsType())}});
        else if (A.getKind() == TemplateArgument::Integral)
          a.push_back(json::Object{{"int", A.getAsIntegral().getExtValue()}});
        else a.push_back(nullptr);
      }
      o["targs"] = std::move(a);
    }
    json::Array ps;
    for (auto *P : D->parameters()) {
      json::Object p;
      p["id"] = declId(P);
      p["n"] = P->getNameAsString();
      p["t"] = typeId(P->getType());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      if (M->getParent()->isLambda()) o["lambda"] = true;
      json::Array ov;
      for (auto *B : M->overridden_methods()) ov.push_back(declId(B));
      o["over"] = std::move(ov);
    }
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      o["ctor"] = true;
      json::Array is;
      for (auto *I : K->inits()) {
        json::Object i;
        if (I->isAnyMemberInitializer()) i["f"] = I->getAnyMember()->getNameAsString();
        else if (I->isBaseInitializer()) i["base"] = typeId(QualType(I->getBaseClass(), 0));
        else if (I->isDelegatingInitializer()) i["deleg"] = 1;
        i["e"] = E(I->getInit());
        is.push_back(std::move(i));
      }
      o["inits"] = std::move(is);
    }
    if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
    o["body"] = S(F->getBody());
    return o;
  }

  json::Object rec(const CXXRecordDecl *R) {
    json::Object o;
    o["name"] = recName(R);
    o["q"] = qname(R);
    o["lambda"] = R->isLambda();
    bool s = sys(R->getLocation());
    o["sys"] = s;
    json::Array fs, bs, ms;
    if (!s) {
      for (auto *f : R->fields()) {
        json::Object fo;
        fo["n"] = f->getNameAsString();
        fo["t"] = typeId(f->getType());
        if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer());
        fs.push_back(std::move(fo));
      }
      for (auto &b : R->bases()) bs.push_back(typeId(b.getType()));
      for (auto *m : R->methods()) {
        ms.push_back(json::Object{{"n", m->getNameAsString()}, {"id", declId(m)}, {"virt", m->isVirtual()}});
        if (m->isVirtual() || !m->isImplicit()) noteFn(m);
      }
      for (auto *c : R->ctors()) noteFn(c);
      o["tc"] = R->isTriviallyCopyable();
    }
    o["fields"] = std::move(fs);
    o["bases"] = std::move(bs);
    o["methods"] = std::move(ms);
    return o;
  }
};

class Roots : public RecursiveASTVisitor<Roots> {
public:
  Ctx &X;
  explicit Roots(Ctx &x) : X(x) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->isThisDeclarationADefinition() && !F->isDependentContext()) X.noteFn(F);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *R) {
    if (R->isThisDeclarationADefinition() && !R->isDependentContext() && !X.sys(R->getLocation())) X.noteRec(R);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *D) {
    if (!D->isThisDeclarationADefinition() || X.sys(D->getLocation()) || D->isDependentContext()) return true;
    json::Object o;
    o["q"] = X.qname(D);
    json::Array a;
    for (auto *c : D->enumerators())
      a.push_back(json::Object{{"n", c->getNameAsString()}, {"v", c->getInitVal().getExtValue()}});
    o["v"] = std::move(a);
    enums.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *V) {
    if (V->hasGlobalStorage() && !X.sys(V->getLocation()) && !V->getDeclContext()->isDependentContext() && !V->getType()->isDependentType() && !isa<VarTemplateSpecializationDecl>(V))
      X.noteGlobal(V);
    return true;
  }
  json::Array enums;
};

class Cons : public ASTConsumer {
  std::string out;

public:
  explicit Cons(std::string o) : out(std::move(o)) {}
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) return;
    Ctx X(C);
    Roots R(X);
    R.TraverseDecl(C.getTranslationUnitDecl());
    json::Array fns, recs, gl;
    while (!X.work.empty() || !X.gwork.empty() || !X.rwork.empty()) {
      while (!X.work.empty()) {
        auto *F = X.work.front();
        X.work.pop_front();
        fns.push_back(X.fn(F));
      }
      while (!X.gwork.empty()) {
        auto *V = X.gwork.front();
        X.gwork.pop_front();
        json::Object o;
        o["id"] = X.declId(V);
        o["n"] = V->getNameAsString();
        o["q"] = X.qname(V);
        o["t"] = X.typeId(V->getType());
        if (V->getInit() && !X.sys(V->getLocation()) && !V->getInit()->isValueDependent()) o["init"] = X.E(V->getInit());
        gl.push_back(std::move(o));
      }
      while (!X.rwork.empty()) {
        auto *r = X.rwork.front();
        X.rwork.pop_front();
        recs.push_back(X.rec(r));
      }
    }
    json::Object top;
    top["funcs"] = std::move(fns);
    top["records"] = std::move(recs);
    top["globals"] = std::move(gl);
    top["enums"] = std::move(R.enums);
    top["types"] = std::move(X.types);
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    os << json::Value(std::move(top));
  }
};

class Act : public PluginASTAction {
  std::string out = "out.json";

protected:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
    return std::make_unique<Cons>(out);
  }
  bool ParseArgs(const CompilerInstance &, const std::vector<std::string> &a) override {
    if (!a.empty()) out = a[0];
    return true;
  }
};
} // namespace
static FrontendPluginRegistry::Add<Act> Z("fvcx", "lower functions to JSON");
