// Mechanical extraction of the (instantiated) C++ functions of /repo into a
// JSON form of their typed AST.  Nothing is interpreted here: every statement
// and expression of the clang AST is emitted; node kinds that the emitter does
// not know are emitted as {"k":"unsupported","what":<clang kind>}, so that the
// verifier refuses the function instead of silently dropping code.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <unordered_map>

using namespace clang;
namespace json = llvm::json;

static std::string g_root;

struct Emitter {
  ASTContext &C;
  SourceManager &SM;
  PrintingPolicy PP;
  std::unordered_map<const void *, int> tyIds;
  json::Array types;
  std::unordered_map<const Decl *, int> declIds;
  json::Object functions, records;
  std::deque<const FunctionDecl *> work;
  std::set<const FunctionDecl *> queued;
  std::set<const CXXRecordDecl *> recsDone;

  explicit Emitter(ASTContext &C)
      : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()) {
    PP.SuppressInlineNamespace = true;
    PP.SuppressUnwrittenScope = true;
    PP.PrintCanonicalTypes = true;
    PP.AnonymousTagLocations = false;
  }

  int did(const Decl *D) {
    D = D->getCanonicalDecl();
    auto it = declIds.emplace(D, (int)declIds.size() + 1);
    return it.first->second;
  }

  bool inRepo(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string f = SM.getFilename(L).str();
    return f.rfind(g_root, 0) == 0;
  }
  std::string locStr(SourceLocation L) {
    L = SM.getExpansionLoc(L);
    std::string f = SM.getFilename(L).str();
    if (f.rfind(g_root, 0) == 0) f = f.substr(g_root.size());
    return f + ":" + std::to_string(SM.getExpansionLineNumber(L));
  }

  std::string qname(const NamedDecl *D) {
    std::string s;
    llvm::raw_string_ostream os(s);
    D->printQualifiedName(os, PP);
    return os.str();
  }

  int ty(QualType Q) {
    Q = C.getCanonicalType(Q);
    const void *key = Q.getAsOpaquePtr();
    auto it = tyIds.find(key);
    if (it != tyIds.end()) return it->second;
    int id = (int)types.size();
    tyIds[key] = id;
    types.push_back(nullptr);
    json::Object o;
    o["s"] = Q.getAsString(PP);
    o["const"] = Q.isConstQualified();
    const Type *T = Q.getTypePtr();
    if (auto *B = dyn_cast<BuiltinType>(T)) {
      if (B->getKind() == BuiltinType::Bool) o["k"] = "bool";
      else if (B->isInteger()) {
        o["k"] = "int";
        o["w"] = (int64_t)C.getTypeSize(Q);
        o["sg"] = B->isSignedInteger();
        o["char"] = T->isAnyCharacterType();
      } else if (B->isFloatingPoint()) {
        o["k"] = "float";
        o["w"] = (int64_t)C.getTypeSize(Q);
      } else if (B->isVoidType()) o["k"] = "void";
      else if (B->isNullPtrType()) o["k"] = "nullptr";
      else o["k"] = "other";
    } else if (auto *P = dyn_cast<PointerType>(T)) {
      o["k"] = "ptr";
      o["to"] = ty(P->getPointeeType());
    } else if (auto *R = dyn_cast<LValueReferenceType>(T)) {
      o["k"] = "lref";
      o["to"] = ty(R->getPointeeType());
    } else if (auto *R = dyn_cast<RValueReferenceType>(T)) {
      o["k"] = "rref";
      o["to"] = ty(R->getPointeeType());
    } else if (auto *A = dyn_cast<ConstantArrayType>(T)) {
      o["k"] = "arr";
      o["n"] = (int64_t)A->getSize().getZExtValue();
      o["to"] = ty(A->getElementType());
    } else if (auto *E = dyn_cast<EnumType>(T)) {
      o["k"] = "enum";
      o["name"] = qname(E->getDecl());
    } else if (isa<FunctionProtoType>(T)) {
      o["k"] = "func";
    } else if (auto *R = dyn_cast<RecordType>(T)) {
      o["k"] = "rec";
      const RecordDecl *D = R->getDecl();
      o["name"] = qname(D);
      if (auto *CR = dyn_cast<CXXRecordDecl>(D)) {
        if (CR->isLambda()) {
          o["lambda"] = did(CR);
        }
        if (auto *S = dyn_cast<ClassTemplateSpecializationDecl>(CR)) {
          json::Array args;
          for (const TemplateArgument &A : S->getTemplateArgs().asArray()) targ(A, args);
          o["args"] = std::move(args);
        }
        SourceLocation RL = CR->getLocation();
        if (auto *P = CR->getTemplateInstantiationPattern()) RL = P->getLocation();
        bool repo = inRepo(RL);
        o["repo"] = repo;
        if (repo && !CR->isLambda()) {
          o["rid"] = did(CR);
          emitRecord(CR);
        }
      }
    } else {
      o["k"] = "other";
    }
    types[id] = std::move(o);
    return id;
  }

  void targ(const TemplateArgument &A, json::Array &args) {
    switch (A.getKind()) {
      case TemplateArgument::Type: args.push_back(ty(A.getAsType())); break;
      case TemplateArgument::Integral: {
        json::Object v;
        v["int"] = (int64_t)A.getAsIntegral().getExtValue();
        args.push_back(std::move(v));
        break;
      }
      case TemplateArgument::Pack:
        for (const TemplateArgument &B : A.pack_elements()) targ(B, args);
        break;
      default: args.push_back(nullptr);
    }
  }

  void emitRecord(const CXXRecordDecl *R) {
    if (!R->hasDefinition()) return;
    R = R->getDefinition();
    if (!recsDone.insert(R).second) return;
    json::Object o;
    o["name"] = qname(R);
    o["type"] = C.getTypeDeclType(R).getAsString(PP);
    json::Array bases;
    for (auto &B : R->bases()) bases.push_back(ty(B.getType()));
    o["bases"] = std::move(bases);
    json::Array fields;
    for (auto *F : R->fields()) {
      json::Object f;
      f["name"] = F->getNameAsString();
      f["t"] = ty(F->getType());
      if (F->hasInClassInitializer() && F->getInClassInitializer())
        f["init"] = expr(F->getInClassInitializer());
      fields.push_back(std::move(f));
    }
    o["fields"] = std::move(fields);
    json::Array methods;
    for (auto *M : R->methods()) {
      json::Object m;
      m["name"] = M->getNameAsString();
      m["id"] = did(M);
      m["virt"] = M->isVirtual();
      m["pure"] = M->isPureVirtual();
      json::Array ov;
      for (auto *O : M->overridden_methods()) ov.push_back(did(O));
      m["overrides"] = std::move(ov);
      methods.push_back(std::move(m));
    }
    o["methods"] = std::move(methods);
    records[std::to_string(did(R))] = std::move(o);
  }

  json::Object fnRef(const FunctionDecl *F) {
    json::Object o;
    o["id"] = did(F);
    o["q"] = qname(F);
    o["name"] = F->getNameAsString();
    const FunctionDecl *Def = nullptr;
    bool repo = inRepo(F->getLocation());
    if (auto *M = dyn_cast<CXXMethodDecl>(F))
      if (auto *P = M->getParent()->getTemplateInstantiationPattern())
        repo = inRepo(P->getLocation());
    o["repo"] = repo;
    if (auto *TA = F->getTemplateSpecializationArgs()) {
      json::Array a;
      for (const TemplateArgument &A : TA->asArray()) targ(A, a);
      o["targs"] = std::move(a);
    }
    json::Array ps;
    for (auto *P : F->parameters()) ps.push_back(ty(P->getType()));
    o["ptypes"] = std::move(ps);
    o["ret"] = ty(F->getReturnType());
    if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
      o["cls"] = ty(C.getTypeDeclType(M->getParent()));
      o["virt"] = M->isVirtual();
      o["static"] = M->isStatic();
      o["const"] = M->isConst();
      if (isa<CXXConstructorDecl>(M)) {
        auto *K = cast<CXXConstructorDecl>(M);
        o["ctor"] = true;
        o["copy"] = K->isCopyConstructor();
        o["move"] = K->isMoveConstructor();
        o["defaulted"] = K->isDefaulted() || K->isImplicit();
        if (K->isInheritingConstructor())
          o["inherited"] = true;
      } else {
        o["defaulted"] = M->isDefaulted() || M->isImplicit();
      }
    }
    if (repo && F->isDefined(Def) && Def) enqueue(Def);
    return o;
  }
  void enqueue(const FunctionDecl *F) {
    if (F->isDependentContext()) return;
    if (queued.insert(F).second) work.push_back(F);
  }

  json::Value unsupported(const Stmt *S) {
    json::Object o;
    o["k"] = "unsupported";
    o["what"] = S ? S->getStmtClassName() : "null";
    if (S) o["loc"] = locStr(S->getBeginLoc());
    return std::move(o);
  }

  json::Value exprOrNull(const Expr *E) {
    if (!E) return nullptr;
    return expr(E);
  }

  json::Value varDecl(const VarDecl *V) {
    json::Object o;
    o["id"] = did(V);
    o["name"] = V->getNameAsString();
    o["t"] = ty(V->getType());
    o["static"] = V->isStaticLocal();
    if (V->getInit()) o["init"] = expr(V->getInit());
    o["initstyle"] = (int)V->getInitStyle();
    return std::move(o);
  }

  json::Value stmt(const Stmt *S) {
    if (!S) return nullptr;
    json::Object o;
    o["loc"] = locStr(S->getBeginLoc());
    if (auto *E = dyn_cast<Expr>(S)) {
      o["k"] = "expr";
      o["e"] = expr(E);
      return std::move(o);
    }
    switch (S->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        o["k"] = "block";
        json::Array a;
        for (auto *T : cast<CompoundStmt>(S)->body()) a.push_back(stmt(T));
        o["body"] = std::move(a);
        return std::move(o);
      }
      case Stmt::DeclStmtClass: {
        o["k"] = "decl";
        json::Array a;
        for (auto *D : cast<DeclStmt>(S)->decls()) {
          if (auto *V = dyn_cast<VarDecl>(D)) a.push_back(varDecl(V));
          else if (isa<TypedefNameDecl>(D) || isa<UsingDecl>(D) ||
                   isa<UsingShadowDecl>(D) || isa<UsingDirectiveDecl>(D) ||
                   isa<StaticAssertDecl>(D) || isa<EmptyDecl>(D)) {}
          else return unsupported(S);
        }
        o["vars"] = std::move(a);
        return std::move(o);
      }
      case Stmt::IfStmtClass: {
        auto *I = cast<IfStmt>(S);
        o["k"] = "if";
        o["init"] = stmt(I->getInit());
        if (I->getConditionVariable())
          o["cvar"] = varDecl(I->getConditionVariable());
        o["c"] = expr(I->getCond());
        o["then"] = stmt(I->getThen());
        o["else"] = stmt(I->getElse());
        return std::move(o);
      }
      case Stmt::ForStmtClass: {
        auto *F = cast<ForStmt>(S);
        o["k"] = "for";
        o["init"] = stmt(F->getInit());
        if (F->getConditionVariable()) return unsupported(S);
        o["c"] = exprOrNull(F->getCond());
        o["inc"] = exprOrNull(F->getInc());
        o["body"] = stmt(F->getBody());
        o["endloc"] = locStr(F->getEndLoc());
        return std::move(o);
      }
      case Stmt::WhileStmtClass: {
        auto *W = cast<WhileStmt>(S);
        if (W->getConditionVariable()) return unsupported(S);
        o["k"] = "while";
        o["c"] = expr(W->getCond());
        o["body"] = stmt(W->getBody());
        return std::move(o);
      }
      case Stmt::DoStmtClass: {
        auto *W = cast<DoStmt>(S);
        o["k"] = "do";
        o["c"] = expr(W->getCond());
        o["body"] = stmt(W->getBody());
        return std::move(o);
      }
      case Stmt::CXXForRangeStmtClass: {
        auto *F = cast<CXXForRangeStmt>(S);
        if (F->getInit()) return unsupported(S);
        o["k"] = "rangefor";
        o["range"] = expr(F->getRangeInit());
        const VarDecl *V = F->getLoopVariable();
        json::Object v;
        v["id"] = did(V);
        v["name"] = V->getNameAsString();
        v["t"] = ty(V->getType());
        o["var"] = std::move(v);
        o["body"] = stmt(F->getBody());
        return std::move(o);
      }
      case Stmt::ReturnStmtClass:
        o["k"] = "return";
        o["e"] = exprOrNull(cast<ReturnStmt>(S)->getRetValue());
        return std::move(o);
      case Stmt::BreakStmtClass: o["k"] = "break"; return std::move(o);
      case Stmt::ContinueStmtClass: o["k"] = "continue"; return std::move(o);
      case Stmt::NullStmtClass: o["k"] = "null"; return std::move(o);
      case Stmt::AttributedStmtClass:
        return stmt(cast<AttributedStmt>(S)->getSubStmt());
      case Stmt::SwitchStmtClass: {
        auto *W = cast<SwitchStmt>(S);
        if (W->getInit() || W->getConditionVariable()) return unsupported(S);
        o["k"] = "switch";
        o["c"] = expr(W->getCond());
        o["body"] = stmt(W->getBody());
        return std::move(o);
      }
      case Stmt::CaseStmtClass: {
        auto *W = cast<CaseStmt>(S);
        if (W->getRHS()) return unsupported(S);
        o["k"] = "case";
        o["v"] = expr(W->getLHS());
        o["body"] = stmt(W->getSubStmt());
        return std::move(o);
      }
      case Stmt::DefaultStmtClass:
        o["k"] = "default";
        o["body"] = stmt(cast<DefaultStmt>(S)->getSubStmt());
        return std::move(o);
      default: return unsupported(S);
    }
  }

  json::Array exprs(llvm::ArrayRef<const Expr *> es) {
    json::Array a;
    for (auto *e : es) a.push_back(expr(e));
    return a;
  }

  json::Value expr(const Expr *E) {
    // Transparent wrappers.
    for (;;) {
      if (auto *P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<CXXBindTemporaryExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
      else if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
      else if (auto *P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
      else if (auto *P = dyn_cast<CXXRewrittenBinaryOperator>(E)) E = P->getSemanticForm();
      else break;
    }
    json::Object o;
    o["t"] = ty(E->getType());
    o["vk"] = E->isLValue() ? "l" : E->isXValue() ? "x" : "r";
    o["loc"] = locStr(E->getBeginLoc());
    if (auto *M = dyn_cast<MaterializeTemporaryExpr>(E)) {
      o["k"] = "temp";
      o["e"] = expr(M->getSubExpr());
      return std::move(o);
    }
    if (auto *L = dyn_cast<IntegerLiteral>(E)) {
      o["k"] = "int";
      llvm::SmallString<32> s;
      L->getValue().toString(s, 10, L->getType()->isSignedIntegerType());
      o["v"] = std::string(s.str());
      return std::move(o);
    }
    if (auto *L = dyn_cast<CharacterLiteral>(E)) {
      o["k"] = "int";
      o["v"] = std::to_string(L->getValue());
      return std::move(o);
    }
    if (auto *L = dyn_cast<FloatingLiteral>(E)) {
      o["k"] = "float";
      llvm::SmallString<64> s;
      // exact decimal expansion of the binary value
      llvm::APFloat v = L->getValue();
      bool li;
      v.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
      char buf[64];
      snprintf(buf, sizeof buf, "%a", v.convertToDouble());
      o["v"] = std::string(buf);
      return std::move(o);
    }
    if (auto *L = dyn_cast<CXXBoolLiteralExpr>(E)) {
      o["k"] = "bool";
      o["v"] = L->getValue();
      return std::move(o);
    }
    if (auto *L = dyn_cast<clang::StringLiteral>(E)) {
      o["k"] = "str";
      o["v"] = json::fixUTF8(L->getString());
      return std::move(o);
    }
    if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
      o["k"] = "null";
      return std::move(o);
    }
    if (isa<CXXThisExpr>(E)) {
      o["k"] = "this";
      return std::move(o);
    }
    if (auto *P = dyn_cast<PredefinedExpr>(E)) {
      o["k"] = "str";
      o["v"] = P->getFunctionName() ? P->getFunctionName()->getString().str() : "";
      return std::move(o);
    }
    if (auto *R = dyn_cast<DeclRefExpr>(E)) {
      const ValueDecl *D = R->getDecl();
      if (auto *F = dyn_cast<FunctionDecl>(D)) {
        o["k"] = "fn";
        o["f"] = fnRef(F);
        return std::move(o);
      }
      if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
        o["k"] = "int";
        llvm::SmallString<32> s;
        EC->getInitVal().toString(s, 10);
        o["v"] = std::string(s.str());
        return std::move(o);
      }
      if (auto *V = dyn_cast<VarDecl>(D)) return varRef(V, E, std::move(o));
      return unsupported(E);
    }
    if (auto *M = dyn_cast<MemberExpr>(E)) {
      if (auto *V = dyn_cast<VarDecl>(M->getMemberDecl()))
        return varRef(V, E, std::move(o));
      if (auto *F = dyn_cast<FieldDecl>(M->getMemberDecl())) {
        o["k"] = "field";
        o["f"] = F->getNameAsString();
        o["cls"] = ty(C.getTypeDeclType(cast<RecordDecl>(F->getDeclContext())));
        o["arrow"] = M->isArrow();
        o["e"] = expr(M->getBase());
        return std::move(o);
      }
      return unsupported(E);
    }
    if (auto *U = dyn_cast<UnaryOperator>(E)) {
      o["k"] = "un";
      o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
      o["post"] = U->isPostfix();
      o["e"] = expr(U->getSubExpr());
      return std::move(o);
    }
    if (auto *B = dyn_cast<CompoundAssignOperator>(E)) {
      o["k"] = "assignop";
      o["op"] = BinaryOperator::getOpcodeStr(
          BinaryOperator::getOpForCompoundAssignment(B->getOpcode())).str();
      o["l"] = expr(B->getLHS());
      o["r"] = expr(B->getRHS());
      o["ct"] = ty(B->getComputationResultType());
      o["lt"] = ty(B->getComputationLHSType());
      return std::move(o);
    }
    if (auto *B = dyn_cast<BinaryOperator>(E)) {
      o["k"] = B->isAssignmentOp() ? "assign" : "bin";
      o["op"] = B->getOpcodeStr().str();
      o["l"] = expr(B->getLHS());
      o["r"] = expr(B->getRHS());
      return std::move(o);
    }
    if (auto *B = dyn_cast<ConditionalOperator>(E)) {
      o["k"] = "cond";
      o["c"] = expr(B->getCond());
      o["l"] = expr(B->getTrueExpr());
      o["r"] = expr(B->getFalseExpr());
      return std::move(o);
    }
    if (auto *K = dyn_cast<CastExpr>(E)) {
      o["k"] = "cast";
      o["ck"] = K->getCastKindName();
      o["e"] = expr(K->getSubExpr());
      return std::move(o);
    }
    if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
      o["k"] = "index";
      o["e"] = expr(A->getBase());
      o["i"] = expr(A->getIdx());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXOperatorCallExpr>(E)) {
      auto *F = dyn_cast_or_null<FunctionDecl>(X->getCalleeDecl());
      if (!F) return unsupported(E);
      o["k"] = "call";
      o["f"] = fnRef(F);
      o["op"] = getOperatorSpelling(X->getOperator());
      json::Array a;
      for (auto *e : X->arguments()) a.push_back(expr(e));
      if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
        json::Array b;
        for (size_t i = 1; i < a.size(); ++i) b.push_back(a[i]);
        json::Value ob = a[0];
        o["obj"] = std::move(ob);
        o["arrow"] = false;
        o["dispatch"] = cast<CXXMethodDecl>(F)->isVirtual();
        o["args"] = std::move(b);
      } else
        o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXMemberCallExpr>(E)) {
      auto *F = X->getMethodDecl();
      auto *ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens());
      if (!F || !ME) return unsupported(E);
      o["k"] = "call";
      o["f"] = fnRef(F);
      o["obj"] = expr(ME->getBase());
      o["arrow"] = ME->isArrow();
      o["dispatch"] = F->isVirtual() && !ME->hasQualifier();
      json::Array a;
      for (auto *e : X->arguments()) a.push_back(expr(e));
      o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CallExpr>(E)) {
      auto *F = X->getDirectCallee();
      json::Array a;
      for (auto *e : X->arguments()) a.push_back(expr(e));
      o["k"] = "call";
      if (F) o["f"] = fnRef(F);
      else o["callee"] = expr(X->getCallee());
      o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXConstructExpr>(E)) {
      o["k"] = "construct";
      o["f"] = fnRef(X->getConstructor());
      o["list"] = X->isListInitialization();
      o["stdlist"] = X->isStdInitListInitialization();
      o["zero"] = X->requiresZeroInitialization();
      o["elide"] = X->isElidable();
      json::Array a;
      for (auto *e : X->arguments()) a.push_back(expr(e));
      o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
      o["k"] = "inheritctor";
      o["f"] = fnRef(X->getConstructor());
      return std::move(o);
    }
    if (auto *X = dyn_cast<InitListExpr>(E)) {
      o["k"] = "initlist";
      if (X->isTransparent()) return expr(X->getInit(0));
      json::Array a;
      for (auto *e : X->inits()) a.push_back(expr(e));
      o["args"] = std::move(a);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) {
      o["k"] = "stdinitlist";
      const Expr *S = X->getSubExpr();
      if (auto *M = dyn_cast<MaterializeTemporaryExpr>(S)) S = M->getSubExpr();
      o["e"] = expr(S);
      return std::move(o);
    }
    if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) {
      o["k"] = "zero";
      return std::move(o);
    }
    if (auto *X = dyn_cast<LambdaExpr>(E)) {
      o["k"] = "lambda";
      json::Array caps;
      auto ci = X->capture_init_begin();
      for (auto &Cp : X->captures()) {
        json::Object c;
        if (Cp.capturesThis()) { c["this"] = true; }
        else if (Cp.capturesVariable()) {
          c["id"] = did(Cp.getCapturedVar());
          c["name"] = Cp.getCapturedVar()->getNameAsString();
          c["byref"] = Cp.getCaptureKind() == LCK_ByRef;
          if (*ci) c["init"] = expr(*ci);
        } else return unsupported(E);
        caps.push_back(std::move(c));
        ++ci;
      }
      o["caps"] = std::move(caps);
      const CXXMethodDecl *Op = X->getCallOperator();
      o["f"] = did(Op);
      o["q"] = "lambda";
      o["rec"] = did(X->getLambdaClass());
      o["generic"] = X->isGenericLambda();
      if (!X->isGenericLambda()) enqueue(Op);
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXNewExpr>(E)) {
      if (X->isArray() || X->getNumPlacementArgs()) return unsupported(E);
      o["k"] = "new";
      o["at"] = ty(X->getAllocatedType());
      o["init"] = exprOrNull(X->getInitializer());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXDeleteExpr>(E)) {
      o["k"] = "delete";
      o["e"] = expr(X->getArgument());
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXThrowExpr>(E)) {
      o["k"] = "throw";
      o["e"] = exprOrNull(X->getSubExpr());
      if (X->getSubExpr()) o["tt"] = ty(X->getSubExpr()->getType());
      return std::move(o);
    }
    if (auto *X = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
      Expr::EvalResult r;
      if (X->EvaluateAsInt(r, C)) {
        o["k"] = "int";
        llvm::SmallString<32> s;
        r.Val.getInt().toString(s, 10);
        o["v"] = std::string(s.str());
        return std::move(o);
      }
    }
    if (auto *X = dyn_cast<SourceLocExpr>(E)) {
      // __FILE__/__LINE__/__func__ of assert(): a constant nobody computes with.
      if (X->getType()->isIntegerType()) { o["k"] = "int"; o["v"] = "0"; }
      else { o["k"] = "str"; o["v"] = ""; }
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXTypeidExpr>(E)) {
      o["k"] = "typeid";
      if (X->isTypeOperand()) o["of"] = ty(X->getTypeOperand(C));
      return std::move(o);
    }
    if (auto *X = dyn_cast<TypeTraitExpr>(E)) {
      o["k"] = "bool";
      o["v"] = X->getValue();
      return std::move(o);
    }
    if (auto *X = dyn_cast<CXXNoexceptExpr>(E)) {
      o["k"] = "bool";
      o["v"] = X->getValue();
      return std::move(o);
    }
    return unsupported(E);
  }

  json::Value varRef(const VarDecl *V, const Expr *E, json::Object o) {
    // Compile-time constants (static constexpr members, const globals).
    if (!V->isLocalVarDeclOrParm() || V->isConstexpr()) {
      const VarDecl *IV = nullptr;
      const Expr *Init = V->getAnyInitializer(IV);
      if (Init && IV && !Init->isValueDependent() &&
          (V->getType()->isIntegralOrEnumerationType() ||
           V->getType()->isFloatingType())) {
        if (const APValue *A = (V->getType().isConstQualified() || V->isConstexpr())
                                   ? IV->evaluateValue() : nullptr) {
          if (A->isInt()) {
            llvm::SmallString<32> s;
            A->getInt().toString(s, 10);
            if (V->getType()->isBooleanType()) {
              o["k"] = "bool";
              o["v"] = !A->getInt().isZero();
            } else {
              o["k"] = "int";
              o["v"] = std::string(s.str());
            }
            o["constvar"] = true;
            return std::move(o);
          }
          if (A->isFloat()) {
            llvm::APFloat v = A->getFloat();
            bool li;
            v.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
            char buf[64];
            snprintf(buf, sizeof buf, "%a", v.convertToDouble());
            o["k"] = "float";
            o["v"] = std::string(buf);
            o["constvar"] = true;
            return std::move(o);
          }
        }
      }
    }
    o["k"] = "var";
    o["id"] = did(V);
    o["name"] = V->getNameAsString();
    o["q"] = qname(V);
    o["local"] = V->isLocalVarDeclOrParm();
    o["dt"] = ty(V->getType());
    return std::move(o);
  }

  void emitFunction(const FunctionDecl *F) {
    json::Object o = fnRef(F);
    o["loc"] = locStr(F->getLocation());
    o["line0"] = (int64_t)SM.getExpansionLineNumber(F->getBeginLoc());
    o["line1"] = (int64_t)SM.getExpansionLineNumber(F->getEndLoc());
    json::Array ps;
    for (auto *P : F->parameters()) {
      json::Object p;
      p["id"] = did(P);
      p["name"] = P->getNameAsString();
      p["t"] = ty(P->getType());
      ps.push_back(std::move(p));
    }
    o["params"] = std::move(ps);
    if (auto *K = dyn_cast<CXXConstructorDecl>(F)) {
      json::Array is;
      for (auto *I : K->inits()) {
        json::Object i;
        if (I->isBaseInitializer()) i["base"] = ty(QualType(I->getBaseClass(), 0));
        else if (I->isAnyMemberInitializer()) i["field"] = I->getAnyMember()->getNameAsString();
        else i["delegating"] = true;
        i["written"] = I->isWritten();
        i["e"] = exprOrNull(I->getInit());
        is.push_back(std::move(i));
      }
      o["inits"] = std::move(is);
    }
    o["body"] = stmt(F->getBody());
    functions[std::to_string(did(F))] = std::move(o);
  }

  void drain() {
    while (!work.empty()) {
      const FunctionDecl *F = work.front();
      work.pop_front();
      if (!F->doesThisDeclarationHaveABody()) continue;
      emitFunction(F);
    }
  }
};

struct V : RecursiveASTVisitor<V> {
  Emitter &E;
  explicit V(Emitter &E) : E(E) {}
  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return false; }
  bool VisitFunctionDecl(FunctionDecl *F) {
    if (F->doesThisDeclarationHaveABody() && !F->isDependentContext() &&
        E.inRepo(F->getLocation()))
      E.enqueue(F);
    return true;
  }
};

static int g_status = 0;
static std::string g_out;

struct Cons : ASTConsumer {
  void HandleTranslationUnit(ASTContext &C) override {
    if (C.getDiagnostics().hasErrorOccurred()) { g_status = 3; return; }
    Emitter E(C);
    V v(E);
    v.TraverseDecl(C.getTranslationUnitDecl());
    E.drain();
    json::Object top;
    top["functions"] = std::move(E.functions);
    top["records"] = std::move(E.records);
    top["types"] = std::move(E.types);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << json::Value(std::move(top));
  }
};
struct Act : ASTFrontendAction {
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override {
    return std::make_unique<Cons>();
  }
};

// extract <repo-root> <driver.cc> <out.json> [clang args...]
int main(int argc, char **argv) {
  if (argc < 4) return 2;
  g_root = argv[1];
  if (g_root.back() != '/') g_root += '/';
  g_out = argv[3];
  std::vector<std::string> args;
  for (int i = 4; i < argc; ++i) args.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(".", args);
  tooling::ClangTool tool(db, {argv[2]});
  int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
  return rc ? rc : g_status;
}
