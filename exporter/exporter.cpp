// Typed AST exporter: dumps every function with a body that lives under one of the given roots
// (normally /repo/src and /repo/include) of one translation unit, as JSON on stdout.
//   exporter OUT.json ROOT[,ROOT...] FILE.cpp -- <compiler flags>
// Nothing is rewritten: the engine verifies exactly the statements clang parsed from the current source.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Lex/Lexer.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;
using json::Array;
using json::Object;
using json::Value;

static std::vector<std::string> roots;
static std::string outPath;

struct Exporter {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const Decl*, int> ids;
    std::deque<const Decl*> queue;       // decls to describe
    std::map<std::string, int> typeIds;
    Array types;
    Object decls;
    int nextId = 1;

    explicit Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressInlineNamespace = true;
        PP.Bool = true;
    }

    bool inRoots(SourceLocation L) {
        if (L.isInvalid()) return false;
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        if (P.isInvalid()) return false;
        llvm::StringRef f(P.getFilename());
        for (auto& r : roots) if (f.starts_with(r)) return true;
        return false;
    }
    Value loc(SourceLocation L) {
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        if (P.isInvalid()) return nullptr;
        return std::string(P.getFilename()) + ":" + std::to_string(P.getLine());
    }
    int line(SourceLocation L) {
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isInvalid() ? 0 : (int)P.getLine();
    }

    static const Decl* canon(const Decl* D) {
        if (auto* F = dyn_cast<FunctionDecl>(D)) {
            const FunctionDecl* def = nullptr;
            if (F->hasBody(def) && def) return def;
            return F->getCanonicalDecl();
        }
        if (auto* R = dyn_cast<CXXRecordDecl>(D)) {
            if (auto* d = R->getDefinition()) return d;
            return R->getCanonicalDecl();
        }
        if (auto* V = dyn_cast<VarDecl>(D)) {
            if (!isa<ParmVarDecl>(V) && !V->isLocalVarDecl()) {
                if (auto* d = V->getInitializingDeclaration()) return d;
                if (auto* d = V->getDefinition()) return d;
                return V->getCanonicalDecl();
            }
        }
        return D;
    }
    int id(const Decl* D) {
        D = canon(D);
        auto it = ids.find(D);
        if (it != ids.end()) return it->second;
        int i = nextId++;
        ids[D] = i;
        queue.push_back(D);
        return i;
    }

    std::string qname(const NamedDecl* D) {
        std::vector<std::string> parts;
        auto nm = [&](const NamedDecl* N) -> std::string {
            if (auto* R = dyn_cast<CXXRecordDecl>(N)) {
                if (R->isLambda()) return "(lambda)";
                if (!R->getIdentifier()) return "(anon)";
                return R->getNameAsString();
            }
            if (isa<CXXConstructorDecl>(N)) return "(ctor)";
            if (isa<CXXDestructorDecl>(N)) return "(dtor)";
            if (isa<CXXConversionDecl>(N)) return "(conv)";
            return N->getNameAsString();
        };
        parts.push_back(nm(D));
        for (const DeclContext* c = D->getDeclContext(); c; c = c->getParent()) {
            if (auto* ns = dyn_cast<NamespaceDecl>(c)) { if (ns->isInline()) continue; parts.push_back(ns->isAnonymousNamespace() ? "(anonns)" : ns->getNameAsString()); }
            else if (auto* n = dyn_cast<NamedDecl>(c)) parts.push_back(nm(n));
        }
        std::string s;
        for (auto it = parts.rbegin(); it != parts.rend(); ++it) { if (!s.empty()) s += "::"; s += *it; }
        return s;
    }

    Array tmplArgs(const TemplateArgumentList& L) {
        Array a;
        for (auto& t : L.asArray()) tmplArg(a, t);
        return a;
    }
    void tmplArg(Array& a, const TemplateArgument& t) {
        switch (t.getKind()) {
            case TemplateArgument::Type: a.push_back(Object{ { "t", type(t.getAsType()) } }); break;
            case TemplateArgument::Integral: {
                llvm::SmallString<32> s; t.getAsIntegral().toString(s, 10);
                a.push_back(Object{ { "i", s.str().str() } }); break;
            }
            case TemplateArgument::Declaration: a.push_back(Object{ { "d", id(t.getAsDecl()) } }); break;
            case TemplateArgument::Pack: { Array sub; for (auto& x : t.pack_elements()) tmplArg(sub, x); a.push_back(Object{ { "pack", std::move(sub) } }); break; }
            default: a.push_back(Object{ { "other", (int)t.getKind() } });
        }
    }

    int type(QualType T) {
        if (T.isNull()) return -1;
        QualType K = T.getCanonicalType();
        std::string key = K.getAsString(PP);
        // lambdas and local classes need identity in the key
        if (auto* R = K->getAsCXXRecordDecl())
            if (R->isLambda() || R->isLocalClass()) key += "#" + std::to_string(id(R));
        if (K->isPointerType() || K->isReferenceType())
            if (auto* R = K->getPointeeType()->getAsCXXRecordDecl())
                if (R->isLambda() || R->isLocalClass()) key += "#" + std::to_string(id(R));
        auto it = typeIds.find(key);
        if (it != typeIds.end()) return it->second;
        int i = types.size();
        typeIds[key] = i;
        types.push_back(nullptr);
        Object o;
        o["s"] = key;
        if (K.isConstQualified()) o["const"] = true;
        const clang::Type* t = K.getTypePtr();
        if (t->isBooleanType()) o["k"] = "bool";
        else if (t->isNullPtrType()) o["k"] = "nullptr";
        else if (t->isVoidType()) o["k"] = "void";
        else if (auto* e = t->getAs<EnumType>()) {
            o["k"] = "enum";
            o["n"] = qname(e->getDecl());
            QualType u = e->getDecl()->getIntegerType();
            if (!u.isNull()) { o["w"] = (int)C.getTypeSize(u); o["sg"] = u->isSignedIntegerType(); }
        }
        else if (t->isIntegerType()) {
            o["k"] = "int"; o["w"] = (int)C.getTypeSize(K); o["sg"] = t->isSignedIntegerType();
            o["chr"] = t->isAnyCharacterType() || t->isCharType();
        }
        else if (t->isFloatingType()) { o["k"] = "float"; o["w"] = (int)C.getTypeSize(K); }
        else if (t->isReferenceType()) { o["k"] = "ref"; o["to"] = type(t->getPointeeType()); o["rv"] = t->isRValueReferenceType(); }
        else if (t->isPointerType()) { o["k"] = "ptr"; o["to"] = type(t->getPointeeType()); }
        else if (t->isMemberPointerType()) { o["k"] = "memptr"; }
        else if (auto* a = dyn_cast<ConstantArrayType>(t)) { o["k"] = "arr"; o["of"] = type(a->getElementType()); o["n"] = (int64_t)a->getSize().getLimitedValue(); }
        else if (auto* a = dyn_cast<ArrayType>(t)) { o["k"] = "arr"; o["of"] = type(a->getElementType()); }
        else if (auto* R = t->getAsCXXRecordDecl()) {
            o["k"] = "rec"; o["d"] = id(R); o["n"] = qname(R);
            if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R)) o["ta"] = tmplArgs(S->getTemplateArgs());
            if (R->isLambda()) o["lambda"] = true;
        }
        else if (auto* f = t->getAs<FunctionProtoType>()) { o["k"] = "fn"; o["ret"] = type(f->getReturnType()); }
        else { o["k"] = "other"; o["cls"] = t->getTypeClassName(); }
        types[i] = std::move(o);
        return i;
    }

    // ---- expressions -------------------------------------------------------------------------
    Value E(const Expr* e) {
        if (!e) return nullptr;
        if (auto* x = dyn_cast<ParenExpr>(e)) return E(x->getSubExpr());
        if (auto* x = dyn_cast<ExprWithCleanups>(e)) return E(x->getSubExpr());
        if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return E(x->getSubExpr());
        if (auto* x = dyn_cast<ConstantExpr>(e)) return E(x->getSubExpr());
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return E(x->getReplacement());
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return E(x->getExpr());
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return E(x->getExpr());
        if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return E(x->getSemanticForm());
        if (auto* x = dyn_cast<OpaqueValueExpr>(e)) if (x->getSourceExpr()) return E(x->getSourceExpr());
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
            Object o{ { "k", "StdInitList" }, { "t", type(x->getType()) } };
            o["e"] = E(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<GenericSelectionExpr>(e)) return E(x->getResultExpr());
        if (auto* x = dyn_cast<CXXFoldExpr>(e)) { (void)x; }
        Object o;
        o["t"] = type(e->getType());
        o["l"] = line(e->getBeginLoc());
        if (e->isLValue()) o["lv"] = true; else if (e->isXValue()) o["xv"] = true;
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
            o["k"] = "Mat"; o["e"] = E(x->getSubExpr()); return o;
        }
        if (auto* x = dyn_cast<IntegerLiteral>(e)) {
            llvm::SmallString<32> s; x->getValue().toString(s, 10, x->getType()->isSignedIntegerType());
            o["k"] = "Int"; o["v"] = s.str().str(); return o;
        }
        if (auto* x = dyn_cast<CharacterLiteral>(e)) {
            int64_t v = x->getValue();
            if (e->getType()->isSignedIntegerType() && C.getTypeSize(e->getType()) == 8) v = (int8_t)v;
            o["k"] = "Int"; o["v"] = std::to_string(v); return o;
        }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "Bool"; o["v"] = x->getValue(); return o; }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) {
            double d = x->getValue().convertToDouble();
            uint64_t bits; memcpy(&bits, &d, 8);
            o["k"] = "Float"; o["v"] = std::to_string(bits); return o;
        }
        if (auto* x = dyn_cast<StringLiteral>(e)) {
            Array a; for (unsigned i = 0; i < x->getLength(); ++i) a.push_back((int)(int8_t)x->getCodeUnit(i));
            o["k"] = "Str"; o["v"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<PredefinedExpr>(e)) { return E(x->getFunctionName()); }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "Null"; return o; }
        if (isa<CXXThisExpr>(e)) { o["k"] = "This"; return o; }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { o["k"] = "Zero"; return o; }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            o["k"] = "Ref"; o["d"] = id(x->getDecl());
            if (auto* ec = dyn_cast<EnumConstantDecl>(x->getDecl())) {
                llvm::SmallString<32> s; ec->getInitVal().toString(s, 10);
                o["k"] = "Int"; o["v"] = s.str().str(); o["enum"] = qname(ec);
            }
            return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            o["k"] = "Mem"; o["b"] = E(x->getBase()); o["arrow"] = x->isArrow();
            o["d"] = id(x->getMemberDecl()); o["n"] = x->getMemberDecl()->getNameAsString();
            return o;
        }
        if (auto* x = dyn_cast<CastExpr>(e)) {
            o["k"] = "Cast"; o["ck"] = x->getCastKindName(); o["e"] = E(x->getSubExpr());
            if (auto* cf = x->getConversionFunction()) o["fn"] = id(cf);
            if (isa<CXXDynamicCastExpr>(x)) o["dyn"] = true;
            return o;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["e"] = E(x->getSubExpr()); return o;
        }
        if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
            o["k"] = "CAssign"; o["op"] = BinaryOperator::getOpcodeStr(BinaryOperator::getOpForCompoundAssignment(x->getOpcode())).str();
            o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); o["ct"] = type(x->getComputationResultType()); o["clt"] = type(x->getComputationLHSType()); return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            o["k"] = "Bin"; o["op"] = x->getOpcodeStr().str(); o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); return o;
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e)) {
            o["k"] = "Cond"; o["c"] = E(x->getCond()); o["a"] = E(x->getTrueExpr()); o["b"] = E(x->getFalseExpr()); return o;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { o["k"] = "Idx"; o["a"] = E(x->getBase()); o["b"] = E(x->getIdx()); return o; }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            o["k"] = "MCall";
            o["b"] = E(x->getImplicitObjectArgument());
            if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
                o["arrow"] = me->isArrow();
                o["qual"] = me->hasQualifier();
            }
            if (auto* m = x->getMethodDecl()) { o["fn"] = id(m); o["virt"] = m->isVirtual(); }
            Array a; for (auto* arg : x->arguments()) a.push_back(E(arg));
            o["args"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["k"] = "OpCall"; o["op"] = getOperatorSpelling(x->getOperator());
            if (auto* f = x->getDirectCallee()) { o["fn"] = id(f); o["mem"] = isa<CXXMethodDecl>(f) && !cast<CXXMethodDecl>(f)->isStatic(); }
            else o["callee"] = E(x->getCallee());
            Array a; for (auto* arg : x->arguments()) a.push_back(E(arg));
            o["args"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            o["k"] = "Call";
            if (auto* f = x->getDirectCallee()) o["fn"] = id(f);
            else o["callee"] = E(x->getCallee());
            Array a; for (auto* arg : x->arguments()) a.push_back(E(arg));
            o["args"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            o["k"] = "Ctor"; o["fn"] = id(x->getConstructor());
            o["list"] = x->isListInitialization(); o["sil"] = x->isStdInitListInitialization();
            Array a; for (auto* arg : x->arguments()) a.push_back(E(arg));
            o["args"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            auto* s = x->isSemanticForm() ? x : x->getSemanticForm();
            if (!s) s = x;
            o["k"] = "InitList"; Array a; for (auto* i : s->inits()) a.push_back(E(i));
            if (auto* fl = s->getArrayFiller()) o["filler"] = E(fl);
            o["inits"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<CXXParenListInitExpr>(e)) {
            o["k"] = "InitList"; Array a; for (auto* i : x->getInitExprs()) a.push_back(E(i));
            o["inits"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "Lambda"; o["cls"] = id(x->getLambdaClass());
            Array caps;
            auto init = x->capture_init_begin();
            for (auto& c : x->captures()) {
                Object co;
                if (c.capturesVariable()) { co["d"] = id(c.getCapturedVar()); co["ref"] = c.getCaptureKind() == LCK_ByRef; if (x->isInitCapture(&c)) co["init"] = true; co["n"] = c.getCapturedVar()->getNameAsString(); }
                else if (c.capturesThis()) { co["this"] = true; co["ref"] = c.getCaptureKind() == LCK_This; }
                co["e"] = E(*init);
                ++init;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            return o;
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) { o["k"] = "Throw"; o["e"] = E(x->getSubExpr()); return o; }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) { o["k"] = "New"; o["at"] = type(x->getAllocatedType()); if (x->hasInitializer()) o["e"] = E(x->getInitializer()); o["array"] = x->isArray(); return o; }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) { o["k"] = "Delete"; o["e"] = E(x->getArgument()); return o; }
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            Expr::EvalResult r;
            if (x->EvaluateAsInt(r, C)) { llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["k"] = "Int"; o["v"] = s.str().str(); return o; }
        }
        if (isa<TypeTraitExpr>(e) || isa<SizeOfPackExpr>(e)) {
            Expr::EvalResult r;
            if (e->EvaluateAsInt(r, C)) { llvm::SmallString<32> s; r.Val.getInt().toString(s, 10); o["k"] = "Int"; o["v"] = s.str().str(); return o; }
        }
        if (auto* x = dyn_cast<CXXNoexceptExpr>(e)) { o["k"] = "Bool"; o["v"] = x->getValue(); return o; }
        if (auto* x = dyn_cast<StmtExpr>(e)) { o["k"] = "StmtExpr"; o["s"] = S(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { o["k"] = "Typeid"; if (x->isTypeOperand()) o["ty"] = type(x->getTypeOperand(C)); else o["e"] = E(x->getExprOperand()); return o; }
        o["k"] = "Unsupported"; o["cls"] = e->getStmtClassName();
        return o;
    }

    Value varInfo(const VarDecl* v) {
        Object o{ { "d", id(v) }, { "n", v->getNameAsString() }, { "t", type(v->getType()) }, { "l", line(v->getBeginLoc()) } };
        if (v->isStaticLocal()) o["static"] = true;
        if (v->hasInit()) o["init"] = E(v->getInit());
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            Array b;
            for (auto* bd : dd->bindings()) {
                Object bo{ { "d", id(bd) }, { "n", bd->getNameAsString() }, { "t", type(bd->getType()) } };
                if (auto* hv = bd->getHoldingVar()) { bo["hv"] = id(hv); }
                if (bd->getBinding()) bo["e"] = E(bd->getBinding());
                b.push_back(std::move(bo));
            }
            o["bind"] = std::move(b);
        }
        return o;
    }

    // ---- statements --------------------------------------------------------------------------
    Value S(const Stmt* s) {
        if (!s) return nullptr;
        if (auto* e = dyn_cast<Expr>(s)) return Object{ { "k", "Expr" }, { "e", E(e) }, { "l", line(s->getBeginLoc()) } };
        Object o;
        o["l"] = line(s->getBeginLoc());
        if (auto* x = dyn_cast<CompoundStmt>(s)) { o["k"] = "Block"; Array a; for (auto* c : x->body()) a.push_back(S(c)); o["b"] = std::move(a); return o; }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            o["k"] = "Decl"; Array a;
            for (auto* d : x->decls()) { if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(varInfo(v)); }
            o["vars"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            if (x->isConstexpr()) {
                if (auto nd = x->getNondiscardedCase(C)) { if (*nd) return S(*nd); o["k"] = "Block"; o["b"] = Array{}; return o; }
            }
            o["k"] = "If"; o["init"] = S(x->getInit()); if (x->getConditionVariable()) o["cv"] = varInfo(x->getConditionVariable());
            o["c"] = E(x->getCond()); o["a"] = S(x->getThen()); o["b"] = S(x->getElse()); return o;
        }
        if (auto* x = dyn_cast<WhileStmt>(s)) { o["k"] = "While"; if (x->getConditionVariable()) o["cv"] = varInfo(x->getConditionVariable()); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
        if (auto* x = dyn_cast<DoStmt>(s)) { o["k"] = "Do"; o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
        if (auto* x = dyn_cast<ForStmt>(s)) { o["k"] = "For"; o["init"] = S(x->getInit()); o["c"] = E(x->getCond()); o["inc"] = E(x->getInc()); o["b"] = S(x->getBody()); return o; }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            o["k"] = "ForRange"; o["init"] = S(x->getInit());
            o["range"] = E(x->getRangeInit()); o["var"] = varInfo(x->getLoopVariable());
            if (auto* b = x->getBeginStmt()) o["begin"] = S(b);
            o["b"] = S(x->getBody()); return o;
        }
        if (auto* x = dyn_cast<ReturnStmt>(s)) { o["k"] = "Return"; o["e"] = E(x->getRetValue()); return o; }
        if (isa<BreakStmt>(s)) { o["k"] = "Break"; return o; }
        if (isa<ContinueStmt>(s)) { o["k"] = "Continue"; return o; }
        if (isa<NullStmt>(s)) { o["k"] = "Block"; o["b"] = Array{}; return o; }
        if (auto* x = dyn_cast<SwitchStmt>(s)) { o["k"] = "Switch"; o["init"] = S(x->getInit()); if (x->getConditionVariable()) o["cv"] = varInfo(x->getConditionVariable()); o["c"] = E(x->getCond()); o["b"] = S(x->getBody()); return o; }
        if (auto* x = dyn_cast<CaseStmt>(s)) {
            o["k"] = "Case";
            Expr::EvalResult r; if (x->getLHS()->EvaluateAsInt(r, C)) { llvm::SmallString<32> st; r.Val.getInt().toString(st, 10); o["v"] = st.str().str(); }
            if (x->getRHS()) { Expr::EvalResult r2; if (x->getRHS()->EvaluateAsInt(r2, C)) { llvm::SmallString<32> st; r2.Val.getInt().toString(st, 10); o["v2"] = st.str().str(); } }
            o["b"] = S(x->getSubStmt()); return o;
        }
        if (auto* x = dyn_cast<DefaultStmt>(s)) { o["k"] = "Default"; o["b"] = S(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            o["k"] = "Try"; o["b"] = S(x->getTryBlock()); Array a;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto* h = x->getHandler(i);
                Object ho{ { "b", S(h->getHandlerBlock()) } };
                if (h->getExceptionDecl()) { ho["var"] = varInfo(h->getExceptionDecl()); ho["t"] = type(h->getCaughtType()); }
                a.push_back(std::move(ho));
            }
            o["h"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
        if (auto* x = dyn_cast<LabelStmt>(s)) { (void)x; }
        o["k"] = "Unsupported"; o["cls"] = s->getStmtClassName();
        return o;
    }

    // ---- declarations ------------------------------------------------------------------------
    Value describe(const Decl* D) {
        Object o;
        if (auto* N = dyn_cast<NamedDecl>(D)) { o["n"] = N->getNameAsString(); o["q"] = qname(N); }
        o["l"] = loc(D->getLocation());
        bool in = inRoots(D->getLocation());
        if (in) o["in"] = true;
        if (auto* F = dyn_cast<FunctionDecl>(D)) {
            o["k"] = "fn";
            o["ret"] = type(F->getReturnType());
            Array ps;
            for (auto* p : F->parameters()) {
                Object po{ { "d", id(p) }, { "n", p->getNameAsString() }, { "t", type(p->getType()) } };
                if (p->hasDefaultArg() && !p->hasUnparsedDefaultArg() && !p->hasUninstantiatedDefaultArg() && p->getDefaultArg()) po["def"] = E(p->getDefaultArg());
                ps.push_back(std::move(po));
            }
            o["ps"] = std::move(ps);
            if (F->isDefaulted()) o["dflt"] = true;
            if (F->isDeleted()) o["del"] = true;
            if (F->isVariadic()) o["variadic"] = true;
            if (F->isNoReturn()) o["noreturn"] = true;
            if (auto* fp = F->getType()->getAs<FunctionProtoType>()) if (!isUnresolvedExceptionSpec(fp->getExceptionSpecType()) && !fp->isDependentType() && fp->isNothrow()) o["noexcept"] = true;
            if (auto* ta = F->getTemplateSpecializationArgs()) o["ta"] = tmplArgs(*ta);
            if (F->isOverloadedOperator()) o["op"] = getOperatorSpelling(F->getOverloadedOperator());
            if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
                o["cls"] = id(M->getParent()); o["static"] = M->isStatic(); o["virt"] = M->isVirtual(); o["cm"] = M->isConst();
                if (M->isCopyAssignmentOperator()) o["ca"] = true;
                if (M->isMoveAssignmentOperator()) o["ma"] = true;
                Array ov; for (auto* b : M->overridden_methods()) ov.push_back(id(b));
                o["ov"] = std::move(ov);
            }
            if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
                o["ctor"] = true;
                if (K->isCopyConstructor()) o["cc"] = true;
                if (K->isMoveConstructor()) o["mc"] = true;
                if (K->isDefaultConstructor()) o["dc"] = true;
            }
            if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
            if (isa<CXXConversionDecl>(F)) o["conv"] = true;
            const FunctionDecl* def = nullptr;
            bool lam = false;
            if (auto* M = dyn_cast<CXXMethodDecl>(F)) lam = M->getParent()->isLambda();
            if ((in) && F->hasBody(def) && def == F && !F->isDependentContext() && !F->isTemplated()) {
                o["body"] = S(F->getBody());
                if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
                    Array is;
                    for (auto* i : K->inits()) {
                        Object io;
                        if (i->isAnyMemberInitializer()) { io["d"] = id(i->getAnyMember()); io["n"] = i->getAnyMember()->getNameAsString(); }
                        else if (i->isBaseInitializer()) io["base"] = type(QualType(i->getBaseClass(), 0));
                        else if (i->isDelegatingInitializer()) io["deleg"] = true;
                        io["e"] = E(i->getInit());
                        io["written"] = i->isWritten();
                        is.push_back(std::move(io));
                    }
                    o["inits"] = std::move(is);
                }
            }
            (void)lam;
        } else if (auto* R = dyn_cast<CXXRecordDecl>(D)) {
            o["k"] = "rec";
            if (auto* Sp = dyn_cast<ClassTemplateSpecializationDecl>(R)) o["ta"] = tmplArgs(Sp->getTemplateArgs());
            if (R->isLambda()) {
                o["lambda"] = true;
                Array ops;
                if (auto* M = R->getLambdaCallOperator()) {
                    if (auto* T = M->getDescribedFunctionTemplate()) {
                        for (auto* sp : T->specializations()) ops.push_back(id(sp));
                    } else ops.push_back(id(M));
                }
                o["ops"] = std::move(ops);
            }
            if (R->hasDefinition()) {
                Array bs;
                for (auto& b : R->bases()) bs.push_back(type(b.getType()));
                o["bases"] = std::move(bs);
                // fields only for records of interest (cheap anyway)
                if (in || R->isLambda()) {
                    Array fs;
                    for (auto* f : R->fields()) {
                        Object fo{ { "d", id(f) }, { "n", f->getNameAsString() }, { "t", type(f->getType()) } };
                        if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer());
                        if (f->isMutable()) fo["mut"] = true;
                        fs.push_back(std::move(fo));
                    }
                    o["fs"] = std::move(fs);
                    if (in && !R->isDependentContext()) {
                        Array ms; for (auto* m : R->methods()) ms.push_back(id(m));
                        o["ms"] = std::move(ms);
                    }
                }
                o["poly"] = R->isPolymorphic();
            }
        } else if (auto* V = dyn_cast<VarDecl>(D)) {
            o["k"] = isa<ParmVarDecl>(V) ? "parm" : "var";
            o["t"] = type(V->getType());
            if (V->isConstexpr()) o["cx"] = true;
            if (V->hasGlobalStorage()) o["glob"] = true;
            if (!isa<ParmVarDecl>(V) && !V->isLocalVarDecl() && V->hasInit() && !V->getInit()->isValueDependent()) {
                if (in) o["init"] = E(V->getInit());
                if (auto* av = V->evaluateValue()) {
                    if (av->isInt()) { llvm::SmallString<32> s; av->getInt().toString(s, 10); o["cvi"] = s.str().str(); }
                    if (av->isFloat()) { double d = av->getFloat().convertToDouble(); uint64_t b; memcpy(&b, &d, 8); o["cvf"] = std::to_string(b); }
                }
            }
        } else if (auto* T = dyn_cast<TemplateParamObjectDecl>(D)) {
            o["k"] = "tpo"; o["t"] = type(T->getType());
        } else if (auto* f = dyn_cast<FieldDecl>(D)) {
            o["k"] = "field"; o["t"] = type(f->getType()); o["i"] = (int)f->getFieldIndex();
            o["cls"] = id(f->getParent());
        } else if (auto* b = dyn_cast<BindingDecl>(D)) {
            o["k"] = "bind"; o["t"] = type(b->getType());
        } else if (auto* ed = dyn_cast<EnumDecl>(D)) {
            o["k"] = "enum";
            Array cs; for (auto* c : ed->enumerators()) { llvm::SmallString<32> s; c->getInitVal().toString(s, 10); cs.push_back(Object{ { "n", c->getNameAsString() }, { "v", s.str().str() } }); }
            o["cs"] = std::move(cs);
        } else { o["k"] = "other"; o["cls"] = D->getDeclKindName(); }
        return o;
    }
};

struct Collector : RecursiveASTVisitor<Collector> {
    Exporter& X;
    std::vector<int> tops;
    explicit Collector(Exporter& x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool shouldVisitLambdaBody() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (!F->isThisDeclarationADefinition()) return true;
        if (F->isDependentContext() || F->isTemplated()) return true;
        if (!X.inRoots(F->getLocation())) return true;
        tops.push_back(X.id(F));
        return true;
    }
    bool VisitVarDecl(VarDecl* V) {
        if (V->hasGlobalStorage() && !V->isStaticLocal() && X.inRoots(V->getLocation()) && !V->getType()->isDependentType() && !V->isTemplated()) X.id(V);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (R->isThisDeclarationADefinition() && X.inRoots(R->getLocation()) && !R->isDependentContext()) X.id(R);
        return true;
    }
};

struct Consumer : ASTConsumer {
    void HandleTranslationUnit(ASTContext& C) override {
        Exporter X(C);
        Collector V(X);
        V.TraverseDecl(C.getTranslationUnitDecl());
        Object decls;
        while (!X.queue.empty()) {
            const Decl* D = X.queue.front();
            X.queue.pop_front();
            int i = X.ids[D];
            decls[std::to_string(i)] = X.describe(D);
        }
        Array tops; for (int t : V.tops) tops.push_back(t);
        std::error_code ec;
        llvm::raw_fd_ostream os(outPath, ec);
        os << Value(Object{ { "decls", std::move(decls) }, { "types", std::move(X.types) }, { "tops", std::move(tops) } });
    }
};
struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Consumer>(); }
};

int main(int argc, const char** argv) {
    if (argc < 5) { llvm::errs() << "usage\n"; return 2; }
    outPath = argv[1];
    std::string r = argv[2];
    size_t p = 0;
    while (p <= r.size()) { size_t q = r.find(',', p); if (q == std::string::npos) q = r.size(); if (q > p) roots.push_back(r.substr(p, q - p)); p = q + 1; }
    std::string file = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    flags.push_back("-fsyntax-only");
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, { file });
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
