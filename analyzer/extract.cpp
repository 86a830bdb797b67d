// fmqx: resolved-program extractor (clang libTooling).
// Parses translation units and writes, as JSON lines, every non-dependent function body defined
// under the repository root (including lambdas and template instantiations) as a normalised,
// fully resolved syntax tree, plus classes, enums, variables and template patterns.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include "llvm/Support/FileSystem.h"
#include <map>
#include <set>
#include <string>
#include <unordered_map>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> gRoots;       // file prefixes whose bodies are exported
static llvm::raw_ostream* gOut = nullptr;
static std::set<std::string> gSeen;           // exported record keys (across TUs)

// stable across translation units and processes: 52-bit FNV-1a of the key
static int64_t KeyId(const std::string& k)
{
    uint64_t h = 1469598103934665603ull;
    for (unsigned char c : k) { h ^= c; h *= 1099511628211ull; }
    return static_cast<int64_t>(h >> 12);
}

class Exporter
{
  public:
    explicit Exporter(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
        PP.SuppressDefaultTemplateArgs = true;
        PP.AnonymousTagLocations = false;
    }

    bool InRepo(SourceLocation L, std::string* file = nullptr, unsigned* line = nullptr, unsigned* col = nullptr)
    {
        if (L.isInvalid()) return false;
        SourceLocation E = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(E);
        if (P.isInvalid()) return false;
        llvm::StringRef f = P.getFilename();
        for (auto& r : gRoots) {
            if (f.starts_with(r)) {
                if (file) *file = f.str();
                if (line) *line = P.getLine();
                if (col) *col = P.getColumn();
                return true;
            }
        }
        return false;
    }

    std::string Ty(QualType T)
    {
        if (T.isNull()) return "";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string QN(const NamedDecl* D)
    {
        if (!D) return "";
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy P2 = PP;
        D->printQualifiedName(os, P2);
        return os.str();
    }
    // qualified name with template args for the enclosing class specialisation
    std::string TmplArgs(const FunctionDecl* F)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (auto* TA = F->getTemplateSpecializationArgs()) {
            printTemplateArgumentList(os, TA->asArray(), PP);
        }
        return os.str();
    }

    const FunctionDecl* Def(const FunctionDecl* F)
    {
        if (!F) return nullptr;
        const FunctionDecl* D = nullptr;
        if (F->hasBody(D) && D) return D;
        return F;
    }

    std::string FnKey(const FunctionDecl* F0)
    {
        const FunctionDecl* F = F0->getCanonicalDecl();
        auto it = fnKeyCache.find(F);
        if (it != fnKeyCache.end()) return it->second;
        std::string k = QN(F) + "|" + Ty(F->getType()) + "|" + TmplArgs(F);
        if (k.find("lambda") != std::string::npos || k.find("(unnamed") != std::string::npos || k.find("(anonymous") != std::string::npos) {
            // instantiations for different lambdas are different functions
            PP.AnonymousTagLocations = true;
            k += "|" + Ty(F->getType()) + "|" + TmplArgs(F);
            PP.AnonymousTagLocations = false;
        }
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            const CXXRecordDecl* P = M->getParent();
            if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(P)) k += "|" + Ty(C.getRecordType(S));
            if (P->isLambda() || P->isLocalClass()) {
                PresumedLoc L = SM.getPresumedLoc(SM.getExpansionLoc(P->getBeginLoc()));
                if (L.isValid()) k += "|" + std::string(L.getFilename()) + ":" + std::to_string(L.getLine()) + ":" + std::to_string(L.getColumn());
                // enclosing function identity
                const DeclContext* DC = P->getDeclContext();
                while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
                if (DC) k += "|in:" + std::to_string(KeyId(FnKey(cast<FunctionDecl>(DC))));
            }
        }
        if (!F->isExternallyVisible()) {
            PresumedLoc L = SM.getPresumedLoc(SM.getExpansionLoc(F->getLocation()));
            if (L.isValid()) k += "|@" + std::string(L.getFilename()) + ":" + std::to_string(L.getLine());
        }
        fnKeyCache[F] = k;
        return k;
    }
    int64_t FnId(const FunctionDecl* F) { return KeyId("F:" + FnKey(F)); }

    int DeclId(const Decl* D)
    {
        D = D->getCanonicalDecl();
        auto it = declIds.find(D);
        if (it != declIds.end()) return it->second;
        int id = ++nextDecl;
        declIds[D] = id;
        return id;
    }

    int64_t Line(SourceLocation L)
    {
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isValid() ? P.getLine() : 0;
    }
    std::string FileOf(SourceLocation L)
    {
        PresumedLoc P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isValid() ? P.getFilename() : "";
    }
    std::string MacroName(SourceLocation L)
    {
        if (!L.isMacroID()) return "";
        // outermost macro
        SourceLocation B = L;
        std::string n;
        while (B.isMacroID()) {
            n = Lexer::getImmediateMacroName(B, SM, C.getLangOpts()).str();
            SourceLocation N = SM.getImmediateMacroCallerLoc(B);
            if (N == B) break;
            B = N;
        }
        return n;
    }

    // ---- expressions -------------------------------------------------------------------------
    json::Value List(llvm::ArrayRef<const Expr*> A)
    {
        json::Array a;
        for (auto* e : A) a.push_back(S(e));
        return a;
    }
    template<typename R>
    json::Array Args(R&& range)
    {
        json::Array a;
        for (const Expr* e : range) a.push_back(S(e));
        return a;
    }

    void Base(json::Object& o, const Stmt* s)
    {
        o["l"] = Line(s->getBeginLoc());
        std::string f = FileOf(s->getBeginLoc());
        if (f != curFile) o["fl"] = f;
        std::string m = MacroName(s->getBeginLoc());
        if (!m.empty()) o["mac"] = m;
        if (auto* e = dyn_cast<Expr>(s)) {
            o["t"] = Ty(e->getType());
        }
    }

    void Const(json::Object& o, const Expr* e)
    {
        if (e->isValueDependent() || e->isTypeDependent()) return;
        QualType T = e->getType();
        if (!T->isIntegralOrEnumerationType()) return;
        Expr::EvalResult R;
        if (e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
            llvm::SmallString<32> s;
            R.Val.getInt().toString(s, 10);
            int64_t v;
            if (!llvm::StringRef(s).getAsInteger(10, v)) o["cv"] = v;
            else o["cvs"] = s.str().str();
        }
    }

    json::Value VarJson(const VarDecl* V)
    {
        json::Object o;
        o["n"] = V->getNameAsString();
        o["d"] = DeclId(V);
        o["t"] = Ty(V->getType());
        o["l"] = Line(V->getLocation());
        if (V->isStaticLocal()) o["static"] = true;
        if (V->getType()->isReferenceType()) o["ref"] = true;
        if (V->getInit()) o["init"] = S(V->getInit());
        if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array b;
            for (auto* B : DD->bindings()) {
                json::Object bo;
                bo["n"] = B->getNameAsString();
                bo["d"] = DeclId(B);
                b.push_back(std::move(bo));
            }
            o["bind"] = std::move(b);
        }
        return o;
    }

    json::Value CalleeInfo(json::Object& o, const FunctionDecl* F)
    {
        if (!F) return nullptr;
        o["q"] = QN(F);
        o["f"] = FnId(F);
        std::string ta = TmplArgs(F);
        if (!ta.empty()) o["ta"] = ta;
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            if (M->isVirtual()) o["virt"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["smeth"] = true;
            o["cls"] = Ty(C.getRecordType(M->getParent()));
            if (M->getParent()->isLambda()) o["lam"] = true;
        }
        json::Array pt;
        for (auto* p : F->parameters()) pt.push_back(Ty(p->getType()));
        if (!pt.empty()) o["pt"] = std::move(pt);
        if (auto* FPT = F->getType()->getAs<FunctionProtoType>()) {
            if (FPT->canThrow() == CT_Cannot) o["ne"] = true;
        }
        if (F->isNoReturn()) o["noret"] = true;
        return nullptr;
    }

    json::Value S(const Stmt* s)
    {
        if (!s) return nullptr;
        json::Object o;
        // transparent wrappers
        if (auto* x = dyn_cast<ExprWithCleanups>(s)) return S(x->getSubExpr());
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(s)) {
            json::Value v = S(x->getSubExpr());
            return v;
        }
        if (auto* x = dyn_cast<CXXBindTemporaryExpr>(s)) return S(x->getSubExpr());
        if (auto* x = dyn_cast<ParenExpr>(s)) return S(x->getSubExpr());
        if (auto* x = dyn_cast<ConstantExpr>(s)) return S(x->getSubExpr());
        if (auto* x = dyn_cast<FullExpr>(s)) return S(x->getSubExpr());
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return S(x->getReplacement());
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(s)) {
            json::Value v = S(x->getExpr());
            if (auto* vo = v.getAsObject()) (*vo)["defarg"] = true;
            return v;
        }
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(s)) return S(x->getExpr());
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(s)) return S(x->getSubExpr());
        if (auto* x = dyn_cast<ImplicitCastExpr>(s)) {
            json::Value v = S(x->getSubExpr());
            if (auto* vo = v.getAsObject()) {
                auto ck = x->getCastKind();
                if (ck == CK_IntegralCast || ck == CK_IntegralToFloating || ck == CK_FloatingToIntegral
                    || ck == CK_IntegralToBoolean || ck == CK_PointerToBoolean || ck == CK_FloatingToBoolean) {
                    if (!vo->get("ict")) (*vo)["ict"] = Ty(x->getType());
                }
                if (!vo->get("cv")) Const(*vo, x);
            }
            return v;
        }
        if (auto* x = dyn_cast<AttributedStmt>(s)) return S(x->getSubStmt());
        if (auto* x = dyn_cast<LabelStmt>(s)) return S(x->getSubStmt());
        if (isa<NullStmt>(s)) { o["k"] = "null_stmt"; return o; }

        // statements
        if (auto* x = dyn_cast<CompoundStmt>(s)) {
            o["k"] = "block";
            Base(o, s);
            o["el"] = Line(x->getRBracLoc());
            json::Array a;
            for (auto* c : x->body()) a.push_back(S(c));
            o["b"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            o["k"] = "decl";
            Base(o, s);
            json::Array a;
            for (auto* d : x->decls()) {
                if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(VarJson(v));
            }
            o["v"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            o["k"] = "if";
            Base(o, s);
            if (x->isConstexpr()) {
                o["cx"] = true;
            }
            if (x->getInit()) o["init"] = S(x->getInit());
            if (x->getConditionVariableDeclStmt()) o["cvd"] = S(x->getConditionVariableDeclStmt());
            o["c"] = S(x->getCond());
            o["then"] = S(x->getThen());
            if (x->getElse()) o["else"] = S(x->getElse());
            return o;
        }
        if (auto* x = dyn_cast<ForStmt>(s)) {
            o["k"] = "for";
            Base(o, s);
            if (x->getInit()) o["init"] = S(x->getInit());
            if (x->getCond()) o["c"] = S(x->getCond());
            if (x->getInc()) o["inc"] = S(x->getInc());
            o["b"] = S(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            o["k"] = "forr";
            Base(o, s);
            if (x->getInit()) o["init"] = S(x->getInit());
            o["range"] = S(x->getRangeInit());
            o["var"] = VarJson(x->getLoopVariable());
            o["b"] = S(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<WhileStmt>(s)) {
            o["k"] = "while";
            Base(o, s);
            if (x->getConditionVariableDeclStmt()) o["cvd"] = S(x->getConditionVariableDeclStmt());
            o["c"] = S(x->getCond());
            o["b"] = S(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<DoStmt>(s)) {
            o["k"] = "do";
            Base(o, s);
            o["c"] = S(x->getCond());
            o["b"] = S(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<SwitchStmt>(s)) {
            o["k"] = "switch";
            Base(o, s);
            if (x->getInit()) o["init"] = S(x->getInit());
            if (x->getConditionVariableDeclStmt()) o["cvd"] = S(x->getConditionVariableDeclStmt());
            o["c"] = S(x->getCond());
            o["b"] = S(x->getBody());
            return o;
        }
        if (auto* x = dyn_cast<CaseStmt>(s)) {
            o["k"] = "case";
            Base(o, s);
            o["v"] = S(x->getLHS());
            o["s"] = S(x->getSubStmt());
            return o;
        }
        if (auto* x = dyn_cast<DefaultStmt>(s)) {
            o["k"] = "default";
            Base(o, s);
            o["s"] = S(x->getSubStmt());
            return o;
        }
        if (isa<BreakStmt>(s)) { o["k"] = "break"; Base(o, s); return o; }
        if (isa<ContinueStmt>(s)) { o["k"] = "continue"; Base(o, s); return o; }
        if (auto* x = dyn_cast<ReturnStmt>(s)) {
            o["k"] = "return";
            Base(o, s);
            if (x->getRetValue()) o["e"] = S(x->getRetValue());
            return o;
        }
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            o["k"] = "try";
            Base(o, s);
            o["b"] = S(x->getTryBlock());
            json::Array h;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto* c = x->getHandler(i);
                json::Object ho;
                ho["t"] = c->getExceptionDecl() ? Ty(c->getCaughtType()) : std::string("...");
                if (c->getExceptionDecl()) ho["var"] = VarJson(c->getExceptionDecl());
                ho["l"] = Line(c->getBeginLoc());
                ho["b"] = S(c->getHandlerBlock());
                h.push_back(std::move(ho));
            }
            o["h"] = std::move(h);
            return o;
        }
        if (isa<GotoStmt>(s) || isa<IndirectGotoStmt>(s)) { o["k"] = "goto"; Base(o, s); return o; }

        const Expr* e = dyn_cast<Expr>(s);
        Base(o, s);
        if (!e) {
            o["k"] = std::string("x:") + s->getStmtClassName();
            json::Array a;
            for (auto* c : s->children()) if (c) a.push_back(S(c));
            o["a"] = std::move(a);
            return o;
        }
        Const(o, e);
        if (auto* x = dyn_cast<IntegerLiteral>(e)) { o["k"] = "int"; (void)x; return o; }
        if (isa<CharacterLiteral>(e)) { o["k"] = "int"; o["chr"] = true; return o; }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) { o["k"] = "bool"; o["v"] = x->getValue(); return o; }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) { o["k"] = "float"; o["v"] = x->getValueAsApproximateDouble(); return o; }
        if (auto* x = dyn_cast<StringLiteral>(e)) {
            o["k"] = "str";
            if (x->getCharByteWidth() == 1) {
                std::string v = x->getString().str();
                if (!json::isUTF8(v)) v = json::fixUTF8(v);
                o["v"] = v;
            }
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { o["k"] = "null"; return o; }
        if (isa<CXXThisExpr>(e)) { o["k"] = "this"; return o; }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            o["k"] = "ref";
            const ValueDecl* D = x->getDecl();
            o["n"] = D->getNameAsString();
            if (auto* F = dyn_cast<FunctionDecl>(D)) {
                o["dk"] = "fn";
                CalleeInfo(o, F);
            } else if (isa<EnumConstantDecl>(D)) {
                o["dk"] = "enum";
                o["q"] = QN(D);
            } else if (auto* V = dyn_cast<VarDecl>(D)) {
                o["d"] = DeclId(V);
                if (V->hasGlobalStorage() && !V->isStaticLocal()) { o["dk"] = "global"; o["q"] = QN(V); }
                else if (isa<ParmVarDecl>(V)) o["dk"] = "parm";
                else o["dk"] = "var";
                if (V->isStaticLocal()) o["dk"] = "slocal";
            } else {
                o["dk"] = "other";
                o["d"] = DeclId(D);
            }
            return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            const ValueDecl* D = x->getMemberDecl();
            o["k"] = "mem";
            o["n"] = D->getNameAsString();
            o["q"] = QN(D);
            if (auto* V = dyn_cast<VarDecl>(D)) { (void)V; o["dk"] = "global"; o["d"] = DeclId(D); }
            else if (auto* F = dyn_cast<FunctionDecl>(D)) { o["dk"] = "fn"; CalleeInfo(o, F); }
            else {
                o["dk"] = "field";
                if (auto* FD = dyn_cast<FieldDecl>(D)) o["cls"] = Ty(C.getRecordType(FD->getParent()));
            }
            o["b"] = S(x->getBase());
            if (x->isArrow()) o["arrow"] = true;
            if (x->isImplicitAccess()) o["impl"] = true;
            return o;
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["k"] = "call";
            o["op"] = getOperatorSpelling(x->getOperator());
            const FunctionDecl* F = x->getDirectCallee();
            if (F) CalleeInfo(o, F);
            json::Array a;
            bool meth = F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic();
            unsigned i = 0;
            for (auto* A : x->arguments()) {
                if (meth && i == 0) o["o"] = S(A);
                else a.push_back(S(A));
                ++i;
            }
            if (!F) { o["callee"] = S(x->getCallee()); }
            o["a"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            o["k"] = "call";
            const CXXMethodDecl* F = x->getMethodDecl();
            if (F) {
                CalleeInfo(o, F);
                o["o"] = S(x->getImplicitObjectArgument());
                if (auto* ME = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
                    if (ME->isArrow()) o["arrow"] = true;
                    if (ME->hasQualifier()) o["qualified"] = true;   // non-virtual dispatch
                }
            } else {
                o["callee"] = S(x->getCallee());
            }
            o["a"] = Args(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            o["k"] = "call";
            const FunctionDecl* F = x->getDirectCallee();
            if (F) CalleeInfo(o, F);
            else o["callee"] = S(x->getCallee());
            o["a"] = Args(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            auto* Ctor = x->getConstructor();
            o["k"] = "ctor";
            CalleeInfo(o, Ctor);
            if (Ctor->isCopyConstructor()) o["cm"] = "copy";
            else if (Ctor->isMoveConstructor()) o["cm"] = "move";
            else if (Ctor->isDefaultConstructor()) o["cm"] = "default";
            if (x->isListInitialization()) o["li"] = true;
            if (isa<CXXTemporaryObjectExpr>(x)) o["tmp"] = true;
            o["a"] = Args(x->arguments());
            return o;
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            o["k"] = "ctor";
            CalleeInfo(o, x->getConstructor());
            o["a"] = json::Array{};
            return o;
        }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "new";
            o["at"] = Ty(x->getAllocatedType());
            if (x->isArray()) { o["arr"] = true; if (x->getArraySize()) o["sz"] = S(*x->getArraySize()); }
            if (x->getInitializer()) o["init"] = S(x->getInitializer());
            if (x->getNumPlacementArgs()) {
                json::Array a;
                for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) a.push_back(S(x->getPlacementArg(i)));
                o["pl"] = std::move(a);
            }
            return o;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
            o["k"] = "delete";
            o["e"] = S(x->getArgument());
            if (x->isArrayForm()) o["arr"] = true;
            return o;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "lambda";
            const CXXMethodDecl* M = x->getCallOperator();
            if (x->isGenericLambda()) {
                o["generic"] = true;
                // generic lambda: reference all instantiations
                json::Array inst;
                if (auto* FTD = M->getDescribedFunctionTemplate()) {
                    for (auto* SP : FTD->specializations()) {
                        inst.push_back(FnId(SP));
                        pending.push_back(SP);
                    }
                }
                o["insts"] = std::move(inst);
            } else {
                o["f"] = FnId(M);
                pending.push_back(M);
            }
            json::Array caps;
            auto ci = x->capture_init_begin();
            for (auto it = x->capture_begin(); it != x->capture_end(); ++it, ++ci) {
                json::Object c;
                if (it->capturesThis()) { c["by"] = it->getCaptureKind() == LCK_StarThis ? "starthis" : "this"; }
                else if (it->capturesVariable()) {
                    c["by"] = it->getCaptureKind() == LCK_ByRef ? "ref" : "copy";
                    auto* V = it->getCapturedVar();
                    c["n"] = V->getNameAsString();
                    c["d"] = DeclId(V);
                    c["t"] = Ty(V->getType());
                    if (auto* VV = dyn_cast<VarDecl>(V)) if (VV->isInitCapture()) c["initcap"] = true;
                    if (*ci) c["init"] = S(*ci);
                }
                caps.push_back(std::move(c));
            }
            o["caps"] = std::move(caps);
            return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            o["k"] = "bin";
            o["op"] = x->getOpcodeStr().str();
            o["a"] = S(x->getLHS());
            o["b"] = S(x->getRHS());
            return o;
        }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un";
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) op = "p" + op;
            o["op"] = op;
            o["e"] = S(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e)) {
            o["k"] = "cond";
            o["c"] = S(x->getCond());
            o["a"] = S(x->getTrueExpr());
            o["b"] = S(x->getFalseExpr());
            return o;
        }
        if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
            o["k"] = "cast";
            o["ck"] = x->getCastKindName();
            o["cs"] = x->getStmtClassName();
            o["e"] = S(x->getSubExpr());
            return o;
        }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            o["k"] = "list";
            const InitListExpr* I = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            json::Array a;
            for (auto* c : I->inits()) if (c) a.push_back(S(c));
            o["a"] = std::move(a);
            if (auto* R = e->getType()->getAsRecordDecl()) {
                json::Array fn;
                for (auto* F : R->fields()) fn.push_back(F->getNameAsString());
                o["fields"] = std::move(fn);
            }
            return o;
        }
        if (auto* x = dyn_cast<ParenListExpr>(e)) {
            o["k"] = "list";
            json::Array a;
            for (unsigned i = 0; i < x->getNumExprs(); ++i) a.push_back(S(x->getExpr(i)));
            o["a"] = std::move(a);
            return o;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "idx";
            o["a"] = S(x->getBase());
            o["b"] = S(x->getIdx());
            return o;
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
            o["k"] = "throw";
            if (x->getSubExpr()) { o["e"] = S(x->getSubExpr()); o["tt"] = Ty(x->getSubExpr()->getType()); }
            else o["re"] = true;
            return o;
        }
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            o["k"] = "sizeof";
            if (x->isArgumentType()) o["at"] = Ty(x->getArgumentType());
            else o["at"] = Ty(x->getArgumentExpr()->getType());
            if (x->getKind() != UETT_SizeOf) o["al"] = true;
            if (!x->isValueDependent() && !x->isTypeDependent()) {
                Expr::EvalResult r;
                if (x->EvaluateAsInt(r, C)) o["v"] = r.Val.getInt().getExtValue();
            }
            return o;
        }
        if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) { (void)x; o["k"] = "zero"; return o; }
        if (isa<ImplicitValueInitExpr>(e)) { o["k"] = "zero"; return o; }
        if (auto* x = dyn_cast<CXXTypeidExpr>(e)) {
            o["k"] = "typeid";
            if (x->isTypeOperand()) o["at"] = Ty(x->getTypeOperand(C));
            else o["e"] = S(x->getExprOperand());
            return o;
        }
        if (auto* x = dyn_cast<OpaqueValueExpr>(e)) {
            if (x->getSourceExpr()) return S(x->getSourceExpr());
        }
        if (auto* x = dyn_cast<PredefinedExpr>(e)) { (void)x; o["k"] = "str"; o["v"] = "__func__"; return o; }
        if (auto* x = dyn_cast<CXXFoldExpr>(e)) { (void)x; }
        if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(e)) { o["k"] = "pdtor"; o["e"] = S(x->getBase()); return o; }
        if (isa<TypeTraitExpr>(e) || isa<CXXNoexceptExpr>(e) || isa<SizeOfPackExpr>(e)) { o["k"] = "int"; return o; }
        o["k"] = std::string("x:") + e->getStmtClassName();
        json::Array a;
        for (auto* c : e->children()) if (c) a.push_back(S(c));
        o["a"] = std::move(a);
        return o;
    }

    // ---- declarations --------------------------------------------------------------------------
    void EmitFn(const FunctionDecl* F0)
    {
        const FunctionDecl* F = nullptr;
        if (!F0->hasBody(F) || !F) return;
        if (F->isDependentContext()) {
            EmitPattern(F);
            return;
        }
        std::string file;
        unsigned line = 0, col = 0;
        if (!InRepo(F->getLocation(), &file, &line, &col)) return;
        if (F->isImplicit() && !(isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->getParent()->isLambda())) return;
        if (F->isDefaulted()) return;
        std::string key = "F:" + FnKey(F);
        if (!gSeen.insert(key).second) return;
        curFile = file;
        json::Object o;
        o["r"] = "fn";
        o["id"] = KeyId(key);
        o["q"] = QN(F);
        o["file"] = file;
        o["line"] = static_cast<int64_t>(line);
        o["col"] = static_cast<int64_t>(col);
        o["end"] = Line(F->getEndLoc());
        o["ret"] = Ty(F->getReturnType());
        std::string ta = TmplArgs(F);
        if (!ta.empty()) o["ta"] = ta;
        if (const FunctionDecl* P = F->getTemplateInstantiationPattern()) {
            const FunctionDecl* PD = nullptr;
            P->hasBody(PD);
            if (!PD) PD = P;
            PresumedLoc L = SM.getPresumedLoc(SM.getExpansionLoc(PD->getLocation()));
            if (L.isValid()) o["pat"] = std::string(L.getFilename()) + ":" + std::to_string(L.getLine()) + ":" + std::to_string(L.getColumn());
        }
        std::string kind = "fn";
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            kind = "method";
            if (isa<CXXConstructorDecl>(M)) kind = "ctor";
            else if (isa<CXXDestructorDecl>(M)) kind = "dtor";
            if (M->getParent()->isLambda()) kind = "lambda";
            o["cls"] = Ty(C.getRecordType(M->getParent()));
            o["clsq"] = QN(M->getParent());
            if (M->isVirtual()) o["virt"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["static"] = true;
            switch (M->getAccess()) {
                case AS_public: o["acc"] = "public"; break;
                case AS_protected: o["acc"] = "protected"; break;
                case AS_private: o["acc"] = "private"; break;
                default: break;
            }
            json::Array ov;
            for (auto* OM : M->overridden_methods()) ov.push_back(FnId(OM));
            if (!ov.empty()) o["ov"] = std::move(ov);
        }
        o["kind"] = kind;
        if (auto* FPT = F->getType()->getAs<FunctionProtoType>()) {
            if (FPT->canThrow() == CT_Cannot) o["ne"] = true;
        }
        json::Array ps;
        for (auto* p : F->parameters()) {
            json::Object po;
            po["n"] = p->getNameAsString();
            po["d"] = DeclId(p);
            po["t"] = Ty(p->getType());
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = S(p->getDefaultArg());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto* CD = dyn_cast<CXXConstructorDecl>(F)) {
            json::Array in;
            for (auto* I : CD->inits()) {
                json::Object io;
                if (I->isAnyMemberInitializer()) { io["m"] = I->getAnyMember()->getNameAsString(); io["mq"] = QN(I->getAnyMember()); io["t"] = Ty(I->getAnyMember()->getType()); }
                else if (I->isBaseInitializer()) io["base"] = Ty(QualType(I->getBaseClass(), 0));
                else io["deleg"] = true;
                io["w"] = I->isWritten();
                io["l"] = Line(I->isWritten() ? I->getSourceLocation() : F->getLocation());
                io["e"] = S(I->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        o["body"] = S(F->getBody());
        o["tu"] = mainFile;
        *gOut << json::Value(std::move(o)) << "\n";
        // drain lambdas encountered
        while (!pending.empty()) {
            const FunctionDecl* P = pending.back();
            pending.pop_back();
            EmitFn(P);
        }
    }

    void EmitPattern(const FunctionDecl* F)
    {
        std::string file;
        unsigned line = 0, col = 0;
        if (!InRepo(F->getLocation(), &file, &line, &col)) return;
        std::string key = "P:" + file + ":" + std::to_string(line) + ":" + std::to_string(col);
        if (!gSeen.insert(key).second) return;
        json::Object o;
        o["r"] = "pat";
        o["q"] = QN(F);
        o["loc"] = file + ":" + std::to_string(line) + ":" + std::to_string(col);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) o["lam"] = true;
        *gOut << json::Value(std::move(o)) << "\n";
    }

    void EmitClass(const CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
        std::string file;
        unsigned line = 0;
        if (!InRepo(R->getLocation(), &file, &line)) return;
        std::string t = Ty(C.getRecordType(R));
        std::string key = "C:" + t + "@" + file + ":" + std::to_string(line);
        if (!gSeen.insert(key).second) return;
        curFile = file;
        json::Object o;
        o["r"] = "cls";
        o["q"] = QN(R);
        o["t"] = t;
        o["file"] = file;
        o["line"] = static_cast<int64_t>(line);
        json::Array bs;
        for (auto& B : R->bases()) bs.push_back(Ty(B.getType()));
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto* F : R->fields()) {
            json::Object fo;
            fo["n"] = F->getNameAsString();
            fo["t"] = Ty(F->getType());
            fo["l"] = Line(F->getLocation());
            if (F->isMutable()) fo["mut"] = true;
            if (F->hasInClassInitializer() && F->getInClassInitializer()) fo["init"] = S(F->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto* M : R->methods()) {
            if (M->isImplicit()) continue;
            json::Object mo;
            mo["n"] = M->getNameAsString();
            mo["f"] = FnId(M);
            mo["t"] = Ty(M->getType());
            if (M->isDeletedAsWritten()) mo["del"] = true;
            if (M->isVirtual()) mo["virt"] = true;
            if (M->isPureVirtual()) mo["pure"] = true;
            if (M->isConst()) mo["const"] = true;
            if (M->isStatic()) mo["static"] = true;
            if (auto* CD = dyn_cast<CXXConstructorDecl>(M)) {
                mo["ctor"] = true;
                if (CD->isCopyConstructor()) mo["cm"] = "copy";
                if (CD->isMoveConstructor()) mo["cm"] = "move";
                if (CD->isExplicit()) mo["expl"] = true;
            }
            switch (M->getAccess()) {
                case AS_public: mo["acc"] = "public"; break;
                case AS_protected: mo["acc"] = "protected"; break;
                case AS_private: mo["acc"] = "private"; break;
                default: break;
            }
            json::Array ov;
            for (auto* OM : M->overridden_methods()) ov.push_back(FnId(OM));
            if (!ov.empty()) mo["ov"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        *gOut << json::Value(std::move(o)) << "\n";
    }

    void EmitEnum(const EnumDecl* E)
    {
        if (!E->isThisDeclarationADefinition() || E->isDependentContext()) return;
        std::string file;
        unsigned line = 0;
        if (!InRepo(E->getLocation(), &file, &line)) return;
        std::string q = QN(E);
        std::string key = "E:" + q + "@" + file + ":" + std::to_string(line);
        if (!gSeen.insert(key).second) return;
        json::Object o;
        o["r"] = "enum";
        o["q"] = q;
        o["file"] = file;
        o["line"] = static_cast<int64_t>(line);
        json::Array cs;
        for (auto* c : E->enumerators()) {
            json::Object co;
            co["n"] = c->getNameAsString();
            co["v"] = c->getInitVal().getExtValue();
            cs.push_back(std::move(co));
        }
        o["c"] = std::move(cs);
        *gOut << json::Value(std::move(o)) << "\n";
    }

    void EmitVar(const VarDecl* V0)
    {
        if (!V0->hasGlobalStorage() || V0->isStaticLocal()) return;
        const VarDecl* V = V0->getDefinition() ? V0->getDefinition() : V0;
        if (V->getDeclContext()->isDependentContext() || V->getType()->isDependentType()) return;
        std::string file;
        unsigned line = 0;
        if (!InRepo(V->getLocation(), &file, &line)) return;
        std::string q = QN(V);
        std::string key = "V:" + q + "@" + file + ":" + std::to_string(line);
        if (!gSeen.insert(key).second) return;
        curFile = file;
        json::Object o;
        o["r"] = "var";
        o["q"] = q;
        o["n"] = V->getNameAsString();
        o["d"] = DeclId(V);
        o["t"] = Ty(V->getType());
        o["file"] = file;
        o["line"] = static_cast<int64_t>(line);
        o["tu"] = mainFile;
        const VarDecl* IV = nullptr;
        if (const Expr* I = V->getAnyInitializer(IV)) o["init"] = S(I);
        *gOut << json::Value(std::move(o)) << "\n";
        while (!pending.empty()) {
            const FunctionDecl* P = pending.back();
            pending.pop_back();
            EmitFn(P);
        }
    }

    void EmitAlias(const TypedefNameDecl* T)
    {
        if (T->getDeclContext()->isDependentContext() || T->getUnderlyingType()->isDependentType()) return;
        std::string file;
        unsigned line = 0;
        if (!InRepo(T->getLocation(), &file, &line)) return;
        std::string q = QN(T);
        std::string key = "A:" + q + "@" + file + ":" + std::to_string(line);
        if (!gSeen.insert(key).second) return;
        json::Object o;
        o["r"] = "alias";
        o["q"] = q;
        o["t"] = Ty(T->getUnderlyingType());
        o["file"] = file;
        o["line"] = static_cast<int64_t>(line);
        *gOut << json::Value(std::move(o)) << "\n";
    }

    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::string curFile, mainFile;
    std::vector<const FunctionDecl*> pending;
    std::unordered_map<const Decl*, int> declIds;
    std::unordered_map<const Decl*, std::string> fnKeyCache;
    static int nextDecl;
};
int Exporter::nextDecl = 0;

class Visitor : public RecursiveASTVisitor<Visitor>
{
  public:
    explicit Visitor(Exporter& x) : X(x) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool TraverseDecl(Decl* D)
    {
        // prune namespaces-level decls outside the roots (but descend into everything whose
        // location is in the repo, and into templates, whose instantiations may be repo code)
        return RecursiveASTVisitor<Visitor>::TraverseDecl(D);
    }
    bool TraverseStmt(Stmt*) { return true; }   // bodies are handled by the exporter
    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if (F->doesThisDeclarationHaveABody() || F->hasBody()) X.EmitFn(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) { X.EmitClass(R); return true; }
    bool VisitEnumDecl(EnumDecl* E) { X.EmitEnum(E); return true; }
    bool VisitVarDecl(VarDecl* V) { X.EmitVar(V); return true; }
    bool VisitTypedefNameDecl(TypedefNameDecl* T) { X.EmitAlias(T); return true; }

  private:
    Exporter& X;
};

class Consumer : public ASTConsumer
{
  public:
    void HandleTranslationUnit(ASTContext& C) override
    {
        Exporter X(C);
        auto& SM = C.getSourceManager();
        if (auto FE = SM.getFileEntryRefForID(SM.getMainFileID())) X.mainFile = FE->getName().str();
        Visitor V(X);
        for (Decl* D : C.getTranslationUnitDecl()->decls()) {
            // skip system header top-level decls quickly; namespaces mix repo and non-repo code so
            // they are always entered, but third-party namespaces are skipped by name
            if (auto* N = dyn_cast<NamespaceDecl>(D)) {
                std::string n = N->getNameAsString();
                if (n == "__gnu_cxx" || n == "__cxxabiv1" || n == "mpl_") continue;
                if ((n == "std" || n == "boost") && !X.InRepo(N->getLocation())) continue;
            } else {
                std::string f;
                if (!X.InRepo(D->getLocation())) continue;
            }
            V.TraverseDecl(D);
        }
    }
};

class Action : public ASTFrontendAction
{
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, llvm::StringRef) override
    {
        (void)CI;
        return std::make_unique<Consumer>();
    }
};

static llvm::cl::OptionCategory Cat("fmqx options");
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("path prefix to export"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> OutFile("out", llvm::cl::desc("output file"), llvm::cl::cat(Cat));

int main(int argc, const char** argv)
{
    auto P = tooling::CommonOptionsParser::create(argc, argv, Cat);
    if (!P) { llvm::errs() << P.takeError(); return 3; }
    for (auto& r : Roots) gRoots.push_back(r);
    std::error_code ec;
    llvm::raw_fd_ostream os(OutFile.empty() ? std::string("-") : OutFile.getValue(), ec);
    if (ec) { llvm::errs() << "cannot open output\n"; return 3; }
    gOut = &os;
    tooling::ClangTool T(P->getCompilations(), P->getSourcePathList());
    int rc = T.run(tooling::newFrontendActionFactory<Action>().get());
    os.flush();
    return rc;
}
