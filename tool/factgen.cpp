// factgen: dumps the resolved (type-checked, template-instantiated) syntax tree
// of every function defined in the repository's own sources as JSON, one file
// per translation unit.  It decides nothing: the analyses in /verif/lib do.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <set>
#include <map>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::vector<std::string> g_roots;
static std::string g_out;
static bool g_failed = false;

namespace {

int64_t i64(const llvm::APSInt &v)
{
    return v.isSigned() ? v.extOrTrunc(64).getSExtValue() : (int64_t)v.extOrTrunc(64).getZExtValue();
}

class Dumper {
  public:
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<const Decl *, int> declIds;
    std::map<std::string, Object> functions;
    std::map<std::string, Object> records;
    std::map<std::string, Object> enums;
    std::map<std::string, Object> globals;
    std::set<std::string> doneF;
    ASTNameGenerator NG;

    explicit Dumper(ASTContext &C)
    : C(C), SM(C.getSourceManager()), PP(C.getPrintingPolicy()), NG(C)
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.SuppressUnwrittenScope = true;
        PP.PrintCanonicalTypes = true;
        PP.Bool = true;
    }

    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        auto f = SM.getFilename(L);
        return f.str();
    }
    bool inRoots(SourceLocation L)
    {
        if (L.isInvalid()) return false;
        auto f = fileOf(L);
        for (auto &r : g_roots)
            if (f.compare(0, r.size(), r) == 0) return true;
        return false;
    }
    int line(SourceLocation L) { return SM.getExpansionLineNumber(L); }
    int col(SourceLocation L) { return SM.getExpansionColumnNumber(L); }

    std::string typeStr(QualType T)
    {
        if (T.isNull()) return "?";
        std::string s = T.getCanonicalType().getAsString(PP);
        if (s.size() > 400) s.resize(400);
        return s;
    }
    std::string qn(const NamedDecl *D)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy P(PP);
        P.PrintCanonicalTypes = false;
        D->printQualifiedName(os, P);
        os.flush();
        return s;
    }
    int did(const Decl *D)
    {
        D = D->getCanonicalDecl();
        auto it = declIds.find(D);
        if (it != declIds.end()) return it->second;
        int n = declIds.size() + 1;
        declIds[D] = n;
        return n;
    }

    // -- function identity -------------------------------------------------
    std::string lambdaId(const CXXRecordDecl *R)
    {
        std::string s = "lambda@" + fileOf(R->getBeginLoc()) + ":" +
                        std::to_string(line(R->getBeginLoc())) + ":" +
                        std::to_string(col(R->getBeginLoc()));
        // a lambda inside a template instantiation exists once per instance
        const DeclContext *DC = R->getDeclContext();
        while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
        if (DC) {
            auto *FD = cast<FunctionDecl>(DC);
            s += "<" + fnId(FD) + ">";
        }
        return s;
    }
    std::map<const FunctionDecl *, std::string> idCache;
    std::string fnId(const FunctionDecl *F)
    {
        const FunctionDecl *K = F->getCanonicalDecl();
        auto it = idCache.find(K);
        if (it != idCache.end()) return it->second;
        std::string id;
        if (auto *M = dyn_cast<CXXMethodDecl>(K)) {
            if (M->getParent()->isLambda()) {
                id = lambdaId(M->getParent()) + "::" + M->getNameAsString();
                if (M->isTemplateInstantiation())
                    id += "#" + typeStr(M->getType());
                idCache[K] = id;
                return id;
            }
        }
        if (!K->isDependentContext()) {
            if (isa<CXXConstructorDecl>(K) || isa<CXXDestructorDecl>(K)) {
                auto names = NG.getAllManglings(K);
                if (!names.empty()) id = names[0];
            }
            else {
                id = NG.getName(K);
            }
        }
        if (id.empty()) id = "dep:" + qn(K) + ":" + typeStr(K->getType());
        if (K->getFormalLinkage() != Linkage::External && !isa<CXXMethodDecl>(K))
            id += "@" + fileOf(K->getLocation());
        else if (K->isInAnonymousNamespace())
            id += "@" + fileOf(K->getLocation());
        idCache[K] = id;
        return id;
    }

    // -- expressions -------------------------------------------------------
    static const Expr *strip(const Expr *E)
    {
        for (;;) {
            if (auto *X = dyn_cast<ExprWithCleanups>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<MaterializeTemporaryExpr>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<CXXBindTemporaryExpr>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<ParenExpr>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<ConstantExpr>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = X->getReplacement();
            else if (auto *X = dyn_cast<CXXDefaultArgExpr>(E)) E = X->getExpr();
            else if (auto *X = dyn_cast<CXXDefaultInitExpr>(E)) E = X->getExpr();
            else if (auto *X = dyn_cast<CXXStdInitializerListExpr>(E)) E = X->getSubExpr();
            else if (auto *X = dyn_cast<OpaqueValueExpr>(E)) {
                if (!X->getSourceExpr()) return E;
                E = X->getSourceExpr();
            }
            else return E;
        }
    }

    void addInt(Object &o, QualType T)
    {
        if (!T.isNull() && !T->isDependentType() && T->isIntegralOrEnumerationType()) {
            o["w"] = (int64_t)C.getTypeSize(T);
            o["sg"] = T->isSignedIntegerOrEnumerationType();
        }
    }

    void addSize(Object &o, const char *k, QualType T)
    {
        if (T.isNull() || T->isDependentType() || T->isIncompleteType() || T->isFunctionType()) return;
        o[k] = (int64_t)(C.getTypeSize(T.getNonReferenceType()) / 8);
    }

    Value expr(const Expr *E0)
    {
        if (!E0) return nullptr;
        const Expr *E = strip(E0);
        Object o;
        o["l"] = line(E->getBeginLoc());
        QualType T = E->getType();

        if (E->isValueDependent() || E->isTypeDependent() || T->isDependentType()) {
            o["k"] = "dep";
            return o;
        }
        // enumerators keep their names; other integral constants are folded
        if (auto *DR = dyn_cast<DeclRefExpr>(E)) {
            if (auto *EC = dyn_cast<EnumConstantDecl>(DR->getDecl())) {
                o["k"] = "enum";
                o["n"] = qn(EC);
                o["v"] = i64(EC->getInitVal());
                return o;
            }
        }
        if (auto *BL = dyn_cast<CXXBoolLiteralExpr>(E)) {
            o["k"] = "int"; o["v"] = (int64_t)BL->getValue(); o["b"] = true;
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) {
            o["k"] = "null"; return o;
        }
        if (auto *IC = dyn_cast<ImplicitCastExpr>(E)) {
            const Expr *Sub = IC->getSubExpr();
            switch (IC->getCastKind()) {
              case CK_NullToPointer: case CK_NullToMemberPointer:
                o["k"] = "null"; return o;
              case CK_IntegralCast: {
                Expr::EvalResult R;
                if (E->EvaluateAsInt(R, C)) {
                    const Expr *S2 = strip(Sub);
                    while (auto *I2 = dyn_cast<ImplicitCastExpr>(S2)) S2 = strip(I2->getSubExpr());
                    if (auto *DR = dyn_cast<DeclRefExpr>(S2))
                        if (isa<EnumConstantDecl>(DR->getDecl())) return expr(S2);
                    o["k"] = "int";
                    o["v"] = i64(R.Val.getInt());
                    addInt(o, T);
                    return o;
                }
                o["k"] = "icast";
                o["e"] = expr(Sub);
                addInt(o, T);
                QualType ST = Sub->getType();
                o["fw"] = (int64_t)C.getTypeSize(ST);
                o["fsg"] = ST->isSignedIntegerOrEnumerationType();
                return o;
              }
              case CK_UserDefinedConversion:
              case CK_ConstructorConversion:
              default:
                return expr(Sub);
            }
        }
        if (T->isIntegralOrEnumerationType() && !E->isGLValue() && !isa<CallExpr>(E) &&
            !isa<CXXConstructExpr>(E) && !isa<LambdaExpr>(E)) {
            Expr::EvalResult R;
            bool isCastOfEnum = false;
            if (auto *CE = dyn_cast<ExplicitCastExpr>(E)) {
                const Expr *S = strip(CE->getSubExpr());
                while (auto *I2 = dyn_cast<ImplicitCastExpr>(S)) S = strip(I2->getSubExpr());
                if (auto *DR = dyn_cast<DeclRefExpr>(S)) isCastOfEnum = isa<EnumConstantDecl>(DR->getDecl());
            }
            if (!isCastOfEnum && E->EvaluateAsInt(R, C)) {
                o["k"] = "int";
                o["v"] = i64(R.Val.getInt());
                if (isa<CharacterLiteral>(E)) o["ch"] = true;
                if (isa<UnaryExprOrTypeTraitExpr>(E)) o["so"] = true;
                addInt(o, T);
                return o;
            }
        }
        if (auto *SL = dyn_cast<StringLiteral>(E)) {
            o["k"] = "str";
            std::string v;
            if (SL->getCharByteWidth() == 1) v = SL->getString().str();
            if (!llvm::json::isUTF8(v)) v = llvm::json::fixUTF8(v);
            o["v"] = v;
            return o;
        }
        if (auto *FL = dyn_cast<FloatingLiteral>(E)) {
            o["k"] = "flt"; o["v"] = FL->getValueAsApproximateDouble(); return o;
        }
        if (isa<CXXThisExpr>(E)) { o["k"] = "this"; return o; }
        if (auto *DR = dyn_cast<DeclRefExpr>(E)) {
            const ValueDecl *D = DR->getDecl();
            o["n"] = D->getNameAsString();
            o["t"] = typeStr(D->getType());
            addInt(o, D->getType().getNonReferenceType());
            if (auto *F = dyn_cast<FunctionDecl>(D)) {
                o["k"] = "fref";
                o["fn"] = fnId(F);
                o["qn"] = qn(F);
                note(F);
                return o;
            }
            o["k"] = "ref";
            o["d"] = did(D);
            if (isa<ParmVarDecl>(D)) o["vk"] = "param";
            else if (auto *VD = dyn_cast<VarDecl>(D)) {
                if (VD->hasGlobalStorage()) {
                    o["vk"] = VD->isStaticLocal() ? "slocal" : "global";
                    o["qn"] = qn(VD);
                    noteGlobal(VD);
                    // constant-initialised globals carry their value
                    if (VD->getType().isConstQualified() &&
                        VD->getType()->isIntegralOrEnumerationType()) {
                        Expr::EvalResult R;
                        if (E->EvaluateAsInt(R, C)) o["v"] = i64(R.Val.getInt());
                    }
                } else o["vk"] = "local";
            }
            else if (isa<BindingDecl>(D)) {
                o["vk"] = "binding";
                if (auto *B = cast<BindingDecl>(D)->getBinding()) {
                    Value v = expr(B);
                    if (auto *vo = v.getAsObject()) { return v; }
                }
            }
            else if (auto *F = dyn_cast<FieldDecl>(D)) { o["vk"] = "field"; o["qn"] = qn(F); }
            else o["vk"] = "other";
            return o;
        }
        if (auto *ME = dyn_cast<MemberExpr>(E)) {
            const ValueDecl *D = ME->getMemberDecl();
            if (auto *F = dyn_cast<FieldDecl>(D)) {
                o["k"] = "mem";
                o["f"] = F->getNameAsString();
                o["fc"] = qn(F->getParent());
                o["t"] = typeStr(F->getType());
                addInt(o, F->getType().getNonReferenceType());
                o["ar"] = ME->isArrow();
                o["b"] = expr(ME->getBase());
                noteRecord(dyn_cast<CXXRecordDecl>(F->getParent()));
                return o;
            }
            if (auto *V = dyn_cast<VarDecl>(D)) {
                o["k"] = "ref"; o["n"] = V->getNameAsString(); o["d"] = did(V);
                o["vk"] = "global"; o["qn"] = qn(V); o["t"] = typeStr(V->getType());
                noteGlobal(V);
                return o;
            }
            if (auto *EC = dyn_cast<EnumConstantDecl>(D)) {
                o["k"] = "enum"; o["n"] = qn(EC); o["v"] = i64(EC->getInitVal());
                return o;
            }
            o["k"] = "mfn";
            o["n"] = D->getNameAsString();
            o["b"] = expr(ME->getBase());
            if (auto *F = dyn_cast<FunctionDecl>(D)) { o["fn"] = fnId(F); o["qn"] = qn(F); note(F); }
            return o;
        }
        if (auto *CE = dyn_cast<CallExpr>(E)) {
            o["k"] = "call";
            o["t"] = typeStr(T);
            o["c"] = col(E->getBeginLoc());
            addInt(o, T);
            if (SM.isMacroBodyExpansion(E->getBeginLoc())) o["mb"] = true;
            const FunctionDecl *F = CE->getDirectCallee();
            Array args;
            unsigned first = 0;
            if (auto *MC = dyn_cast<CXXMemberCallExpr>(CE)) {
                const Expr *callee = strip(MC->getCallee());
                if (auto *ME = dyn_cast<MemberExpr>(callee)) {
                    o["o"] = expr(ME->getBase());
                    o["ar"] = ME->isArrow();
                    if (auto *M = dyn_cast_or_null<CXXMethodDecl>(F)) {
                        bool qualified = ME->hasQualifier();
                        if (M->isVirtual() && !qualified) o["virt"] = true;
                    }
                } else {
                    o["ce"] = expr(callee);
                }
            }
            else if (auto *OC = dyn_cast<CXXOperatorCallExpr>(CE)) {
                o["op"] = std::string(getOperatorSpelling(OC->getOperator()));
                if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
                    o["o"] = expr(CE->getArg(0));
                    first = 1;
                }
            }
            else if (!F) {
                o["ce"] = expr(CE->getCallee());
            }
            for (unsigned i = first; i < CE->getNumArgs(); ++i) args.push_back(expr(CE->getArg(i)));
            o["a"] = std::move(args);
            if (F) {
                o["fn"] = fnId(F);
                o["qn"] = qn(F);
                o["cl"] = className(F);
                if (auto *M = dyn_cast<CXXMethodDecl>(F)) o["cst"] = M->isConst();
                Array pr;
                for (auto *P : F->parameters()) pr.push_back(paramMode(P->getType()));
                o["pm"] = std::move(pr);
                if (F->isVariadic()) o["va"] = true;
                auto *FPT = F->getType()->getAs<FunctionProtoType>();
                if (FPT && isNoexceptExceptionSpec(FPT->getExceptionSpecType()) &&
                    FPT->canThrow() == CT_Cannot) o["nx"] = true;
                const TemplateArgumentList *TA = F->getTemplateSpecializationArgs();
                if (TA && TA->size()) o["ta"] = tmplArgs(TA->asArray());
                note(F);
            }
            return o;
        }
        if (auto *CE = dyn_cast<CXXConstructExpr>(E)) {
            const CXXConstructorDecl *K = CE->getConstructor();
            o["k"] = "ctor";
            o["cl"] = qn(K->getParent());
            o["t"] = typeStr(T);
            o["c"] = col(E->getBeginLoc());
            o["fn"] = fnId(K);
            if (K->isCopyConstructor()) o["cm"] = "copy";
            else if (K->isMoveConstructor()) o["cm"] = "move";
            if (K->isDefaultConstructor()) o["def"] = true;
            if (CE->isElidable()) o["el"] = true;
            Array args;
            for (auto *A : CE->arguments()) args.push_back(expr(A));
            o["a"] = std::move(args);
            Array pr;
            for (auto *P : K->parameters()) pr.push_back(paramMode(P->getType()));
            o["pm"] = std::move(pr);
            note(K);
            noteRecord(K->getParent());
            return o;
        }
        if (auto *IC = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            o["k"] = "ctor"; o["cl"] = qn(IC->getConstructor()->getParent());
            o["t"] = typeStr(T); o["fn"] = fnId(IC->getConstructor()); o["a"] = Array();
            return o;
        }
        if (auto *L = dyn_cast<LambdaExpr>(E)) {
            o["k"] = "lambda";
            o["c"] = col(E->getBeginLoc());
            Array fns;
            CXXMethodDecl *Op = L->getCallOperator();
            if (FunctionTemplateDecl *FT = Op->getDescribedFunctionTemplate()) {
                for (auto *S : FT->specializations()) { fns.push_back(fnId(S)); note(S, true); }
                if (fns.empty()) { fns.push_back(fnId(Op)); note(Op, true); }
            } else { fns.push_back(fnId(Op)); note(Op, true); }
            o["fns"] = std::move(fns);
            Array caps;
            auto ii = L->capture_init_begin();
            for (auto &Cp : L->captures()) {
                Object c;
                if (Cp.capturesThis()) { c["m"] = Cp.getCaptureKind() == LCK_StarThis ? "starthis" : "this"; }
                else if (Cp.capturesVariable()) {
                    ValueDecl *V = Cp.getCapturedVar();
                    c["m"] = Cp.getCaptureKind() == LCK_ByRef ? "ref" : "copy";
                    c["n"] = V->getNameAsString();
                    c["d"] = did(V);
                    c["t"] = typeStr(V->getType());
                    c["ic"] = V->isInitCapture();
                    if (*ii) c["i"] = expr(*ii);
                }
                c["impl"] = Cp.isImplicit();
                caps.push_back(std::move(c));
                ++ii;
            }
            o["caps"] = std::move(caps);
            o["mut"] = L->isMutable();
            return o;
        }
        if (auto *CE = dyn_cast<ExplicitCastExpr>(E)) {
            CastKind ck = CE->getCastKind();
            if (ck == CK_ConstructorConversion || ck == CK_UserDefinedConversion || ck == CK_NoOp) {
                return expr(CE->getSubExpr());
            }
            o["k"] = "cast";
            o["ck"] = CE->getCastKindName();
            o["t"] = typeStr(T);
            addInt(o, T);
            o["e"] = expr(CE->getSubExpr());
            QualType ST = CE->getSubExpr()->getType();
            if (ST->isIntegralOrEnumerationType()) {
                o["fw"] = (int64_t)C.getTypeSize(ST);
                o["fsg"] = ST->isSignedIntegerOrEnumerationType();
            }
            o["st"] = CE->getStmtClassName();
            return o;
        }
        if (auto *U = dyn_cast<UnaryOperator>(E)) {
            o["k"] = "un";
            o["op"] = std::string(UnaryOperator::getOpcodeStr(U->getOpcode()));
            o["post"] = U->isPostfix();
            addInt(o, T);
            if (U->getOpcode() == UO_AddrOf) addSize(o, "sz", U->getSubExpr()->getType());
            if (T->isPointerType()) addSize(o, "ps", T->getPointeeType());
            o["e"] = expr(U->getSubExpr());
            return o;
        }
        if (auto *B = dyn_cast<BinaryOperator>(E)) {
            o["k"] = B->isAssignmentOp() ? "asg" : "bin";
            o["op"] = B->getOpcodeStr().str();
            o["t"] = typeStr(T);
            addInt(o, B->isComparisonOp() ? B->getLHS()->getType() : T);
            if (T->isPointerType()) addSize(o, "ps", T->getPointeeType());
            if (auto *CA = dyn_cast<CompoundAssignOperator>(B)) {
                QualType CT = CA->getComputationResultType();
                if (CT->isIntegralOrEnumerationType()) o["cw"] = (int64_t)C.getTypeSize(CT);
            }
            o["x"] = expr(B->getLHS());
            o["y"] = expr(B->getRHS());
            return o;
        }
        if (auto *CO = dyn_cast<AbstractConditionalOperator>(E)) {
            o["k"] = "cond";
            o["t"] = typeStr(T);
            o["c"] = expr(CO->getCond());
            o["x"] = expr(CO->getTrueExpr());
            o["y"] = expr(CO->getFalseExpr());
            return o;
        }
        if (auto *A = dyn_cast<ArraySubscriptExpr>(E)) {
            o["k"] = "idx"; o["b"] = expr(A->getBase()); o["i"] = expr(A->getIdx());
            o["t"] = typeStr(T);
            addInt(o, T);
            addSize(o, "sz", T);
            return o;
        }
        if (auto *I = dyn_cast<InitListExpr>(E)) {
            o["k"] = "ilist"; o["t"] = typeStr(T);
            Array a;
            const InitListExpr *S = I->isSemanticForm() ? I : (I->getSemanticForm() ? I->getSemanticForm() : I);
            for (auto *X : S->inits()) a.push_back(expr(X));
            o["a"] = std::move(a);
            if (auto *RD = T->getAsCXXRecordDecl()) {
                o["cl"] = qn(RD);
                Array fs;
                for (auto *F : RD->fields()) fs.push_back(F->getNameAsString());
                o["fs"] = std::move(fs);
            }
            return o;
        }
        if (auto *N = dyn_cast<CXXNewExpr>(E)) {
            o["k"] = "new"; o["t"] = typeStr(N->getAllocatedType());
            o["arr"] = N->isArray();
            if (N->isArray() && N->getArraySize()) o["n"] = expr(*N->getArraySize());
            if (N->getInitializer()) o["i"] = expr(N->getInitializer());
            Array pa;
            for (unsigned i = 0; i < N->getNumPlacementArgs(); ++i) pa.push_back(expr(N->getPlacementArg(i)));
            o["pl"] = std::move(pa);
            return o;
        }
        if (auto *D = dyn_cast<CXXDeleteExpr>(E)) {
            o["k"] = "delete"; o["arr"] = D->isArrayForm(); o["e"] = expr(D->getArgument()); return o;
        }
        if (auto *Th = dyn_cast<CXXThrowExpr>(E)) {
            o["k"] = "throw";
            if (Th->getSubExpr()) {
                o["e"] = expr(Th->getSubExpr());
                o["t"] = typeStr(Th->getSubExpr()->getType());
                if (auto *RD = Th->getSubExpr()->getType()->getAsCXXRecordDecl()) noteRecord(RD);
            }
            return o;
        }
        if (auto *SV = dyn_cast<CXXScalarValueInitExpr>(E)) { (void)SV; o["k"] = "int"; o["v"] = 0; return o; }
        if (isa<ImplicitValueInitExpr>(E)) { o["k"] = "int"; o["v"] = 0; o["vi"] = true; return o; }
        if (auto *SE = dyn_cast<StmtExpr>(E)) { o["k"] = "stmtexpr"; o["s"] = stmt(SE->getSubStmt()); return o; }
        if (auto *FC = dyn_cast<CXXRewrittenBinaryOperator>(E)) { return expr(FC->getSemanticForm()); }
        // anything else: keep the children so that nothing is hidden
        o["k"] = "other";
        o["sc"] = E->getStmtClassName();
        Array ch;
        for (const Stmt *S : E->children())
            if (auto *X = dyn_cast_or_null<Expr>(S)) ch.push_back(expr(X));
        o["a"] = std::move(ch);
        return o;
    }

    std::string className(const FunctionDecl *F)
    {
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            auto *R = M->getParent();
            if (R->isLambda()) return "lambda";
            std::string s = qn(R);
            return s;
        }
        return "";
    }
    std::string paramMode(QualType T)
    {
        if (T->isRValueReferenceType()) return "rref";
        if (T->isLValueReferenceType())
            return T->getPointeeType().isConstQualified() ? "cref" : "ref";
        if (T->isPointerType()) return T->getPointeeType().isConstQualified() ? "cptr" : "ptr";
        return "val";
    }
    Array tmplArgs(llvm::ArrayRef<TemplateArgument> A)
    {
        Array r;
        for (auto &a : A) {
            if (a.getKind() == TemplateArgument::Type) {
                QualType T = a.getAsType();
                Object x;
                x["t"] = typeStr(T);
                if (!T->isDependentType() && !T->isIncompleteType() && !T->isFunctionType() && !T->isReferenceType())
                    x["sz"] = (int64_t)(C.getTypeSizeInChars(T).getQuantity());
                r.push_back(std::move(x));
            } else if (a.getKind() == TemplateArgument::Integral) {
                Object x; x["v"] = i64(a.getAsIntegral()); r.push_back(std::move(x));
            } else { r.push_back(nullptr); }
        }
        return r;
    }

    // -- statements --------------------------------------------------------
    Object var(const VarDecl *V)
    {
        Object d;
        d["n"] = V->getNameAsString();
        d["d"] = did(V);
        d["t"] = typeStr(V->getType());
        d["wt"] = V->getType().getAsString();
        addInt(d, V->getType().getNonReferenceType());
        if (V->getType()->isReferenceType()) d["ref"] = true;
        if (V->isStaticLocal()) d["static"] = true;
        if (V->getInit()) d["i"] = expr(V->getInit());
        if (auto *RD = V->getType().getNonReferenceType()->getAsCXXRecordDecl()) {
            d["cl"] = qn(RD);
            noteRecord(RD);
            if (RD->hasDefinition() && RD->getDestructor() && !V->getType()->isReferenceType()) {
                d["dtor"] = fnId(RD->getDestructor());
                note(RD->getDestructor());
            }
        }
        d["l"] = line(V->getBeginLoc());
        return d;
    }
    Value stmt(const Stmt *S)
    {
        if (!S) return nullptr;
        Object o;
        o["l"] = line(S->getBeginLoc());
        if (auto *X = dyn_cast<CompoundStmt>(S)) {
            o["s"] = "block";
            Array a;
            for (auto *B : X->body()) a.push_back(stmt(B));
            o["b"] = std::move(a);
            o["el"] = line(X->getEndLoc());
            return o;
        }
        if (auto *X = dyn_cast<DeclStmt>(S)) {
            o["s"] = "decl";
            Array a;
            for (auto *D : X->decls()) {
                if (auto *V = dyn_cast<VarDecl>(D)) {
                    Object vo = var(V);
                    if (auto *DD = dyn_cast<DecompositionDecl>(V)) {
                        Array bs;
                        for (auto *B : DD->bindings()) {
                            Object b;
                            b["n"] = B->getNameAsString();
                            b["d"] = did(B);
                            if (auto *HV = B->getHoldingVar()) { b["hv"] = var(HV); }
                            bs.push_back(std::move(b));
                        }
                        vo["bind"] = std::move(bs);
                    }
                    a.push_back(std::move(vo));
                }
            }
            o["v"] = std::move(a);
            return o;
        }
        if (auto *X = dyn_cast<IfStmt>(S)) {
            o["s"] = "if";
            if (X->isConstexpr()) {
                o["cx"] = true;
                Expr::EvalResult R;
                if (!X->getCond()->isValueDependent() && X->getCond()->EvaluateAsInt(R, C))
                    o["cv"] = i64(R.Val.getInt());
            }
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) o["cvar"] = var(X->getConditionVariable());
            o["c"] = expr(X->getCond());
            o["x"] = stmt(X->getThen());
            if (X->getElse()) o["y"] = stmt(X->getElse());
            return o;
        }
        if (auto *X = dyn_cast<WhileStmt>(S)) {
            o["s"] = "while";
            if (X->getConditionVariable()) o["cvar"] = var(X->getConditionVariable());
            o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto *X = dyn_cast<DoStmt>(S)) {
            o["s"] = "do"; o["c"] = expr(X->getCond()); o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto *X = dyn_cast<ForStmt>(S)) {
            o["s"] = "for";
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) o["cvar"] = var(X->getConditionVariable());
            if (X->getCond()) o["c"] = expr(X->getCond());
            if (X->getInc()) o["inc"] = expr(X->getInc());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto *X = dyn_cast<CXXForRangeStmt>(S)) {
            o["s"] = "rfor";
            if (X->getInit()) o["init"] = stmt(X->getInit());
            o["r"] = expr(X->getRangeInit());
            Object v = var(X->getLoopVariable());
            if (auto *DD = dyn_cast<DecompositionDecl>(X->getLoopVariable())) {
                Array bs;
                for (auto *B : DD->bindings()) {
                    Object b;
                    b["n"] = B->getNameAsString();
                    b["d"] = did(B);
                    if (auto *HV = B->getHoldingVar()) { b["hv"] = var(HV); }
                    bs.push_back(std::move(b));
                }
                v["bind"] = std::move(bs);
            }
            o["v"] = std::move(v);
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto *X = dyn_cast<SwitchStmt>(S)) {
            o["s"] = "switch";
            if (X->getInit()) o["init"] = stmt(X->getInit());
            if (X->getConditionVariable()) o["cvar"] = var(X->getConditionVariable());
            o["c"] = expr(X->getCond());
            o["b"] = stmt(X->getBody());
            return o;
        }
        if (auto *X = dyn_cast<CaseStmt>(S)) {
            o["s"] = "case";
            o["v"] = expr(X->getLHS());
            if (X->getRHS()) o["v2"] = expr(X->getRHS());
            o["b"] = stmt(X->getSubStmt());
            return o;
        }
        if (auto *X = dyn_cast<DefaultStmt>(S)) {
            o["s"] = "default"; o["b"] = stmt(X->getSubStmt());
            return o;
        }
        if (isa<BreakStmt>(S)) { o["s"] = "break"; return o; }
        if (isa<ContinueStmt>(S)) { o["s"] = "continue"; return o; }
        if (auto *X = dyn_cast<ReturnStmt>(S)) {
            o["s"] = "return";
            if (X->getRetValue()) o["e"] = expr(X->getRetValue());
            return o;
        }
        if (auto *X = dyn_cast<CXXTryStmt>(S)) {
            o["s"] = "try";
            o["b"] = stmt(X->getTryBlock());
            Array hs;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i) {
                auto *H = X->getHandler(i);
                Object h;
                if (H->getExceptionDecl()) {
                    h["t"] = typeStr(H->getCaughtType().getNonReferenceType().getUnqualifiedType());
                    h["v"] = var(H->getExceptionDecl());
                }
                h["b"] = stmt(H->getHandlerBlock());
                h["l"] = line(H->getBeginLoc());
                hs.push_back(std::move(h));
            }
            o["h"] = std::move(hs);
            return o;
        }
        if (isa<NullStmt>(S)) { o["s"] = "null"; return o; }
        if (auto *X = dyn_cast<AttributedStmt>(S)) return stmt(X->getSubStmt());
        if (auto *X = dyn_cast<LabelStmt>(S)) return stmt(X->getSubStmt());
        if (auto *E = dyn_cast<Expr>(S)) {
            o["s"] = "expr"; o["e"] = expr(E);
            return o;
        }
        o["s"] = "other";
        o["sc"] = S->getStmtClassName();
        return o;
    }

    // -- work list ----------------------------------------------------------
    std::vector<const FunctionDecl *> work;
    void note(const FunctionDecl *F, bool force = false)
    {
        const FunctionDecl *D = nullptr;
        if (!F->isDefined(D) || !D) return;
        if (!D->hasBody() && !(isa<CXXConstructorDecl>(D))) return;
        if (D->isDependentContext() && !force) return;
        if (!inRoots(D->getLocation())) return;
        if (D->isImplicit() && !isa<CXXConstructorDecl>(D) && !isa<CXXDestructorDecl>(D)) return;
        std::string id = fnId(D);
        if (doneF.count(id)) return;
        doneF.insert(id);
        work.push_back(D);
    }
    void noteGlobal(const VarDecl *V)
    {
        if (!inRoots(V->getLocation())) return;
        const VarDecl *Def = V->getDefinition();
        if (!Def) Def = V->getAnyInitializer() ? V : nullptr;
        std::string n = qn(V);
        if (globals.count(n) && globals[n].getObject("i")) return;
        Object g;
        g["n"] = n; g["t"] = typeStr(V->getType());
        g["file"] = fileOf(V->getLocation()); g["l"] = line(V->getLocation());
        g["const"] = V->getType().isConstQualified();
        globals[n] = Object(g);
        const Expr *I = V->getAnyInitializer();
        if (I) globals[n]["i"] = expr(I);
    }
    void noteRecord(const CXXRecordDecl *R)
    {
        if (!R || R->isLambda()) return;
        R = R->getDefinition();
        if (!R || R->isDependentContext()) return;
        bool mine = inRoots(R->getLocation());
        std::string n = qn(R);
        std::string key = n;
        if (isa<ClassTemplateSpecializationDecl>(R)) key = typeStr(C.getRecordType(R));
        if (records.count(key)) return;
        Object o;
        o["n"] = n;
        o["key"] = key;
        o["mine"] = mine;
        records[key] = Object(o);
        Array bs;
        for (auto &B : R->bases()) {
            if (auto *BR = B.getType()->getAsCXXRecordDecl()) {
                bs.push_back(qn(BR));
                noteRecord(BR);
            }
        }
        o["bases"] = std::move(bs);
        if (mine) {
            o["file"] = fileOf(R->getLocation());
            o["l"] = line(R->getLocation());
            Array fs;
            for (auto *F : R->fields()) {
                Object f;
                f["n"] = F->getNameAsString();
                f["t"] = typeStr(F->getType());
                f["wt"] = F->getType().getAsString();
                f["const"] = F->getType().isConstQualified();
                f["ref"] = F->getType()->isReferenceType();
                f["mut"] = F->isMutable();
                f["l"] = line(F->getLocation());
                f["acc"] = (int)F->getAccess();
                addInt(f, F->getType());
                if (F->getInClassInitializer()) f["i"] = expr(F->getInClassInitializer());
                fs.push_back(std::move(f));
            }
            o["fields"] = std::move(fs);
            Array ms;
            for (auto *M : R->methods()) {
                if (M->isImplicit()) continue;
                Object m;
                m["n"] = M->getNameAsString();
                m["fn"] = fnId(M);
                m["acc"] = (int)M->getAccess();
                m["virt"] = M->isVirtual();
                m["pure"] = M->isPureVirtual();
                m["rt"] = typeStr(M->getReturnType());
                ms.push_back(std::move(m));
            }
            o["methods"] = std::move(ms);
        }
        records[key] = std::move(o);
    }
    void dumpFunction(const FunctionDecl *D)
    {
        Object o;
        std::string id = fnId(D);
        o["id"] = id;
        o["qn"] = qn(D);
        o["n"] = D->getNameAsString();
        o["file"] = fileOf(D->getLocation());
        o["l"] = line(D->getLocation());
        o["el"] = line(D->getEndLoc());
        o["rt"] = typeStr(D->getReturnType());
        o["cl"] = className(D);
        addInt(o, D->getReturnType());
        if (D->isDependentContext()) o["dep"] = true;
        const TemplateArgumentList *TA = D->getTemplateSpecializationArgs();
        if (TA && TA->size()) o["ta"] = tmplArgs(TA->asArray());
        if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
            o["m"] = true;
            o["st"] = M->isStatic();
            o["cst"] = M->isConst();
            o["virt"] = M->isVirtual();
            o["acc"] = (int)M->getAccess();
            if (M->getParent()->isLambda()) {
                o["lam"] = true;
                const DeclContext *DC = M->getParent()->getDeclContext();
                while (DC && !isa<FunctionDecl>(DC)) DC = DC->getParent();
                if (DC) o["enc"] = fnId(cast<FunctionDecl>(DC));
            }
            Array ov;
            for (auto *O : M->overridden_methods()) ov.push_back(fnId(O));
            o["ov"] = std::move(ov);
            noteRecord(M->getParent());
            if (isa<CXXConstructorDecl>(D)) {
                o["kind"] = "ctor";
                o["impl"] = D->isImplicit() || D->isDefaulted();
                auto *K = cast<CXXConstructorDecl>(D);
                if (K->isCopyOrMoveConstructor()) o["cm"] = true;
            }
            else if (isa<CXXDestructorDecl>(D)) o["kind"] = "dtor";
        }
        Array ps;
        for (auto *P : D->parameters()) {
            Object p;
            p["n"] = P->getNameAsString();
            p["d"] = did(P);
            p["t"] = typeStr(P->getType());
            p["pm"] = paramMode(P->getType());
            addInt(p, P->getType().getNonReferenceType());
            ps.push_back(std::move(p));
        }
        o["p"] = std::move(ps);
        if (auto *K = dyn_cast<CXXConstructorDecl>(D)) {
            Array in;
            for (auto *I : K->inits()) {
                Object i;
                if (I->isAnyMemberInitializer()) {
                    i["f"] = I->getAnyMember()->getNameAsString();
                    i["t"] = typeStr(I->getAnyMember()->getType());
                }
                else if (I->isBaseInitializer()) {
                    if (auto *BR = I->getBaseClass()->getAsCXXRecordDecl()) i["base"] = qn(BR);
                } else i["deleg"] = true;
                i["w"] = I->isWritten();
                i["l"] = line(I->getSourceLocation());
                if (I->getInit()) i["e"] = expr(I->getInit());
                in.push_back(std::move(i));
            }
            o["inits"] = std::move(in);
        }
        if (D->hasBody() && !D->isDependentContext()) o["b"] = stmt(D->getBody());
        functions[id] = std::move(o);
    }
    void run()
    {
        while (!work.empty()) {
            auto *D = work.back();
            work.pop_back();
            dumpFunction(D);
        }
    }
};

class V : public RecursiveASTVisitor<V> {
  public:
    Dumper &D;
    explicit V(Dumper &D) : D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl *F)
    {
        if (F->isThisDeclarationADefinition() && D.inRoots(F->getLocation())) {
            if (auto *M = dyn_cast<CXXMethodDecl>(F))
                if (M->getParent()->isLambda()) return true;  // via LambdaExpr
            D.note(F);
        }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R)
    {
        if (R->isThisDeclarationADefinition() && D.inRoots(R->getLocation())) D.noteRecord(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E)
    {
        if (!D.inRoots(E->getLocation())) return true;
        Object o;
        for (auto *X : E->enumerators()) o[X->getNameAsString()] = i64(X->getInitVal());
        D.enums[D.qn(E)] = std::move(o);
        return true;
    }
    bool VisitVarDecl(VarDecl *X)
    {
        if (X->hasGlobalStorage() && !X->isStaticLocal() && !isa<ParmVarDecl>(X) &&
            !X->getType()->isDependentType() && !X->getDeclContext()->isDependentContext())
            D.noteGlobal(X);
        return true;
    }
};

class Consumer : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext &C) override
    {
        if (C.getDiagnostics().hasErrorOccurred()) { g_failed = true; return; }
        Dumper D(C);
        V v(D);
        // only walk top-level declarations that come from the repository
        for (Decl *T : C.getTranslationUnitDecl()->decls()) walk(T, D, v);
        D.run();
        Object top;
        Array f;
        for (auto &x : D.functions) f.push_back(std::move(x.second));
        top["functions"] = std::move(f);
        Array r;
        for (auto &x : D.records) r.push_back(std::move(x.second));
        top["records"] = std::move(r);
        Object e;
        for (auto &x : D.enums) e[x.first] = std::move(x.second);
        top["enums"] = std::move(e);
        Array g;
        for (auto &x : D.globals) g.push_back(std::move(x.second));
        top["globals"] = std::move(g);
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << Value(std::move(top));
    }
    void walk(Decl *T, Dumper &D, V &v)
    {
        if (auto *NS = dyn_cast<NamespaceDecl>(T)) {
            if (!D.inRoots(NS->getLocation())) return;
            for (auto *X : NS->decls()) walk(X, D, v);
            return;
        }
        if (auto *LS = dyn_cast<LinkageSpecDecl>(T)) {
            for (auto *X : LS->decls()) walk(X, D, v);
            return;
        }
        if (D.inRoots(T->getLocation())) v.TraverseDecl(T);
    }
};
class Action : public ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};
}

int main(int argc, char **argv)
{
    // factgen OUT SRC ROOT[,ROOT...] -- flags
    if (argc < 5) return 2;
    g_out = argv[1];
    std::string src = argv[2];
    std::string roots = argv[3];
    size_t p = 0;
    while (p != std::string::npos) {
        size_t q = roots.find(',', p);
        g_roots.push_back(roots.substr(p, q == std::string::npos ? q : q - p));
        p = q == std::string::npos ? q : q + 1;
    }
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB("/", flags);
    tooling::ClangTool T(DB, {src});
    T.clearArgumentsAdjusters();
    T.appendArgumentsAdjuster(tooling::getClangSyntaxOnlyAdjuster());
    int rc = T.run(tooling::newFrontendActionFactory<Action>().get());
    return rc || g_failed ? 3 : 0;
}
