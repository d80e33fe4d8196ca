// simu_extract: dumps the type-checked program (every function definition of
// the repository reachable in the translation unit, template instantiations
// included) as JSON expression/statement trees with resolved callees.
//
//   simu_extract OUT.json ROOT SOURCE -- <clang args>
//
// Only declarations located under ROOT (or under an extra root given with
// -extra=DIR) are dumped.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

#include <set>
#include <map>

using namespace clang;
using llvm::json::Array;
using llvm::json::Object;
using llvm::json::Value;

static std::string              gOut;
static std::vector<std::string> gRoots;

namespace
{
class Dumper : public RecursiveASTVisitor<Dumper>
{
public:
    explicit Dumper(ASTContext& c)
        : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()), NG(c)
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressUnwrittenScope = false;
        PP.Bool = true;
    }

    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool shouldVisitLambdaBody() const { return true; }

    ASTContext&      C;
    SourceManager&   SM;
    PrintingPolicy   PP;
    ASTNameGenerator NG;

    Array functions, records, globals;
    std::set<const void*> seenFn, seenRec, seenVar;
    std::map<const Decl*, std::string> ids;
    std::map<const Decl*, int>         varIds;

    std::string fileOf(SourceLocation L)
    {
        L = SM.getExpansionLoc(L);
        PresumedLoc P = SM.getPresumedLoc(L);
        if (P.isInvalid())
            return "";
        return P.getFilename();
    }
    int lineOf(SourceLocation L)
    {
        return (int)SM.getExpansionLineNumber(L);
    }
    int colOf(SourceLocation L)
    {
        return (int)SM.getExpansionColumnNumber(L);
    }
    bool inRoot(SourceLocation L)
    {
        std::string f = fileOf(L);
        for (auto& r : gRoots)
            if (f.compare(0, r.size(), r) == 0)
                return true;
        return false;
    }

    std::string typeStr(QualType T)
    {
        if (T.isNull())
            return "";
        return T.getCanonicalType().getAsString(PP);
    }

    std::string qname(const NamedDecl* D)
    {
        std::string              s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }

    // class name with template arguments
    std::string recName(const CXXRecordDecl* R)
    {
        if (R->isLambda())
            return "lambda@" + fileOf(R->getBeginLoc()) + ":"
                   + std::to_string(lineOf(R->getBeginLoc())) + ":"
                   + std::to_string(colOf(R->getBeginLoc()));
        return typeStr(C.getTypeDeclType(R));
    }

    std::string fnId(const FunctionDecl* F)
    {
        F = F->getCanonicalDecl();
        auto it = ids.find(F);
        if (it != ids.end())
            return it->second;
        std::string n;
        if (!F->isDependentContext())
        {
            if (isa<CXXConstructorDecl>(F) || isa<CXXDestructorDecl>(F))
            {
                auto v = NG.getAllManglings(F);
                if (!v.empty())
                    n = v[0];
            }
            else
                n = NG.getName(F);
        }
        if (n.empty())
            n = qname(F) + "#" + typeStr(F->getType());
        // lambdas / internal linkage: qualify by location
        const auto* M = dyn_cast<CXXMethodDecl>(F);
        if ((M && M->getParent()->isLambda()) || F->getFormalLinkage() != Linkage::External)
            n += "@" + fileOf(F->getLocation()) + ":"
                 + std::to_string(lineOf(F->getLocation())) + ":"
                 + std::to_string(colOf(F->getLocation()));
        ids[F] = n;
        return n;
    }

    int varId(const ValueDecl* V)
    {
        const Decl* D = V->getCanonicalDecl();
        auto        it = varIds.find(D);
        if (it != varIds.end())
            return it->second;
        int n = (int)varIds.size() + 1;
        varIds[D] = n;
        return n;
    }

    // qualified class::name of a member/function without template args
    std::string plainName(const NamedDecl* D)
    {
        std::string s;
        std::vector<std::string> parts;
        parts.push_back(D->getNameAsString());
        const DeclContext* DC = D->getDeclContext();
        while (DC && !DC->isTranslationUnit())
        {
            if (auto* N = dyn_cast<NamedDecl>(DC))
            {
                if (auto* NS = dyn_cast<NamespaceDecl>(N); NS && (NS->isInline()))
                    ;
                else if (auto* FD = dyn_cast<FunctionDecl>(N))
                    parts.push_back(FD->getNameAsString() + "()");
                else if (auto* RD = dyn_cast<CXXRecordDecl>(N); RD && RD->isLambda())
                    parts.push_back("lambda");
                else
                    parts.push_back(N->getNameAsString());
            }
            DC = DC->getParent();
        }
        for (auto it = parts.rbegin(); it != parts.rend(); ++it)
        {
            if (!s.empty())
                s += "::";
            s += *it;
        }
        return s;
    }

    Object calleeObj(const FunctionDecl* F)
    {
        Object o;
        o["fn"]   = fnId(F);
        o["name"] = plainName(F);
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            o["cls"] = recName(M->getParent());
            if (M->isConst())
                o["const"] = true;
            if (M->isStatic())
                o["static"] = true;
            if (M->isVirtual())
                o["virtual"] = true;
        }
        if (F->getTemplatedKind() == FunctionDecl::TK_FunctionTemplateSpecialization)
            if (auto* A = F->getTemplateSpecializationArgs())
            {
                std::string              s;
                llvm::raw_string_ostream os(s);
                for (auto& a : A->asArray())
                {
                    a.print(PP, os, true);
                    os << ";";
                }
                o["targs"] = os.str();
            }
        o["ret"] = typeStr(F->getReturnType());
        return o;
    }

    const Expr* strip(const Expr* E)
    {
        while (E)
        {
            if (auto* X = dyn_cast<ParenExpr>(E))
                E = X->getSubExpr();
            else if (auto* X = dyn_cast<ImplicitCastExpr>(E))
            {
                // keep numeric conversions, user-defined conversions
                auto k = X->getCastKind();
                if (k == CK_FloatingToIntegral || k == CK_IntegralToFloating
                    || k == CK_IntegralCast || k == CK_FloatingToBoolean
                    || k == CK_IntegralToBoolean || k == CK_PointerToBoolean
                    || k == CK_DerivedToBase || k == CK_UncheckedDerivedToBase)
                    return E;
                E = X->getSubExpr();
            }
            else if (auto* X = dyn_cast<ExprWithCleanups>(E))
                E = X->getSubExpr();
            else if (auto* X = dyn_cast<MaterializeTemporaryExpr>(E))
                E = X->getSubExpr();
            else if (auto* X = dyn_cast<CXXBindTemporaryExpr>(E))
                E = X->getSubExpr();
            else if (auto* X = dyn_cast<SubstNonTypeTemplateParmExpr>(E))
                E = X->getReplacement();
            else if (auto* X = dyn_cast<ConstantExpr>(E))
                E = X->getSubExpr();
            else if (auto* X = dyn_cast<CXXDefaultArgExpr>(E))
                E = X->getExpr();
            else if (auto* X = dyn_cast<CXXDefaultInitExpr>(E))
                E = X->getExpr();
            else if (auto* X = dyn_cast<OpaqueValueExpr>(E))
                E = X->getSourceExpr();
            else if (auto* X = dyn_cast<CXXStdInitializerListExpr>(E))
                E = X->getSubExpr();
            else if (auto* X = dyn_cast<CXXRewrittenBinaryOperator>(E))
                E = X->getSemanticForm();
            else
                return E;
        }
        return E;
    }

    Value expr(const Expr* E0)
    {
        if (!E0)
            return nullptr;
        const Expr* E = strip(E0);
        if (!E)
            return nullptr;
        Object o;
        o["l"] = lineOf(E->getExprLoc());
        o["t"] = typeStr(E->getType());

        // compile-time integer constants that are not plain literals
        if (!E->isValueDependent() && !E->isTypeDependent()
            && E->getType()->isIntegralOrEnumerationType()
            && !isa<IntegerLiteral>(E) && !isa<CXXBoolLiteralExpr>(E) && E->isPRValue())
        {
            Expr::EvalResult R;
            if (E->EvaluateAsInt(R, C, Expr::SE_NoSideEffects))
            {
                o["k"] = "lit";
                auto& I = R.Val.getInt();
                if (I.getSignificantBits() <= 62)
                    o["v"] = I.getExtValue();
                else
                    o["v"] = (double)I.roundToDouble();
                if (E->getType()->isBooleanType())
                    o["v"] = I.getBoolValue();
                if (auto* DR = dyn_cast<DeclRefExpr>(E))
                    o["enum"] = plainName(DR->getDecl());
                return o;
            }
        }

        if (auto* X = dyn_cast<IntegerLiteral>(E))
        {
            o["k"] = "lit";
            if (X->getValue().getActiveBits() <= 62)
                o["v"] = (int64_t)X->getValue().getZExtValue();
            else
                o["v"] = (double)X->getValue().roundToDouble();
            return o;
        }
        if (auto* X = dyn_cast<FloatingLiteral>(E))
        {
            o["k"] = "lit";
            double d = X->getValueAsApproximateDouble();
            o["v"] = d;
            o["f"] = true;
            return o;
        }
        if (auto* X = dyn_cast<CXXBoolLiteralExpr>(E))
        {
            o["k"] = "lit";
            o["v"] = X->getValue();
            return o;
        }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E))
        {
            o["k"] = "null";
            return o;
        }
        if (auto* X = dyn_cast<StringLiteral>(E))
        {
            o["k"] = "str";
            return o;
        }
        if (isa<CharacterLiteral>(E))
        {
            o["k"] = "lit";
            o["v"] = (int64_t)cast<CharacterLiteral>(E)->getValue();
            return o;
        }
        if (isa<CXXThisExpr>(E))
        {
            o["k"] = "this";
            return o;
        }
        if (auto* X = dyn_cast<DeclRefExpr>(E))
        {
            const ValueDecl* D = X->getDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D))
            {
                o["k"] = "fnref";
                o["callee"] = calleeObj(F);
                return o;
            }
            if (auto* EC = dyn_cast<EnumConstantDecl>(D))
            {
                o["k"] = "lit";
                o["v"] = EC->getInitVal().getExtValue();
                o["enum"] = plainName(EC);
                return o;
            }
            o["k"]    = "var";
            o["id"]   = varId(D);
            o["name"] = D->getNameAsString();
            o["dt"]   = typeStr(D->getType());
            if (auto* V = dyn_cast<VarDecl>(D))
            {
                if (V->hasGlobalStorage())
                {
                    o["global"] = plainName(V);
                    // constant value of constexpr floats
                    if (auto* val = constVal(V))
                        if (val->isFloat())
                            o["cv"] = val->getFloat().convertToDouble();
                        else if (val->isInt() && val->getInt().getSignificantBits() < 63)
                            o["ci"] = val->getInt().getExtValue();
                }
                if (isa<ParmVarDecl>(V))
                    o["param"] = true;
            }
            else if (auto* B = dyn_cast<BindingDecl>(D))
            {
                o["k"] = "binding";
                o["binding"] = bindingExpr(B);
            }
            return o;
        }
        if (auto* X = dyn_cast<MemberExpr>(E))
        {
            const ValueDecl* D = X->getMemberDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D))
            {
                o["k"] = "fnref";
                o["callee"] = calleeObj(F);
                o["base"] = expr(X->getBase());
                return o;
            }
            if (auto* V = dyn_cast<VarDecl>(D))
            {
                o["k"]    = "var";
                o["id"]   = varId(D);
                o["name"] = D->getNameAsString();
                o["global"] = plainName(V);
                o["dt"]   = typeStr(D->getType());
                if (auto* val = constVal(V))
                    if (val->isFloat())
                        o["cv"] = val->getFloat().convertToDouble();
                    else if (val->isInt() && val->getInt().getSignificantBits() < 63)
                        o["ci"] = val->getInt().getExtValue();
                return o;
            }
            o["k"]     = "mem";
            o["name"]  = D->getNameAsString();
            o["field"] = plainName(D);
            o["dt"]    = typeStr(D->getType());
            o["arrow"] = X->isArrow();
            o["base"]  = expr(X->getBase());
            return o;
        }
        if (auto* X = dyn_cast<CXXOperatorCallExpr>(E))
        {
            o["k"] = "call";
            o["op"] = getOperatorSpelling(X->getOperator());
            const FunctionDecl* F = X->getDirectCallee();
            unsigned            i = 0;
            if (F)
            {
                o["callee"] = calleeObj(F);
                if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic() && X->getNumArgs())
                {
                    o["obj"] = expr(X->getArg(0));
                    i = 1;
                }
            }
            Array a;
            for (; i < X->getNumArgs(); ++i)
                a.push_back(expr(X->getArg(i)));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CXXMemberCallExpr>(E))
        {
            o["k"] = "call";
            if (const CXXMethodDecl* F = X->getMethodDecl())
            {
                o["callee"] = calleeObj(F);
                if (auto* ME = dyn_cast<MemberExpr>(X->getCallee()->IgnoreParens()))
                {
                    o["arrow"] = ME->isArrow();
                    if (ME->hasQualifier())
                        o["qualified"] = true; // non virtual dispatch
                }
            }
            else
                o["calleeExpr"] = expr(X->getCallee());
            o["obj"] = expr(X->getImplicitObjectArgument());
            Array a;
            for (auto* A : X->arguments())
                a.push_back(expr(A));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CallExpr>(E))
        {
            o["k"] = "call";
            if (const FunctionDecl* F = X->getDirectCallee())
                o["callee"] = calleeObj(F);
            else
                o["calleeExpr"] = expr(X->getCallee());
            Array a;
            for (auto* A : X->arguments())
                a.push_back(expr(A));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CXXConstructExpr>(E))
        {
            o["k"] = "ctor";
            auto* D = X->getConstructor();
            o["callee"] = calleeObj(D);
            if (D->isCopyOrMoveConstructor())
                o["copymove"] = D->isCopyConstructor() ? "copy" : "move";
            if (D->isDefaultConstructor())
                o["default"] = true;
            if (D->isDefaulted() || D->isTrivial())
                o["defaulted"] = true;
            if (X->requiresZeroInitialization())
                o["zero"] = true;
            if (X->isElidable())
                o["elidable"] = true;
            if (X->isListInitialization())
                o["list"] = true;
            Array a;
            for (auto* A : X->arguments())
                a.push_back(expr(A));
            o["args"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<CXXInheritedCtorInitExpr>(E))
        {
            o["k"] = "ctor";
            o["callee"] = calleeObj(X->getConstructor());
            o["inherited"] = true;
            o["args"] = Array{};
            return o;
        }
        if (auto* X = dyn_cast<UnaryOperator>(E))
        {
            o["k"]  = "un";
            o["op"] = UnaryOperator::getOpcodeStr(X->getOpcode());
            if (X->isPostfix())
                o["post"] = true;
            o["e"] = expr(X->getSubExpr());
            return o;
        }
        if (auto* X = dyn_cast<BinaryOperator>(E))
        {
            o["k"]  = X->isAssignmentOp() ? "asg" : "bin";
            o["op"] = BinaryOperator::getOpcodeStr(X->getOpcode());
            o["a"]  = expr(X->getLHS());
            o["b"]  = expr(X->getRHS());
            return o;
        }
        if (auto* X = dyn_cast<AbstractConditionalOperator>(E))
        {
            o["k"] = "cond";
            o["c"] = expr(X->getCond());
            o["a"] = expr(X->getTrueExpr());
            o["b"] = expr(X->getFalseExpr());
            return o;
        }
        if (auto* X = dyn_cast<ArraySubscriptExpr>(E))
        {
            o["k"] = "idx";
            o["a"] = expr(X->getBase());
            o["i"] = expr(X->getIdx());
            const Expr* B = X->getBase()->IgnoreImpCasts();
            if (auto* AT = C.getAsConstantArrayType(B->getType()))
                o["n"] = (int64_t)AT->getSize().getZExtValue();
            return o;
        }
        if (auto* X = dyn_cast<CastExpr>(E))
        {
            o["k"] = "cast";
            o["ck"] = X->getCastKindName();
            o["e"]  = expr(X->getSubExpr());
            if (auto* EC = dyn_cast<ExplicitCastExpr>(X))
            {
                o["explicit"] = true;
                if (isa<CXXConstCastExpr>(EC))
                    o["constcast"] = true;
                if (isa<CXXReinterpretCastExpr>(EC))
                    o["reinterpret"] = true;
                if (isa<CStyleCastExpr>(EC))
                    o["cstyle"] = true;
                if (isa<CXXDynamicCastExpr>(EC))
                    o["dynamic"] = true;
                o["from"] = typeStr(EC->getSubExpr()->getType());
            }
            return o;
        }
        if (auto* X = dyn_cast<LambdaExpr>(E))
        {
            o["k"] = "lambda";
            o["fn"] = fnId(X->getCallOperator());
            if (auto* TD = X->getDependentCallOperator())
            {
                // generic lambda: list the instantiated call operators
                Array sp;
                for (auto* S : TD->specializations())
                    sp.push_back(fnId(S));
                o["specs"] = std::move(sp);
            }
            o["rec"] = recName(X->getLambdaClass());
            Array caps;
            for (auto& cap : X->captures())
            {
                Object c;
                c["kind"] = cap.capturesThis() ? "this"
                            : cap.getCaptureKind() == LCK_ByRef ? "ref"
                                                               : "copy";
                if (cap.capturesVariable())
                {
                    c["id"] = varId(cap.getCapturedVar());
                    c["name"] = cap.getCapturedVar()->getNameAsString();
                    if (auto* V = dyn_cast<VarDecl>(cap.getCapturedVar()); V && V->isInitCapture())
                        c["init"] = expr(V->getInit());
                }
                caps.push_back(std::move(c));
            }
            o["caps"] = std::move(caps);
            return o;
        }
        if (auto* X = dyn_cast<CXXNewExpr>(E))
        {
            o["k"] = "new";
            o["nt"] = typeStr(X->getAllocatedType());
            if (X->getNumPlacementArgs())
            {
                Array p;
                for (unsigned i = 0; i < X->getNumPlacementArgs(); ++i)
                    p.push_back(expr(X->getPlacementArg(i)));
                o["placement"] = std::move(p);
            }
            if (X->getInitializer())
                o["init"] = expr(X->getInitializer());
            if (X->isArray())
                o["array"] = true;
            return o;
        }
        if (auto* X = dyn_cast<CXXDeleteExpr>(E))
        {
            o["k"] = "delete";
            o["e"] = expr(X->getArgument());
            return o;
        }
        if (auto* X = dyn_cast<InitListExpr>(E))
        {
            if (X->isSemanticForm() == false && X->getSemanticForm())
                X = X->getSemanticForm();
            o["k"] = "init";
            Array a;
            for (auto* A : X->inits())
                a.push_back(expr(A));
            if (auto* F = X->getInitializedFieldInUnion())
                o["unionfield"] = F->getNameAsString();
            if (X->hasArrayFiller())
                o["filler"] = true;
            o["elems"] = std::move(a);
            return o;
        }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E))
        {
            o["k"] = "zero";
            return o;
        }
        if (auto* X = dyn_cast<CXXThrowExpr>(E))
        {
            o["k"] = "throw";
            if (X->getSubExpr())
                o["tt"] = typeStr(X->getSubExpr()->getType());
            return o;
        }
        if (auto* X = dyn_cast<CXXPseudoDestructorExpr>(E))
        {
            o["k"] = "other";
            o["cls"] = "pseudodtor";
            return o;
        }
        if (auto* X = dyn_cast<ArrayInitLoopExpr>(E))
        {
            o["k"] = "arrcopy";
            o["e"] = expr(X->getCommonExpr());
            return o;
        }
        o["k"]   = "other";
        o["cls"] = E->getStmtClassName();
        Array a;
        for (auto* S : E->children())
            if (auto* CE = dyn_cast_or_null<Expr>(S))
                a.push_back(expr(CE));
        o["c"] = std::move(a);
        return o;
    }

    const APValue* constVal(const VarDecl* V)
    {
        if (!V->getType().isConstQualified() && !V->isConstexpr())
            return nullptr;
        const VarDecl* Def = nullptr;
        if (!V->getAnyInitializer(Def) || !Def)
            return nullptr;
        if (Def->getInit()->isValueDependent())
            return nullptr;
        return Def->evaluateValue();
    }

    // tuple-like bindings name a hidden variable initialised by get<i>()
    Value bindingExpr(const BindingDecl* B)
    {
        if (auto* H = B->getHoldingVar(); H && H->getInit())
            return expr(H->getInit());
        return expr(B->getBinding());
    }

    Value varDecl(const VarDecl* V)
    {
        Object o;
        o["id"]   = varId(V);
        o["name"] = V->getNameAsString();
        o["type"] = typeStr(V->getType());
        o["l"]    = lineOf(V->getLocation());
        if (V->isStaticLocal())
            o["static"] = true;
        if (V->getInit())
            o["init"] = expr(V->getInit());
        if (auto* DD = dyn_cast<DecompositionDecl>(V))
        {
            Array b;
            for (auto* B : DD->bindings())
            {
                Object x;
                x["id"] = varId(B);
                x["name"] = B->getNameAsString();
                x["e"] = bindingExpr(B);
                b.push_back(std::move(x));
            }
            o["bindings"] = std::move(b);
        }
        return o;
    }

    Value stmt(const Stmt* S)
    {
        if (!S)
            return nullptr;
        Object o;
        o["l"] = lineOf(S->getBeginLoc());
        if (auto* X = dyn_cast<CompoundStmt>(S))
        {
            o["k"] = "block";
            Array a;
            for (auto* c : X->body())
                a.push_back(stmt(c));
            o["c"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<DeclStmt>(S))
        {
            o["k"] = "decl";
            Array a;
            for (auto* D : X->decls())
                if (auto* V = dyn_cast<VarDecl>(D))
                    a.push_back(varDecl(V));
            o["vars"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<IfStmt>(S))
        {
            o["k"] = "if";
            if (X->isConstexpr())
                o["constexpr"] = true;
            if (X->getInit())
                o["init"] = stmt(X->getInit());
            if (X->getConditionVariable())
                o["var"] = varDecl(X->getConditionVariable());
            o["cond"] = expr(X->getCond());
            o["then"] = stmt(X->getThen());
            if (X->getElse())
                o["else"] = stmt(X->getElse());
            return o;
        }
        if (auto* X = dyn_cast<ForStmt>(S))
        {
            o["k"] = "for";
            o["init"] = stmt(X->getInit());
            o["cond"] = expr(X->getCond());
            o["inc"]  = expr(X->getInc());
            o["body"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<WhileStmt>(S))
        {
            o["k"] = "while";
            if (X->getConditionVariable())
                o["var"] = varDecl(X->getConditionVariable());
            o["cond"] = expr(X->getCond());
            o["body"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<DoStmt>(S))
        {
            o["k"] = "do";
            o["cond"] = expr(X->getCond());
            o["body"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<CXXForRangeStmt>(S))
        {
            o["k"] = "rangefor";
            o["var"] = varDecl(X->getLoopVariable());
            o["range"] = expr(X->getRangeInit());
            o["rtype"] = X->getRangeInit() ? typeStr(X->getRangeInit()->getType()) : "";
            auto initOf = [&](const DeclStmt* DS) -> Value {
                if (!DS)
                    return nullptr;
                if (auto* V = dyn_cast<VarDecl>(DS->getSingleDecl()))
                    if (V->getInit())
                        return expr(V->getInit());
                return nullptr;
            };
            if (X->getRangeStmt())
            {
                auto* RV = dyn_cast<VarDecl>(cast<DeclStmt>(X->getRangeStmt())->getSingleDecl());
                if (RV)
                    o["rangeVar"] = varId(RV);
            }
            auto idOf = [&](const DeclStmt* DS) -> Value {
                if (!DS)
                    return nullptr;
                if (auto* V = dyn_cast<VarDecl>(DS->getSingleDecl()))
                    return varId(V);
                return nullptr;
            };
            o["begin"] = initOf(X->getBeginStmt());
            o["end"]   = initOf(X->getEndStmt());
            o["beginVar"] = idOf(X->getBeginStmt());
            o["endVar"] = idOf(X->getEndStmt());
            if (X->getBeginStmt())
                if (auto* BV = dyn_cast<VarDecl>(X->getBeginStmt()->getSingleDecl()))
                    o["itype"] = typeStr(BV->getType());
            o["inc"]   = expr(X->getInc());
            o["cond"]  = expr(X->getCond());
            o["body"] = stmt(X->getBody());
            return o;
        }
        if (auto* X = dyn_cast<SwitchStmt>(S))
        {
            o["k"] = "switch";
            if (X->getInit())
                o["init"] = stmt(X->getInit());
            o["cond"] = expr(X->getCond());
            o["body"] = stmt(X->getBody());
            bool hasDefault = false;
            for (auto* c = X->getSwitchCaseList(); c; c = c->getNextSwitchCase())
                if (isa<DefaultStmt>(c))
                    hasDefault = true;
            o["hasDefault"] = hasDefault;
            if (auto* ET = X->getCond()->IgnoreImpCasts()->getType()->getAs<EnumType>())
            {
                Array en;
                for (auto* ec : ET->getDecl()->enumerators())
                    en.push_back(ec->getInitVal().getExtValue());
                o["enumerators"] = std::move(en);
            }
            return o;
        }
        if (auto* X = dyn_cast<CaseStmt>(S))
        {
            o["k"] = "case";
            o["v"] = expr(X->getLHS());
            o["sub"] = stmt(X->getSubStmt());
            return o;
        }
        if (auto* X = dyn_cast<DefaultStmt>(S))
        {
            o["k"] = "default";
            o["sub"] = stmt(X->getSubStmt());
            return o;
        }
        if (auto* X = dyn_cast<ReturnStmt>(S))
        {
            o["k"] = "return";
            if (X->getRetValue())
                o["e"] = expr(X->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(S))
        {
            o["k"] = "break";
            return o;
        }
        if (isa<ContinueStmt>(S))
        {
            o["k"] = "continue";
            return o;
        }
        if (isa<NullStmt>(S))
        {
            o["k"] = "null";
            return o;
        }
        if (auto* X = dyn_cast<CXXTryStmt>(S))
        {
            o["k"] = "try";
            o["body"] = stmt(X->getTryBlock());
            Array a;
            for (unsigned i = 0; i < X->getNumHandlers(); ++i)
                a.push_back(stmt(X->getHandler(i)->getHandlerBlock()));
            o["handlers"] = std::move(a);
            return o;
        }
        if (auto* X = dyn_cast<AttributedStmt>(S))
            return stmt(X->getSubStmt());
        if (auto* X = dyn_cast<LabelStmt>(S))
            return stmt(X->getSubStmt());
        if (auto* X = dyn_cast<Expr>(S))
        {
            o["k"] = "expr";
            o["e"] = expr(X);
            return o;
        }
        o["k"]   = "otherstmt";
        o["cls"] = S->getStmtClassName();
        return o;
    }

    bool VisitFunctionDecl(FunctionDecl* F)
    {
        if (F->isDependentContext() || F->isTemplated())
            return true;
        if (!inRoot(F->getLocation()))
            return true;
        bool def = F->isThisDeclarationADefinition() && F->doesThisDeclarationHaveABody();
        auto* CD = dyn_cast<CXXConstructorDecl>(F);
        bool  declOnly = !def;
        if (declOnly && !(F->isDeleted() || F->isPureVirtual() || F->isDefaulted()
                          || F->isImplicit()))
            return true;
        const void* key = F;
        if (!seenFn.insert(key).second)
            return true;

        Object o;
        o["id"]   = fnId(F);
        o["name"] = plainName(F);
        o["q"]    = qname(F);
        o["file"] = fileOf(F->getLocation());
        o["line"] = lineOf(F->getLocation());
        o["ret"]  = typeStr(F->getReturnType());
        if (declOnly)
            o["nobody"] = true;
        if (F->isDeleted())
            o["deleted"] = true;
        if (F->isPureVirtual())
            o["pure"] = true;
        if (F->isDefaulted())
            o["defaulted"] = true;
        if (F->isImplicit())
            o["implicit"] = true;
        if (F->isTemplateInstantiation())
            o["inst"] = true;
        if (F->isVariadic())
            o["variadic"] = true;
        if (F->isExplicitlyDefaulted())
            o["explicitdefault"] = true;
        Array ps;
        for (auto* P : F->parameters())
        {
            Object p;
            p["id"]   = varId(P);
            p["name"] = P->getNameAsString();
            p["type"] = typeStr(P->getType());
            ps.push_back(std::move(p));
        }
        o["params"] = std::move(ps);
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
        {
            o["cls"] = recName(M->getParent());
            o["clsPlain"] = plainName(M->getParent());
            if (M->isConst())
                o["const"] = true;
            if (M->isStatic())
                o["static"] = true;
            if (M->isVirtual())
                o["virtual"] = true;
            if (M->getParent()->isLambda())
                o["lambda"] = true;
            Array ov;
            for (auto* B : M->overridden_methods())
                ov.push_back(fnId(B));
            o["overrides"] = std::move(ov);
            o["access"] = M->getAccess() == AS_public ? "public"
                          : M->getAccess() == AS_private ? "private"
                          : M->getAccess() == AS_protected ? "protected" : "none";
            if (M->getParent()->isLambda())
            {
                // implicit captures: map of field -> var handled through varId
            }
        }
        if (CD)
        {
            o["ctor"] = true;
            if (CD->isCopyConstructor())
                o["copyctor"] = true;
            if (CD->isMoveConstructor())
                o["movector"] = true;
            if (CD->isDefaultConstructor())
                o["defctor"] = true;
            Array in;
            if (def)
                for (auto* I : CD->inits())
                {
                    Object x;
                    if (I->isMemberInitializer())
                        x["field"] = I->getMember()->getNameAsString();
                    else if (I->isIndirectMemberInitializer())
                        x["field"] = I->getIndirectMember()->getNameAsString();
                    else if (I->isBaseInitializer())
                    {
                        x["base"] = typeStr(QualType(I->getBaseClass(), 0));
                    }
                    else if (I->isDelegatingInitializer())
                        x["delegating"] = true;
                    x["written"] = I->isWritten();
                    if (I->isInClassMemberInitializer())
                        x["dmi"] = true;
                    x["l"] = lineOf(I->getSourceLocation());
                    x["e"] = expr(I->getInit());
                    in.push_back(std::move(x));
                }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(F))
            o["dtor"] = true;
        if (def)
            o["body"] = stmt(F->getBody());
        functions.push_back(std::move(o));
        return true;
    }

    bool VisitCXXRecordDecl(CXXRecordDecl* R)
    {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext())
            return true;
        if (!inRoot(R->getLocation()))
            return true;
        if (!seenRec.insert(R).second)
            return true;
        Object o;
        o["name"]  = recName(R);
        o["plain"] = plainName(R);
        o["file"]  = fileOf(R->getLocation());
        o["line"]  = lineOf(R->getLocation());
        if (R->isUnion())
            o["union"] = true;
        if (R->isLambda())
            o["lambda"] = true;
        if (R->isAbstract())
            o["abstract"] = true;
        if (R->isPolymorphic())
            o["polymorphic"] = true;
        Array fs;
        for (auto* F : R->fields())
        {
            Object f;
            f["name"] = F->getNameAsString();
            f["type"] = typeStr(F->getType());
            f["id"]   = varId(F);
            f["l"]    = lineOf(F->getLocation());
            if (F->hasInClassInitializer())
            {
                f["hasinit"] = true;
                if (auto* IE = F->getInClassInitializer())
                    if (!IE->isValueDependent())
                        f["init"] = expr(IE);
            }
            if (F->isMutable())
                f["mutable"] = true;
            if (F->isAnonymousStructOrUnion())
                f["anon"] = true;
            f["access"] = F->getAccess() == AS_public ? "public"
                          : F->getAccess() == AS_private ? "private"
                                                         : "protected";
            fs.push_back(std::move(f));
        }
        o["fields"] = std::move(fs);
        Array bs;
        for (auto& B : R->bases())
            bs.push_back(typeStr(B.getType()));
        o["bases"] = std::move(bs);
        if (auto* D = R->getDestructor())
        {
            if (D->isUserProvided())
                o["dtor"] = fnId(D);
            o["dtorVirtual"] = D->isVirtual();
        }
        Array fr;
        for (auto* F : R->friends())
        {
            if (auto* T = F->getFriendType())
                fr.push_back(typeStr(T->getType()));
            else if (auto* ND = F->getFriendDecl())
                fr.push_back(plainName(ND));
        }
        o["friends"] = std::move(fr);
        if (auto* S = dyn_cast<ClassTemplateSpecializationDecl>(R))
        {
            std::string              s;
            llvm::raw_string_ostream os(s);
            for (auto& a : S->getTemplateArgs().asArray())
            {
                a.print(PP, os, true);
                os << ";";
            }
            o["targs"] = os.str();
        }
        records.push_back(std::move(o));
        return true;
    }

    bool VisitVarDecl(VarDecl* V)
    {
        if (!V->hasGlobalStorage() || V->isStaticLocal())
            return true;
        if (V->getDeclContext()->isDependentContext() || V->getType()->isDependentType())
            return true;
        if (!inRoot(V->getLocation()))
            return true;
        if (!seenVar.insert(V).second)
            return true;
        Object o;
        o["id"]   = varId(V);
        o["name"] = plainName(V);
        o["type"] = typeStr(V->getType());
        o["file"] = fileOf(V->getLocation());
        o["line"] = lineOf(V->getLocation());
        if (V->getInit() && !V->getInit()->isValueDependent())
            o["init"] = expr(V->getInit());
        globals.push_back(std::move(o));
        return true;
    }
};

class Consumer : public ASTConsumer
{
public:
    CompilerInstance& CI;
    Consumer(CompilerInstance& ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext& Ctx) override
    {
        if (Ctx.getDiagnostics().hasErrorOccurred())
            return;
        Dumper D(Ctx);
        D.TraverseDecl(Ctx.getTranslationUnitDecl());
        Object top;
        top["functions"] = std::move(D.functions);
        top["records"]   = std::move(D.records);
        top["globals"]   = std::move(D.globals);
        std::error_code      ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << Value(std::move(top));
    }
};

class Action : public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer>
    CreateASTConsumer(CompilerInstance& CI, StringRef) override
    {
        return std::make_unique<Consumer>(CI);
    }
};
} // namespace

int main(int argc, const char** argv)
{
    int i = 1;
    if (argc < 4)
        return 2;
    gOut = argv[i++];
    std::string roots = argv[i++];
    size_t      p = 0;
    while (p != std::string::npos)
    {
        size_t q = roots.find(',', p);
        gRoots.push_back(roots.substr(p, q == std::string::npos ? q : q - p));
        p = q == std::string::npos ? q : q + 1;
    }
    std::string src = argv[i++];
    if (i < argc && std::string(argv[i]) == "--")
        ++i;
    std::vector<std::string> args;
    for (; i < argc; ++i)
        args.push_back(argv[i]);

    tooling::FixedCompilationDatabase DB(".", args);
    tooling::ClangTool                Tool(DB, {src});
    return Tool.run(tooling::newFrontendActionFactory<Action>().get());
}
