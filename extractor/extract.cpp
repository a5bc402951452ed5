// Fact extractor: parses one translation unit of RGB-D-SLAM with clang's front end and dumps, as JSON, the resolved
// syntax trees of every function defined below the analysed root (functions, methods, constructors with their
// initialisers, lambdas, and every template instantiation), the class layouts, enumerations, namespace-scope variables
// and static assertions. Nothing of the analysed program is executed.
//
// usage: extract ROOT FILE OUT.json -- <clang flags>
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Basic/SourceManager.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Lex/Lexer.h"
#include "clang/Lex/Preprocessor.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <fstream>
#include <iostream>
#include <map>
#include <set>
#include <unordered_map>

using namespace clang;
namespace json = llvm::json;

static std::string gRoot, gOut;
static std::vector<std::string> gDeps;

struct Dumper
{
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<std::string, int> typeIds;
    json::Array types;
    std::unordered_map<const Decl*, int> declIds;
    std::map<std::string, int> fileIds;
    json::Array files;
    json::Array functions, records, enums, globals, sasserts;
    std::set<std::string> doneFn, doneRec, doneGlob, doneEnum;
    int nodeCount = 0;

    explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getLangOpts())
    {
        PP.SuppressTagKeyword = true;
        PP.Bool = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
        PP.AnonymousTagLocations = false;
        PP.SuppressInlineNamespace = true;
    }

    int typeId(QualType t)
    {
        if (t.isNull())
            return -1;
        std::string s = t.getCanonicalType().getAsString(PP);
        auto it = typeIds.find(s);
        if (it != typeIds.end())
            return it->second;
        int id = types.size();
        typeIds[s] = id;
        types.push_back(s);
        return id;
    }
    int declId(const Decl* d)
    {
        d = d->getCanonicalDecl();
        auto it = declIds.find(d);
        if (it != declIds.end())
            return it->second;
        int id = declIds.size() + 1;
        declIds[d] = id;
        return id;
    }
    std::string fileOf(SourceLocation l)
    {
        l = SM.getExpansionLoc(l);
        auto f = SM.getFilename(l);
        return f.str();
    }
    std::string relPath(std::string f)
    {
        if (f.rfind(gRoot, 0) == 0)
            return f.substr(gRoot.size());
        return "";
    }
    bool inRoot(SourceLocation l)
    {
        if (l.isInvalid())
            return false;
        std::string f = real(fileOf(l));
        if (f.rfind(gRoot, 0) != 0)
            return false;
        std::string r = f.substr(gRoot.size());
        return r.rfind("src/", 0) == 0 || r.rfind("third_party/", 0) == 0 || r.rfind("examples/", 0) == 0;
    }
    std::unordered_map<std::string, std::string> realCache;
    std::string real(const std::string& f)
    {
        auto it = realCache.find(f);
        if (it != realCache.end())
            return it->second;
        char* r = realpath(f.c_str(), nullptr);
        std::string s = r ? r : f;
        free(r);
        return realCache[f] = s;
    }
    int fileId(SourceLocation l)
    {
        std::string f = relPath(real(fileOf(l)));
        auto it = fileIds.find(f);
        if (it != fileIds.end())
            return it->second;
        int id = files.size();
        fileIds[f] = id;
        files.push_back(f);
        return id;
    }
    int line(SourceLocation l) { return SM.getExpansionLineNumber(l); }

    std::string qn(const NamedDecl* d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy p(PP);
        d->printQualifiedName(os, p);
        return os.str();
    }
    std::string usr(const Decl* d)
    {
        llvm::SmallString<256> buf;
        if (index::generateUSRForDecl(d, buf))
            return "";
        return std::string(buf.str());
    }
    std::string fnId(const FunctionDecl* f)
    {
        // lambdas: location based
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
            if (m->getParent()->isLambda())
            {
                const FunctionDecl* d = f;
                std::string s = "lambda@" + std::to_string(fileId(m->getParent()->getLocation())) + ":" +
                                std::to_string(SM.getFileOffset(SM.getExpansionLoc(m->getParent()->getLocation())));
                if (const DeclContext* dc = m->getParent()->getDeclContext())
                {
                    while (dc && !isa<FunctionDecl>(dc) && !dc->isTranslationUnit())
                        dc = dc->getParent();
                    if (auto* pf = dyn_cast_or_null<FunctionDecl>(dc))
                        s += "<" + fnId(pf) + ">";
                }
                if (d->getTemplateSpecializationInfo())
                    for (auto* p: d->parameters())
                        s += "," + p->getType().getCanonicalType().getAsString(PP);
                return s;
            }
        std::string s = usr(f);
        // a lambda given as template argument: the USR does not tell two lambdas of one function apart
        if (const TemplateArgumentList* l = f->getTemplateSpecializationArgs())
            for (const TemplateArgument& a: l->asArray())
                if (a.getKind() == TemplateArgument::Type)
                {
                    const CXXRecordDecl* r = a.getAsType().getNonReferenceType()->getAsCXXRecordDecl();
                    if (r && r->isLambda())
                        s += "#lambda@" + std::to_string(fileId(r->getLocation())) + ":" +
                             std::to_string(SM.getFileOffset(SM.getExpansionLoc(r->getLocation())));
                }
        return s;
    }

    json::Value node(const char* k, const Stmt* s, json::Object extra = {})
    {
        json::Object o = std::move(extra);
        o["k"] = k;
        if (s)
        {
            o["l"] = line(s->getBeginLoc());
            SourceLocation b = s->getBeginLoc();
            if (b.isMacroID())
            {
                // outermost macro name
                SourceLocation m = b;
                while (SM.isMacroArgExpansion(m))
                    m = SM.getImmediateExpansionRange(m).getBegin();
                if (m.isMacroID())
                {
                    StringRef n = Lexer::getImmediateMacroName(m, SM, C.getLangOpts());
                    if (!n.empty())
                        o["mac"] = n.str();
                }
            }
        }
        nodeCount++;
        return o;
    }

    json::Value ex(const Expr* e)
    {
        if (!e)
            return nullptr;
        json::Value v = exInner(e);
        return v;
    }

    json::Array exs(llvm::iterator_range<CallExpr::const_arg_iterator> r, unsigned skip = 0)
    {
        json::Array a;
        unsigned i = 0;
        for (const Expr* x: r)
        {
            if (i++ < skip)
                continue;
            a.push_back(ex(x));
        }
        return a;
    }

    void calleeInfo(json::Object& o, const FunctionDecl* f)
    {
        o["f"] = fnId(f);
        o["qn"] = qn(f);
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            if (m->isConst())
                o["cst"] = true;
            if (m->isStatic())
                o["stat"] = true;
            if (m->isVirtual())
                o["virt"] = true;
        }
        if (f->isNoReturn())
            o["nr"] = true;
        // parameter passing: v value, r non-const ref/ptr, c const ref
        std::string pp;
        for (auto* p: f->parameters())
        {
            QualType t = p->getType();
            if (t->isReferenceType())
                pp += t->getPointeeType().isConstQualified() ? 'c' : (t->isRValueReferenceType() ? 'x' : 'r');
            else if (t->isPointerType() && !t->getPointeeType().isConstQualified())
                pp += 'p';
            else
                pp += 'v';
        }
        o["pp"] = pp;
        if (auto* proto = f->getType()->getAs<FunctionProtoType>())
        {
            if (!isUnresolvedExceptionSpec(proto->getExceptionSpecType()) && proto->isNothrow())
                o["ne"] = true;
        }
        // the template arguments, when they are integers (block<3,3>)
        if (auto* ta = f->getTemplateSpecializationArgs())
        {
            json::Array a;
            for (auto& t: ta->asArray())
            {
                if (t.getKind() == TemplateArgument::Integral)
                    a.push_back(llvm::toString(t.getAsIntegral(), 10));
                else if (t.getKind() == TemplateArgument::Type)
                    a.push_back(t.getAsType().getCanonicalType().getAsString(PP));
            }
            if (!a.empty())
                o["ta"] = std::move(a);
        }
    }

    json::Value exInner(const Expr* e)
    {
        // transparent wrappers
        if (auto* x = dyn_cast<ParenExpr>(e))
            return ex(x->getSubExpr());
        if (auto* x = dyn_cast<ExprWithCleanups>(e))
            return ex(x->getSubExpr());
        if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e))
            return ex(x->getSubExpr());
        if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e))
            return ex(x->getSubExpr());
        if (auto* x = dyn_cast<ConstantExpr>(e))
            return ex(x->getSubExpr());
        if (auto* x = dyn_cast<CXXDefaultArgExpr>(e))
            return ex(x->getExpr());
        if (auto* x = dyn_cast<CXXDefaultInitExpr>(e))
            return ex(x->getExpr());
        if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e))
            return ex(x->getReplacement());
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e))
            return ex(x->getSubExpr());
        if (auto* x = dyn_cast<OpaqueValueExpr>(e))
            if (x->getSourceExpr())
                return ex(x->getSourceExpr());
        if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e))
            return ex(x->getSemanticForm());
        if (auto* x = dyn_cast<ImplicitCastExpr>(e))
        {
            switch (x->getCastKind())
            {
                case CK_IntegralCast:
                case CK_FloatingToIntegral:
                case CK_IntegralToFloating:
                case CK_FloatingCast:
                case CK_IntegralToBoolean:
                case CK_FloatingToBoolean:
                case CK_PointerToBoolean:
                {
                    json::Object o;
                    o["t"] = typeId(x->getType());
                    o["ck"] = x->getCastKindName();
                    o["imp"] = true;
                    o["e"] = ex(x->getSubExpr());
                    return node("cast", e, std::move(o));
                }
                default:
                    return ex(x->getSubExpr());
            }
        }
        if (auto* x = dyn_cast<ExplicitCastExpr>(e))
        {
            if (auto* fc = dyn_cast<CXXFunctionalCastExpr>(x))
                if (fc->getCastKind() == CK_ConstructorConversion || fc->getCastKind() == CK_NoOp)
                    return ex(x->getSubExpr());
            json::Object o;
            o["t"] = typeId(x->getType());
            o["ck"] = x->getCastKindName();
            o["e"] = ex(x->getSubExpr());
            return node("cast", e, std::move(o));
        }
        json::Object o;
        o["t"] = typeId(e->getType());
        if (auto* x = dyn_cast<IntegerLiteral>(e))
        {
            o["v"] = llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType());
            return node("int", e, std::move(o));
        }
        if (auto* x = dyn_cast<FloatingLiteral>(e))
        {
            o["v"] = x->getValueAsApproximateDouble();
            return node("flt", e, std::move(o));
        }
        if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e))
        {
            o["v"] = x->getValue();
            return node("bool", e, std::move(o));
        }
        if (auto* x = dyn_cast<CharacterLiteral>(e))
        {
            o["v"] = std::to_string(x->getValue());
            return node("int", e, std::move(o));
        }
        if (auto* x = dyn_cast<StringLiteral>(e))
        {
            std::string s;
            if (x->getCharByteWidth() == 1)
                s = x->getString().str();
            if (!json::isUTF8(s))
                s = json::fixUTF8(s);
            o["v"] = s;
            return node("str", e, std::move(o));
        }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
            return node("null", e, std::move(o));
        if (isa<CXXThisExpr>(e))
            return node("this", e, std::move(o));
        if (auto* x = dyn_cast<DeclRefExpr>(e))
        {
            const ValueDecl* d = x->getDecl();
            o["n"] = d->getNameAsString();
            if (auto* f = dyn_cast<FunctionDecl>(d))
            {
                o["dk"] = "fn";
                calleeInfo(o, f);
            }
            else if (auto* ec = dyn_cast<EnumConstantDecl>(d))
            {
                o["dk"] = "enum";
                o["qn"] = qn(d);
                o["v"] = llvm::toString(ec->getInitVal(), 10);
            }
            else if (auto* b = dyn_cast<BindingDecl>(d))
            {
                // a structured binding: reference to an element
                o["dk"] = "bind";
                o["d"] = declId(d);
            }
            else if (auto* v = dyn_cast<VarDecl>(d))
            {
                o["d"] = declId(d);
                if (isa<ParmVarDecl>(v))
                    o["dk"] = "parm";
                else if (v->isStaticDataMember() || v->hasGlobalStorage())
                {
                    o["dk"] = v->isLocalVarDecl() ? "slocal" : "glob";
                    o["qn"] = qn(v);
                    if (v->getTSCSpec() != TSCS_unspecified)
                        o["tls"] = true;
                    constVal(o, v);
                }
                else
                {
                    o["dk"] = "loc";
                    if (v->isConstexpr())
                        constVal(o, v);
                }
            }
            else
            {
                o["dk"] = "oth";
                o["qn"] = qn(d);
            }
            return node("ref", e, std::move(o));
        }
        if (auto* x = dyn_cast<MemberExpr>(e))
        {
            const ValueDecl* d = x->getMemberDecl();
            o["n"] = d->getNameAsString();
            if (auto* v = dyn_cast<VarDecl>(d))
            {
                o["dk"] = "glob";
                o["qn"] = qn(d);
                o["d"] = declId(d);
                constVal(o, v);
                return node("ref", e, std::move(o));
            }
            if (auto* f = dyn_cast<FunctionDecl>(d))
            {
                calleeInfo(o, f);
                o["e"] = ex(x->getBase());
                return node("memfn", e, std::move(o));
            }
            o["qn"] = qn(d);
            o["e"] = ex(x->getBase());
            if (x->isArrow())
                o["arr"] = true;
            return node("mem", e, std::move(o));
        }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e))
        {
            o["op"] = getOperatorSpelling(x->getOperator());
            if (const FunctionDecl* f = x->getDirectCallee())
                calleeInfo(o, f);
            if (isa_and_nonnull<CXXMethodDecl>(x->getDirectCallee()) &&
                !cast<CXXMethodDecl>(x->getDirectCallee())->isStatic())
            {
                o["obj"] = ex(x->getArg(0));
                o["a"] = exs(x->arguments(), 1);
            }
            else
                o["a"] = exs(x->arguments());
            return node("call", e, std::move(o));
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e))
        {
            if (const CXXMethodDecl* f = x->getMethodDecl())
                calleeInfo(o, f);
            else
                o["dyn"] = ex(x->getCallee());
            if (const Expr* b = x->getImplicitObjectArgument())
                o["obj"] = ex(b);
            if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
                if (me->hasQualifier())
                    o["nonvirt"] = true;
            o["a"] = exs(x->arguments());
            return node("call", e, std::move(o));
        }
        if (auto* x = dyn_cast<CallExpr>(e))
        {
            if (const FunctionDecl* f = x->getDirectCallee())
                calleeInfo(o, f);
            else
                o["dyn"] = ex(x->getCallee());
            o["a"] = exs(x->arguments());
            return node("call", e, std::move(o));
        }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e))
        {
            calleeInfo(o, x->getConstructor());
            return node("ctor", e, std::move(o));
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e))
        {
            calleeInfo(o, x->getConstructor());
            json::Array a;
            for (auto* y: x->arguments())
                a.push_back(ex(y));
            o["a"] = std::move(a);
            if (x->getConstructor()->isCopyOrMoveConstructor())
                o["copy"] = true;
            if (x->isElidable())
                o["elide"] = true;
            if (x->isListInitialization())
                o["list"] = true;
            return node("ctor", e, std::move(o));
        }
        if (auto* x = dyn_cast<BinaryOperator>(e))
        {
            o["op"] = x->getOpcodeStr().str();
            o["a"] = json::Array {ex(x->getLHS()), ex(x->getRHS())};
            return node(x->isAssignmentOp() ? "asg" : "bin", e, std::move(o));
        }
        if (auto* x = dyn_cast<UnaryOperator>(e))
        {
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix())
                o["post"] = true;
            o["e"] = ex(x->getSubExpr());
            return node("un", e, std::move(o));
        }
        if (auto* x = dyn_cast<ConditionalOperator>(e))
        {
            o["a"] = json::Array {ex(x->getCond()), ex(x->getTrueExpr()), ex(x->getFalseExpr())};
            return node("cond", e, std::move(o));
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e))
        {
            o["a"] = json::Array {ex(x->getBase()), ex(x->getIdx())};
            return node("idx", e, std::move(o));
        }
        if (auto* x = dyn_cast<InitListExpr>(e))
        {
            json::Array a;
            for (auto* y: x->inits())
                a.push_back(ex(y));
            o["a"] = std::move(a);
            if (x->getArrayFiller())
                o["filler"] = true;
            if (auto* rt = x->getType()->getAsCXXRecordDecl())
                o["rec"] = qn(rt);
            return node("list", e, std::move(o));
        }
        if (auto* x = dyn_cast<CXXParenListInitExpr>(e))
        {
            json::Array a;
            for (auto* y: x->getInitExprs())
                a.push_back(ex(y));
            o["a"] = std::move(a);
            if (auto* rt = x->getType()->getAsCXXRecordDecl())
                o["rec"] = qn(rt);
            return node("list", e, std::move(o));
        }
        if (auto* x = dyn_cast<LambdaExpr>(e))
        {
            json::Array caps;
            auto ci = x->capture_init_begin();
            for (auto& c: x->captures())
            {
                json::Object co;
                if (c.capturesThis())
                    co["this"] = true;
                else if (c.capturesVariable())
                {
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["d"] = declId(c.getCapturedVar());
                }
                co["by"] = c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This ? "ref" : "copy";
                if (ci != x->capture_init_end() && *ci)
                    co["e"] = ex(*ci);
                if (ci != x->capture_init_end())
                    ++ci;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            const CXXRecordDecl* rd = x->getLambdaClass();
            json::Array fns;
            if (auto* tmpl = rd->getDependentLambdaCallOperator())
            {
                for (auto* sp: tmpl->specializations())
                    if (sp->hasBody())
                    {
                        const FunctionDecl* def = nullptr;
                        sp->hasBody(def);
                        dumpFunction(def);
                        fns.push_back(fnId(def));
                    }
            }
            else
            {
                dumpFunction(x->getCallOperator());
                fns.push_back(fnId(x->getCallOperator()));
            }
            o["fns"] = std::move(fns);
            return node("lambda", e, std::move(o));
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(e))
        {
            if (x->getSubExpr())
                o["e"] = ex(x->getSubExpr());
            return node("throw", e, std::move(o));
        }
        if (auto* x = dyn_cast<CXXNewExpr>(e))
        {
            if (x->getConstructExpr())
                o["e"] = ex(x->getConstructExpr());
            else if (x->getInitializer())
                o["e"] = ex(x->getInitializer());
            return node("new", e, std::move(o));
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e))
        {
            o["e"] = ex(x->getArgument());
            return node("delete", e, std::move(o));
        }
        if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
        {
            Expr::EvalResult r;
            if (!e->isValueDependent() && e->EvaluateAsInt(r, C))
                o["v"] = llvm::toString(r.Val.getInt(), 10);
            else
                o["v"] = "0";
            return node("int", e, std::move(o));
        }
        if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e))
        {
            return node("zero", e, std::move(o));
        }
        if (isa<ImplicitValueInitExpr>(e))
            return node("zero", e, std::move(o));
        if (auto* x = dyn_cast<StmtExpr>(e))
        {
            o["s"] = st(x->getSubStmt());
            return node("stmtexpr", e, std::move(o));
        }
        // anything else: keep children
        o["cls"] = e->getStmtClassName();
        json::Array a;
        for (const Stmt* c: e->children())
            if (auto* ce = dyn_cast_or_null<Expr>(c))
                a.push_back(ex(ce));
        o["a"] = std::move(a);
        return node("other", e, std::move(o));
    }

    void constVal(json::Object& o, const VarDecl* v)
    {
        if (v->getType()->isDependentType() || v->isInvalidDecl())
            return;
        if (!(v->isConstexpr() || v->getType().isConstQualified()))
            return;
        const Expr* init = v->getAnyInitializer();
        if (!init || init->isValueDependent())
            return;
        if (!(v->getType()->isArithmeticType() || v->getType()->isEnumeralType()))
            return;
        const APValue* val = v->evaluateValue();
        if (!val)
            return;
        putVal(o, *val);
    }
    void putVal(json::Object& o, const APValue& val)
    {
        if (val.isInt())
            o["cv"] = std::stod(llvm::toString(val.getInt(), 10));
        else if (val.isFloat())
        {
            double d;
            bool lose;
            llvm::APFloat f = val.getFloat();
            f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &lose);
            d = f.convertToDouble();
            if (d == d && d - d == 0)
                o["cv"] = d;
        }
    }

    json::Value varDecl(const VarDecl* v)
    {
        json::Object o;
        o["n"] = v->getNameAsString();
        o["d"] = declId(v);
        o["t"] = typeId(v->getType());
        QualType t = v->getType();
        if (t->isReferenceType())
            o["ref"] = t->getPointeeType().isConstQualified() ? "c" : (t->isRValueReferenceType() ? "x" : "r");
        else if (t.isConstQualified())
            o["const"] = true;
        if (v->isStaticLocal())
        {
            o["static"] = true;
            o["qn"] = qn(v);
        }
        if (v->getTSCSpec() != TSCS_unspecified)
            o["tls"] = true;
        if (v->isConstexpr())
            o["cexpr"] = true;
        if (v->getType()->isScalarType() || v->isConstexpr())
            constVal(o, v);
        if (v->hasInit())
        {
            o["init"] = ex(v->getInit());
            o["is"] = (int)v->getInitStyle();
        }
        if (auto* dd = dyn_cast<DecompositionDecl>(v))
        {
            json::Array bs;
            for (auto* b: dd->bindings())
            {
                json::Object bo;
                bo["n"] = b->getNameAsString();
                bo["d"] = declId(b);
                bo["t"] = typeId(b->getType());
                if (auto* hv = b->getHoldingVar())
                    bo["hv"] = true;
                if (b->getBinding())
                    if (auto* me = dyn_cast<MemberExpr>(b->getBinding()->IgnoreParenImpCasts()))
                        bo["fld"] = me->getMemberDecl()->getNameAsString();
                bs.push_back(std::move(bo));
            }
            o["binds"] = std::move(bs);
        }
        o["l"] = line(v->getLocation());
        return o;
    }

    json::Value st(const Stmt* s)
    {
        if (!s)
            return nullptr;
        json::Object o;
        if (auto* x = dyn_cast<CompoundStmt>(s))
        {
            json::Array a;
            for (auto* c: x->body())
                a.push_back(st(c));
            o["a"] = std::move(a);
            o["el"] = line(x->getRBracLoc());
            return node("block", s, std::move(o));
        }
        if (auto* x = dyn_cast<IfStmt>(s))
        {
            if (x->isConstexpr() && !x->getCond()->isValueDependent())
            {
                o["cexpr"] = true;
                Expr::EvalResult r;
                if (x->getCond()->EvaluateAsRValue(r, C) && r.Val.isInt())
                    o["cval"] = r.Val.getInt().getBoolValue();
            }
            if (x->getInit())
                o["init"] = st(x->getInit());
            if (x->getConditionVariable())
                o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = ex(x->getCond());
            o["th"] = st(x->getThen());
            if (x->getElse())
                o["el"] = st(x->getElse());
            return node("if", s, std::move(o));
        }
        if (auto* x = dyn_cast<WhileStmt>(s))
        {
            if (x->getConditionVariable())
                o["cv"] = varDecl(x->getConditionVariable());
            o["c"] = ex(x->getCond());
            o["b"] = st(x->getBody());
            return node("while", s, std::move(o));
        }
        if (auto* x = dyn_cast<DoStmt>(s))
        {
            o["c"] = ex(x->getCond());
            o["b"] = st(x->getBody());
            return node("do", s, std::move(o));
        }
        if (auto* x = dyn_cast<ForStmt>(s))
        {
            if (x->getInit())
                o["init"] = st(x->getInit());
            if (x->getCond())
                o["c"] = ex(x->getCond());
            if (x->getInc())
                o["inc"] = ex(x->getInc());
            o["b"] = st(x->getBody());
            return node("for", s, std::move(o));
        }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s))
        {
            o["v"] = varDecl(x->getLoopVariable());
            if (x->getRangeInit())
                o["r"] = ex(x->getRangeInit());
            if (x->getInit())
                o["init"] = st(x->getInit());
            o["b"] = st(x->getBody());
            return node("rfor", s, std::move(o));
        }
        if (auto* x = dyn_cast<SwitchStmt>(s))
        {
            if (x->getInit())
                o["init"] = st(x->getInit());
            o["c"] = ex(x->getCond());
            o["b"] = st(x->getBody());
            return node("switch", s, std::move(o));
        }
        if (auto* x = dyn_cast<CaseStmt>(s))
        {
            o["c"] = ex(x->getLHS());
            o["b"] = st(x->getSubStmt());
            return node("case", s, std::move(o));
        }
        if (auto* x = dyn_cast<DefaultStmt>(s))
        {
            o["b"] = st(x->getSubStmt());
            return node("default", s, std::move(o));
        }
        if (isa<BreakStmt>(s))
            return node("break", s);
        if (isa<ContinueStmt>(s))
            return node("continue", s);
        if (isa<NullStmt>(s))
            return node("null", s);
        if (auto* x = dyn_cast<ReturnStmt>(s))
        {
            if (x->getRetValue())
                o["e"] = ex(x->getRetValue());
            return node("return", s, std::move(o));
        }
        if (auto* x = dyn_cast<DeclStmt>(s))
        {
            json::Array a;
            for (auto* d: x->decls())
            {
                if (auto* v = dyn_cast<VarDecl>(d))
                    a.push_back(varDecl(v));
                else if (auto* sa = dyn_cast<StaticAssertDecl>(d))
                    staticAssert(sa);
            }
            o["a"] = std::move(a);
            return node("decl", s, std::move(o));
        }
        if (auto* x = dyn_cast<CXXTryStmt>(s))
        {
            o["b"] = st(x->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i)
            {
                auto* h = x->getHandler(i);
                json::Object ho;
                if (h->getExceptionDecl())
                {
                    ho["t"] = typeId(h->getCaughtType());
                    ho["d"] = declId(h->getExceptionDecl());
                    ho["n"] = h->getExceptionDecl()->getNameAsString();
                }
                ho["b"] = st(h->getHandlerBlock());
                ho["l"] = line(h->getBeginLoc());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
            return node("try", s, std::move(o));
        }
        if (auto* x = dyn_cast<AttributedStmt>(s))
            return st(x->getSubStmt());
        if (auto* x = dyn_cast<LabelStmt>(s))
        {
            o["n"] = x->getName();
            o["b"] = st(x->getSubStmt());
            return node("label", s, std::move(o));
        }
        if (auto* x = dyn_cast<GotoStmt>(s))
        {
            o["n"] = x->getLabel()->getNameAsString();
            return node("goto", s, std::move(o));
        }
        if (auto* x = dyn_cast<Expr>(s))
        {
            o["e"] = ex(x);
            return node("expr", s, std::move(o));
        }
        o["cls"] = s->getStmtClassName();
        return node("otherstmt", s, std::move(o));
    }

    void staticAssert(const StaticAssertDecl* sa)
    {
        if (!inRoot(sa->getLocation()) || sa->getAssertExpr()->isValueDependent())
            return;
        json::Object o;
        o["l"] = line(sa->getLocation());
        o["file"] = fileId(sa->getLocation());
        o["c"] = ex(sa->getAssertExpr());
        sasserts.push_back(std::move(o));
    }

    static std::string tmplArgs(Dumper& D, const CXXRecordDecl* r)
    {
        std::string s;
        if (auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(r))
        {
            llvm::raw_string_ostream os(s);
            printTemplateArgumentList(os, sp->getTemplateArgs().asArray(), D.PP);
        }
        return s;
    }

    void dumpFunction(const FunctionDecl* f)
    {
        const FunctionDecl* def = nullptr;
        if (!f->hasBody(def) || !def)
        {
            if (!(f->isDefaulted() && f->getBody()))
                return;
            def = f;
        }
        if (def->isDependentContext() || def->isInvalidDecl())
            return;
        if (!inRoot(def->getLocation()))
            return;
        std::string id = fnId(def);
        if (!doneFn.insert(id).second)
            return;
        json::Object o;
        o["id"] = id;
        o["qn"] = qn(def);
        o["n"] = def->getNameAsString();
        o["file"] = fileId(def->getLocation());
        o["l"] = line(def->getLocation());
        o["el"] = line(def->getEndLoc());
        o["ret"] = typeId(def->getReturnType());
        std::string kind = "fn";
        if (auto* m = dyn_cast<CXXMethodDecl>(def))
        {
            kind = "method";
            if (m->getParent()->isLambda())
            {
                kind = "lambda";
                const DeclContext* dc = m->getParent()->getDeclContext();
                while (dc && !isa<FunctionDecl>(dc) && !dc->isTranslationUnit())
                    dc = dc->getParent();
                if (auto* pf = dyn_cast_or_null<FunctionDecl>(dc))
                    o["outer"] = fnId(pf);
            }
            o["cls"] = qn(m->getParent());
            o["clst"] = typeId(C.getRecordType(m->getParent()));
            std::string ta = tmplArgs(*this, m->getParent());
            if (!ta.empty())
                o["cta"] = ta;
            if (m->isConst())
                o["cst"] = true;
            if (m->isStatic())
                o["stat"] = true;
            if (m->isVirtual())
                o["virt"] = true;
            json::Array ov;
            for (auto* om: m->overridden_methods())
                ov.push_back(fnId(om));
            if (!ov.empty())
                o["over"] = std::move(ov);
            if (isa<CXXConstructorDecl>(m))
            {
                kind = "ctor";
                auto* cd = cast<CXXConstructorDecl>(m);
                if (cd->isCopyConstructor())
                    o["copyctor"] = true;
                if (cd->isMoveConstructor())
                    o["movector"] = true;
                if (cd->isDelegatingConstructor())
                    o["deleg"] = true;
            }
            else if (isa<CXXDestructorDecl>(m))
                kind = "dtor";
            if (m->isCopyAssignmentOperator())
                o["copyasg"] = true;
            if (m->isMoveAssignmentOperator())
                o["moveasg"] = true;
            const char* acc = m->getAccess() == AS_public ? "public" :
                              m->getAccess() == AS_protected ? "protected" :
                                                               "private";
            o["acc"] = acc;
        }
        o["kind"] = kind;
        if (def->isDefaulted())
            o["defaulted"] = true;
        if (def->isImplicit())
            o["implicit"] = true;
        if (auto* proto = def->getType()->getAs<FunctionProtoType>())
            if (!isUnresolvedExceptionSpec(proto->getExceptionSpecType()) && proto->isNothrow())
                o["ne"] = true;
        // a written noexcept
        if (auto* proto = def->getType()->getAs<FunctionProtoType>())
            if (proto->hasNoexceptExceptionSpec() && !def->isImplicit() && !def->isDefaulted())
                o["wne"] = true;
        if (def->isTemplateInstantiation())
            o["tmpl"] = true;
        if (def->getStorageClass() == SC_Static || def->isInAnonymousNamespace())
            o["internal"] = true;
        if (auto* ta = def->getTemplateSpecializationArgs())
        {
            json::Array a;
            for (auto& t: ta->asArray())
                if (t.getKind() == TemplateArgument::Integral)
                    a.push_back(llvm::toString(t.getAsIntegral(), 10));
                else if (t.getKind() == TemplateArgument::Type)
                    a.push_back(t.getAsType().getCanonicalType().getAsString(PP));
            o["fta"] = std::move(a);
        }
        json::Array ps;
        for (auto* p: def->parameters())
        {
            json::Object po;
            po["n"] = p->getNameAsString();
            po["d"] = declId(p);
            po["t"] = typeId(p->getType());
            QualType t = p->getType();
            if (t->isReferenceType())
                po["ref"] = t->getPointeeType().isConstQualified() ? "c" : (t->isRValueReferenceType() ? "x" : "r");
            else if (t->isPointerType())
                po["ref"] = t->getPointeeType().isConstQualified() ? "pc" : "p";
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto* cd = dyn_cast<CXXConstructorDecl>(def))
        {
            json::Array is;
            for (auto* i: cd->inits())
            {
                json::Object io;
                if (i->isAnyMemberInitializer())
                {
                    io["fld"] = i->getAnyMember()->getNameAsString();
                    io["qn"] = qn(i->getAnyMember());
                    io["t"] = typeId(i->getAnyMember()->getType());
                }
                else if (i->isBaseInitializer())
                    io["base"] = typeId(QualType(i->getBaseClass(), 0));
                else
                    io["deleg"] = true;
                io["w"] = i->isWritten();
                io["e"] = ex(i->getInit());
                io["l"] = line(i->getSourceLocation().isValid() ? i->getSourceLocation() : def->getLocation());
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        o["body"] = st(def->getBody());
        functions.push_back(std::move(o));
    }

    void dumpRecord(const CXXRecordDecl* r)
    {
        if (!r->isThisDeclarationADefinition() || r->isDependentContext() || r->isLambda() || r->isInvalidDecl())
            return;
        // an explicit instantiation is located where it is written: the template is what counts
        const CXXRecordDecl* pattern = r->getTemplateInstantiationPattern();
        const SourceLocation loc = pattern ? pattern->getLocation() : r->getLocation();
        if (!inRoot(loc))
            return;
        std::string id = usr(r);
        if (!doneRec.insert(id).second)
            return;
        json::Object o;
        o["id"] = id;
        o["qn"] = qn(r);
        o["t"] = typeId(C.getRecordType(r));
        o["ta"] = tmplArgs(*this, r);
        o["file"] = fileId(loc);
        o["l"] = line(loc);
        json::Array bs;
        for (auto& b: r->bases())
            bs.push_back(typeId(b.getType()));
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto* f: r->fields())
        {
            json::Object fo;
            fo["n"] = f->getNameAsString();
            fo["t"] = typeId(f->getType());
            fo["l"] = line(f->getLocation());
            fo["init"] = f->hasInClassInitializer();
            fo["mut"] = f->isMutable();
            fo["const"] = f->getType().isConstQualified();
            fo["ref"] = f->getType()->isReferenceType();
            QualType bt = C.getBaseElementType(f->getType());
            fo["scalar"] = bt->isScalarType();
            if (auto* frd = bt->getAsCXXRecordDecl())
            {
                fo["rec"] = qn(frd);
            }
            fo["arr"] = f->getType()->isConstantArrayType();
            fo["acc"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_protected ? "protected" : "private";
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array ss;
        for (auto* d: r->decls())
            if (auto* v = dyn_cast<VarDecl>(d))
            {
                json::Object so;
                so["n"] = v->getNameAsString();
                so["qn"] = qn(v);
                so["t"] = typeId(v->getType());
                so["const"] = v->getType().isConstQualified() || v->isConstexpr();
                constVal(so, v);
                ss.push_back(std::move(so));
            }
        o["statics"] = std::move(ss);
        json::Array ms;
        for (auto* m: r->methods())
        {
            json::Object mo;
            mo["n"] = m->getNameAsString();
            mo["id"] = fnId(m);
            mo["acc"] = m->getAccess() == AS_public ? "public" : m->getAccess() == AS_protected ? "protected" : "private";
            mo["cst"] = m->isConst();
            mo["virt"] = m->isVirtual();
            mo["pure"] = m->isPureVirtual();
            mo["del"] = m->isDeleted();
            mo["def"] = m->isDefaulted();
            mo["imp"] = m->isImplicit();
            if (auto* cd = dyn_cast<CXXConstructorDecl>(m))
            {
                mo["ctor"] = true;
                mo["copy"] = cd->isCopyConstructor();
                mo["move"] = cd->isMoveConstructor();
            }
            mo["casg"] = m->isCopyAssignmentOperator();
            mo["masg"] = m->isMoveAssignmentOperator();
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        records.push_back(std::move(o));
    }

    void dumpGlobal(const VarDecl* v)
    {
        if (!v->hasGlobalStorage() || v->isStaticLocal() || isa<ParmVarDecl>(v))
            return;
        if (!inRoot(v->getLocation()) || v->getType()->isDependentType() ||
            v->getDeclContext()->isDependentContext())
            return;
        std::string q = qn(v) + "@" + usr(v);
        if (!v->isThisDeclarationADefinition() && !v->hasInit())
            return;
        if (!doneGlob.insert(q).second)
            return;
        json::Object o;
        o["qn"] = qn(v);
        o["n"] = v->getNameAsString();
        o["d"] = declId(v);
        o["t"] = typeId(v->getType());
        o["const"] = v->getType().isConstQualified() || v->isConstexpr();
        o["cexpr"] = v->isConstexpr();
        o["file"] = fileId(v->getLocation());
        o["l"] = line(v->getLocation());
        constVal(o, v);
        if (v->hasInit() && !v->getInit()->isValueDependent())
            o["init"] = ex(v->getInit());
        globals.push_back(std::move(o));
    }

    void dumpEnum(const EnumDecl* e)
    {
        if (!inRoot(e->getLocation()) || !e->isThisDeclarationADefinition())
            return;
        if (!doneEnum.insert(usr(e)).second)
            return;
        json::Object o;
        o["qn"] = qn(e);
        json::Array a;
        for (auto* c: e->enumerators())
            a.push_back(json::Array {c->getNameAsString(), llvm::toString(c->getInitVal(), 10)});
        o["vals"] = std::move(a);
        enums.push_back(std::move(o));
    }
};

struct V : RecursiveASTVisitor<V>
{
    Dumper& D;
    explicit V(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (f->isThisDeclarationADefinition())
        {
            if (auto* m = dyn_cast<CXXMethodDecl>(f))
                if (m->getParent()->isLambda())
                    return true;
            D.dumpFunction(f);
        }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* r)
    {
        D.dumpRecord(r);
        return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        D.dumpGlobal(v);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* e)
    {
        D.dumpEnum(e);
        return true;
    }
    bool VisitStaticAssertDecl(StaticAssertDecl* s)
    {
        D.staticAssert(s);
        return true;
    }
};

struct Consumer : ASTConsumer
{
    CompilerInstance& CI;
    explicit Consumer(CompilerInstance& ci) : CI(ci) {}
    // bodies of the libraries' functions are not looked at: do not parse (and instantiate) them
    bool shouldSkipFunctionBody(Decl* d) override
    {
        SourceManager& SM = CI.getSourceManager();
        SourceLocation l = SM.getExpansionLoc(d->getLocation());
        if (!SM.isInSystemHeader(l))
            return false;
        StringRef f = SM.getFilename(l);
        // the standard library's stay: they instantiate constructors and call operators of the repository
        return f.contains("/eigen3/") || f.contains("/opencv4/") || f.contains("/boost/") || f.contains("/tbb/");
    }
    void HandleTranslationUnit(ASTContext& C) override
    {
        Dumper D(C);
        V v(D);
        v.TraverseDecl(C.getTranslationUnitDecl());
        json::Object out;
        out["types"] = std::move(D.types);
        out["files"] = std::move(D.files);
        out["functions"] = std::move(D.functions);
        out["records"] = std::move(D.records);
        out["enums"] = std::move(D.enums);
        out["globals"] = std::move(D.globals);
        out["sasserts"] = std::move(D.sasserts);
        out["nodes"] = D.nodeCount;
        out["errors"] = (int64_t)CI.getDiagnostics().getClient()->getNumErrors();
        json::Array deps;
        std::set<std::string> seen;
        SourceManager& SM = C.getSourceManager();
        for (auto it = SM.fileinfo_begin(); it != SM.fileinfo_end(); ++it)
        {
            std::string f = D.real(it->first.getName().str());
            if (f.rfind(gRoot, 0) == 0 && seen.insert(f).second)
                deps.push_back(f.substr(gRoot.size()));
        }
        out["deps"] = std::move(deps);
        std::error_code ec;
        llvm::raw_fd_ostream os(gOut, ec);
        os << json::Value(std::move(out));
    }
};

struct Action : ASTFrontendAction
{
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, StringRef) override
    {
        ci.getFrontendOpts().SkipFunctionBodies = true;
        return std::make_unique<Consumer>(ci);
    }
};

int main(int argc, const char** argv)
{
    if (argc < 5)
    {
        llvm::errs() << "usage: extract ROOT FILE OUT -- flags\n";
        return 2;
    }
    char* rp = realpath(argv[1], nullptr);
    gRoot = std::string(rp ? rp : argv[1]) + "/";
    std::string file = argv[2];
    gOut = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {file});
    tool.setPrintErrorMessage(true);
    auto fac = tooling::newFrontendActionFactory<Action>();
    tool.run(fac.get());
    return 0;
}
