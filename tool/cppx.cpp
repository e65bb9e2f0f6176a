// cppx: exports the typed AST of the functions defined under a source root as JSON.
// usage: cppx ROOT OUT.json FILE.cpp -- compiler flags
// What is exported is the resolved clang AST (implicit conversions, defaulted arguments, range-for
// desugaring, instantiated templates). Nothing is rewritten.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <deque>
#include <map>
#include <set>
#include <unordered_map>

using namespace clang;
namespace json = llvm::json;

static std::string g_root;
static std::string g_out;

class Exporter
{
public:
    ASTContext& ctx;
    SourceManager& sm;
    PrintingPolicy pp;
    std::unique_ptr<MangleContext> mc;

    std::map<std::string, int> typeIds;
    json::Array types;
    json::Object records;
    json::Object enums;
    json::Object functions;
    json::Object globals;
    std::set<std::string> seenRecords, seenEnums, seenGlobals;
    std::set<std::string> seenFunctions;
    std::deque<FunctionDecl const*> queue;
    std::unordered_map<Decl const*, int> varIds;
    int nextVar = 0;

    Exporter(ASTContext& c): ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy())
    {
        pp.SuppressTagKeyword = true;
        pp.FullyQualifiedName = true;
        pp.PrintCanonicalTypes = true;
        pp.TerseOutput = true;
        mc.reset(ItaniumMangleContext::create(c, c.getDiagnostics()));
    }

    int varId(Decl const* d)
    {
        d = d->getCanonicalDecl();
        auto it = varIds.find(d);
        if (it != varIds.end())
            return it->second;
        return varIds[d] = nextVar++;
    }

    std::string fileOf(SourceLocation loc)
    {
        auto e = sm.getExpansionLoc(loc);
        auto p = sm.getPresumedLoc(e);
        return p.isValid() ? std::string(p.getFilename()) : std::string();
    }

    bool inRoot(SourceLocation loc)
    {
        if (loc.isInvalid())
            return false;
        std::string f = fileOf(loc);
        // several roots are separated by colons
        for (size_t b = 0; b <= g_root.size();)
        {
            size_t e = g_root.find(':', b);
            if (e == std::string::npos) e = g_root.size();
            if (e > b && f.rfind(g_root.substr(b, e - b), 0) == 0) return true;
            b = e + 1;
        }
        return false;
    }

    int line(SourceLocation loc)
    {
        if (loc.isInvalid())
            return 0;
        return (int)sm.getExpansionLineNumber(loc);
    }

    std::string qname(NamedDecl const* d)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        PrintingPolicy p(pp);
        p.SuppressUnwrittenScope = true;
        d->printQualifiedName(os, p);
        os.flush();
        // drop inline namespaces of libstdc++
        for (std::string x : {"std::__cxx11::", "std::ranges::__cust::", "std::_V2::"})
        {
            size_t i;
            std::string r = x == "std::ranges::__cust::" ? "std::ranges::" : "std::";
            while ((i = s.find(x)) != std::string::npos)
                s.replace(i, x.size(), r);
        }
        return s;
    }

    std::string mangle(FunctionDecl const* f)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        if (auto* c = dyn_cast<CXXConstructorDecl>(f))
            mc->mangleName(GlobalDecl(c, Ctor_Complete), os);
        else if (auto* d = dyn_cast<CXXDestructorDecl>(f))
            mc->mangleName(GlobalDecl(d, Dtor_Complete), os);
        else if (mc->shouldMangleDeclName(f))
            mc->mangleName(GlobalDecl(f), os);
        else
            os << f->getNameAsString();
        os.flush();
        bool local = !f->isExternallyVisible();
        if (local)
        {
            auto fe = sm.getFileEntryRefForID(sm.getMainFileID());
            s += "@";
            s += fe ? fe->getName().str() : "?";
            s += ":" + std::to_string(line(f->getCanonicalDecl()->getLocation()));
            s += ":" + std::to_string(sm.getExpansionColumnNumber(f->getCanonicalDecl()->getLocation()));
        }
        return s;
    }

    json::Array templateArgs(llvm::ArrayRef<TemplateArgument> args)
    {
        json::Array out;
        for (auto const& a : args)
        {
            switch (a.getKind())
            {
                case TemplateArgument::Type:
                    out.push_back(type(a.getAsType()));
                    break;
                case TemplateArgument::Integral:
                {
                    llvm::SmallString<32> s;
                    a.getAsIntegral().toString(s, 10);
                    out.push_back(json::Object{{"v", std::string(s)}, {"t", type(a.getIntegralType())}});
                    break;
                }
                case TemplateArgument::Pack:
                {
                    for (auto& x : templateArgs(a.getPackAsArray()))
                        out.push_back(std::move(x));
                    break;
                }
                case TemplateArgument::Declaration:
                {
                    auto* d = a.getAsDecl();
                    if (auto* f = dyn_cast<FunctionDecl>(d))
                    {
                        enqueue(f);
                        out.push_back(json::Object{{"fn", mangle(f)}});
                    }
                    else
                        out.push_back(json::Object{{"decl", qname(d)}});
                    break;
                }
                default:
                {
                    std::string s;
                    llvm::raw_string_ostream os(s);
                    a.print(pp, os, true);
                    os.flush();
                    out.push_back(json::Object{{"x", s}});
                }
            }
        }
        return out;
    }

    std::string recordKey(RecordDecl const* d)
    {
        QualType t = ctx.getRecordType(d);
        std::string s = t.getCanonicalType().getAsString(pp);
        if (auto* c = dyn_cast<CXXRecordDecl>(d))
            if (c->isLambda() || !d->isExternallyVisible())
            {
                auto fe = sm.getFileEntryRefForID(sm.getMainFileID());
                s += "@";
                s += fe ? fe->getName().str() : "?";
                if (c->isLambda())
                    s += "#" + std::to_string(varId(d));
            }
        return s;
    }

    int type(QualType q)
    {
        QualType c = q.getCanonicalType();
        std::string key = c.getAsString(pp);
        if (auto* r = c->getAsRecordDecl())
            if (!c->isReferenceType() && !c->isPointerType())
                key = (c.isConstQualified() ? "const " : "") + recordKey(r);
        // references / pointers to lambdas: make key unique through pointee
        if (c->isReferenceType() || c->isPointerType())
        {
            QualType pte = c->getPointeeType();
            if (auto* r = pte->getAsRecordDecl())
                key = std::string(c->isPointerType() ? "P " : (c->isRValueReferenceType() ? "RR " : "R ")) +
                      (pte.isConstQualified() ? "const " : "") + recordKey(r);
        }
        auto it = typeIds.find(key);
        if (it != typeIds.end())
            return it->second;
        int id = (int)types.size();
        typeIds[key] = id;
        types.push_back(nullptr);
        json::Object o;
        o["n"] = key;
        if (c.isConstQualified())
            o["c"] = 1;
        if (auto* b = dyn_cast<BuiltinType>(c.getTypePtr()))
        {
            if (b->getKind() == BuiltinType::Bool)
                o["k"] = "bool";
            else if (b->isInteger())
            {
                o["k"] = "int";
                o["w"] = (int)ctx.getTypeSize(c);
                o["s"] = b->isSignedInteger() ? 1 : 0;
            }
            else if (b->isFloatingPoint())
            {
                o["k"] = "float";
                o["w"] = (int)ctx.getTypeSize(c);
            }
            else if (b->isVoidType())
                o["k"] = "void";
            else
                o["k"] = "builtin";
        }
        else if (c->isPointerType())
        {
            o["k"] = "ptr";
            o["e"] = type(c->getPointeeType());
        }
        else if (c->isReferenceType())
        {
            o["k"] = "ref";
            o["rv"] = c->isRValueReferenceType() ? 1 : 0;
            o["e"] = type(c->getPointeeType());
        }
        else if (auto* a = dyn_cast<ConstantArrayType>(c.getTypePtr()))
        {
            o["k"] = "arr";
            o["e"] = type(a->getElementType());
            o["len"] = (int64_t)a->getSize().getLimitedValue();
        }
        else if (auto* e = dyn_cast<EnumType>(c.getTypePtr()))
        {
            o["k"] = "enum";
            o["q"] = qname(e->getDecl());
            if (!e->getDecl()->getIntegerType().isNull())
                o["e"] = type(e->getDecl()->getIntegerType());
            exportEnum(e->getDecl());
        }
        else if (auto* r = dyn_cast<RecordType>(c.getTypePtr()))
        {
            o["k"] = "rec";
            auto* d = r->getDecl();
            o["q"] = qname(d);
            o["id"] = recordKey(d);
            if (auto* s = dyn_cast<ClassTemplateSpecializationDecl>(d))
                o["args"] = templateArgs(s->getTemplateArgs().asArray());
            if (auto* cx = dyn_cast<CXXRecordDecl>(d))
                if (cx->isLambda())
                    o["lambda"] = 1;
            exportRecord(d);
        }
        else if (c->isFunctionType())
            o["k"] = "fn";
        else if (c->isMemberPointerType())
            o["k"] = "memptr";
        else
        {
            o["k"] = "other";
            o["cls"] = c->getTypeClassName();
        }
        types[id] = std::move(o);
        return id;
    }

    void exportEnum(EnumDecl const* d)
    {
        std::string k = qname(d);
        if (!seenEnums.insert(k).second)
            return;
        if (!d->getDefinition())
            return;
        json::Object o;
        for (auto* e : d->getDefinition()->enumerators())
        {
            llvm::SmallString<32> s;
            e->getInitVal().toString(s, 10);
            o[e->getNameAsString()] = std::string(s);
        }
        enums[k] = std::move(o);
    }

    void exportRecord(RecordDecl const* d0)
    {
        std::string k = recordKey(d0);
        if (!seenRecords.insert(k).second)
            return;
        auto* d = d0->getDefinition();
        if (!d)
            return;
        json::Object o;
        o["q"] = qname(d);
        o["repo"] = inRoot(d->getLocation()) ? 1 : 0;
        o["line"] = line(d->getLocation());
        bool detail = inRoot(d->getLocation());
        if (auto* c = dyn_cast<CXXRecordDecl>(d))
        {
            if (c->isLambda())
                detail = true;
            if (detail)
            {
                json::Array bases;
                for (auto const& b : c->bases())
                    bases.push_back(type(b.getType()));
                o["bases"] = std::move(bases);
                o["poly"] = c->isPolymorphic() ? 1 : 0;
                if (auto* dt = c->getDestructor())
                {
                    o["dtor"] = mangle(dt);
                    o["dtor_user"] = dt->isUserProvided() ? 1 : 0;
                    enqueue(dt);
                }
            }
        }
        if (detail || isa<CXXRecordDecl>(d) == false || cast<CXXRecordDecl>(d)->isCLike())
        {
            json::Array fields;
            for (auto* f : d->fields())
            {
                json::Object fo;
                fo["name"] = f->getNameAsString();
                fo["idx"] = (int)f->getFieldIndex();
                fo["t"] = type(f->getType());
                if (f->hasInClassInitializer() && f->getInClassInitializer())
                    fo["init"] = expr(f->getInClassInitializer());
                fields.push_back(std::move(fo));
            }
            o["fields"] = std::move(fields);
        }
        records[k] = std::move(o);
    }

    void enqueue(FunctionDecl const* f)
    {
        if (!f)
            return;
        FunctionDecl const* def = nullptr;
        if (f->isDefined(def) && def)
        {
            if (def->isDependentContext())
                return;
            bool repo = inRoot(def->getLocation());
            if (!repo)
                return;
            if (!def->hasBody() && !def->isDefaulted())
                return;
            queue.push_back(def);
        }
    }

    // Description of a callee
    json::Object callee(FunctionDecl const* f)
    {
        enqueue(f);
        json::Object o;
        o["id"] = mangle(f);
        o["q"] = qname(f);
        o["name"] = f->getNameAsString();
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            o["cls"] = type(ctx.getRecordType(m->getParent()));
            if (m->isStatic())
                o["static"] = 1;
            if (m->isVirtual())
                o["virtual"] = 1;
            if (m->isConst())
                o["const"] = 1;
            if (m->isDefaulted())
                o["defaulted"] = 1;
            if (auto* c = dyn_cast<CXXConstructorDecl>(m))
            {
                if (c->isCopyConstructor())
                    o["copy"] = 1;
                if (c->isMoveConstructor())
                    o["move"] = 1;
                if (c->isDefaultConstructor())
                    o["default"] = 1;
            }
            if (m->isCopyAssignmentOperator())
                o["copyassign"] = 1;
            if (m->isMoveAssignmentOperator())
                o["moveassign"] = 1;
        }
        if (auto* ta = f->getTemplateSpecializationArgs())
            o["targs"] = templateArgs(ta->asArray());
        json::Array ps;
        for (auto* p : f->parameters())
            ps.push_back(type(p->getType()));
        o["ptypes"] = std::move(ps);
        o["ret"] = type(f->getReturnType());
        if (f->isNoReturn())
            o["noret"] = 1;
        o["repo"] = inRoot(f->getLocation()) ? 1 : 0;
        return o;
    }

    json::Object var(VarDecl const* v)
    {
        json::Object o;
        o["id"] = varId(v);
        o["name"] = v->getNameAsString();
        o["t"] = type(v->getType());
        if (v->isStaticLocal())
            o["static"] = 1;
        if (v->getInit())
            o["init"] = expr(v->getInit());
        if (auto* d = dyn_cast<DecompositionDecl>(v))
        {
            json::Array bs;
            for (auto* b : d->bindings())
            {
                json::Object bo;
                bo["id"] = varId(b);
                bo["name"] = b->getNameAsString();
                bo["t"] = type(b->getType());
                if (auto* hv = b->getHoldingVar())
                    bo["hold"] = var(hv);
                else if (b->getBinding())
                    bo["e"] = expr(b->getBinding());
                bs.push_back(std::move(bo));
            }
            o["bindings"] = std::move(bs);
        }
        return o;
    }

    void exportGlobal(VarDecl const* v0)
    {
        VarDecl const* v = v0->getDefinition(ctx) ? v0->getDefinition(ctx) : v0;
        std::string k = std::to_string(varId(v0));
        if (!seenGlobals.insert(k).second)
            return;
        json::Object o;
        o["q"] = qname(v);
        o["t"] = type(v->getType());
        o["repo"] = inRoot(v->getLocation()) ? 1 : 0;
        if (o["repo"].getAsInteger() == 1 || v->isConstexpr() || v->getType().isConstQualified())
        {
            VarDecl const* withInit = nullptr;
            if (auto* i = v->getAnyInitializer(withInit))
                if (!i->isValueDependent())
                    o["init"] = expr(i);
        }
        globals[k] = std::move(o);
    }

    json::Value stmt(Stmt const* s)
    {
        if (!s)
            return nullptr;
        json::Object o;
        o["l"] = line(s->getBeginLoc());
        if (auto* c = dyn_cast<CompoundStmt>(s))
        {
            o["k"] = "block";
            json::Array b;
            for (auto* x : c->body())
                b.push_back(stmt(x));
            o["b"] = std::move(b);
        }
        else if (auto* d = dyn_cast<DeclStmt>(s))
        {
            o["k"] = "decl";
            json::Array b;
            for (auto* x : d->decls())
                if (auto* v = dyn_cast<VarDecl>(x))
                    b.push_back(var(v));
            o["v"] = std::move(b);
        }
        else if (auto* i = dyn_cast<IfStmt>(s))
        {
            if (i->isConstexpr())
            {
                auto nd = i->getNondiscardedCase(ctx);
                if (nd.has_value())
                {
                    if (!*nd)
                    {
                        o["k"] = "null";
                        return std::move(o);
                    }
                    return stmt(*nd);
                }
            }
            o["k"] = "if";
            if (i->getInit())
                o["init"] = stmt(i->getInit());
            if (i->getConditionVariable())
                o["var"] = var(i->getConditionVariable());
            o["c"] = expr(i->getCond());
            o["t"] = stmt(i->getThen());
            if (i->getElse())
                o["e"] = stmt(i->getElse());
        }
        else if (auto* f = dyn_cast<ForStmt>(s))
        {
            o["k"] = "for";
            if (f->getInit())
                o["init"] = stmt(f->getInit());
            if (f->getCond())
                o["c"] = expr(f->getCond());
            if (f->getInc())
                o["inc"] = expr(f->getInc());
            o["b"] = stmt(f->getBody());
        }
        else if (auto* w = dyn_cast<WhileStmt>(s))
        {
            o["k"] = "while";
            if (w->getConditionVariable())
                o["var"] = var(w->getConditionVariable());
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
        }
        else if (auto* d = dyn_cast<DoStmt>(s))
        {
            o["k"] = "do";
            o["c"] = expr(d->getCond());
            o["b"] = stmt(d->getBody());
        }
        else if (auto* r = dyn_cast<CXXForRangeStmt>(s))
        {
            o["k"] = "range";
            if (r->getInit())
                o["init"] = stmt(r->getInit());
            o["v"] = var(r->getLoopVariable());
            o["range"] = expr(r->getRangeInit());
            o["rt"] = type(r->getRangeInit()->getType());
            o["b"] = stmt(r->getBody());
        }
        else if (auto* r = dyn_cast<ReturnStmt>(s))
        {
            o["k"] = "return";
            if (r->getRetValue())
                o["e"] = expr(r->getRetValue());
        }
        else if (isa<BreakStmt>(s))
            o["k"] = "break";
        else if (isa<ContinueStmt>(s))
            o["k"] = "continue";
        else if (auto* w = dyn_cast<SwitchStmt>(s))
        {
            o["k"] = "switch";
            if (w->getInit())
                o["init"] = stmt(w->getInit());
            if (w->getConditionVariable())
                o["var"] = var(w->getConditionVariable());
            o["c"] = expr(w->getCond());
            o["b"] = stmt(w->getBody());
        }
        else if (auto* c = dyn_cast<CaseStmt>(s))
        {
            o["k"] = "case";
            Expr::EvalResult r;
            if (c->getLHS()->EvaluateAsInt(r, ctx))
            {
                llvm::SmallString<32> t;
                r.Val.getInt().toString(t, 10);
                o["v"] = std::string(t);
            }
            o["b"] = stmt(c->getSubStmt());
        }
        else if (auto* c = dyn_cast<DefaultStmt>(s))
        {
            o["k"] = "default";
            o["b"] = stmt(c->getSubStmt());
        }
        else if (auto* t = dyn_cast<CXXTryStmt>(s))
        {
            o["k"] = "try";
            o["b"] = stmt(t->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < t->getNumHandlers(); ++i)
            {
                auto* h = t->getHandler(i);
                json::Object ho;
                if (h->getExceptionDecl())
                    ho["v"] = var(h->getExceptionDecl());
                if (!h->getCaughtType().isNull())
                    ho["t"] = type(h->getCaughtType());
                ho["b"] = stmt(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
        }
        else if (isa<NullStmt>(s))
            o["k"] = "null";
        else if (auto* a = dyn_cast<AttributedStmt>(s))
            return stmt(a->getSubStmt());
        else if (auto* l = dyn_cast<LabelStmt>(s))
            return stmt(l->getSubStmt());
        else if (auto* e = dyn_cast<Expr>(s))
        {
            o["k"] = "expr";
            o["e"] = expr(e);
        }
        else
        {
            o["k"] = "unsupported";
            o["cls"] = s->getStmtClassName();
        }
        return std::move(o);
    }

    json::Array exprs(llvm::ArrayRef<Expr const*> es)
    {
        json::Array a;
        for (auto* e : es)
            a.push_back(expr(e));
        return a;
    }

    template<typename Range>
    json::Array exprsR(Range const& r)
    {
        json::Array a;
        for (auto const* e : r)
            a.push_back(expr(cast<Expr>(e)));
        return a;
    }

    bool constant(Expr const* e, json::Object& o)
    {
        if (e->isValueDependent() || e->getType()->isDependentType())
            return false;
        if (!(e->getType()->isIntegralOrEnumerationType()))
            return false;
        if (e->isGLValue())
        {
            // reading a constexpr variable: evaluate as rvalue only in lvalue-to-rvalue context
            return false;
        }
        Expr::EvalResult r;
        if (e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects))
        {
            llvm::SmallString<32> t;
            r.Val.getInt().toString(t, 10);
            o["cv"] = std::string(t);
            return true;
        }
        return false;
    }

    bool constVar(VarDecl const* v, std::string& out)
    {
        VarDecl const* d = nullptr;
        auto* i = v->getAnyInitializer(d);
        if (!i || !d || i->isValueDependent() || !d->isUsableInConstantExpressions(ctx) || d->getInit() == nullptr)
            return false;
        auto* val = d->evaluateValue();
        if (!val || !val->isInt())
            return false;
        llvm::SmallString<32> t;
        val->getInt().toString(t, 10);
        out = std::string(t);
        return true;
    }

    bool hasInit(VarDecl const* v)
    {
        VarDecl const* d = nullptr;
        auto* i = v->getAnyInitializer(d);
        return i && !i->isValueDependent() && d->isUsableInConstantExpressions(ctx);
    }

    json::Value expr(Expr const* e)
    {
        if (!e)
            return nullptr;
        json::Object o;
        switch (e->getStmtClass())
        {
            case Stmt::ParenExprClass:
                return expr(cast<ParenExpr>(e)->getSubExpr());
            case Stmt::ConstantExprClass:
                return expr(cast<ConstantExpr>(e)->getSubExpr());
            case Stmt::ExprWithCleanupsClass:
            {
                o["k"] = "cleanup";
                o["t"] = type(e->getType());
                o["e"] = expr(cast<ExprWithCleanups>(e)->getSubExpr());
                return std::move(o);
            }
            case Stmt::CXXBindTemporaryExprClass:
            {
                o["k"] = "bindtmp";
                o["t"] = type(e->getType());
                o["e"] = expr(cast<CXXBindTemporaryExpr>(e)->getSubExpr());
                return std::move(o);
            }
            case Stmt::SubstNonTypeTemplateParmExprClass:
                return expr(cast<SubstNonTypeTemplateParmExpr>(e)->getReplacement());
            case Stmt::CXXDefaultArgExprClass:
                return expr(cast<CXXDefaultArgExpr>(e)->getExpr());
            case Stmt::CXXDefaultInitExprClass:
            {
                o["k"] = "definit";
                o["t"] = type(e->getType());
                o["e"] = expr(cast<CXXDefaultInitExpr>(e)->getExpr());
                return std::move(o);
            }
            case Stmt::CXXRewrittenBinaryOperatorClass:
                return expr(cast<CXXRewrittenBinaryOperator>(e)->getSemanticForm());
            case Stmt::GenericSelectionExprClass:
                return expr(cast<GenericSelectionExpr>(e)->getResultExpr());
            case Stmt::ChooseExprClass:
                return expr(cast<ChooseExpr>(e)->getChosenSubExpr());
            case Stmt::OpaqueValueExprClass:
                if (cast<OpaqueValueExpr>(e)->getSourceExpr())
                    return expr(cast<OpaqueValueExpr>(e)->getSourceExpr());
                break;
            default:
                break;
        }
        o["l"] = line(e->getExprLoc());
        o["t"] = type(e->getType());
        if (e->isLValue())
            o["lv"] = 1;
        else if (e->isXValue())
            o["lv"] = 2;

        if (auto* x = dyn_cast<IntegerLiteral>(e))
        {
            o["k"] = "lit";
            llvm::SmallString<32> t;
            x->getValue().toString(t, 10, x->getType()->isSignedIntegerType());
            o["v"] = std::string(t);
        }
        else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e))
        {
            o["k"] = "blit";
            o["v"] = x->getValue();
        }
        else if (auto* x = dyn_cast<CharacterLiteral>(e))
        {
            o["k"] = "lit";
            o["v"] = std::to_string(x->getValue());
        }
        else if (auto* x = dyn_cast<FloatingLiteral>(e))
        {
            o["k"] = "flit";
            o["v"] = x->getValueAsApproximateDouble();
        }
        else if (auto* x = dyn_cast<StringLiteral>(e))
        {
            o["k"] = "str";
            o["v"] = x->isOrdinary() || x->isUTF8() || x->isUnevaluated() ? json::fixUTF8(x->getString()) : std::string("?");
        }
        else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e))
            o["k"] = "nullptr";
        else if (auto* x = dyn_cast<DeclRefExpr>(e))
        {
            auto* d = x->getDecl();
            if (auto* f = dyn_cast<FunctionDecl>(d))
            {
                o["k"] = "fnref";
                o["fn"] = callee(f);
            }
            else if (auto* ec = dyn_cast<EnumConstantDecl>(d))
            {
                o["k"] = "lit";
                llvm::SmallString<32> t;
                ec->getInitVal().toString(t, 10);
                o["v"] = std::string(t);
                o["enumname"] = ec->getNameAsString();
            }
            else if (auto* v = dyn_cast<VarDecl>(d))
            {
                o["k"] = "var";
                o["id"] = varId(v);
                o["name"] = v->getNameAsString();
                if (v->hasGlobalStorage() && !v->isStaticLocal())
                {
                    o["global"] = 1;
                    o["q"] = qname(v);
                    exportGlobal(v);
                }
                // constant value of constexpr integral variables
                if (!v->getType()->isReferenceType() && v->getType()->isIntegralOrEnumerationType() &&
                    (v->isConstexpr() || v->getType().isConstQualified()) && v->hasGlobalStorage())
                {
                    if (std::string cv; constVar(v, cv))
                        o["cv"] = cv;
                }
            }
            else if (auto* b = dyn_cast<BindingDecl>(d))
            {
                o["k"] = "var";
                o["id"] = varId(b);
                o["name"] = b->getNameAsString();
            }
            else
            {
                o["k"] = "unsupported";
                o["cls"] = std::string("DeclRef ") + d->getDeclKindName();
            }
        }
        else if (auto* x = dyn_cast<MemberExpr>(e))
        {
            auto* d = x->getMemberDecl();
            if (auto* f = dyn_cast<FieldDecl>(d))
            {
                o["k"] = "field";
                o["name"] = f->getNameAsString();
                o["idx"] = (int)f->getFieldIndex();
                o["arrow"] = x->isArrow();
                o["own"] = type(ctx.getRecordType(f->getParent()));
                o["e"] = expr(x->getBase());
            }
            else if (auto* v = dyn_cast<VarDecl>(d))
            {
                o["k"] = "var";
                o["id"] = varId(v);
                o["name"] = v->getNameAsString();
                o["global"] = 1;
                o["q"] = qname(v);
                exportGlobal(v);
                if (v->getType()->isIntegralOrEnumerationType() &&
                    (v->isConstexpr() || v->getType().isConstQualified()))
                    if (std::string cv; constVar(v, cv))
                        o["cv"] = cv;
            }
            else if (auto* m = dyn_cast<CXXMethodDecl>(d))
            {
                o["k"] = "method";
                o["fn"] = callee(m);
                o["arrow"] = x->isArrow();
                o["e"] = expr(x->getBase());
            }
            else
            {
                o["k"] = "unsupported";
                o["cls"] = "Member";
            }
        }
        else if (isa<CXXThisExpr>(e))
            o["k"] = "this";
        else if (auto* x = dyn_cast<CXXMemberCallExpr>(e))
        {
            o["k"] = "mcall";
            if (x->getMethodDecl())
                o["fn"] = callee(x->getMethodDecl());
            o["arrow"] = false;
            if (auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens()))
            {
                o["arrow"] = me->isArrow();
                o["qual"] = me->hasQualifier();
            }
            o["e"] = expr(x->getImplicitObjectArgument());
            o["args"] = exprs(llvm::ArrayRef<Expr const*>(x->getArgs(), x->getNumArgs()));
        }
        else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e))
        {
            o["k"] = "opcall";
            o["op"] = getOperatorSpelling(x->getOperator());
            if (auto* f = x->getDirectCallee())
                o["fn"] = callee(f);
            o["args"] = exprs(llvm::ArrayRef<Expr const*>(x->getArgs(), x->getNumArgs()));
        }
        else if (auto* x = dyn_cast<UserDefinedLiteral>(e))
        {
            o["k"] = "call";
            if (auto* f = x->getDirectCallee())
                o["fn"] = callee(f);
            o["args"] = exprs(llvm::ArrayRef<Expr const*>(x->getArgs(), x->getNumArgs()));
        }
        else if (auto* x = dyn_cast<CallExpr>(e))
        {
            o["k"] = "call";
            if (auto* f = x->getDirectCallee())
                o["fn"] = callee(f);
            else
                o["e"] = expr(x->getCallee());
            o["args"] = exprs(llvm::ArrayRef<Expr const*>(x->getArgs(), x->getNumArgs()));
            json::Object c;
            if (constant(e, c))
                o["cv"] = c.getString("cv")->str();
        }
        else if (auto* x = dyn_cast<CXXConstructExpr>(e))
        {
            o["k"] = "ctor";
            o["fn"] = callee(x->getConstructor());
            o["elide"] = x->isElidable();
            o["list"] = x->isListInitialization();
            o["stdinit"] = x->isStdInitListInitialization();
            o["zero"] = x->requiresZeroInitialization();
            o["args"] = exprs(llvm::ArrayRef<Expr const*>(x->getArgs(), x->getNumArgs()));
        }
        else if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e))
        {
            o["k"] = "inhctor";
            o["fn"] = callee(x->getConstructor());
        }
        else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e))
        {
            o["k"] = "mat";
            o["e"] = expr(x->getSubExpr());
            o["ext"] = x->getExtendingDecl() != nullptr;
        }
        else if (auto* x = dyn_cast<CastExpr>(e))
        {
            json::Object c;
            o["k"] = "cast";
            o["ck"] = x->getCastKindName();
            o["st"] = type(x->getSubExpr()->getType());
            o["explicit"] = isa<ExplicitCastExpr>(e);
            o["e"] = expr(x->getSubExpr());
            if (x->getCastKind() == CK_IntegralCast || x->getCastKind() == CK_LValueToRValue ||
                x->getCastKind() == CK_IntegralToBoolean)
                if (constant(e, c))
                    o["cv"] = c.getString("cv")->str();
        }
        else if (auto* x = dyn_cast<UnaryOperator>(e))
        {
            o["k"] = "un";
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["post"] = x->isPostfix();
            o["e"] = expr(x->getSubExpr());
        }
        else if (auto* x = dyn_cast<CompoundAssignOperator>(e))
        {
            o["k"] = "cassign";
            o["op"] = x->getOpcodeStr().str();
            o["ct"] = type(x->getComputationResultType());
            o["clt"] = type(x->getComputationLHSType());
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
        }
        else if (auto* x = dyn_cast<BinaryOperator>(e))
        {
            o["k"] = "bin";
            o["op"] = x->getOpcodeStr().str();
            o["a"] = expr(x->getLHS());
            o["b"] = expr(x->getRHS());
            json::Object c;
            if (constant(e, c))
                o["cv"] = c.getString("cv")->str();
        }
        else if (auto* x = dyn_cast<ConditionalOperator>(e))
        {
            o["k"] = "cond";
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
        }
        else if (auto* x = dyn_cast<ArraySubscriptExpr>(e))
        {
            o["k"] = "index";
            o["a"] = expr(x->getBase());
            o["b"] = expr(x->getIdx());
        }
        else if (auto* x = dyn_cast<InitListExpr>(e))
        {
            auto* s = x->isSemanticForm() ? x : (x->getSemanticForm() ? x->getSemanticForm() : x);
            o["k"] = "initlist";
            json::Array a;
            for (auto* i : s->inits())
                a.push_back(expr(i));
            o["args"] = std::move(a);
            if (s->hasArrayFiller())
                o["filler"] = expr(s->getArrayFiller());
        }
        else if (auto* x = dyn_cast<CXXParenListInitExpr>(e))
        {
            o["k"] = "initlist";
            o["args"] = exprsR(x->getInitExprs());
        }
        else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e))
        {
            o["k"] = "stdinitlist";
            o["e"] = expr(x->getSubExpr());
        }
        else if (auto* x = dyn_cast<LambdaExpr>(e))
        {
            o["k"] = "lambda";
            o["id"] = recordKey(x->getLambdaClass());
            json::Array caps;
            auto init = x->capture_init_begin();
            for (auto const& c : x->captures())
            {
                json::Object co;
                if (c.capturesThis())
                    co["this"] = true;
                else if (c.capturesVariable())
                {
                    co["id"] = varId(c.getCapturedVar());
                    co["name"] = c.getCapturedVar()->getNameAsString();
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                }
                if (c.getCaptureKind() == LCK_StarThis)
                    co["star"] = true;
                co["init"] = expr(*init);
                ++init;
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            auto* op = x->getCallOperator();
            if (x->isGenericLambda())
            {
                o["generic"] = true;
                json::Array ops;
                if (auto* t = x->getLambdaClass()->getDependentLambdaCallOperator())
                    if (auto* ft = dyn_cast<FunctionTemplateDecl>(t))
                        for (auto* f : ft->specializations())
                        {
                            enqueueForce(f);
                            ops.push_back(mangle(f));
                        }
                o["ops"] = std::move(ops);
            }
            else
            {
                enqueueForce(op);
                o["op"] = mangle(op);
            }
        }
        else if (auto* x = dyn_cast<CXXThrowExpr>(e))
        {
            o["k"] = "throw";
            if (x->getSubExpr())
                o["e"] = expr(x->getSubExpr());
        }
        else if (auto* x = dyn_cast<CXXNewExpr>(e))
        {
            o["k"] = "new";
            o["at"] = type(x->getAllocatedType());
            o["array"] = x->isArray();
            if (x->isArray() && x->getArraySize())
                o["size"] = expr(*x->getArraySize());
            if (x->getInitializer())
                o["init"] = expr(x->getInitializer());
        }
        else if (auto* x = dyn_cast<CXXDeleteExpr>(e))
        {
            o["k"] = "delete";
            o["array"] = x->isArrayForm();
            o["e"] = expr(x->getArgument());
        }
        else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e))
        {
            o["k"] = "lit";
            Expr::EvalResult r;
            if (e->EvaluateAsInt(r, ctx))
            {
                llvm::SmallString<32> t;
                r.Val.getInt().toString(t, 10);
                o["v"] = std::string(t);
            }
            (void)x;
        }
        else if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e))
            o["k"] = "zeroinit";
        else if (isa<TypeTraitExpr>(e) || isa<ConceptSpecializationExpr>(e) || isa<RequiresExpr>(e) ||
                 isa<CXXNoexceptExpr>(e) || isa<SizeOfPackExpr>(e))
        {
            json::Object c;
            if (constant(e, c))
            {
                o["k"] = "lit";
                o["v"] = c.getString("cv")->str();
            }
            else
            {
                o["k"] = "unsupported";
                o["cls"] = e->getStmtClassName();
            }
        }
        else if (auto* x = dyn_cast<PredefinedExpr>(e))
        {
            o["k"] = "str";
            o["v"] = x->getFunctionName() ? x->getFunctionName()->getString().str() : "";
        }
        else if (auto* x = dyn_cast<BinaryConditionalOperator>(e))
        {
            (void)x;
            o["k"] = "unsupported";
            o["cls"] = e->getStmtClassName();
        }
        else if (auto* x = dyn_cast<StmtExpr>(e))
        {
            o["k"] = "stmtexpr";
            o["b"] = stmt(x->getSubStmt());
        }
        else if (auto* x = dyn_cast<CXXTypeidExpr>(e))
        {
            o["k"] = "typeid";
            if (x->isTypeOperand())
                o["of"] = type(x->getTypeOperand(ctx));
        }
        else
        {
            o["k"] = "unsupported";
            o["cls"] = e->getStmtClassName();
        }
        return std::move(o);
    }

    void enqueueForce(FunctionDecl const* f)
    {
        FunctionDecl const* def = nullptr;
        if (f->isDefined(def) && def && def->hasBody())
            queue.push_back(def);
    }

    void exportFunction(FunctionDecl const* f)
    {
        if (f->isDependentContext() || f->isTemplated())
            return;
        std::string id = mangle(f);
        if (!seenFunctions.insert(id).second)
            return;
        json::Object o;
        o["id"] = id;
        o["q"] = qname(f);
        o["name"] = f->getNameAsString();
        o["file"] = fileOf(f->getLocation());
        o["line"] = line(f->getLocation());
        o["end"] = line(f->getEndLoc());
        o["ret"] = type(f->getReturnType());
        json::Array ps;
        for (auto* p : f->parameters())
        {
            json::Object po;
            po["id"] = varId(p);
            po["name"] = p->getNameAsString();
            po["t"] = type(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto* ta = f->getTemplateSpecializationArgs())
            o["targs"] = templateArgs(ta->asArray());
        if (auto* m = dyn_cast<CXXMethodDecl>(f))
        {
            o["cls"] = type(ctx.getRecordType(m->getParent()));
            o["static"] = m->isStatic();
            o["const"] = m->isConst();
            o["virtual"] = m->isVirtual();
            if (m->getParent()->isLambda())
                o["lambda"] = true;
            json::Array ov;
            for (auto* b : m->overridden_methods())
                ov.push_back(mangle(b));
            o["overrides"] = std::move(ov);
            auto acc = m->getAccess();
            o["access"] = acc == AS_public ? "public" : acc == AS_protected ? "protected" : "private";
            if (m->isCopyAssignmentOperator())
                o["copyassign"] = 1;
            if (m->isMoveAssignmentOperator())
                o["moveassign"] = 1;
        }
        o["defaulted"] = f->isDefaulted();
        o["deleted"] = f->isDeleted();
        if (auto* c = dyn_cast<CXXConstructorDecl>(f))
        {
            o["kind"] = "ctor";
            if (c->isCopyConstructor())
                o["copy"] = 1;
            if (c->isMoveConstructor())
                o["move"] = 1;
            if (c->isDefaultConstructor())
                o["default"] = 1;
            o["delegating"] = c->isDelegatingConstructor();
            json::Array is;
            for (auto* i : c->inits())
            {
                json::Object io;
                if (i->isAnyMemberInitializer())
                {
                    io["field"] = i->getAnyMember()->getNameAsString();
                    io["t"] = type(i->getAnyMember()->getType());
                }
                else if (i->isBaseInitializer())
                {
                    io["base"] = type(QualType(i->getBaseClass(), 0));
                }
                else
                    io["deleg"] = true;
                io["e"] = expr(i->getInit());
                io["written"] = i->isWritten();
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        else if (isa<CXXDestructorDecl>(f))
            o["kind"] = "dtor";
        else
            o["kind"] = isa<CXXMethodDecl>(f) ? "method" : "fn";
        o["internal"] = !f->isExternallyVisible();
        if (f->hasBody())
            o["body"] = stmt(f->getBody());
        functions[id] = std::move(o);
    }

    void drain()
    {
        while (!queue.empty())
        {
            auto* f = queue.front();
            queue.pop_front();
            exportFunction(f);
        }
    }
};

class Visitor: public RecursiveASTVisitor<Visitor>
{
public:
    Exporter& ex;
    explicit Visitor(Exporter& e): ex(e) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if (f->isThisDeclarationADefinition() && !f->isDependentContext() && !f->isTemplated() &&
            ex.inRoot(f->getLocation()) && (f->hasBody() || f->isDefaulted()))
        {
            if (auto* m = dyn_cast<CXXMethodDecl>(f))
                if (m->getParent()->isLambda())
                    return true;
            ex.queue.push_back(f);
        }
        return true;
    }
};

class Consumer: public ASTConsumer
{
public:
    void HandleTranslationUnit(ASTContext& ctx) override
    {
        if (ctx.getDiagnostics().hasErrorOccurred())
            return;
        Exporter ex(ctx);
        Visitor v(ex);
        for (auto* d : ctx.getTranslationUnitDecl()->decls())
        {
            // Only look inside declarations that are located in the root, or namespaces
            if (isa<NamespaceDecl>(d) || ex.inRoot(d->getLocation()))
            {
                if (auto* n = dyn_cast<NamespaceDecl>(d))
                    if (n->getName() == "std" || n->getName() == "boost" || n->getName() == "__gnu_cxx")
                        continue;
                v.TraverseDecl(d);
            }
        }
        ex.drain();
        json::Object out;
        out["functions"] = std::move(ex.functions);
        out["types"] = std::move(ex.types);
        out["records"] = std::move(ex.records);
        out["enums"] = std::move(ex.enums);
        out["globals"] = std::move(ex.globals);
        std::error_code ec;
        llvm::raw_fd_ostream os(g_out, ec);
        os << json::Value(std::move(out));
    }
};

class Action: public ASTFrontendAction
{
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override
    {
        return std::make_unique<Consumer>();
    }
};

int main(int argc, const char** argv)
{
    if (argc < 5)
        return 2;
    g_root = argv[1];
    g_out = argv[2];
    std::string file = argv[3];
    std::vector<std::string> args;
    for (int i = 5; i < argc; ++i)
        args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, {file});
    struct Factory: tooling::FrontendActionFactory
    {
        std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
    } factory;
    return tool.run(&factory);
}
