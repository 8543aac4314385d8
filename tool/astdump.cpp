// astdump: emits, as JSON, the resolved program reachable from the functions
// defined in the main file of one translation unit (template instantiations
// included), and/or every function pattern found below a given path prefix.
//
// usage: astdump [--all-under=PREFIX] [--user=PREFIX]... FILE -- clang-args...
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprOpenMP.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/StmtOpenMP.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <deque>
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> gUser;
static std::string gAllUnder;
static int gErrors = 0;

static bool startsWith(const std::string& s, const std::string& p)
{
    return s.compare(0, p.size(), p) == 0;
}

struct Dumper {
    ASTContext& ctx;
    SourceManager& sm;
    PrintingPolicy pp;
    std::map<const Decl*, int> ids;
    std::deque<const FunctionDecl*> work;
    std::set<const FunctionDecl*> queued;
    std::map<int, json::Value> functions;
    std::map<int, json::Value> records;
    std::map<int, json::Value> globals;

    Dumper(ASTContext& c) : ctx(c), sm(c.getSourceManager()), pp(c.getPrintingPolicy())
    {
        pp.SuppressTagKeyword     = true;
        pp.FullyQualifiedName     = true;
        pp.PrintCanonicalTypes    = true;
        pp.SuppressUnwrittenScope = true;
    }

    int id(const Decl* d)
    {
        d       = d->getCanonicalDecl();
        auto it = ids.find(d);
        if(it != ids.end()) return it->second;
        int n = static_cast<int>(ids.size()) + 1;
        ids[d] = n;
        return n;
    }

    std::string file(SourceLocation l)
    {
        if(l.isInvalid()) return "";
        auto p = sm.getPresumedLoc(sm.getExpansionLoc(l));
        if(p.isInvalid()) return "";
        return p.getFilename();
    }

    unsigned line(SourceLocation l)
    {
        if(l.isInvalid()) return 0;
        auto p = sm.getPresumedLoc(sm.getExpansionLoc(l));
        return p.isInvalid() ? 0 : p.getLine();
    }

    bool isUser(const std::string& f)
    {
        for(auto& p : gUser)
            if(startsWith(f, p)) return true;
        return false;
    }

    std::string ty(QualType t)
    {
        if(t.isNull()) return "";
        std::string s;
        llvm::raw_string_ostream os(s);
        t.getCanonicalType().print(os, pp);
        return os.str();
    }

    int recordOf(QualType t)
    {
        if(t.isNull()) return 0;
        t = t.getNonReferenceType();
        if(auto* rd = t->getAsCXXRecordDecl()) return record(rd);
        return 0;
    }

    std::set<const Decl*> recDone;
    int record(const CXXRecordDecl* rd)
    {
        if(!rd) return 0;
        if(auto* def = rd->getDefinition()) rd = def;
        int n = id(rd);
        if(recDone.count(rd->getCanonicalDecl())) return n;
        recDone.insert(rd->getCanonicalDecl());
        json::Object o;
        o["name"] = ty(ctx.getTypeDeclType(rd));
        o["file"] = file(rd->getLocation());
        o["line"] = line(rd->getLocation());
        if(auto* sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) {
            o["tmpl"] = sp->getSpecializedTemplate()->getQualifiedNameAsString();
            json::Array ta;
            for(auto& a : sp->getTemplateArgs().asArray()) targ(a, ta);
            o["targs"] = std::move(ta);
        } else {
            o["tmpl"] = rd->getQualifiedNameAsString();
        }
        o["user"]   = isUser(file(rd->getLocation()));
        o["lambda"] = rd->isLambda();
        json::Array bases, fields;
        if(rd->hasDefinition()) {
            for(auto& b : rd->bases()) {
                json::Object bo;
                bo["t"] = ty(b.getType());
                bo["r"] = recordOf(b.getType());
                bases.push_back(std::move(bo));
            }
            for(auto* f : rd->fields()) {
                json::Object fo;
                fo["id"] = id(f);
                fo["n"]  = f->getNameAsString();
                fo["t"]  = ty(f->getType());
                fo["r"]  = recordOf(f->getType());
                fo["mutable"] = f->isMutable();
                if(f->hasInClassInitializer() && f->getInClassInitializer()
                   && isUser(file(rd->getLocation())))
                    fo["init"] = expr(f->getInClassInitializer());
                fields.push_back(std::move(fo));
            }
        }
        o["bases"]  = std::move(bases);
        o["fields"] = std::move(fields);
        if(rd->hasDefinition() && isUser(file(rd->getLocation())) && !rd->isDependentContext()) {
            // members that library templates call behind our back
            for(auto* m : rd->methods()) {
                if(m->isDeleted() || m->isDependentContext()) continue;
                if(m->isImplicit() && !isa<CXXConstructorDecl>(m)) continue;
                if(isa<CXXConstructorDecl>(m) || m->isOverloadedOperator()) fref(m);
            }
        }
        records.emplace(n, std::move(o));
        return n;
    }

    void targ(const TemplateArgument& a, json::Array& out)
    {
        switch(a.getKind()) {
            case TemplateArgument::Type: out.push_back(ty(a.getAsType())); break;
            case TemplateArgument::Integral:
                out.push_back(llvm::toString(a.getAsIntegral(), 10));
                break;
            case TemplateArgument::Pack:
                for(auto& p : a.pack_elements()) targ(p, out);
                break;
            default: out.push_back("?"); break;
        }
    }

    json::Value fref(const FunctionDecl* f)
    {
        int n = id(f);
        if(!functions.count(n) && !queued.count(f->getCanonicalDecl())) {
            queued.insert(f->getCanonicalDecl());
            work.push_back(f);
        }
        return n;
    }

    void drain()
    {
        while(!work.empty()) {
            auto* f = work.front();
            work.pop_front();
            function(f);
        }
    }

    void function(const FunctionDecl* f0)
    {
        const FunctionDecl* f = f0;
        int n                 = id(f0);
        if(functions.count(n)) return;
        const FunctionDecl* def = nullptr;
        if(f0->hasBody(def) && def) f = def;
        json::Object o;
        o["id"]   = n;
        o["name"] = f->getNameAsString();
        o["qual"] = f->getQualifiedNameAsString();
        // location of the pattern for instantiated functions
        SourceLocation loc = f->getLocation();
        if(auto* pat = f->getTemplateInstantiationPattern()) {
            const FunctionDecl* pd = nullptr;
            if(pat->hasBody(pd) && pd) loc = pd->getLocation();
        }
        std::string fl = file(loc);
        o["file"]      = fl;
        o["line"]      = line(loc);
        o["user"]      = isUser(fl);
        o["ret"]       = ty(f->getReturnType());
        o["retr"]      = recordOf(f->getReturnType());
        o["variadic"]  = f->isVariadic();
        o["inlined"]   = f->isInlined();
        if(auto* ta = f->getTemplateSpecializationArgs()) {
            json::Array a;
            for(auto& x : ta->asArray()) targ(x, a);
            o["targs"] = std::move(a);
        }
        json::Array ps;
        for(auto* p : f->parameters()) {
            json::Object po;
            po["id"] = id(p);
            po["n"]  = p->getNameAsString();
            po["t"]  = ty(p->getType());
            po["r"]  = recordOf(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if(auto* m = dyn_cast<CXXMethodDecl>(f)) {
            o["cls"]    = record(m->getParent());
            o["static"] = m->isStatic();
            o["const"]  = m->isConst();
            o["method"] = true;
            if(m->isCopyAssignmentOperator()) o["special"] = "copyassign";
            if(m->isMoveAssignmentOperator()) o["special"] = "moveassign";
        }
        o["implicit"]  = f->isImplicit();
        o["defaulted"] = f->isDefaulted();
        if(auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            o["ctor"] = true;
            if(c->isDefaultConstructor()) o["special"] = "default";
            if(c->isCopyConstructor()) o["special"] = "copy";
            if(c->isMoveConstructor()) o["special"] = "move";
            if(c->isInheritingConstructor()) o["inheriting"] = true;
        }
        if(isa<CXXDestructorDecl>(f)) o["dtor"] = true;
        if(isa<CXXConversionDecl>(f)) o["conv"] = true;
        functions.emplace(n, nullptr);  // reserve (recursion)
        bool userFn = isUser(fl);
        bool defaultCtor = false;
        if(auto* c = dyn_cast<CXXConstructorDecl>(f)) defaultCtor = c->isDefaultConstructor();
        if(userFn && f->hasBody() && (!f->isDefaulted() || defaultCtor)) {
            if(auto* c = dyn_cast<CXXConstructorDecl>(f)) {
                json::Array inits;
                for(auto* i : c->inits()) {
                    json::Object io;
                    if(i->isMemberInitializer()) io["field"] = i->getMember()->getNameAsString();
                    else if(i->isBaseInitializer()) {
                        io["base"] = ty(QualType(i->getBaseClass(), 0));
                        io["baser"] = recordOf(QualType(i->getBaseClass(), 0));
                    } else if(i->isDelegatingInitializer()) io["delegating"] = true;
                    io["written"] = i->isWritten();
                    io["e"]       = expr(i->getInit());
                    io["l"]       = line(i->getSourceLocation());
                    inits.push_back(std::move(io));
                }
                o["inits"] = std::move(inits);
            }
            o["body"] = stmt(f->getBody());
        } else if(auto* c = dyn_cast<CXXConstructorDecl>(f)) {
            // defaulted default constructor of a user class: members use their initializers
            (void)c;
        }
        functions.erase(n);
        functions.emplace(n, std::move(o));
    }

    json::Object base(const Stmt* s, const char* k)
    {
        json::Object o;
        o["k"] = k;
        o["l"] = line(s->getBeginLoc());
        return o;
    }

    json::Value varDecl(const VarDecl* v)
    {
        json::Object o;
        o["id"] = id(v);
        o["n"]  = v->getNameAsString();
        o["t"]  = ty(v->getType());
        o["r"]  = recordOf(v->getType());
        o["l"]  = line(v->getLocation());
        o["static"] = v->isStaticLocal() || v->getTSCSpec() != TSCS_unspecified;
        if(v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        o["tls"] = v->getTSCSpec() != TSCS_unspecified;
        o["constq"] = v->getType().isConstQualified();
        o["constexpr"] = v->isConstexpr();
        // what runs at the end of the scope
        if(auto* rd = v->getType()->getAsCXXRecordDecl()) {
            if(rd->hasDefinition() && isUser(file(rd->getLocation()))) {
                auto* x = rd->getDestructor();
                if(x && x->isUserProvided()) o["dtor"] = fref(x);
            }
        }
        if(v->getInit()) {
            o["init"] = expr(v->getInit());
            o["listinit"] = v->getInitStyle() == VarDecl::ListInit;
        }
        return o;
    }

    void global(const VarDecl* v)
    {
        int n = id(v);
        if(globals.count(n)) return;
        globals.emplace(n, nullptr);
        const VarDecl* d = v->getDefinition() ? v->getDefinition() : v;
        json::Object o;
        o["n"]    = v->getNameAsString();
        o["qual"] = v->getQualifiedNameAsString();
        if(auto* rd = dyn_cast<CXXRecordDecl>(v->getDeclContext())) {
            o["cls"] = ty(ctx.getTypeDeclType(rd));
        }
        o["t"]      = ty(v->getType());
        o["constq"] = v->getType().isConstQualified();
        o["file"]   = file(d->getLocation());
        o["line"]   = line(d->getLocation());
        const VarDecl* iv = nullptr;
        if(const Expr* e = v->getAnyInitializer(iv)) {
            if(!e->isValueDependent() && !e->isTypeDependent()) o["init"] = expr(e);
        }
        globals.erase(n);
        globals.emplace(n, std::move(o));
    }

    json::Value stmtOrNull(const Stmt* s)
    {
        if(!s) return nullptr;
        return stmt(s);
    }

    json::Value stmt(const Stmt* s)
    {
        if(!s) return nullptr;
        if(auto* e = dyn_cast<Expr>(s)) {
            auto o = base(s, "Expr");
            o["e"] = expr(e);
            return o;
        }
        if(auto* c = dyn_cast<CompoundStmt>(s)) {
            auto o = base(s, "Compound");
            json::Array a;
            for(auto* x : c->body()) a.push_back(stmt(x));
            o["s"] = std::move(a);
            return o;
        }
        if(auto* d = dyn_cast<DeclStmt>(s)) {
            auto o = base(s, "Decl");
            json::Array a;
            for(auto* x : d->decls()) {
                if(auto* v = dyn_cast<VarDecl>(x)) a.push_back(varDecl(v));
            }
            o["d"] = std::move(a);
            return o;
        }
        if(auto* i = dyn_cast<IfStmt>(s)) {
            auto o    = base(s, "If");
            o["init"] = stmtOrNull(i->getInit());
            if(i->getConditionVariable()) o["var"] = varDecl(i->getConditionVariable());
            o["c"]    = expr(i->getCond());
            o["a"]    = stmt(i->getThen());
            o["b"]    = stmtOrNull(i->getElse());
            return o;
        }
        if(auto* f = dyn_cast<ForStmt>(s)) {
            auto o    = base(s, "For");
            o["init"] = stmtOrNull(f->getInit());
            if(f->getCond()) o["c"] = expr(f->getCond());
            if(f->getInc()) o["inc"] = expr(f->getInc());
            o["body"] = stmt(f->getBody());
            return o;
        }
        if(auto* w = dyn_cast<WhileStmt>(s)) {
            auto o    = base(s, "While");
            o["c"]    = expr(w->getCond());
            o["body"] = stmt(w->getBody());
            return o;
        }
        if(auto* w = dyn_cast<DoStmt>(s)) {
            auto o    = base(s, "Do");
            o["c"]    = expr(w->getCond());
            o["body"] = stmt(w->getBody());
            return o;
        }
        if(auto* r = dyn_cast<CXXForRangeStmt>(s)) {
            auto o     = base(s, "ForRange");
            o["range"] = stmtOrNull(r->getRangeStmt());
            o["begin"] = stmtOrNull(r->getBeginStmt());
            o["end"]   = stmtOrNull(r->getEndStmt());
            if(r->getCond()) o["c"] = expr(r->getCond());
            if(r->getInc()) o["inc"] = expr(r->getInc());
            o["var"] = stmtOrNull(r->getLoopVarStmt());
            o["body"] = stmt(r->getBody());
            return o;
        }
        if(auto* r = dyn_cast<ReturnStmt>(s)) {
            auto o = base(s, "Return");
            if(r->getRetValue()) o["e"] = expr(r->getRetValue());
            return o;
        }
        if(isa<BreakStmt>(s)) return base(s, "Break");
        if(isa<ContinueStmt>(s)) return base(s, "Continue");
        if(isa<NullStmt>(s)) return base(s, "Null");
        if(auto* sw = dyn_cast<SwitchStmt>(s)) {
            auto o    = base(s, "Switch");
            o["c"]    = expr(sw->getCond());
            o["body"] = stmt(sw->getBody());
            return o;
        }
        if(auto* cs = dyn_cast<CaseStmt>(s)) {
            auto o = base(s, "Case");
            o["v"] = expr(cs->getLHS());
            o["s"] = stmt(cs->getSubStmt());
            return o;
        }
        if(auto* cs = dyn_cast<DefaultStmt>(s)) {
            auto o = base(s, "Default");
            o["s"] = stmt(cs->getSubStmt());
            return o;
        }
        if(auto* t = dyn_cast<CXXTryStmt>(s)) {
            auto o    = base(s, "Try");
            o["body"] = stmt(t->getTryBlock());
            json::Array a;
            for(unsigned i = 0; i < t->getNumHandlers(); ++i)
                a.push_back(stmt(t->getHandler(i)->getHandlerBlock()));
            o["handlers"] = std::move(a);
            return o;
        }
        if(auto* a = dyn_cast<AttributedStmt>(s)) return stmt(a->getSubStmt());
        if(auto* l = dyn_cast<OMPCanonicalLoop>(s)) return stmt(l->getLoopStmt());
        if(auto* c = dyn_cast<CapturedStmt>(s)) return stmt(c->getCapturedStmt());
        if(auto* d = dyn_cast<OMPExecutableDirective>(s)) {
            auto o = base(s, "OMP");
            o["dir"] = llvm::omp::getOpenMPDirectiveName(d->getDirectiveKind()).str();
            json::Array cl;
            for(auto* c : d->clauses()) {
                json::Object co;
                co["k"] = llvm::omp::getOpenMPClauseName(c->getClauseKind()).str();
                json::Array vs;
                if(auto* pc = dyn_cast<OMPPrivateClause>(c))
                    for(auto* e : pc->varlists()) vs.push_back(expr(e));
                else if(auto* pc = dyn_cast<OMPFirstprivateClause>(c))
                    for(auto* e : pc->varlists()) vs.push_back(expr(e));
                else if(auto* pc = dyn_cast<OMPLastprivateClause>(c))
                    for(auto* e : pc->varlists()) vs.push_back(expr(e));
                else if(auto* pc = dyn_cast<OMPSharedClause>(c))
                    for(auto* e : pc->varlists()) vs.push_back(expr(e));
                else if(auto* pc = dyn_cast<OMPReductionClause>(c)) {
                    for(auto* e : pc->varlists()) vs.push_back(expr(e));
                    co["op"] = pc->getNameInfo().getAsString();
                } else if(auto* pc = dyn_cast<OMPCollapseClause>(c)) {
                    if(auto v = pc->getNumForLoops()) co["n"] = expr(v);
                }
                co["v"] = std::move(vs);
                cl.push_back(std::move(co));
            }
            o["clauses"] = std::move(cl);
            if(d->hasAssociatedStmt()) {
                const Stmt* b = d->getAssociatedStmt();
                if(isa<CapturedStmt>(b)) b = d->getInnermostCapturedStmt()->getCapturedStmt();
                o["body"] = stmt(b);
            }
            return o;
        }
        auto o = base(s, "UnknownStmt");
        o["c"] = s->getStmtClassName();
        return o;
    }

    json::Value expr(const Expr* e)
    {
        if(!e) return nullptr;
        // transparent wrappers
        if(auto* x = dyn_cast<ParenExpr>(e)) return expr(x->getSubExpr());
        if(auto* x = dyn_cast<ExprWithCleanups>(e)) return expr(x->getSubExpr());
        if(auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) return expr(x->getSubExpr());
        if(auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) {
            auto o = eb(e, "Temp");
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if(auto* x = dyn_cast<ConstantExpr>(e)) return expr(x->getSubExpr());
        if(auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(x->getReplacement());
        if(auto* x = dyn_cast<CXXDefaultArgExpr>(e)) return expr(x->getExpr());
        if(auto* x = dyn_cast<CXXDefaultInitExpr>(e)) return expr(x->getExpr());
        if(auto* x = dyn_cast<OpaqueValueExpr>(e)) return expr(x->getSourceExpr());
        if(auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) {
            auto o = eb(e, "StdInitList");
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if(auto* x = dyn_cast<IntegerLiteral>(e)) {
            auto o = eb(e, "Int");
            o["v"] = llvm::toString(x->getValue(), 10, e->getType()->isSignedIntegerType());
            return o;
        }
        if(auto* x = dyn_cast<FloatingLiteral>(e)) {
            auto o = eb(e, "Float");
            llvm::SmallString<64> s;
            x->getValue().toString(s, 0, 0);
            o["v"] = std::string(s.str());
            return o;
        }
        if(auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
            auto o = eb(e, "Bool");
            o["v"] = x->getValue();
            return o;
        }
        if(auto* x = dyn_cast<CharacterLiteral>(e)) {
            auto o = eb(e, "Char");
            o["v"] = static_cast<int64_t>(x->getValue());
            return o;
        }
        if(auto* x = dyn_cast<StringLiteral>(e)) {
            auto o = eb(e, "Str");
            o["v"] = json::fixUTF8(x->getBytes());
            return o;
        }
        if(isa<CXXNullPtrLiteralExpr>(e)) return eb(e, "Null");
        if(isa<CXXThisExpr>(e)) return eb(e, "This");
        if(auto* x = dyn_cast<DeclRefExpr>(e)) {
            auto o = eb(e, "Ref");
            const ValueDecl* d = x->getDecl();
            o["n"] = d->getNameAsString();
            if(auto* f = dyn_cast<FunctionDecl>(d)) {
                o["dk"] = "fn";
                o["f"]  = fref(f);
            } else if(auto* v = dyn_cast<VarDecl>(d)) {
                o["d"] = id(v);
                if(v->hasGlobalStorage() && !v->isStaticLocal()) {
                    o["dk"] = "global";
                    global(v);
                } else
                    o["dk"] = v->isStaticLocal() ? "static" : "var";
                if(x->refersToEnclosingVariableOrCapture()) o["cap"] = true;
            } else if(auto* ec = dyn_cast<EnumConstantDecl>(d)) {
                o["dk"] = "enum";
                o["v"]  = llvm::toString(ec->getInitVal(), 10);
            } else if(auto* b = dyn_cast<BindingDecl>(d)) {
                (void)b;
                o["dk"] = "binding";
                o["d"]  = id(d);
            } else
                o["dk"] = "other";
            return o;
        }
        if(auto* x = dyn_cast<MemberExpr>(e)) {
            auto* d = x->getMemberDecl();
            if(auto* v = dyn_cast<VarDecl>(d)) {
                auto o  = eb(e, "Ref");
                o["n"]  = d->getNameAsString();
                o["d"]  = id(v);
                o["dk"] = "global";
                global(v);
                return o;
            }
            auto o = eb(e, "Member");
            o["n"] = d->getNameAsString();
            o["arrow"] = x->isArrow();
            if(auto* f = dyn_cast<FunctionDecl>(d)) {
                o["f"] = fref(f);
            }
            o["b"] = expr(x->getBase());
            return o;
        }
        if(auto* x = dyn_cast<CompoundAssignOperator>(e)) {
            auto o = eb(e, "Assign");
            o["op"] = x->getOpcodeStr().str();
            o["a"]  = expr(x->getLHS());
            o["b"]  = expr(x->getRHS());
            o["ct"] = ty(x->getComputationResultType());
            return o;
        }
        if(auto* x = dyn_cast<BinaryOperator>(e)) {
            auto o  = eb(e, x->isAssignmentOp() ? "Assign" : "Bin");
            o["op"] = x->getOpcodeStr().str();
            o["a"]  = expr(x->getLHS());
            o["b"]  = expr(x->getRHS());
            return o;
        }
        if(auto* x = dyn_cast<UnaryOperator>(e)) {
            auto o  = eb(e, "Un");
            o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            o["post"] = x->isPostfix();
            o["a"]  = expr(x->getSubExpr());
            return o;
        }
        if(auto* x = dyn_cast<ConditionalOperator>(e)) {
            auto o = eb(e, "Cond");
            o["c"] = expr(x->getCond());
            o["a"] = expr(x->getTrueExpr());
            o["b"] = expr(x->getFalseExpr());
            return o;
        }
        if(auto* x = dyn_cast<CastExpr>(e)) {
            auto o  = eb(e, "Cast");
            o["ck"] = x->getCastKindName();
            o["e"]  = expr(x->getSubExpr());
            o["explicit"] = isa<ExplicitCastExpr>(x);
            return o;
        }
        if(auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) return constant(e);
        if(isa<TypeTraitExpr>(e) || isa<CXXNoexceptExpr>(e) || isa<SizeOfPackExpr>(e))
            return constant(e);
        if(auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            auto o = eb(e, "OpCall");
            if(auto* f = x->getDirectCallee()) o["f"] = fref(f);
            else o["callee"] = expr(x->getCallee());
            o["op"] = getOperatorSpelling(x->getOperator());
            bool mem = false;
            if(auto* f = x->getDirectCallee()) mem = isa<CXXMethodDecl>(f);
            o["mem"] = mem;
            json::Array a;
            for(auto* y : x->arguments()) a.push_back(expr(y));
            o["args"] = std::move(a);
            return o;
        }
        if(auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            auto o = eb(e, "MCall");
            if(auto* f = x->getMethodDecl()) o["f"] = fref(f);
            if(auto* me = dyn_cast<MemberExpr>(x->getCallee()->IgnoreParens())) {
                o["obj"]   = expr(me->getBase());
                o["arrow"] = me->isArrow();
            }
            json::Array a;
            for(auto* y : x->arguments()) a.push_back(expr(y));
            o["args"] = std::move(a);
            return o;
        }
        if(auto* x = dyn_cast<CallExpr>(e)) {
            auto o = eb(e, "Call");
            if(auto* f = x->getDirectCallee()) o["f"] = fref(f);
            else o["callee"] = expr(x->getCallee());
            json::Array a;
            for(auto* y : x->arguments()) a.push_back(expr(y));
            o["args"] = std::move(a);
            return o;
        }
        if(auto* x = dyn_cast<CXXConstructExpr>(e)) {
            auto o = eb(e, "Construct");
            o["f"] = fref(x->getConstructor());
            o["r"] = recordOf(e->getType());
            o["list"] = x->isListInitialization();
            o["zero"] = x->requiresZeroInitialization();
            json::Array a;
            for(auto* y : x->arguments()) a.push_back(expr(y));
            o["args"] = std::move(a);
            return o;
        }
        if(auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            auto o = eb(e, "InheritedCtor");
            o["f"] = fref(x->getConstructor());
            o["r"] = recordOf(ctx.getTypeDeclType(x->getConstructor()->getParent()));
            return o;
        }
        if(auto* x = dyn_cast<InitListExpr>(e)) {
            if(x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            auto o = eb(e, "InitList");
            o["r"] = recordOf(e->getType());
            json::Array a;
            for(unsigned i = 0; i < x->getNumInits(); ++i) a.push_back(expr(x->getInit(i)));
            o["args"] = std::move(a);
            if(x->hasArrayFiller()) o["filler"] = expr(x->getArrayFiller());
            return o;
        }
        if(isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) {
            auto o = eb(e, "ValueInit");
            o["r"] = recordOf(e->getType());
            return o;
        }
        if(auto* x = dyn_cast<LambdaExpr>(e)) {
            auto o   = eb(e, "Lambda");
            o["f"]   = fref(x->getCallOperator());
            o["r"]   = record(x->getLambdaClass());
            json::Array caps;
            auto ii = x->capture_init_begin();
            for(auto& c : x->captures()) {
                json::Object co;
                if(c.capturesThis()) {
                    co["this"] = true;
                    co["byref"] = c.getCaptureKind() == LCK_This;
                } else if(c.capturesVariable()) {
                    co["d"] = id(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    co["initcap"] = c.getCapturedVar()->isInitCapture();
                }
                if(*ii) co["init"] = expr(*ii);
                ++ii;
                caps.push_back(std::move(co));
            }
            // generic lambdas: every instantiated call operator
            if(auto* ft = x->getCallOperator()->getDescribedFunctionTemplate()) {
                json::Array sp;
                for(auto* s : ft->specializations()) sp.push_back(fref(s));
                o["spec"] = std::move(sp);
            }
            o["caps"] = std::move(caps);
            return o;
        }
        if(auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            auto o = eb(e, "Subscript");
            o["a"] = expr(x->getBase());
            o["b"] = expr(x->getIdx());
            return o;
        }
        if(auto* x = dyn_cast<CXXThrowExpr>(e)) {
            auto o = eb(e, "Throw");
            o["e"] = expr(x->getSubExpr());
            return o;
        }
        if(auto* x = dyn_cast<ArrayInitLoopExpr>(e)) {
            auto o = eb(e, "ArrayCopy");
            o["e"] = expr(x->getCommonExpr()->getSourceExpr());
            return o;
        }
        if(auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) return expr(x->getSemanticForm());
        auto o = eb(e, "UnknownExpr");
        o["c"] = e->getStmtClassName();
        json::Array a;
        for(auto* c : e->children())
            if(c)
                if(auto* ce = dyn_cast<Expr>(c)) a.push_back(expr(ce));
        o["args"] = std::move(a);
        return o;
    }

    json::Object eb(const Expr* e, const char* k)
    {
        json::Object o;
        o["k"] = k;
        o["t"] = ty(e->getType());
        o["l"] = line(e->getExprLoc());
        if(e->isLValue()) o["lv"] = true;
        if(e->isGLValue()) o["gl"] = true;
        return o;
    }

    json::Value constant(const Expr* e)
    {
        auto o = eb(e, "Int");
        Expr::EvalResult r;
        if(!e->isValueDependent() && e->EvaluateAsInt(r, ctx))
            o["v"] = llvm::toString(r.Val.getInt(), 10);
        else {
            o["k"] = "UnknownExpr";
            o["c"] = e->getStmtClassName();
            o["args"] = json::Array();
        }
        return o;
    }

    json::Value finish(const std::string& main)
    {
        json::Object out;
        json::Object fo, ro, go;
        for(auto& p : functions) fo[std::to_string(p.first)] = std::move(p.second);
        for(auto& p : records) ro[std::to_string(p.first)] = std::move(p.second);
        for(auto& p : globals) go[std::to_string(p.first)] = std::move(p.second);
        out["functions"] = std::move(fo);
        out["records"]   = std::move(ro);
        out["globals"]   = std::move(go);
        out["main"]      = main;
        return out;
    }
};

// Collects every function pattern / variable in files below gAllUnder.
struct AllVisitor : RecursiveASTVisitor<AllVisitor> {
    Dumper& d;
    std::vector<const FunctionDecl*> fns;
    std::vector<const VarDecl*> vars;
    explicit AllVisitor(Dumper& x) : d(x) {}
    bool shouldVisitTemplateInstantiations() const { return false; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* f)
    {
        if(startsWith(d.file(f->getLocation()), gAllUnder)) fns.push_back(f);
        return true;
    }
    bool VisitVarDecl(VarDecl* v)
    {
        if(!isa<ParmVarDecl>(v) && startsWith(d.file(v->getLocation()), gAllUnder))
            vars.push_back(v);
        return true;
    }
};

struct Consumer : ASTConsumer {
    CompilerInstance& ci;
    explicit Consumer(CompilerInstance& c) : ci(c) {}
    void HandleTranslationUnit(ASTContext& ctx) override
    {
        if(ci.getDiagnostics().hasErrorOccurred()) {
            gErrors = 1;
            return;
        }
        Dumper d(ctx);
        auto& sm = ctx.getSourceManager();
        std::vector<const FunctionDecl*> roots;
        struct V : RecursiveASTVisitor<V> {
            std::vector<const FunctionDecl*>& roots;
            SourceManager& sm;
            V(std::vector<const FunctionDecl*>& r, SourceManager& s) : roots(r), sm(s) {}
            bool VisitFunctionDecl(FunctionDecl* f)
            {
                if(sm.isInMainFile(sm.getExpansionLoc(f->getLocation())) && f->isThisDeclarationADefinition()
                   && !f->isDependentContext() && !f->isImplicit())
                    roots.push_back(f);
                return true;
            }
        } v(roots, sm);
        v.TraverseDecl(ctx.getTranslationUnitDecl());
        json::Array rids;
        for(auto* f : roots) rids.push_back(d.fref(f));
        // free operators (and their instantiations) that library templates call behind our back
        struct OpV : RecursiveASTVisitor<OpV> {
            Dumper& d;
            explicit OpV(Dumper& x) : d(x) {}
            bool shouldVisitTemplateInstantiations() const { return true; }
            bool VisitFunctionDecl(FunctionDecl* f)
            {
                if(!f->isOverloadedOperator() || isa<CXXMethodDecl>(f)) return true;
                if(f->isDependentContext() || f->isTemplated()) return true;
                if(!d.isUser(d.file(f->getLocation()))) return true;
                if(f->hasBody()) d.fref(f);
                return true;
            }
        } ov(d);
        ov.TraverseDecl(ctx.getTranslationUnitDecl());
        d.drain();
        json::Array all, vars;
        if(!gAllUnder.empty()) {
            AllVisitor av(d);
            av.TraverseDecl(ctx.getTranslationUnitDecl());
            for(auto* f : av.fns) {
                json::Object o;
                o["name"] = f->getQualifiedNameAsString();
                o["file"] = d.file(f->getLocation());
                o["line"] = d.line(f->getLocation());
                o["def"]  = f->isThisDeclarationADefinition();
                o["inlined"] = f->isInlined();
                o["dependent"] = f->isDependentContext();
                o["templated"] = f->isTemplated() || f->getDescribedFunctionTemplate() != nullptr;
                o["fullspec"] = f->getTemplateSpecializationKind() == TSK_ExplicitSpecialization;
                o["memspec"] = f->getMemberSpecializationInfo() != nullptr;
                o["extern"] = f->hasExternalFormalLinkage();
                o["constexpr"] = f->isConstexpr();
                o["lambda"] = isa<CXXMethodDecl>(f) && cast<CXXMethodDecl>(f)->getParent()->isLambda();
                o["deleted"] = f->isDeleted() || f->isDefaulted();
                all.push_back(std::move(o));
            }
            for(auto* x : av.vars) {
                json::Object o;
                o["name"] = x->getQualifiedNameAsString();
                o["n"] = x->getNameAsString();
                o["file"] = d.file(x->getLocation());
                o["line"] = d.line(x->getLocation());
                o["t"] = d.ty(x->getType());
                o["staticlocal"] = x->isStaticLocal();
                o["local"] = x->isLocalVarDecl();
                o["global"] = x->hasGlobalStorage() && !x->isStaticLocal();
                o["tls"] = x->getTSCSpec() != TSCS_unspecified;
                o["constq"] = x->getType().isConstQualified();
                o["constexpr"] = x->isConstexpr();
                o["def"] = x->isThisDeclarationADefinition() == VarDecl::Definition;
                o["inlinev"] = x->isInline();
                o["extern"] = x->hasExternalFormalLinkage();
                o["templated"] = x->isTemplated() || x->getDescribedVarTemplate() != nullptr;
                o["dependent"] = x->getDeclContext()->isDependentContext();
                o["member"] = x->isStaticDataMember();
                if(auto* fd = dyn_cast<FunctionDecl>(x->getDeclContext())) {
                    o["fn"] = fd->getQualifiedNameAsString();
                    o["fnline"] = d.line(fd->getLocation());
                }
                vars.push_back(std::move(o));
            }
        }
        auto res = d.finish(sm.getFileEntryRefForID(sm.getMainFileID())->getName().str());
        res.getAsObject()->insert({"roots", std::move(rids)});
        res.getAsObject()->insert({"all", std::move(all)});
        res.getAsObject()->insert({"vars", std::move(vars)});
        llvm::outs() << res << "\n";
    }
};

struct Action : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& ci, llvm::StringRef) override
    {
        return std::make_unique<Consumer>(ci);
    }
};

int main(int argc, char** argv)
{
    std::string file;
    std::vector<std::string> args{"astdump"};
    bool rest = false;
    for(int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        if(rest) args.push_back(a);
        else if(a == "--") rest = true;
        else if(startsWith(a, "--user=")) gUser.push_back(a.substr(7));
        else if(startsWith(a, "--all-under=")) gAllUnder = a.substr(12);
        else file = a;
    }
    args.push_back("-fsyntax-only");
    args.push_back(file);
    llvm::IntrusiveRefCntPtr<FileManager> fm(new FileManager(FileSystemOptions()));
    tooling::ToolInvocation inv(args, std::make_unique<Action>(), fm.get());
    bool ok = inv.run();
    return (ok && !gErrors) ? 0 : 1;
}
