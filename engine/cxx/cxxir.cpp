// cxxir: mechanical extraction of C++ function bodies (after parsing, overload resolution and template
// instantiation by clang) to a JSON intermediate representation.  Nothing is rewritten: every node is a
// clang AST node; only parentheses / cleanups / temporaries-materialisation wrappers are skipped.
//
// usage: cxxir SOURCE OUT.json ROOT_REGEX PATH_PREFIXES(:-sep) -- clang args...
// Emits every function definition whose qualified name (with template arguments) matches ROOT_REGEX and all
// definitions under PATH_PREFIXES transitively called from those.
#include "clang/AST/AST.h"
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/Tooling.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Regex.h"
#include <deque>
#include <map>
#include <set>
#include <fstream>
using namespace clang;
namespace json = llvm::json;

static std::string gRoots, gOut; static std::vector<std::string> gPrefix;

struct Emitter {
    ASTContext& ctx; PrintingPolicy pol; ASTNameGenerator ng; SourceManager& sm;
    std::map<const Decl*, std::string> vids;
    std::deque<const FunctionDecl*> work; std::set<const FunctionDecl*> seen;
    json::Object functions, records;
    std::set<const CXXRecordDecl*> recseen; std::deque<const CXXRecordDecl*> recwork;
    Emitter(ASTContext& c) : ctx(c), pol(c.getLangOpts()), ng(c), sm(c.getSourceManager()) {
        pol.SuppressTagKeyword = true; pol.PrintCanonicalTypes = true; pol.FullyQualifiedName = true;
    }
    std::string fid(const FunctionDecl* f) {
        std::string s = ng.getName(f->getCanonicalDecl());
        if (s.empty()) s = fname(f);
        return s;
    }
    std::string fname(const NamedDecl* f) {
        std::string s; llvm::raw_string_ostream os(s);
        f->getNameForDiagnostic(os, pol, true); os.flush(); return s;
    }
    std::string vid(const ValueDecl* d) {
        auto it = vids.find(d); if (it != vids.end()) return it->second;
        std::string s = d->getNameAsString() + "#" + std::to_string(vids.size());
        vids[d] = s; return s;
    }
    std::string ty(QualType t) {
        if (t.isNull()) return "";
        noteRecord(t);
        return t.getCanonicalType().getAsString(pol);
    }
    void noteRecord(QualType t) {
        t = t.getCanonicalType();
        while (true) {
            if (t->isReferenceType()) t = t->getPointeeType();
            else if (t->isPointerType()) t = t->getPointeeType();
            else if (t->isArrayType()) t = QualType(t->getArrayElementTypeNoTypeQual(),0);
            else break;
        }
        if (const auto* r = t->getAsCXXRecordDecl()) noteRecord(r);
    }
    bool inPath(SourceLocation l) {
        l = sm.getExpansionLoc(l); auto p = sm.getPresumedLoc(l);
        if (p.isInvalid()) return false; llvm::StringRef f(p.getFilename());
        for (auto& x : gPrefix) if (f.starts_with(x)) return true;
        return false;
    }
    void noteRecord(const CXXRecordDecl* r) {
        r = r->getDefinition(); if (!r) return;
        if (!recseen.insert(r).second) return;
        recwork.push_back(r);
    }
    void emitRecord(const CXXRecordDecl* r) {
        if (!inPath(r->getLocation())) return;
        json::Object o; json::Array fs, bs;
        for (auto* f : r->fields()) { json::Object fo; fo["name"]=f->getNameAsString(); fo["type"]=ty(f->getType());
            fo["anon"]=f->isAnonymousStructOrUnion(); fs.push_back(std::move(fo)); }
        for (auto& b : r->bases()) { bs.push_back(ty(b.getType())); }
        o["fields"]=std::move(fs); o["bases"]=std::move(bs); o["union"]=r->isUnion();
        records[ty(ctx.getTypeDeclType(r))]=std::move(o);
    }
    void want(const FunctionDecl* f) {
        if (!f) return; const FunctionDecl* d=nullptr;
        if (f->hasBody(d)) f=d; else { if (auto* p=f->getTemplateInstantiationPattern()) (void)p; return; }
        if (f->isDependentContext()) return;
        if (!inPath(f->getLocation())) return;
        if (seen.insert(f).second) work.push_back(f);
    }
    json::Object node(const char* k) { json::Object o; o["k"]=k; return o; }
    json::Value loc(SourceLocation l) { auto p=sm.getPresumedLoc(sm.getExpansionLoc(l)); return p.isValid()? json::Value((int64_t)p.getLine()): json::Value(nullptr); }

    json::Value expr(const Expr* e) {
        if (!e) return nullptr;
        if (auto* p=dyn_cast<ParenExpr>(e)) return expr(p->getSubExpr());
        if (auto* p=dyn_cast<ExprWithCleanups>(e)) return expr(p->getSubExpr());
        if (auto* p=dyn_cast<MaterializeTemporaryExpr>(e)) return expr(p->getSubExpr());
        if (auto* p=dyn_cast<CXXBindTemporaryExpr>(e)) return expr(p->getSubExpr());
        if (auto* p=dyn_cast<SubstNonTypeTemplateParmExpr>(e)) return expr(p->getReplacement());
        if (auto* p=dyn_cast<ConstantExpr>(e)) return expr(p->getSubExpr());
        if (auto* p=dyn_cast<CXXDefaultArgExpr>(e)) return expr(p->getExpr());
        if (auto* p=dyn_cast<CXXDefaultInitExpr>(e)) return expr(p->getExpr());
        if (auto* p=dyn_cast<ImplicitCastExpr>(e)) { if (p->getCastKind()==CK_NoOp||p->getCastKind()==CK_FunctionToPointerDecay) return expr(p->getSubExpr()); }
        // integral constant folding (enum tags, template parameters, constexpr)
        if (!e->isValueDependent() && e->isPRValue() && e->getType()->isIntegralOrEnumerationType()) {
            Expr::EvalResult er;
            if (e->EvaluateAsInt(er, ctx, Expr::SE_NoSideEffects)) {
                json::Object o=node("IntegerLiteral"); o["t"]=ty(e->getType());
                llvm::SmallString<32> s; er.Val.getInt().toString(s,10); o["v"]=std::string(s.str()); 
                return o;
            }
        }
        json::Object o=node(e->getStmtClassName()); o["t"]=ty(e->getType()); o["l"]=loc(e->getExprLoc());
        auto kids=[&](std::initializer_list<const Expr*> es){ json::Array a; for(auto*x:es) a.push_back(expr(x)); o["c"]=std::move(a); };
        if (auto* x=dyn_cast<CastExpr>(e)) { o["k"]="Cast"; o["ck"]=x->getCastKindName(); kids({x->getSubExpr()});
            if (x->getCastKind()==CK_ConstructorConversion||x->getCastKind()==CK_UserDefinedConversion) {}
            return o; }
        if (auto* x=dyn_cast<FloatingLiteral>(e)) { llvm::SmallString<64> s; x->getValue().toString(s,0,0,false);
            // exact decimal text of the source literal when available
            o["v"]=std::string(s.str());
            auto txt=Lexer_text(x); if(!txt.empty()) o["src"]=txt; return o; }
        if (auto* x=dyn_cast<IntegerLiteral>(e)) { llvm::SmallString<32> s; x->getValue().toString(s,10,true); o["v"]=std::string(s.str()); return o; }
        if (auto* x=dyn_cast<CXXBoolLiteralExpr>(e)) { o["v"]=x->getValue()?"1":"0"; return o; }
        if (auto* x=dyn_cast<StringLiteral>(e)) { o["v"]="str"; return o; }
        if (auto* x=dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl* d=x->getDecl();
            if (auto* f=dyn_cast<FunctionDecl>(d)) { o["k"]="FunctionRef"; o["f"]=fid(f); o["name"]=fname(f); want(f); return o; }
            if (auto* ec=dyn_cast<EnumConstantDecl>(d)) { o["k"]="IntegerLiteral"; llvm::SmallString<32> s; ec->getInitVal().toString(s,10); o["v"]=std::string(s.str()); return o; }
            o["d"]=vid(d); o["isref"]=d->getType()->isReferenceType();
            if (auto* v=dyn_cast<VarDecl>(d)) { o["global"]=v->hasGlobalStorage(); if (v->hasGlobalStorage()) { o["name"]=fname(v); if (v->getInit()&&!v->getInit()->isValueDependent()) o["init"]=expr(v->getInit()); } }
            return o; }
        if (auto* x=dyn_cast<MemberExpr>(e)) {
            if (auto* f=dyn_cast<CXXMethodDecl>(x->getMemberDecl())) { o["k"]="MethodRef"; o["f"]=fid(f); o["name"]=fname(f); want(f); }
            else { o["m"]=x->getMemberDecl()->getNameAsString(); o["isref"]=x->getMemberDecl()->getType()->isReferenceType();
              if (auto* fd=dyn_cast<FieldDecl>(x->getMemberDecl())) { o["rec"]=ty(ctx.getTypeDeclType(fd->getParent())); o["anon"]=fd->isAnonymousStructOrUnion(); }
              else if (auto* vd=dyn_cast<VarDecl>(x->getMemberDecl())) { o["k"]="DeclRefExpr"; o["d"]=vid(vd); o["global"]=true; o["name"]=fname(vd); if (vd->getInit()) o["init"]=expr(vd->getInit()); return o; } }
            o["arrow"]=x->isArrow(); kids({x->getBase()}); return o; }
        if (isa<CXXThisExpr>(e)) return o;
        if (auto* x=dyn_cast<UnaryOperator>(e)) { o["op"]=UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"]=x->isPostfix(); kids({x->getSubExpr()}); return o; }
        if (auto* x=dyn_cast<BinaryOperator>(e)) { o["op"]=x->getOpcodeStr().str(); kids({x->getLHS(),x->getRHS()});
            if (auto* ca=dyn_cast<CompoundAssignOperator>(e)) { o["ct"]=ty(ca->getComputationLHSType()); } return o; }
        if (auto* x=dyn_cast<ConditionalOperator>(e)) { kids({x->getCond(),x->getTrueExpr(),x->getFalseExpr()}); return o; }
        if (auto* x=dyn_cast<CallExpr>(e)) {
            const FunctionDecl* f=x->getDirectCallee();
            if (f) { o["f"]=fid(f); o["name"]=fname(f); want(f); json::Array pr; for (auto* p: f->parameters()) pr.push_back(p->getType()->isReferenceType()); o["pref"]=std::move(pr);
                o["retref"]=f->getReturnType()->isReferenceType();
                if (auto* m=dyn_cast<CXXMethodDecl>(f)) { o["virt"]=m->isVirtual(); o["method"]=!m->isStatic(); o["rec"]=ty(ctx.getTypeDeclType(m->getParent())); }
                if (auto* mc=dyn_cast<CXXMemberCallExpr>(e)) {
                    o["obj"]=expr(mc->getImplicitObjectArgument());
                    if (auto* me=dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) { o["arrow"]=me->isArrow(); o["qual"]=me->hasQualifier(); }
                } }
            else { o["callee"]=expr(x->getCallee()); }
            if (isa<CXXOperatorCallExpr>(e)) o["opcall"]=true;
            json::Array a; for (auto* y: x->arguments()) a.push_back(expr(y)); o["a"]=std::move(a); return o; }
        if (auto* x=dyn_cast<CXXConstructExpr>(e)) { auto* cd=x->getConstructor(); o["k"]="Construct"; o["f"]=fid(cd); o["name"]=fname(cd); o["copy"]=cd->isCopyOrMoveConstructor(); o["trivial"]=cd->isTrivial();
            o["defaulted"]=cd->isDefaulted();
            want(cd); json::Array pr; for (auto* p: cd->parameters()) pr.push_back(p->getType()->isReferenceType()); o["pref"]=std::move(pr);
            json::Array a; for (auto* y: x->arguments()) a.push_back(expr(y)); o["a"]=std::move(a); return o; }
        if (auto* x=dyn_cast<CXXScalarValueInitExpr>(e)) { return o; }
        if (auto* x=dyn_cast<ArraySubscriptExpr>(e)) { kids({x->getBase(),x->getIdx()}); return o; }
        if (auto* x=dyn_cast<InitListExpr>(e)) { json::Array a; for (auto* y: x->inits()) a.push_back(expr(y)); o["c"]=std::move(a); return o; }
        if (auto* x=dyn_cast<CXXNewExpr>(e)) { o["at"]=ty(x->getAllocatedType()); o["array"]=x->isArray();
            if (x->isArray() && x->getArraySize()) o["n"]=expr(*x->getArraySize()); if (x->getInitializer()) o["init"]=expr(x->getInitializer()); 
            return o; }
        if (auto* x=dyn_cast<CXXDeleteExpr>(e)) { kids({x->getArgument()}); return o; }
        if (auto* x=dyn_cast<CXXThrowExpr>(e)) { return o; }
        json::Array a; for (auto* y: e->children()) if (auto* z=dyn_cast_or_null<Expr>(y)) a.push_back(expr(z)); o["c"]=std::move(a);
        return o;
    }
    std::string Lexer_text(const FloatingLiteral* x);
    json::Value var(const VarDecl* v) {
        json::Object d; d["d"]=vid(v); d["name"]=v->getNameAsString(); d["t"]=ty(v->getType()); d["isref"]=v->getType()->isReferenceType(); d["static"]=v->isStaticLocal();
        if (v->getInit()) d["init"]=expr(v->getInit()); return d;
    }
    json::Value stmt(const Stmt* s) {
        if (!s) return nullptr;
        if (auto* e=dyn_cast<Expr>(s)) { json::Object o=node("Expr"); o["e"]=expr(e); o["l"]=loc(e->getExprLoc()); return o; }
        json::Object o=node(s->getStmtClassName()); o["l"]=loc(s->getBeginLoc());
        if (auto* x=dyn_cast<CompoundStmt>(s)) { json::Array a; for(auto*y:x->body()) a.push_back(stmt(y)); o["c"]=std::move(a); return o; }
        if (auto* x=dyn_cast<DeclStmt>(s)) { json::Array a; for (auto* d: x->decls()) if (auto* v=dyn_cast<VarDecl>(d)) a.push_back(var(v)); o["c"]=std::move(a); return o; }
        if (auto* x=dyn_cast<IfStmt>(s)) { o["init"]=stmt(x->getInit()); o["cond"]=expr(x->getCond()); o["then"]=stmt(x->getThen()); o["else"]=stmt(x->getElse()); return o; }
        if (auto* x=dyn_cast<ForStmt>(s)) { o["init"]=stmt(x->getInit()); o["cond"]=expr(x->getCond()); o["inc"]=expr(x->getInc()); o["body"]=stmt(x->getBody()); return o; }
        if (auto* x=dyn_cast<WhileStmt>(s)) { o["cond"]=expr(x->getCond()); o["body"]=stmt(x->getBody()); return o; }
        if (auto* x=dyn_cast<DoStmt>(s)) { o["cond"]=expr(x->getCond()); o["body"]=stmt(x->getBody()); return o; }
        if (auto* x=dyn_cast<ReturnStmt>(s)) { o["e"]=expr(x->getRetValue()); return o; }
        if (auto* x=dyn_cast<SwitchStmt>(s)) { o["cond"]=expr(x->getCond()); o["body"]=stmt(x->getBody()); return o; }
        if (auto* x=dyn_cast<CaseStmt>(s)) { o["v"]=expr(x->getLHS()); o["body"]=stmt(x->getSubStmt()); return o; }
        if (auto* x=dyn_cast<DefaultStmt>(s)) { o["body"]=stmt(x->getSubStmt()); return o; }
        if (auto* x=dyn_cast<CXXForRangeStmt>(s)) { o["init"]=stmt(x->getRangeStmt()); o["begin"]=stmt(x->getBeginStmt()); o["end"]=stmt(x->getEndStmt()); o["cond"]=expr(x->getCond()); o["inc"]=expr(x->getInc()); o["var"]=stmt(x->getLoopVarStmt()); o["body"]=stmt(x->getBody()); return o; }
        json::Array a; for (auto* y: s->children()) a.push_back(stmt(y)); o["c"]=std::move(a); return o;
    }
    void emitFn(const FunctionDecl* f) {
        json::Object o; o["name"]=fname(f); o["ret"]=ty(f->getReturnType()); o["retref"]=f->getReturnType()->isReferenceType();
        auto p=sm.getPresumedLoc(sm.getExpansionLoc(f->getLocation())); o["file"]=p.getFilename(); o["line"]=(int64_t)p.getLine();
        auto pe=sm.getPresumedLoc(sm.getExpansionLoc(f->getEndLoc())); o["endline"]=(int64_t)pe.getLine();
        json::Array ps; for (auto* q: f->parameters()) { json::Object d; d["d"]=vid(q); d["name"]=q->getNameAsString(); d["t"]=ty(q->getType()); d["isref"]=q->getType()->isReferenceType(); ps.push_back(std::move(d)); }
        o["params"]=std::move(ps);
        if (auto* m=dyn_cast<CXXMethodDecl>(f)) { o["rec"]=ty(ctx.getTypeDeclType(m->getParent())); o["static"]=m->isStatic(); o["virt"]=m->isVirtual(); o["const"]=m->isConst();
            json::Array ov; for (auto* om: m->overridden_methods()) { ov.push_back(fid(om)); } o["overrides"]=std::move(ov); }
        if (auto* c=dyn_cast<CXXConstructorDecl>(f)) { json::Array is; for (auto* i: c->inits()) { json::Object io; if (i->isAnyMemberInitializer()) io["m"]=i->getAnyMember()->getNameAsString(); else io["base"]=ty(QualType(i->getBaseClass(),0)); io["e"]=expr(i->getInit()); is.push_back(std::move(io)); } o["inits"]=std::move(is); }
        o["body"]=stmt(f->getBody());
        std::string id=fid(f); functions[id]=std::move(o);
    }
};
#include "clang/Lex/Lexer.h"
std::string Emitter::Lexer_text(const FloatingLiteral* x) {
    return Lexer::getSourceText(CharSourceRange::getTokenRange(sm.getSpellingLoc(x->getBeginLoc()), sm.getSpellingLoc(x->getEndLoc())), sm, ctx.getLangOpts()).str();
}
struct Finder : RecursiveASTVisitor<Finder> {
    Emitter& em; llvm::Regex re; Finder(Emitter& e): em(e), re(gRoots) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool VisitFunctionDecl(FunctionDecl* f) {
        if (f->isDependentContext()||!f->doesThisDeclarationHaveABody()) return true;
        if (!em.inPath(f->getLocation())) return true;
        if (re.match(em.fname(f))) em.want(f);
        return true;
    }
};
struct Cons : ASTConsumer {
    void HandleTranslationUnit(ASTContext& ctx) override {
        Emitter em(ctx); Finder fi(em); fi.TraverseDecl(ctx.getTranslationUnitDecl());
        while (!em.work.empty() || !em.recwork.empty()) {
            if (!em.work.empty()) { auto* f=em.work.front(); em.work.pop_front(); em.emitFn(f); }
            else { auto* r=em.recwork.front(); em.recwork.pop_front(); em.emitRecord(r); }
        }
        std::error_code ec; llvm::raw_fd_ostream os(gOut, ec);
        json::Object top; top["functions"]=std::move(em.functions); top["records"]=std::move(em.records);
        os << json::Value(std::move(top));
    }
};
struct Act : ASTFrontendAction { std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance&, llvm::StringRef) override { return std::make_unique<Cons>(); } };
int main(int argc, const char** argv) {
    std::string src=argv[1]; gOut=argv[2]; gRoots=argv[3];
    { std::string p=argv[4]; size_t i=0; while (i<=p.size()) { size_t j=p.find(':',i); if (j==std::string::npos) j=p.size(); if (j>i) gPrefix.push_back(p.substr(i,j-i)); i=j+1; } }
    std::vector<std::string> args; for (int i=6;i<argc;++i) args.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", args);
    tooling::ClangTool tool(db, {src});
    return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
