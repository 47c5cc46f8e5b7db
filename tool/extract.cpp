// salt-extract: dumps the type-resolved program (functions, lambdas, records,
// enums, constants) of one translation unit of /repo as JSON.  Pure reader: it
// decides nothing; the analyses in /verif/sa consume its output.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Lex/Lexer.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
using namespace clang;
namespace json = llvm::json;

static std::string Root = "/repo/";
static std::string ExtraRoot;

struct Dumper {
    ASTContext &C;
    SourceManager &SM;
    PrintingPolicy PP;
    std::map<const Decl *, int> ids;
    json::Array funcs, records, enums, gvars;
    std::set<const Decl *> doneF, doneR;
    Dumper(ASTContext &C): C(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
        PP.SuppressTagKeyword = true;
        PP.PrintCanonicalTypes = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
    }
    int id(const Decl *D) {
        D = D->getCanonicalDecl();
        auto it = ids.find(D);
        if (it != ids.end()) return it->second;
        int n = ids.size() + 1;
        return ids[D] = n;
    }
    std::string fileOf(SourceLocation L) {
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isValid() ? std::string(P.getFilename()) : std::string();
    }
    int lineOf(SourceLocation L) {
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isValid() ? (int)P.getLine() : 0;
    }
    int colOf(SourceLocation L) {
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isValid() ? (int)P.getColumn() : 0;
    }
    bool inRepo(SourceLocation L) {
        auto f = fileOf(L);
        return f.rfind(Root, 0) == 0 || (!ExtraRoot.empty() && f.rfind(ExtraRoot, 0) == 0);
    }
    std::string ty(QualType T) {
        if (T.isNull()) return "?";
        return T.getCanonicalType().getAsString(PP);
    }
    // qualified name without template arguments
    std::string qn(const NamedDecl *D) {
        std::string s;
        if (auto *F = dyn_cast<CXXConstructorDecl>(D)) s = "(ctor)";
        else if (isa<CXXDestructorDecl>(D)) s = "(dtor)";
        else if (auto *V = dyn_cast<CXXConversionDecl>(D)) s = "operator " + ty(V->getConversionType());
        else {
            s = D->getNameAsString();
            if (s.empty()) {
                if (auto *R = dyn_cast<CXXRecordDecl>(D)) s = R->isLambda() ? "(lambda)" : "(anon)";
                else s = "(anon)";
            }
        }
        const DeclContext *DC = D->getDeclContext();
        while (DC && !DC->isTranslationUnit()) {
            if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
                if (!N->isInline() && !N->isAnonymousNamespace()) s = N->getNameAsString() + "::" + s;
            } else if (auto *R = dyn_cast<RecordDecl>(DC)) {
                std::string n = R->getNameAsString();
                if (n.empty()) n = "(anon)";
                s = n + "::" + s;
            } else if (auto *F = dyn_cast<FunctionDecl>(DC)) {
                s = F->getNameAsString() + "()::" + s;
            }
            DC = DC->getParent();
        }
        return s;
    }
    std::string recName(QualType T) {
        if (T.isNull()) return "";
        T = T.getCanonicalType();
        if (T->isReferenceType()) T = T->getPointeeType();
        if (auto *R = T->getAsCXXRecordDecl()) return qn(R);
        return "";
    }
    std::string recFull(const CXXRecordDecl *R) {
        return ty(C.getRecordType(R));
    }
    std::string fid(const FunctionDecl *F) {
        std::string s;
        llvm::raw_string_ostream os(s);
        F->getNameForDiagnostic(os, PP, true);
        os << "|" << ty(F->getType());
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) os << "|" << recFull(M->getParent());
        auto L = F->getCanonicalDecl()->getLocation();
        os << "|" << lineOf(L) << ":" << colOf(L);
        return os.str();
    }
    void fninfo(json::Object &o, const FunctionDecl *F) {
        o["fn"] = fid(F);
        o["qn"] = qn(F);
        o["rt"] = ty(F->getReturnType());
        if (inRepo(F->getLocation())) o["repo"] = true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qn(M->getParent());
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->getParent()->isLambda()) o["lam"] = true;
        }
        if (F->isNoReturn()) o["noret"] = true;
        // how each parameter receives its argument
        std::string pf;
        for (auto *P : F->parameters()) {
            QualType T = P->getType();
            if (T->isRValueReferenceType()) pf += 'x';
            else if (T->isLValueReferenceType()) pf += T.getNonReferenceType().isConstQualified() ? 'c' : 'r';
            else if (T->isPointerType()) pf += T->getPointeeType().isConstQualified() || T->isFunctionPointerType() ? 'q' : 'p';
            else pf += 'v';
        }
        o["pf"] = pf;
        schedule(F);
    }
    std::vector<const FunctionDecl *> pending;
    void schedule(const FunctionDecl *F) {
        const FunctionDecl *Def = nullptr;
        if (!F->hasBody(Def)) {
            if (F->isDefaulted()) Def = F; else return;
        }
        if (!inRepo(Def->getLocation())) return;
        if (Def->isDependentContext()) return;
        if (doneF.insert(Def->getCanonicalDecl()).second) pending.push_back(Def);
    }

    json::Value S(const Stmt *s);
    json::Object mk(const char *k, const Stmt *s) {
        json::Object o;
        o["k"] = k;
        if (s) {
            o["l"] = lineOf(s->getBeginLoc());
            o["c"] = colOf(s->getBeginLoc());
        }
        return o;
    }
    void withType(json::Object &o, const Expr *e) {
        o["t"] = ty(e->getType());
        auto r = recName(e->getType());
        if (!r.empty()) o["tr"] = r;
        if (e->isLValue()) o["lv"] = 1;
        else if (e->isXValue()) o["lv"] = 2;
    }
    void tryConst(json::Object &o, const Expr *e) {
        if (e->isValueDependent() || e->isTypeDependent()) return;
        auto T = e->getType();
        if (!T->isIntegralOrEnumerationType()) return;
        Expr::EvalResult R;
        if (e->EvaluateAsInt(R, C, Expr::SE_NoSideEffects)) {
            auto v = R.Val.getInt();
            if (v.isSigned() || v.getActiveBits() <= 63) o["cv"] = v.isSigned() ? v.getSExtValue() : (int64_t)v.getZExtValue();
            else o["cvs"] = llvm::toString(v, 10);
        }
    }
    json::Array args(llvm::ArrayRef<const Expr *> as) {
        json::Array a;
        for (auto *e : as) a.push_back(S(e));
        return a;
    }
    void dtorChain(const CXXRecordDecl *R, json::Array &a) {
        R = R ? R->getDefinition() : nullptr;
        if (!R || R->isDependentContext()) return;
        if (auto *D = R->getDestructor()) if (D->isUserProvided()) a.push_back(fid(D));
        for (auto &b : R->bases()) dtorChain(b.getType()->getAsCXXRecordDecl(), a);
    }
    json::Object var(const VarDecl *V) {
        json::Object o;
        o["d"] = id(V);
        o["n"] = V->getNameAsString();
        o["t"] = ty(V->getType());
        auto r = recName(V->getType());
        if (!r.empty()) o["tr"] = r;
        if (V->getType()->isReferenceType()) o["ref"] = true;
        if (V->isStaticLocal()) o["static"] = true;
        if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        o["l"] = lineOf(V->getLocation());
        if (auto *R = V->getType()->getAsCXXRecordDecl()) {
            json::Array d; dtorChain(R, d);
            if (!d.empty()) o["dts"] = std::move(d);
        }
        if (V->getInit()) o["init"] = S(V->getInit());
        return o;
    }
    json::Array params(const FunctionDecl *F) {
        json::Array a;
        for (auto *P : F->parameters()) {
            json::Object o;
            o["d"] = id(P);
            o["n"] = P->getNameAsString();
            o["t"] = ty(P->getType());
            auto r = recName(P->getType());
            if (!r.empty()) o["tr"] = r;
            if (P->getType()->isReferenceType()) o["ref"] = true;
            a.push_back(std::move(o));
        }
        return a;
    }
    json::Object lambda(const LambdaExpr *L) {
        auto o = mk("lambda", L);
        withType(o, L);
        json::Array caps;
        auto it = L->capture_init_begin();
        for (auto &c : L->captures()) {
            json::Object co;
            if (c.capturesThis()) co["this"] = true;
            else if (c.capturesVariable()) {
                auto *V = c.getCapturedVar();
                co["d"] = id(V);
                co["n"] = V->getNameAsString();
                if (c.getCaptureKind() == LCK_ByRef) co["byref"] = true;
                co["t"] = ty(cast<VarDecl>(V)->getType());
                if (cast<VarDecl>(V)->isInitCapture()) co["initcap"] = true;
            }
            if (c.isImplicit()) co["implicit"] = true;
            if (*it) co["init"] = S(*it);
            ++it;
            caps.push_back(std::move(co));
        }
        o["caps"] = std::move(caps);
        auto *M = L->getCallOperator();
        if (M->isDependentContext()) {
            // generic lambda: dump its instantiations, if any
            json::Array insts;
            if (auto *FT = M->getDescribedFunctionTemplate())
                for (auto *sp : FT->specializations()) {
                    json::Object io;
                    io["fn"] = fid(sp);
                    io["params"] = params(sp);
                    if (sp->getBody()) io["body"] = S(sp->getBody());
                    insts.push_back(std::move(io));
                }
            o["insts"] = std::move(insts);
        } else {
            o["fn"] = fid(M);
            o["params"] = params(M);
            o["ret"] = ty(M->getReturnType());
            if (M->getBody()) o["body"] = S(M->getBody());
        }
        return o;
    }
    void dumpFunc(const FunctionDecl *F) {
        json::Object o;
        o["fn"] = fid(F);
        o["qn"] = qn(F);
        o["file"] = fileOf(F->getLocation());
        o["l"] = lineOf(F->getLocation());
        o["el"] = lineOf(F->getEndLoc());
        o["ret"] = ty(F->getReturnType());
        o["params"] = params(F);
        if (F->isExternC()) o["externc"] = true;
        if (auto *FP = F->getType()->getAs<FunctionProtoType>())
            if (!isUnresolvedExceptionSpec(FP->getExceptionSpecType()) && FP->isNothrow()) o["nothrow"] = true;
        if (F->isDefaulted()) o["defaulted"] = true;
        o["access"] = (int)F->getAccess();
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qn(M->getParent());
            o["clsfull"] = recFull(M->getParent());
            if (M->isVirtual()) o["virtual"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->getParent()->isLambda()) o["lam"] = true;
            json::Array ov;
            for (auto *x : M->overridden_methods()) ov.push_back(fid(x));
            o["overrides"] = std::move(ov);
        }
        if (auto *X = dyn_cast<CXXConstructorDecl>(F)) {
            o["kind"] = "ctor";
            if (X->isCopyConstructor()) o["copy"] = true;
            if (X->isMoveConstructor()) o["move"] = true;
            json::Array in;
            for (auto *i : X->inits()) {
                json::Object io;
                if (i->isAnyMemberInitializer()) {
                    io["m"] = i->getAnyMember()->getNameAsString();
                    io["mt"] = ty(i->getAnyMember()->getType());
                    auto r = recName(i->getAnyMember()->getType());
                    if (!r.empty()) io["mtr"] = r;
                }
                else if (i->isBaseInitializer()) io["base"] = recName(QualType(i->getBaseClass(), 0));
                else io["deleg"] = true;
                if (i->isWritten()) io["w"] = true;
                io["l"] = lineOf(i->getSourceLocation());
                if (i->getInit()) io["e"] = S(i->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        } else if (isa<CXXDestructorDecl>(F)) o["kind"] = "dtor";
        else if (isa<CXXConversionDecl>(F)) o["kind"] = "conv";
        else o["kind"] = isa<CXXMethodDecl>(F) ? "method" : "func";
        if (auto *A = F->getTemplateSpecializationArgs()) {
            json::Array ta;
            for (auto &x : A->asArray()) {
                std::string s; llvm::raw_string_ostream os(s);
                x.print(PP, os, false); ta.push_back(os.str());
            }
            o["targs"] = std::move(ta);
        }
        const Stmt *B = F->getBody();
        if (B) o["body"] = S(B);
        funcs.push_back(std::move(o));
    }
    void dumpRecord(const CXXRecordDecl *R) {
        R = R->getDefinition();
        if (!R || R->isDependentContext() || !doneR.insert(R).second) return;
        json::Object o;
        o["qn"] = qn(R);
        o["full"] = recFull(R);
        o["file"] = fileOf(R->getLocation());
        o["l"] = lineOf(R->getLocation());
        if (R->isLambda()) return;
        json::Array bs, fs, ms;
        for (auto &b : R->bases()) {
            bs.push_back(recName(b.getType()));
            if (auto *BR = b.getType()->getAsCXXRecordDecl()) dumpRecord(BR);
        }
        bool repo = inRepo(R->getLocation());
        o["repo"] = repo;
        if (repo) {
            for (auto *f : R->fields()) {
                json::Object fo;
                fo["n"] = f->getNameAsString();
                fo["t"] = ty(f->getType());
                auto r = recName(f->getType());
                if (!r.empty()) fo["tr"] = r;
                fo["l"] = lineOf(f->getLocation());
                if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = S(f->getInClassInitializer());
                fs.push_back(std::move(fo));
            }
            for (auto *m : R->methods()) {
                json::Object mo;
                mo["fn"] = fid(m); mo["qn"] = qn(m);
                mo["n"] = m->getNameAsString();
                if (m->isVirtual()) mo["virtual"] = true;
                if (m->isDeleted()) mo["deleted"] = true;
                if (m->isImplicit()) mo["implicit"] = true;
                if (isa<CXXDestructorDecl>(m)) mo["dtor"] = true;
                if (m->isDefaulted()) mo["defaulted"] = true;
                if (auto *k = dyn_cast<CXXConstructorDecl>(m)) {
                    if (k->isCopyConstructor()) mo["copy"] = true;
                    if (k->isMoveConstructor()) mo["move"] = true;
                }
                if (m->isCopyAssignmentOperator()) mo["copyassign"] = true;
                if (m->isMoveAssignmentOperator()) mo["moveassign"] = true;
                mo["access"] = (int)m->getAccess();
                ms.push_back(std::move(mo));
                schedule(m);
            }
        }
        if (!R->hasUserDeclaredMoveOperation()) {
            if (R->needsImplicitCopyConstructor()) o["icopy"] = true;
            if (R->needsImplicitCopyAssignment()) o["iassign"] = true;
        }
        o["bases"] = std::move(bs);
        o["fields"] = std::move(fs);
        o["methods"] = std::move(ms);
        records.push_back(std::move(o));
    }
    void dumpEnum(const EnumDecl *E) {
        if (!inRepo(E->getLocation()) || E->isDependentContext()) return;
        json::Object o;
        o["qn"] = qn(E);
        o["file"] = fileOf(E->getLocation());
        o["l"] = lineOf(E->getLocation());
        json::Array es;
        for (auto *c : E->enumerators()) {
            json::Object eo;
            eo["n"] = c->getNameAsString();
            eo["v"] = c->getInitVal().getSExtValue();
            es.push_back(std::move(eo));
        }
        o["e"] = std::move(es);
        enums.push_back(std::move(o));
    }
    void dumpGVar(const VarDecl *V) {
        if (!inRepo(V->getLocation()) || V->getDeclContext()->isDependentContext()) return;
        if (V->isLocalVarDecl() || isa<ParmVarDecl>(V) || V->getType()->isDependentType()) return;
        json::Object o = var(V);
        o["qn"] = qn(V);
        o["file"] = fileOf(V->getLocation());
        if (V->isThisDeclarationADefinition()) o["def"] = true;
        if (auto *I = V->getAnyInitializer())
            if (!I->isValueDependent() && V->getType()->isIntegralOrEnumerationType()) {
                Expr::EvalResult R;
                if (I->EvaluateAsInt(R, C)) o["cv"] = R.Val.getInt().getExtValue();
            }
        gvars.push_back(std::move(o));
    }
};

json::Value Dumper::S(const Stmt *s) {
    if (!s) return nullptr;
    // transparent wrappers
    if (auto *e = dyn_cast<ExprWithCleanups>(s)) return S(e->getSubExpr());
    if (auto *e = dyn_cast<ParenExpr>(s)) return S(e->getSubExpr());
    if (auto *e = dyn_cast<MaterializeTemporaryExpr>(s)) {
        auto o = mk("mat", s); withType(o, e);
        o["a"] = S(e->getSubExpr());
        return o;
    }
    if (auto *e = dyn_cast<CXXBindTemporaryExpr>(s)) return S(e->getSubExpr());
    if (auto *e = dyn_cast<ConstantExpr>(s)) return S(e->getSubExpr());
    if (auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(s)) return S(e->getReplacement());
    if (auto *e = dyn_cast<CXXDefaultArgExpr>(s)) return S(e->getExpr());
    if (auto *e = dyn_cast<CXXDefaultInitExpr>(s)) return S(e->getExpr());
    if (auto *e = dyn_cast<OpaqueValueExpr>(s)) return e->getSourceExpr() ? S(e->getSourceExpr()) : json::Value(mk("opaque", s));
    if (auto *e = dyn_cast<AttributedStmt>(s)) return S(e->getSubStmt());
    if (auto *e = dyn_cast<CXXStdInitializerListExpr>(s)) return S(e->getSubExpr());

    if (auto *e = dyn_cast<Expr>(s)) {
        if (auto *D = dyn_cast<DeclRefExpr>(e)) {
            auto o = mk("ref", s); withType(o, e); tryConst(o, e);
            o["n"] = D->getDecl()->getNameAsString();
            o["dq"] = qn(D->getDecl());
            if (auto *F = dyn_cast<FunctionDecl>(D->getDecl())) fninfo(o, F);
            else {
                o["d"] = id(D->getDecl());
                if (isa<EnumConstantDecl>(D->getDecl())) o["enum"] = true;
                if (auto *V = dyn_cast<VarDecl>(D->getDecl())) {
                    if (V->hasGlobalStorage() && !V->isStaticLocal()) o["glob"] = true;
                    if (V->getType()->isReferenceType()) o["isref"] = true;
                }
                if (D->refersToEnclosingVariableOrCapture()) o["cap"] = true;
            }
            return o;
        }
        if (auto *M = dyn_cast<MemberExpr>(e)) {
            auto o = mk("mem", s); withType(o, e);
            o["n"] = M->getMemberDecl()->getNameAsString();
            o["dq"] = qn(M->getMemberDecl());
            if (M->isArrow()) o["arrow"] = true;
            if (auto *F = dyn_cast<FunctionDecl>(M->getMemberDecl())) fninfo(o, F);
            else if (auto *FD = dyn_cast<FieldDecl>(M->getMemberDecl())) {
                o["rec"] = qn(FD->getParent());
                if (FD->getType()->isReferenceType()) o["isref"] = true;
            } else { tryConst(o, e); o["d"] = id(M->getMemberDecl()); o["glob"] = true; }
            if (M->hasQualifier()) o["qual"] = true;
            o["b"] = S(M->getBase());
            o["l"] = lineOf(M->getMemberLoc());
            return o;
        }
        if (isa<CXXThisExpr>(e)) { auto o = mk("this", s); withType(o, e); return o; }
        if (auto *I = dyn_cast<IntegerLiteral>(e)) { auto o = mk("int", s); o["t"] = ty(e->getType());
            auto v = I->getValue(); if (v.getActiveBits() <= 63) o["v"] = (int64_t)v.getZExtValue(); else o["v"] = llvm::toString(v, 10, false); return o; }
        if (auto *I = dyn_cast<CharacterLiteral>(e)) { auto o = mk("int", s); o["t"] = ty(e->getType()); o["v"] = (int64_t)I->getValue(); return o; }
        if (auto *I = dyn_cast<CXXBoolLiteralExpr>(e)) { auto o = mk("int", s); o["t"] = "bool"; o["v"] = (int64_t)I->getValue(); return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { auto o = mk("null", s); return o; }
        if (auto *I = dyn_cast<FloatingLiteral>(e)) { auto o = mk("float", s); o["v"] = I->getValueAsApproximateDouble(); return o; }
        if (auto *I = dyn_cast<StringLiteral>(e)) { auto o = mk("str", s); if (I->getCharByteWidth() == 1) { std::string v = I->getString().str(); if (json::isUTF8(v)) o["v"] = v; else o["v"] = json::fixUTF8(v);} return o; }
        if (auto *I = dyn_cast<PredefinedExpr>(e)) { auto o = mk("str", s); o["v"] = I->getFunctionName() ? I->getFunctionName()->getString().str() : ""; return o; }
        if (auto *L = dyn_cast<LambdaExpr>(e)) return lambda(L);
        if (auto *U = dyn_cast<UnaryOperator>(e)) {
            auto o = mk("un", s); withType(o, e); tryConst(o, e);
            o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) o["post"] = true;
            o["a"] = S(U->getSubExpr());
            return o;
        }
        if (auto *B = dyn_cast<BinaryOperator>(e)) {
            auto o = mk("bin", s); withType(o, e); tryConst(o, e);
            o["op"] = B->getOpcodeStr().str();
            if (B->isAssignmentOp()) o["asg"] = true;
            if (auto *CA = dyn_cast<CompoundAssignOperator>(e)) o["ct"] = ty(CA->getComputationResultType());
            o["a"] = S(B->getLHS()); o["b"] = S(B->getRHS());
            o["ol"] = lineOf(B->getOperatorLoc());
            return o;
        }
        if (auto *Q = dyn_cast<AbstractConditionalOperator>(e)) {
            auto o = mk("cond", s); withType(o, e); tryConst(o, e);
            o["q"] = S(Q->getCond()); o["a"] = S(Q->getTrueExpr()); o["b"] = S(Q->getFalseExpr());
            return o;
        }
        if (auto *O = dyn_cast<CXXOperatorCallExpr>(e)) {
            auto *F = O->getDirectCallee();
            auto *M = dyn_cast_or_null<CXXMethodDecl>(F);
            if (M && !M->isStatic()) {
                auto o = mk("mcall", s); withType(o, e); fninfo(o, F);
                o["op"] = getOperatorSpelling(O->getOperator());
                o["obj"] = S(O->getArg(0));
                o["args"] = args(llvm::ArrayRef<const Expr *>(O->getArgs() + 1, O->getNumArgs() - 1));
                o["l"] = lineOf(O->getOperatorLoc());
                return o;
            }
            auto o = mk("call", s); withType(o, e);
            if (F) fninfo(o, F);
            o["op"] = getOperatorSpelling(O->getOperator());
            o["args"] = args(llvm::ArrayRef<const Expr *>(O->getArgs(), O->getNumArgs()));
            o["l"] = lineOf(O->getOperatorLoc());
            return o;
        }
        if (auto *MC = dyn_cast<CXXMemberCallExpr>(e)) {
            auto o = mk("mcall", s); withType(o, e);
            auto *M = MC->getMethodDecl();
            if (M) fninfo(o, M);
            if (auto *ME = dyn_cast<MemberExpr>(MC->getCallee()->IgnoreParens())) {
                o["obj"] = S(ME->getBase());
                if (ME->isArrow()) o["arrow"] = true;
                if (M && M->isVirtual() && !ME->hasQualifier()) o["virt"] = true;
                o["l"] = lineOf(ME->getMemberLoc());
            } else {
                o["callee"] = S(MC->getCallee());
            }
            o["args"] = args(llvm::ArrayRef<const Expr *>(MC->getArgs(), MC->getNumArgs()));
            return o;
        }
        if (auto *Cl = dyn_cast<CallExpr>(e)) {
            auto o = mk("call", s); withType(o, e); tryConst(o, e);
            if (auto *F = Cl->getDirectCallee()) fninfo(o, F);
            else o["callee"] = S(Cl->getCallee());
            o["args"] = args(llvm::ArrayRef<const Expr *>(Cl->getArgs(), Cl->getNumArgs()));
            return o;
        }
        if (auto *I = dyn_cast<CXXInheritedCtorInitExpr>(e)) {
            auto o = mk("ctor", s); withType(o, e); fninfo(o, I->getConstructor()); o["inh"] = true; o["args"] = json::Array(); return o;
        }
        if (auto *X = dyn_cast<CXXConstructExpr>(e)) {
            auto o = mk("ctor", s); withType(o, e);
            fninfo(o, X->getConstructor());
            if (X->getConstructor()->isCopyConstructor()) o["copy"] = true;
            if (X->getConstructor()->isMoveConstructor()) o["move"] = true;
            if (X->getConstructor()->isDefaultConstructor()) o["default"] = true;
            if (X->getConstructor()->isTrivial()) o["trivial"] = true;
            o["args"] = args(llvm::ArrayRef<const Expr *>(X->getArgs(), X->getNumArgs()));
            return o;
        }
        if (auto *N = dyn_cast<CXXNewExpr>(e)) {
            auto o = mk("new", s); withType(o, e);
            o["at"] = ty(N->getAllocatedType());
            auto r = recName(N->getAllocatedType());
            if (!r.empty()) o["atr"] = r;
            if (N->isArray()) { o["array"] = true; if (auto sz = N->getArraySize()) o["n"] = S(*sz); }
            if (N->getNumPlacementArgs()) { json::Array a; for (auto *p : N->placement_arguments()) a.push_back(S(p)); o["place"] = std::move(a); }
            if (N->getInitializer()) o["init"] = S(N->getInitializer());
            return o;
        }
        if (auto *D = dyn_cast<CXXDeleteExpr>(e)) {
            auto o = mk("delete", s);
            if (D->isArrayForm()) o["array"] = true;
            o["dt"] = ty(D->getDestroyedType());
            auto r = recName(D->getDestroyedType());
            if (!r.empty()) o["dtr"] = r;
            o["a"] = S(D->getArgument());
            return o;
        }
        if (auto *T = dyn_cast<CXXThrowExpr>(e)) {
            auto o = mk("throw", s);
            if (T->getSubExpr()) { o["a"] = S(T->getSubExpr()); o["tt"] = recName(T->getSubExpr()->getType()); }
            return o;
        }
        if (auto *K = dyn_cast<CastExpr>(e)) {
            auto ck = K->getCastKind();
            if (ck == CK_LValueToRValue) {
                auto o = mk("load", s); o["t"] = ty(e->getType()); tryConst(o, e);
                o["a"] = S(K->getSubExpr()); return o;
            }
            bool drop = false;
            switch (ck) {
                case CK_NoOp: case CK_UserDefinedConversion: case CK_ConstructorConversion:
                case CK_FunctionToPointerDecay: case CK_BuiltinFnToFnPtr: drop = true; break;
                default: break;
            }
            if (drop && (isa<ImplicitCastExpr>(e) || ck != CK_NoOp)) return S(K->getSubExpr());
            auto o = mk("cast", s); withType(o, e); tryConst(o, e);
            o["ck"] = K->getCastKindName();
            o["ft"] = ty(K->getSubExpr()->getType());
            if (!isa<ImplicitCastExpr>(e)) o["expl"] = true;
            o["a"] = S(K->getSubExpr());
            return o;
        }
        if (auto *A = dyn_cast<ArraySubscriptExpr>(e)) { auto o = mk("idx", s); withType(o, e); o["a"] = S(A->getBase()); o["b"] = S(A->getIdx()); return o; }
        if (auto *I = dyn_cast<InitListExpr>(e)) {
            auto o = mk("ilist", s); withType(o, e);
            json::Array a; for (auto *x : I->inits()) a.push_back(S(x)); o["a"] = std::move(a); return o;
        }
        if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            auto o = mk("int", s); o["t"] = ty(e->getType());
            Expr::EvalResult R; if (e->EvaluateAsInt(R, C)) o["v"] = R.Val.getInt().getExtValue();
            o["sizeof"] = ty(U->getTypeOfArgument()); return o;
        }
        if (isa<ImplicitValueInitExpr>(e) || isa<CXXScalarValueInitExpr>(e)) { auto o = mk("zero", s); withType(o, e); return o; }
        if (auto *P = dyn_cast<CXXPseudoDestructorExpr>(e)) { auto o = mk("opaque", s); (void)P; return o; }
        auto o = mk("opaque", s);
        o["sc"] = e->getStmtClassName();
        withType(o, e); tryConst(o, e);
        json::Array a;
        for (auto *c : e->children()) if (c) a.push_back(S(c));
        o["kids"] = std::move(a);
        return o;
    }

    if (auto *B = dyn_cast<CompoundStmt>(s)) {
        auto o = mk("blk", s);
        json::Array a; for (auto *x : B->body()) a.push_back(S(x)); o["s"] = std::move(a);
        o["el"] = lineOf(B->getRBracLoc());
        return o;
    }
    if (auto *D = dyn_cast<DeclStmt>(s)) {
        auto o = mk("decl", s);
        json::Array a;
        for (auto *d : D->decls()) if (auto *V = dyn_cast<VarDecl>(d)) a.push_back(var(V));
        o["v"] = std::move(a);
        return o;
    }
    if (auto *I = dyn_cast<IfStmt>(s)) {
        auto o = mk("if", s);
        if (I->getInit()) o["init"] = S(I->getInit());
        if (I->getConditionVariable()) o["cvar"] = var(I->getConditionVariable());
        o["q"] = S(I->getCond()); o["a"] = S(I->getThen()); if (I->getElse()) o["b"] = S(I->getElse());
        return o;
    }
    if (auto *W = dyn_cast<WhileStmt>(s)) {
        auto o = mk("while", s);
        if (W->getConditionVariable()) o["cvar"] = var(W->getConditionVariable());
        o["q"] = S(W->getCond()); o["a"] = S(W->getBody()); return o;
    }
    if (auto *W = dyn_cast<DoStmt>(s)) { auto o = mk("do", s); o["q"] = S(W->getCond()); o["a"] = S(W->getBody()); return o; }
    if (auto *F = dyn_cast<ForStmt>(s)) {
        auto o = mk("for", s);
        if (F->getInit()) o["init"] = S(F->getInit());
        if (F->getCond()) o["q"] = S(F->getCond());
        if (F->getInc()) o["inc"] = S(F->getInc());
        o["a"] = S(F->getBody()); return o;
    }
    if (auto *F = dyn_cast<CXXForRangeStmt>(s)) {
        auto o = mk("rfor", s);
        o["r"] = S(F->getRangeInit());
        o["var"] = var(F->getLoopVariable());
        o["a"] = S(F->getBody()); return o;
    }
    if (auto *W = dyn_cast<SwitchStmt>(s)) {
        auto o = mk("switch", s); o["q"] = S(W->getCond()); o["a"] = S(W->getBody());
        if (W->isAllEnumCasesCovered()) o["allenum"] = true;
        return o;
    }
    if (auto *K = dyn_cast<CaseStmt>(s)) {
        auto o = mk("case", s); o["q"] = S(K->getLHS());
        Expr::EvalResult R; if (K->getLHS()->EvaluateAsInt(R, C)) o["v"] = R.Val.getInt().getExtValue();
        o["a"] = S(K->getSubStmt()); return o;
    }
    if (auto *K = dyn_cast<DefaultStmt>(s)) { auto o = mk("default", s); o["a"] = S(K->getSubStmt()); return o; }
    if (auto *R = dyn_cast<ReturnStmt>(s)) { auto o = mk("ret", s); if (R->getRetValue()) o["a"] = S(R->getRetValue()); return o; }
    if (isa<BreakStmt>(s)) return mk("break", s);
    if (isa<ContinueStmt>(s)) return mk("continue", s);
    if (isa<NullStmt>(s)) return mk("nop", s);
    if (auto *T = dyn_cast<CXXTryStmt>(s)) {
        auto o = mk("try", s);
        o["a"] = S(T->getTryBlock());
        json::Array hs;
        for (unsigned i = 0; i < T->getNumHandlers(); i++) {
            auto *h = T->getHandler(i);
            json::Object ho;
            ho["l"] = lineOf(h->getBeginLoc());
            if (auto *V = h->getExceptionDecl()) { ho["d"] = id(V); ho["n"] = V->getNameAsString(); }
            if (!h->getCaughtType().isNull()) { auto r = recName(h->getCaughtType()); ho["ct"] = r.empty() ? ty(h->getCaughtType()) : r; }
            ho["a"] = S(h->getHandlerBlock());
            hs.push_back(std::move(ho));
        }
        o["h"] = std::move(hs);
        return o;
    }
    if (auto *L = dyn_cast<LabelStmt>(s)) { auto o = mk("label", s); o["n"] = L->getDecl()->getNameAsString(); o["a"] = S(L->getSubStmt()); return o; }
    if (auto *G = dyn_cast<GotoStmt>(s)) { auto o = mk("goto", s); o["n"] = G->getLabel()->getNameAsString(); return o; }
    auto o = mk("opaque", s);
    o["sc"] = s->getStmtClassName();
    return o;
}

class V : public RecursiveASTVisitor<V> {
    Dumper &D;
    public:
    V(Dumper &D): D(D) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl *F) {
        if (!F->isThisDeclarationADefinition() || F->isDependentContext()) return true;
        if (!D.inRepo(F->getLocation())) return true;
        if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
        D.schedule(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *R) {
        if (!R->isThisDeclarationADefinition()) return true;
        if (D.inRepo(R->getLocation())) D.dumpRecord(R);
        else if (D.qn(R).rfind("std::", 0) == 0 && R->hasDefinition()) {
            auto n = R->getNameAsString();
            if (n.find("exception") != std::string::npos || n.find("error") != std::string::npos ||
                n == "invalid_argument" || n == "out_of_range" || n == "bad_alloc" || n == "bad_function_call" || n.find("failure") != std::string::npos || n == "length_error")
                D.dumpRecord(R);
        }
        return true;
    }
    bool VisitEnumDecl(EnumDecl *E) { D.dumpEnum(E); return true; }
    bool VisitVarDecl(VarDecl *V) { D.dumpGVar(V); return true; }
};

class Consumer : public ASTConsumer {
    std::string main;
    public:
    Consumer(std::string m): main(m) {}
    void HandleTranslationUnit(ASTContext &Ctx) override {
        if (Ctx.getDiagnostics().hasErrorOccurred()) { llvm::errs() << "parse errors\n"; exit(3); }
        Dumper D(Ctx);
        V v(D);
        v.TraverseDecl(Ctx.getTranslationUnitDecl());
        while (!D.pending.empty()) {
            auto *F = D.pending.back(); D.pending.pop_back();
            if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda() && !M->isTemplateInstantiation()) continue;
            D.dumpFunc(F);
        }
        json::Object o;
        o["main"] = main;
        o["functions"] = std::move(D.funcs);
        o["records"] = std::move(D.records);
        o["enums"] = std::move(D.enums);
        o["gvars"] = std::move(D.gvars);
        llvm::outs() << json::Value(std::move(o)) << "\n";
    }
};
struct TextDiagnosticPrinterNull : public DiagnosticConsumer {
        void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &Info) override {
            DiagnosticConsumer::HandleDiagnostic(L, Info);
            if (L >= DiagnosticsEngine::Error) {
                llvm::SmallString<256> s; Info.FormatDiagnostic(s);
                llvm::errs() << "error: ";
                if (Info.hasSourceManager() && Info.getLocation().isValid())
                    llvm::errs() << Info.getLocation().printToString(Info.getSourceManager()) << ": ";
                llvm::errs() << s << "\n";
            }
        }
    };

class Action : public ASTFrontendAction {
    public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, StringRef f) override {
        return std::make_unique<Consumer>(f.str());
    }
};

// usage: salt-extract <root> <extraroot> <file> -- flags...
int main(int argc, const char **argv) {
    if (argc < 5) return 2;
    Root = argv[1]; ExtraRoot = argv[2];
    std::string file = argv[3];
    std::vector<std::string> flags;
    for (int i = 5; i < argc; i++) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool T(DB, {file});
    TextDiagnosticPrinterNull DC;
    T.setDiagnosticConsumer(&DC);
    return T.run(tooling::newFrontendActionFactory<Action>().get());
}
