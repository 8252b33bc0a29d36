// dmx-extract: dump the resolved program (types, callees, implicit calls, template
// instantiations) of one translation unit as JSON for the analyses in /verif/engine.
// Only functions whose body lies under one of the -root directories are dumped with bodies.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Index/USRGeneration.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>

using namespace clang;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("dmx-extract");
static llvm::cl::list<std::string> Roots("root", llvm::cl::desc("source root"), llvm::cl::cat(Cat));
static llvm::cl::opt<std::string> Out("o", llvm::cl::desc("output"), llvm::cl::cat(Cat));

namespace {
struct Dumper {
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const Decl*, int> localIds;
    json::Array functions, decls, records, globals;
    std::set<std::string> doneFn, doneRec, doneDecl;
    std::set<std::string> unsupported;

    Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.PrintCanonicalTypes = true;
    }

    std::string usr(const Decl* D) {
        llvm::SmallString<256> b;
        if (index::generateUSRForDecl(D->getCanonicalDecl(), b)) return "?";
        return std::string(b.str());
    }
    std::string ty(QualType t) {
        if (t.isNull()) return "?";
        return t.getCanonicalType().getAsString(PP);
    }
    std::string file(SourceLocation l, unsigned* line = nullptr) {
        auto p = SM.getPresumedLoc(SM.getExpansionLoc(l));
        if (p.isInvalid()) return "";
        if (line) *line = p.getLine();
        llvm::SmallString<256> s(p.getFilename());
        llvm::sys::fs::make_absolute(s);
        llvm::sys::path::remove_dots(s, true);
        return std::string(s.str());
    }
    unsigned line(SourceLocation l) { unsigned n = 0; file(l, &n); return n; }
    bool inRoot(SourceLocation l) {
        auto f = file(l);
        for (auto& r : Roots) if (llvm::StringRef(f).starts_with(r)) return true;
        return false;
    }
    std::string qn(const NamedDecl* D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    std::string recName(const CXXRecordDecl* R) {
        return R ? ty(C.getRecordType(R)) : std::string();
    }
    int lid(const Decl* D) {
        D = D->getCanonicalDecl();
        auto it = localIds.find(D);
        if (it != localIds.end()) return it->second;
        int n = int(localIds.size()) + 1;
        localIds[D] = n;
        return n;
    }
    bool isLibNoise(const FunctionDecl*) { return false; }

    json::Object fnRef(const FunctionDecl* F) {
        json::Object o;
        o["u"] = usr(F);
        o["q"] = qn(F);
        o["n"] = F->getNameAsString();
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = recName(M->getParent());
            if (M->isConst()) o["const"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->isVirtual()) o["virt"] = true;
            if (M->isDefaulted()) o["defaulted"] = true;
            if (isa<CXXConversionDecl>(M)) o["conv"] = true;
        }
        if (!inRoot(F->getLocation()) || !F->hasBody()) {
            json::Array pt;
            for (auto* p : F->parameters()) pt.push_back(ty(p->getType()));
            o["pt"] = std::move(pt);
            o["rt"] = ty(F->getReturnType());
        }
        if (F->isNoReturn()) o["noret"] = true;
        if (F->isExternC()) o["c"] = true;
        if (isNoexcept(F)) o["ne"] = true;
        if (F->getTemplateSpecializationArgs()) {
            json::Array ta;
            for (auto& a : F->getTemplateSpecializationArgs()->asArray()) {
                std::string s; llvm::raw_string_ostream os(s); a.print(PP, os, true); ta.push_back(os.str());
            }
            o["ta"] = std::move(ta);
        }
        return o;
    }
    bool isNoexcept(const FunctionDecl* F) {
        auto* P = F->getType()->getAs<FunctionProtoType>();
        if (!P) return false;
        if (isUnresolvedExceptionSpec(P->getExceptionSpecType())) return false;
        return P->isNothrow();
    }

    // ---------------------------------------------------------------- expressions
    json::Value E(const Expr* e) {
        if (!e) return nullptr;
        return Ex(e);
    }
    std::string apv(const APValue& v) {
        std::string s; llvm::raw_string_ostream os(s);
        switch (v.getKind()) {
        case APValue::Int: os << v.getInt(); break;
        case APValue::Struct: {
            os << "{";
            bool first = true;
            for (unsigned i = 0; i < v.getStructNumBases(); ++i) { if (!first) os << ","; first = false; os << apv(v.getStructBase(i)); }
            for (unsigned i = 0; i < v.getStructNumFields(); ++i) { if (!first) os << ","; first = false; os << apv(v.getStructField(i)); }
            os << "}";
            break;
        }
        default: os << "?"; break;
        }
        return os.str();
    }
    bool tryConst(const Expr* e, json::Object& o) {
        if (e->isValueDependent() || e->isTypeDependent() || e->isInstantiationDependent()) return false;
        auto t = e->getType();
        if (t.isNull() || t->isVoidType()) return false;
        if (t->isIntegralOrEnumerationType()) {
            Expr::EvalResult r;
            if (!e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects)) return false;
            o["k"] = "int";
            llvm::SmallString<32> s; r.Val.getInt().toString(s, 10);
            o["v"] = std::string(s.str());
            if (t->isBooleanType()) o["b"] = true;
            if (t->isUnsignedIntegerType()) o["uns"] = true;
            return true;
        }
        if (auto* RD = t->getAsCXXRecordDecl()) {
            if (!RD->hasDefinition() || !RD->isLiteral()) return false;
            if (!inRoot(RD->getLocation())) return false;
            if (RD->isLambda()) return false;
            Expr::EvalResult r;
            if (!e->EvaluateAsRValue(r, C) || r.HasSideEffects) return false;
            if (!r.Val.isStruct()) return false;
            auto s = apv(r.Val);
            if (s.find('?') != std::string::npos) return false;
            o["k"] = "cstruct";
            o["v"] = s;
            json::Array fs;
            unsigned i = 0;
            for (auto* f : RD->fields()) {
                json::Array fv; fv.push_back(f->getNameAsString()); fv.push_back(apv(r.Val.getStructField(i++)));
                fs.push_back(std::move(fv));
            }
            o["f"] = std::move(fs);
            o["t"] = recName(RD);
            return true;
        }
        return false;
    }
    json::Array args(const Expr* const* b, unsigned n) {
        json::Array a;
        for (unsigned i = 0; i < n; ++i) a.push_back(E(b[i]));
        return a;
    }
    template <typename R> json::Array argsR(R r) {
        json::Array a;
        for (auto* x : r) a.push_back(E(x));
        return a;
    }
    json::Value Ex(const Expr* e0) {
        const Expr* e = e0;
        // strip value-preserving wrappers
        for (;;) {
            if (auto* p = dyn_cast<ParenExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<ConstantExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<MaterializeTemporaryExpr>(e)) e = p->getSubExpr();
            else if (auto* p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = p->getReplacement();
            else if (auto* p = dyn_cast<CXXDefaultArgExpr>(e)) e = p->getExpr();
            else if (auto* p = dyn_cast<CXXDefaultInitExpr>(e)) e = p->getExpr();
            else if (auto* p = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = p->getSemanticForm();
            else if (auto* p = dyn_cast<OpaqueValueExpr>(e)) { if (!p->getSourceExpr()) break; e = p->getSourceExpr(); }
            else break;
        }
        json::Object o;
        o["l"] = line(e->getExprLoc());
        if (e->isGLValue() && !e->getType().isNull()) { o["lv"] = true; o["t"] = ty(e->getType()); }
        auto S = [&](const char* k) { o["k"] = k; };
        if (auto* ic = dyn_cast<CastExpr>(e)) {
            auto ck = ic->getCastKind();
            const Expr* sub = ic->getSubExpr();
            if (ck == CK_NullToPointer) { S("null"); return o; }
            if (ck == CK_UserDefinedConversion || ck == CK_ConstructorConversion || ck == CK_NoOp || ck == CK_LValueToRValue ||
                ck == CK_FunctionToPointerDecay || ck == CK_BuiltinFnToFnPtr) {
                if (!isa<CXXFunctionalCastExpr>(e) || ck != CK_NoOp) {
                    // constants through lvalue-to-rvalue: fold
                    if (ck == CK_LValueToRValue && tryConst(e, o)) return o;
                }
                return Ex(sub);
            }
            if (tryConst(e, o)) return o;
            if (ck == CK_IntegralToBoolean || ck == CK_PointerToBoolean || ck == CK_MemberPointerToBoolean || ck == CK_FloatingToBoolean) {
                S("tobool"); o["a"] = E(sub);
                o["p"] = ck == CK_PointerToBoolean || ck == CK_MemberPointerToBoolean;
                return o;
            }
            if (ck == CK_ToVoid) { S("void"); o["a"] = E(sub); return o; }
            if (ck == CK_ArrayToPointerDecay) { S("decay"); o["a"] = E(sub); return o; }
            if (ck == CK_DerivedToBase || ck == CK_UncheckedDerivedToBase || ck == CK_BaseToDerived) return Ex(sub);
            if (ck == CK_IntegralCast) {
                S("icast"); o["a"] = E(sub); o["t"] = ty(e->getType());
                o["frombool"] = sub->getType()->isBooleanType();
                unsigned fw = C.getIntWidth(sub->getType()), tw = C.getIntWidth(e->getType());
                if (tw < fw) o["trunc"] = true;
                if (sub->getType()->isSignedIntegerOrEnumerationType() && !e->getType()->isSignedIntegerOrEnumerationType()) o["s2u"] = true;
                return o;
            }
            S("cast"); o["ck"] = ic->getCastKindName(); o["a"] = E(sub); o["t"] = ty(e->getType());
            {
                auto psz = [&](QualType t) -> int64_t {
                    if (auto* p = t->getAs<PointerType>()) t = p->getPointeeType(); else if (auto* r = t->getAs<ReferenceType>()) t = r->getPointeeType();
                    if (t->isIncompleteType() || t->isFunctionType() || t->isDependentType() || t->isVoidType()) return 0;
                    return C.getTypeSizeInChars(t).getQuantity();
                };
                o["ps"] = psz(e->getType()); o["pf"] = psz(sub->getType());
            }
            return o;
        }
        if (auto* x = dyn_cast<ExprWithCleanups>(e)) {
            S("full"); o["a"] = E(x->getSubExpr()); return o;
        }
        if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) {
            S("tmp"); o["a"] = E(x->getSubExpr());
            o["cls"] = recName(x->getType()->getAsCXXRecordDecl());
            return o;
        }
        if (tryConst(e, o)) return o;
        if (isa<IntegerLiteral>(e) || isa<CXXBoolLiteralExpr>(e) || isa<CharacterLiteral>(e)) { tryConst(e, o); return o; }
        if (auto* x = dyn_cast<FloatingLiteral>(e)) { S("float"); llvm::SmallString<16> s; x->getValue().toString(s); o["v"] = std::string(s.str()); return o; }
        if (auto* x = dyn_cast<StringLiteral>(e)) { S("str"); o["v"] = x->isOrdinary() ? json::fixUTF8(x->getString()) : std::string("?"); return o; }
        if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) { S("null"); return o; }
        if (isa<CXXThisExpr>(e)) { S("this"); return o; }
        if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            auto* D = x->getDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D)) { S("fn"); o["fn"] = fnRef(F); noteFn(F); return o; }
            if (auto* V = dyn_cast<VarDecl>(D)) {
                if (V->isLocalVarDeclOrParm() && !V->isStaticLocal()) {
                    S("var"); o["t"] = ty(V->getType().getNonReferenceType()); o["d"] = lid(V); o["n"] = V->getNameAsString();
                    return o;
                }
                S("glob"); o["q"] = std::string(V->getTLSKind() != VarDecl::TLS_None ? "thread:" : "") + (V->isStaticLocal() ? ("static-local:" + V->getNameAsString()) : qn(V)); o["t"] = ty(V->getType());
                if (V->isStaticLocal()) o["d"] = lid(V);
                return o;
            }
            if (auto* B = dyn_cast<BindingDecl>(D)) { S("bind"); o["d"] = lid(B); o["n"] = B->getNameAsString(); if (B->getBinding()) o["a"] = E(B->getBinding()); return o; }
            if (isa<FieldDecl>(D)) { S("memptr"); o["q"] = qn(D); o["n"] = D->getNameAsString(); return o; }
            S("ref"); o["q"] = qn(D); return o;
        }
        if (auto* x = dyn_cast<MemberExpr>(e)) {
            auto* D = x->getMemberDecl();
            if (auto* F = dyn_cast<FunctionDecl>(D)) { S("boundfn"); o["fn"] = fnRef(F); noteFn(F); o["b"] = E(x->getBase()); o["arrow"] = x->isArrow(); return o; }
            if (auto* V = dyn_cast<VarDecl>(D)) { S("glob"); o["q"] = qn(V); o["t"] = ty(V->getType()); return o; }
            S("mem"); o["f"] = D->getNameAsString(); o["arrow"] = x->isArrow(); o["b"] = E(x->getBase()); o["t"] = ty(e->getType());
            if (auto* FD = dyn_cast<FieldDecl>(D)) {
                o["own"] = qn(FD->getParent());
                if (FD->getType()->isReferenceType()) o["isref"] = true;
                if (FD->isAnonymousStructOrUnion()) o["anon"] = true;
            }
            return o;
        }
        if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) { S("idx"); o["t"] = ty(e->getType()); o["b"] = E(x->getBase()); o["i"] = E(x->getIdx()); return o; }
        if (auto* x = dyn_cast<UnaryOperator>(e)) {
            S("un"); o["t"] = ty(e->getType()); o["op"] = UnaryOperator::getOpcodeStr(x->getOpcode()).str(); o["post"] = x->isPostfix(); o["a"] = E(x->getSubExpr());
            if (x->getOpcode() == UO_AddrOf) if (auto* dr = dyn_cast<DeclRefExpr>(x->getSubExpr()->IgnoreParens())) if (isa<FieldDecl>(dr->getDecl())) return Ex(dr);
            return o;
        }
        if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
            S("casgn"); auto op = x->getOpcodeStr().str(); op.pop_back(); o["op"] = op; o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); return o;
        }
        if (auto* x = dyn_cast<BinaryOperator>(e)) {
            if (x->getOpcode() == BO_Assign) { S("asgn"); o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS()); return o; }
            S("bin"); o["op"] = x->getOpcodeStr().str(); o["a"] = E(x->getLHS()); o["b"] = E(x->getRHS());
            auto lt = x->getLHS()->getType();
            if (lt->isUnsignedIntegerType()) o["uns"] = true;
            if (lt->isFloatingType()) o["flt"] = true;
            return o;
        }
        if (auto* x = dyn_cast<AbstractConditionalOperator>(e)) { S("cond"); if (x->isGLValue()) o["lv"] = true; o["t"] = ty(x->getType()); o["c"] = E(x->getCond()); o["a"] = E(x->getTrueExpr()); o["b"] = E(x->getFalseExpr()); return o; }
        if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            S("call"); o["opc"] = getOperatorSpelling(x->getOperator());
            if (x->isGLValue()) o["lv"] = true;
            o["t"] = ty(x->getType());
            auto* F = x->getDirectCallee();
            if (F) { o["fn"] = fnRef(F); noteFn(F); if (isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) { o["obj"] = E(x->getArg(0)); o["args"] = args(x->getArgs() + 1, x->getNumArgs() - 1); argMeta(o, F, false); return o; } argMeta(o, F, false); }
            else o["callee"] = E(x->getCallee());
            o["args"] = args(x->getArgs(), x->getNumArgs());
            return o;
        }
        if (auto* x = dyn_cast<CXXMemberCallExpr>(e)) {
            S("call");
            if (x->isGLValue()) o["lv"] = true;
            auto* M = x->getMethodDecl();
            if (M) {
                o["fn"] = fnRef(M); noteFn(M);
                auto* ca = x->getCallee()->IgnoreParens();
                bool arrow = false; bool qual = false;
                if (auto* me = dyn_cast<MemberExpr>(ca)) { arrow = me->isArrow(); qual = me->hasQualifier(); }
                o["obj"] = E(x->getImplicitObjectArgument()); o["arrow"] = arrow;
                if (qual) o["qual"] = true;
                argMeta(o, M, false);
            } else o["callee"] = E(x->getCallee());
            o["args"] = args(x->getArgs(), x->getNumArgs());
            o["t"] = ty(x->getType());
            return o;
        }
        if (auto* x = dyn_cast<CallExpr>(e)) {
            S("call");
            if (x->isGLValue()) o["lv"] = true;
            if (auto* F = x->getDirectCallee()) { o["fn"] = fnRef(F); noteFn(F); argMeta(o, F, false); }
            else o["callee"] = E(x->getCallee());
            if (!x->getDirectCallee()) {
                auto ct = x->getCallee()->getType();
                if (auto* pt = ct->getAs<PointerType>()) ct = pt->getPointeeType();
                if (auto* fp = ct->getAs<FunctionProtoType>()) {
                    if (fp->isNothrow()) o["ne"] = true;
                    json::Array m;
                    for (auto t : fp->param_types()) {
                        int v = 0;
                        if (t->isReferenceType()) v = t->getPointeeType().isConstQualified() ? 1 : 2;
                        else if (t->isPointerType()) v = t->getPointeeType().isConstQualified() ? 3 : 4;
                        m.push_back(v);
                    }
                    o["pm"] = std::move(m);
                }
            }
            o["args"] = args(x->getArgs(), x->getNumArgs());
            o["t"] = ty(x->getType());
            return o;
        }
        if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            S("ctor"); auto* F = x->getConstructor();
            o["fn"] = fnRef(F); noteFn(F); o["cls"] = recName(F->getParent());
            if (F->isCopyOrMoveConstructor()) o["cm"] = F->isMoveConstructor() ? "move" : "copy";
            if (F->isDefaultConstructor()) o["dc"] = true;
            if (x->isElidable()) o["elide"] = true;
            if (F->isTrivial()) o["triv"] = true;
            o["args"] = args(x->getArgs(), x->getNumArgs());
            if (isa<CXXTemporaryObjectExpr>(x)) o["tmpobj"] = true;
            return o;
        }
        if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            S("new"); o["t"] = ty(x->getAllocatedType());
            json::Array pa; for (unsigned i = 0; i < x->getNumPlacementArgs(); ++i) pa.push_back(E(x->getPlacementArg(i)));
            o["pl"] = std::move(pa); o["init"] = E(x->getInitializer());
            if (x->isArray()) o["arr"] = x->getArraySize() ? E(*x->getArraySize()) : json::Value(nullptr);
            return o;
        }
        if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
            S("delete"); o["a"] = E(x->getArgument()); o["t"] = ty(x->getDestroyedType());
            if (auto* R = x->getDestroyedType()->getAsCXXRecordDecl()) { o["cls"] = recName(R); if (R->hasDefinition()) if (auto* DD = R->getDestructor()) { o["dtor"] = fnRef(DD); noteFn(DD); } }
            return o;
        }
        if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
            S("throw"); o["a"] = E(x->getSubExpr()); if (x->getSubExpr()) o["t"] = ty(x->getSubExpr()->getType()); return o;
        }
        if (auto* x = dyn_cast<InitListExpr>(e)) {
            if (auto* sf = x->getSemanticForm()) x = sf;
            S("init"); o["t"] = ty(x->getType()); o["args"] = argsR(x->inits());
            if (auto* R = x->getType()->getAsRecordDecl()) {
                json::Array fs; if (auto* CR = dyn_cast<CXXRecordDecl>(R)) for (auto& b : CR->bases()) fs.push_back("base:" + ty(b.getType()));
                for (auto* f : R->fields()) { if (f->isUnnamedBitfield()) continue; fs.push_back(f->getNameAsString()); }
                if (R->isUnion() && x->getInitializedFieldInUnion()) { fs.clear(); fs.push_back(x->getInitializedFieldInUnion()->getNameAsString()); }
                o["fs"] = std::move(fs);
            }
            return o;
        }
        if (auto* x = dyn_cast<LambdaExpr>(e)) {
            S("lambda");
            auto* M = x->getCallOperator();
            json::Array caps;
            auto ii = x->capture_init_begin();
            for (auto& c : x->captures()) {
                json::Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) { co["d"] = lid(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString(); co["ref"] = c.getCaptureKind() == LCK_ByRef; if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar())) if (vd->isInitCapture()) co["init"] = E(vd->getInit()); }
                caps.push_back(std::move(co));
                ++ii;
            }
            o["caps"] = std::move(caps);
            if (x->isGenericLambda()) {
                o["generic"] = true;
                json::Array insts;
                if (auto* FT = M->getDescribedFunctionTemplate())
                    for (auto* sp : FT->specializations()) if (sp->hasBody()) insts.push_back(fnFull(sp));
                o["insts"] = std::move(insts);
            } else if (!M->isDependentContext()) o["fn"] = fnFull(M);
            return o;
        }
        if (auto* x = dyn_cast<CXXScalarValueInitExpr>(e)) { S("zero"); o["t"] = ty(x->getType()); return o; }
        if (auto* x = dyn_cast<ImplicitValueInitExpr>(e)) { S("zero"); o["t"] = ty(x->getType()); return o; }
        if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) { S("stdinit"); o["a"] = E(x->getSubExpr()); return o; }
        if (auto* x = dyn_cast<CXXTypeidExpr>(e)) { S("typeid"); o["t"] = x->isTypeOperand() ? ty(x->getTypeOperand(C)) : std::string("expr"); return o; }
        if (auto* x = dyn_cast<StmtExpr>(e)) { S("stmtexpr"); o["s"] = St(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<CompoundLiteralExpr>(e)) return Ex(x->getInitializer());
        if (auto* x = dyn_cast<CXXPseudoDestructorExpr>(e)) { S("pseudodtor"); o["a"] = E(x->getBase()); return o; }
        if (auto* x = dyn_cast<CXXInheritedCtorInitExpr>(e)) { S("inhctor"); o["fn"] = fnRef(x->getConstructor()); noteFn(x->getConstructor()); return o; }
        if (auto* x = dyn_cast<PredefinedExpr>(e)) { S("str"); o["v"] = "__func__"; return o; }
        if (auto* x = dyn_cast<ArrayInitLoopExpr>(e)) return Ex(x->getCommonExpr());
        if (auto* x = dyn_cast<AtomicExpr>(e)) { S("atomic"); return o; }
        if (auto* x = dyn_cast<GenericSelectionExpr>(e)) return Ex(x->getResultExpr());
        if (auto* x = dyn_cast<ChooseExpr>(e)) return Ex(x->getChosenSubExpr());
        S("unsup"); o["c"] = e->getStmtClassName();
        unsupported.insert(e->getStmtClassName());
        return o;
    }
    void argMeta(json::Object& o, const FunctionDecl* F, bool) {
        // which parameters are non-const reference / pointer-to-non-const
        json::Array m;
        for (auto* p : F->parameters()) {
            auto t = p->getType();
            int v = 0; // by value / const ref
            if (t->isReferenceType()) v = t->getPointeeType().isConstQualified() ? 1 : 2;
            else if (t->isPointerType()) v = t->getPointeeType().isConstQualified() ? 3 : 4;
            m.push_back(v);
        }
        o["pm"] = std::move(m);
    }

    // ---------------------------------------------------------------- statements
    json::Value VarD(const VarDecl* V) {
        json::Object o;
        o["d"] = lid(V); o["n"] = V->getNameAsString(); o["t"] = ty(V->getType()); o["l"] = line(V->getLocation());
        if (V->getType()->isReferenceType()) { o["ref"] = true; }
        if (V->isStaticLocal()) o["static"] = true;
        if (V->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (V->getInit()) o["init"] = E(V->getInit());
        if (auto* DD = dyn_cast<DecompositionDecl>(V)) {
            json::Array bs;
            for (auto* b : DD->bindings()) { json::Object bo; bo["d"] = lid(b); bo["n"] = b->getNameAsString(); if (b->getBinding()) bo["a"] = E(b->getBinding()); if (b->getHoldingVar()) bo["hold"] = VarD(b->getHoldingVar()); bs.push_back(std::move(bo)); }
            o["binds"] = std::move(bs);
        }
        auto t = V->getType().getNonReferenceType();
        if (!V->getType()->isReferenceType()) {
            if (auto* R = t->getAsCXXRecordDecl()) {
                o["cls"] = recName(R);
                if (R->hasDefinition() && !R->hasTrivialDestructor()) {
                    o["hasdtor"] = true;
                    if (auto* DD = R->getDestructor()) { o["dtor"] = fnRef(DD); noteFn(DD); }
                }
            }
            if (t->isArrayType()) o["array"] = true;
        }
        return o;
    }
    json::Value St(const Stmt* s) {
        if (!s) return nullptr;
        json::Object o;
        o["l"] = line(s->getBeginLoc());
        auto S = [&](const char* k) { o["k"] = k; };
        if (auto* e = dyn_cast<Expr>(s)) { S("expr"); o["e"] = E(e); return o; }
        if (auto* x = dyn_cast<CompoundStmt>(s)) { S("block"); json::Array a; for (auto* c : x->body()) a.push_back(St(c)); o["s"] = std::move(a); o["el"] = line(x->getEndLoc()); return o; }
        if (auto* x = dyn_cast<DeclStmt>(s)) {
            S("decl"); json::Array a;
            for (auto* d : x->decls()) {
                if (auto* V = dyn_cast<VarDecl>(d)) a.push_back(VarD(V));
            }
            o["v"] = std::move(a); return o;
        }
        if (auto* x = dyn_cast<IfStmt>(s)) {
            S("if");
            if (x->getInit()) o["init"] = St(x->getInit());
            if (x->getConditionVariable()) o["cv"] = VarD(x->getConditionVariable());
            if (x->isConstexpr()) {
                o["cx"] = true;
            }
            o["c"] = E(x->getCond()); o["t"] = St(x->getThen()); o["f"] = St(x->getElse());
            return o;
        }
        if (auto* x = dyn_cast<ForStmt>(s)) { S("for"); o["init"] = St(x->getInit()); if (x->getConditionVariable()) o["cv"] = VarD(x->getConditionVariable()); o["c"] = E(x->getCond()); o["inc"] = E(x->getInc()); o["b"] = St(x->getBody()); return o; }
        if (auto* x = dyn_cast<WhileStmt>(s)) { S("while"); if (x->getConditionVariable()) o["cv"] = VarD(x->getConditionVariable()); o["c"] = E(x->getCond()); o["b"] = St(x->getBody()); return o; }
        if (auto* x = dyn_cast<DoStmt>(s)) { S("do"); o["c"] = E(x->getCond()); o["b"] = St(x->getBody()); return o; }
        if (auto* x = dyn_cast<CXXForRangeStmt>(s)) { S("rfor"); if (x->getInit()) o["init"] = St(x->getInit()); o["r"] = E(x->getRangeInit()); o["v"] = VarD(x->getLoopVariable()); o["b"] = St(x->getBody()); return o; }
        if (auto* x = dyn_cast<ReturnStmt>(s)) { S("ret"); o["e"] = E(x->getRetValue()); return o; }
        if (isa<BreakStmt>(s)) { S("break"); return o; }
        if (isa<ContinueStmt>(s)) { S("cont"); return o; }
        if (isa<NullStmt>(s)) { S("nop"); return o; }
        if (auto* x = dyn_cast<SwitchStmt>(s)) { S("switch"); if (x->getInit()) o["init"] = St(x->getInit()); if (x->getConditionVariable()) o["cv"] = VarD(x->getConditionVariable()); o["c"] = E(x->getCond()); o["b"] = St(x->getBody()); return o; }
        if (auto* x = dyn_cast<CaseStmt>(s)) { S("case"); o["v"] = E(x->getLHS()); if (x->getRHS()) o["hi"] = E(x->getRHS()); o["s"] = St(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<DefaultStmt>(s)) { S("default"); o["s"] = St(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            S("try"); o["b"] = St(x->getTryBlock()); json::Array h;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) { auto* c = x->getHandler(i); json::Object ho; ho["t"] = c->getCaughtType().isNull() ? std::string("...") : ty(c->getCaughtType()); if (c->getExceptionDecl()) ho["v"] = VarD(c->getExceptionDecl()); ho["b"] = St(c->getHandlerBlock()); ho["l"] = line(c->getBeginLoc()); h.push_back(std::move(ho)); }
            o["h"] = std::move(h); return o;
        }
        if (auto* x = dyn_cast<AttributedStmt>(s)) return St(x->getSubStmt());
        if (auto* x = dyn_cast<LabelStmt>(s)) { S("label"); o["n"] = x->getName(); o["s"] = St(x->getSubStmt()); return o; }
        if (auto* x = dyn_cast<GotoStmt>(s)) { S("goto"); o["n"] = x->getLabel()->getNameAsString(); return o; }
        S("unsup"); o["c"] = s->getStmtClassName(); unsupported.insert(s->getStmtClassName());
        return o;
    }

    // ---------------------------------------------------------------- functions
    json::Object fnFull(const FunctionDecl* F) {
        json::Object o = fnRef(F);
        o["file"] = file(F->getLocation());
        o["l"] = line(F->getLocation());
        o["ret"] = ty(F->getReturnType());
        json::Array ps;
        const FunctionDecl* D = F->hasBody() ? F->getDefinition() : F;
        if (!D) D = F;
        for (auto* p : D->parameters()) {
            json::Object po; po["d"] = lid(p); po["n"] = p->getNameAsString(); po["t"] = ty(p->getType()); if (p->getType()->isReferenceType()) po["ref"] = true;
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg()) po["def"] = E(p->getDefaultArg());
            ps.push_back(std::move(po));
        }
        o["ps"] = std::move(ps);
        if (F->isVariadic()) o["variadic"] = true;
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            json::Array ov; for (auto* x : M->overridden_methods()) ov.push_back(usr(x)); o["ov"] = std::move(ov);
            if (M->isPureVirtual()) o["pure"] = true;
            o["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : M->getAccess() == AS_protected ? "protected" : "none";
        }
        if (isa<CXXConstructorDecl>(F)) o["kind"] = "ctor";
        else if (isa<CXXDestructorDecl>(F)) o["kind"] = "dtor";
        else if (isa<CXXMethodDecl>(F)) o["kind"] = "method";
        else o["kind"] = "func";
        if (F->isInAnonymousNamespace()) o["anon"] = true;
        if (F->isDeleted()) o["deleted"] = true;
        if (F->getStorageClass() == SC_Static) o["stat"] = true;
        if (F->isInlined()) o["inl"] = true;
        if (auto* CD = dyn_cast<CXXConstructorDecl>(D)) {
            json::Array in;
            if (D->doesThisDeclarationHaveABody() || D->hasBody()) for (auto* i : CD->inits()) {
                json::Object io;
                if (i->isAnyMemberInitializer()) { io["f"] = i->getAnyMember()->getNameAsString(); if (i->getAnyMember()->getType()->isReferenceType()) io["isref"] = true; }
                else if (i->isDelegatingInitializer()) io["deleg"] = true;
                else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
                io["w"] = i->isWritten(); io["l"] = line(i->getSourceLocation());
                io["e"] = E(i->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        if (D->hasBody()) o["body"] = St(D->getBody());
        return o;
    }
    std::vector<const FunctionDecl*> queue;
    void noteFn(const FunctionDecl* F) {
        if (F->isDependentContext()) return;
        const FunctionDecl* D = nullptr;
        if (!F->hasBody(D) || !D) {
            return;
        }
        if (!inRoot(D->getLocation())) return;
        if (auto* M = dyn_cast<CXXMethodDecl>(D)) if (M->getParent()->isLambda()) return;
        auto u = usr(F);
        if (!doneFn.insert(u).second) return;
        queue.push_back(F);
    }
    void drain() {
        while (!queue.empty()) {
            auto* F = queue.back(); queue.pop_back();
            functions.push_back(fnFull(F));
        }
    }
    void declFn(const FunctionDecl* F) {
        if (F->isDependentContext() || F->isImplicit()) return;
        if (F->getDescribedFunctionTemplate()) return;
        auto key = usr(F);
        if (!doneDecl.insert(key).second) return;
        json::Object o = fnRef(F);
        o["file"] = file(F->getCanonicalDecl()->getLocation());
        o["l"] = line(F->getCanonicalDecl()->getLocation());
        const FunctionDecl* D = nullptr;
        o["def"] = F->hasBody(D);
        if (F->isDeleted()) o["deleted"] = true;
        if (F->isDefaulted()) o["defaulted"] = true;
        if (F->isPureVirtual()) o["pure"] = true;
        if (F->getFormalLinkage() != Linkage::External) o["internal"] = true;
        if (F->isInlined()) o["inl"] = true;
        if (F->isTemplateInstantiation()) o["inst"] = true;
        o["ret"] = ty(F->getReturnType());
        json::Array ps; for (auto* p : F->parameters()) ps.push_back(ty(p->getType())); o["pts"] = std::move(ps);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) o["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected";
        decls.push_back(std::move(o));
    }
    void record(const CXXRecordDecl* R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
        auto u = usr(R);
        if (!doneRec.insert(u).second) return;
        json::Object o; o["q"] = qn(R); o["u"] = u; o["file"] = file(R->getLocation()); o["l"] = line(R->getLocation());
        o["t"] = ty(C.getRecordType(R));
        json::Array fs;
        for (auto* f : R->fields()) { json::Object fo; fo["n"] = f->getNameAsString(); fo["t"] = ty(f->getType()); if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer()); fo["acc"] = f->getAccess() == AS_public ? "public" : "nonpublic"; if (f->isMutable()) fo["mut"] = true; fo["l"] = line(f->getLocation()); fs.push_back(std::move(fo)); }
        o["fs"] = std::move(fs);
        json::Array bs; for (auto& b : R->bases()) { json::Object bo; bo["t"] = ty(b.getType()); if (auto* BR = b.getType()->getAsCXXRecordDecl()) bo["q"] = recName(BR); bs.push_back(std::move(bo)); } o["bs"] = std::move(bs);
        json::Array ms;
        for (auto* m : R->methods()) { json::Object mo; mo["u"] = usr(m); mo["n"] = m->getNameAsString(); if (m->isImplicit()) mo["imp"] = true; if (m->isDeleted()) mo["deleted"] = true; if (m->isUserProvided()) mo["user"] = true; if (auto* cd = dyn_cast<CXXConstructorDecl>(m)) { if (cd->isCopyConstructor()) mo["sm"] = "copyctor"; else if (cd->isMoveConstructor()) mo["sm"] = "movector"; else if (cd->isDefaultConstructor()) mo["sm"] = "defctor"; } else if (m->isCopyAssignmentOperator()) mo["sm"] = "copyasgn"; else if (m->isMoveAssignmentOperator()) mo["sm"] = "moveasgn"; else if (isa<CXXDestructorDecl>(m)) mo["sm"] = "dtor"; ms.push_back(std::move(mo)); }
        o["ms"] = std::move(ms);
        o["trivdtor"] = R->hasTrivialDestructor();
        o["size"] = int64_t(C.getTypeSizeInChars(C.getRecordType(R)).getQuantity());
        records.push_back(std::move(o));
    }
};

struct V : RecursiveASTVisitor<V> {
    Dumper& D;
    V(Dumper& d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (F->isDependentContext()) return true;
        if (D.inRoot(F->getLocation())) {
            if (auto* M = dyn_cast<CXXMethodDecl>(F)) if (M->getParent()->isLambda()) return true;
            if (F->doesThisDeclarationHaveABody()) D.noteFn(F);
            D.declFn(F);
        }
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (D.inRoot(R->getLocation())) D.record(R);
        return true;
    }
    bool VisitVarDecl(VarDecl* Vd) {
        if (Vd->isLocalVarDeclOrParm() || Vd->getDeclContext()->isDependentContext() || !D.inRoot(Vd->getLocation())) return true;
        if (!Vd->hasGlobalStorage()) return true;
        json::Object o; o["q"] = std::string(Vd->getTLSKind() != VarDecl::TLS_None ? "thread:" : "") + D.qn(Vd); o["t"] = D.ty(Vd->getType()); o["file"] = D.file(Vd->getLocation()); o["l"] = D.line(Vd->getLocation());
        if (Vd->getInit() && !Vd->getInit()->isValueDependent()) o["init"] = D.E(Vd->getInit());
        o["def"] = Vd->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
        D.globals.push_back(std::move(o));
        return true;
    }
};

struct Cons : ASTConsumer {
    CompilerInstance& CI;
    Cons(CompilerInstance& ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext& Ctx) override {
        if (CI.getDiagnostics().hasErrorOccurred()) return;
        Dumper d(Ctx);
        V v(d);
        v.TraverseDecl(Ctx.getTranslationUnitDecl());
        d.drain();
        json::Object root;
        root["functions"] = std::move(d.functions);
        root["decls"] = std::move(d.decls);
        root["records"] = std::move(d.records);
        root["globals"] = std::move(d.globals);
        json::Array un; for (auto& s : d.unsupported) un.push_back(s);
        root["unsupported"] = std::move(un);
        std::error_code ec;
        llvm::raw_fd_ostream os(Out, ec);
        os << json::Value(std::move(root));
    }
};
struct Act : ASTFrontendAction {
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef) override { return std::make_unique<Cons>(CI); }
};
}

int main(int argc, const char** argv) {
    auto op = tooling::CommonOptionsParser::create(argc, argv, Cat);
    if (!op) { llvm::errs() << llvm::toString(op.takeError()); return 2; }
    tooling::ClangTool tool(op->getCompilations(), op->getSourcePathList());
    return tool.run(tooling::newFrontendActionFactory<Act>().get());
}
