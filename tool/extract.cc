// mitoextract: dump the *resolved* program (non-dependent functions, template instantiations,
// records, namespace/static variables) under the given source roots as compact JSON.
//
// usage: mitoextract -root DIR [-root DIR ...] -o OUT.json FILE.cc -- <clang flags>
//
// The output is one JSON object: {"files":[..],"types":[..],"functions":[..],"records":[..],
// "vars":[..],"patterns":[..],"diags":[..]}; consumed by /verif/lib/db.py.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Lex/Lexer.h"
#include "clang/Sema/Sema.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/ADT/APFloat.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/Path.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> Roots;
static std::string OutPath;

struct DiagRec { std::string level, file, msg; unsigned line; };
static std::vector<DiagRec> Diags;

class DiagCollector : public DiagnosticConsumer {
  public:
    void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic & D) override
    {
        DiagnosticConsumer::HandleDiagnostic(L, D);
        if (L < DiagnosticsEngine::Error) return;
        llvm::SmallString<256> m;
        D.FormatDiagnostic(m);
        DiagRec r{ L == DiagnosticsEngine::Fatal ? "fatal" : "error", "", m.str().str(), 0 };
        if (D.hasSourceManager() && D.getLocation().isValid()) {
            auto P = D.getSourceManager().getPresumedLoc(
                D.getSourceManager().getExpansionLoc(D.getLocation()));
            if (P.isValid()) { r.file = P.getFilename(); r.line = P.getLine(); }
        }
        Diags.push_back(r);
    }
};

class Dumper {
  public:
    Dumper(ASTContext & C, Sema & S) :
        Ctx(C), SM(C.getSourceManager()), TheSema(S), PP(C.getPrintingPolicy())
    {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = true;
        PP.Bool = true;
        PP.SuppressInlineNamespace = true;
        PP.PrintCanonicalTypes = true;
        PP.SuppressDefaultTemplateArgs = false;
    }

    ASTContext & Ctx;
    SourceManager & SM;
    Sema & TheSema;
    PrintingPolicy PP;

    std::map<const Decl *, int> ids;
    std::map<std::string, int> typeIdx;
    std::vector<std::string> types;
    std::set<std::string> enums;
    std::map<std::string, int> fileIdx;
    std::vector<std::string> files;
    json::Array functions, records, vars, patterns;
    json::Array externs;
    std::set<int> externSeen;
    std::set<const Decl *> doneFn, doneRec, doneVar;

    int id(const Decl * D)
    {
        if (!D) return -1;
        D = D->getCanonicalDecl();
        auto it = ids.find(D);
        if (it != ids.end()) return it->second;
        int n = (int) ids.size();
        ids[D] = n;
        return n;
    }
    int type(QualType T)
    {
        std::string s;
        if (T.isNull()) s = "<null>";
        else {
            s = T.getCanonicalType().getAsString(PP);
            auto U = T.getCanonicalType().getNonReferenceType().getUnqualifiedType();
            if (U->isEnumeralType()) enums.insert(U.getAsString(PP));
        }
        auto it = typeIdx.find(s);
        if (it != typeIdx.end()) return it->second;
        int n = (int) types.size();
        types.push_back(s);
        typeIdx[s] = n;
        return n;
    }
    std::string filename(SourceLocation L)
    {
        if (L.isInvalid()) return "";
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        if (P.isInvalid()) return "";
        return P.getFilename();
    }
    int file(SourceLocation L)
    {
        std::string f = filename(L);
        if (f.empty()) return -1;
        llvm::SmallString<256> p(f);
        llvm::sys::path::remove_dots(p, true);
        f = p.str().str();
        auto it = fileIdx.find(f);
        if (it != fileIdx.end()) return it->second;
        int n = (int) files.size();
        files.push_back(f);
        fileIdx[f] = n;
        return n;
    }
    unsigned line(SourceLocation L)
    {
        if (L.isInvalid()) return 0;
        auto P = SM.getPresumedLoc(SM.getExpansionLoc(L));
        return P.isInvalid() ? 0 : P.getLine();
    }
    bool inRoots(SourceLocation L)
    {
        std::string f = filename(L);
        if (f.empty()) return false;
        llvm::SmallString<256> p(f);
        llvm::sys::path::remove_dots(p, true);
        for (auto & r : Roots)
            if (llvm::StringRef(p).starts_with(r)) return true;
        return false;
    }
    std::string qname(const NamedDecl * D)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    std::string targs(llvm::ArrayRef<TemplateArgument> A)
    {
        std::string s;
        llvm::raw_string_ostream os(s);
        bool first = true;
        for (auto & a : A) {
            if (!first) os << ", ";
            first = false;
            a.print(PP, os, true);
        }
        return os.str();
    }

    // ---- externals (callee info) --------------------------------------------------------------
    int fnref(const FunctionDecl * F)
    {
        if (!F) return -1;
        int i = id(F);
        if (externSeen.insert(i).second) {
            json::Object o;
            o["id"] = i;
            o["q"] = qname(F);
            o["n"] = F->getNameAsString();
            o["ret"] = type(F->getReturnType());
            if (auto * M = dyn_cast<CXXMethodDecl>(F)) {
                o["cls"] = id(M->getParent());
                o["ct"] = type(Ctx.getRecordType(M->getParent()));
                if (M->isStatic()) o["static"] = true;
                if (M->isConst()) o["const"] = true;
                if (M->isVirtual()) o["virt"] = true;
                if (auto * C = dyn_cast<CXXConstructorDecl>(M)) {
                    o["ctor"] = C->isCopyConstructor() ? "copy"
                              : C->isMoveConstructor() ? "move"
                              : C->isDefaultConstructor() ? "default" : "other";
                }
                if (isa<CXXDestructorDecl>(M)) o["dtor"] = true;
                if (M->isCopyAssignmentOperator()) o["asg"] = "copy";
                if (M->isMoveAssignmentOperator()) o["asg"] = "move";
            }
            if (auto * A = F->getTemplateSpecializationArgs()) o["ta"] = targs(A->asArray());
            if (auto * P = F->getTemplateInstantiationPattern()) o["pat"] = id(P);
            if (F->isDefaulted()) o["defaulted"] = true;
            if (F->isDeleted()) o["deleted"] = true;
            if (F->isImplicit()) o["implicit"] = true;
            if (F->isNoReturn()) o["noret"] = true;
            json::Array ps;
            for (auto * p : F->parameters()) ps.push_back(type(p->getType()));
            o["pt"] = std::move(ps);
            externs.push_back(std::move(o));
        }
        return i;
    }

    // ---- expressions --------------------------------------------------------------------------
    json::Object node(const char * k, const Stmt * S)
    {
        json::Object o;
        o["k"] = k;
        o["l"] = line(S->getBeginLoc());
        return o;
    }

    static const Expr * skip(const Expr * E)
    {
        while (E) {
            if (auto * P = dyn_cast<ParenExpr>(E)) E = P->getSubExpr();
            else if (auto * P = dyn_cast<ConstantExpr>(E)) E = P->getSubExpr();
            else if (auto * P = dyn_cast<MaterializeTemporaryExpr>(E)) E = P->getSubExpr();
            else if (auto * P = dyn_cast<SubstNonTypeTemplateParmExpr>(E)) E = P->getReplacement();
            else if (auto * P = dyn_cast<ExprWithCleanups>(E)) E = P->getSubExpr();
            else if (auto * P = dyn_cast<CXXDefaultArgExpr>(E)) E = P->getExpr();
            else if (auto * P = dyn_cast<CXXDefaultInitExpr>(E)) E = P->getExpr();
            else if (auto * P = dyn_cast<OpaqueValueExpr>(E)) {
                if (!P->getSourceExpr()) return E;
                E = P->getSourceExpr();
            }
            else if (auto * P = dyn_cast<UnaryOperator>(E)) {
                if (P->getOpcode() == UO_Extension) E = P->getSubExpr();
                else return E;
            }
            else if (auto * P = dyn_cast<ImplicitCastExpr>(E)) {
                switch (P->getCastKind()) {
                    case CK_NoOp: case CK_FunctionToPointerDecay:
                    case CK_DerivedToBase:
                    case CK_UncheckedDerivedToBase: case CK_UserDefinedConversion:
                    case CK_ConstructorConversion: case CK_BuiltinFnToFnPtr:
                    case CK_AtomicToNonAtomic: case CK_NonAtomicToAtomic:
                        E = P->getSubExpr(); break;
                    default: return E;
                }
            }
            else return E;
        }
        return E;
    }

    std::string fstr(const llvm::APFloat & F)
    {
        llvm::SmallString<64> s;
        F.toString(s, 0, 0, false);
        return s.str().str();
    }

    json::Value apvalue(const APValue & V, QualType T)
    {
        switch (V.getKind()) {
            case APValue::Int: {
                llvm::SmallString<32> s;
                V.getInt().toString(s, 10);
                json::Object o; o["i"] = s.str().str(); return o;
            }
            case APValue::Float: {
                json::Object o; o["f"] = std::to_string(V.getFloat().convertToDouble());
                char b[64]; snprintf(b, sizeof b, "%a", V.getFloat().convertToDouble());
                o["f"] = std::string(b); return o;
            }
            case APValue::Array: {
                json::Array a;
                unsigned n = V.getArrayInitializedElts();
                for (unsigned i = 0; i < V.getArraySize(); ++i)
                    a.push_back(apvalue(i < n ? V.getArrayInitializedElt(i) : V.getArrayFiller(), QualType()));
                return a;
            }
            case APValue::Struct: {
                json::Object o;
                json::Array b, f;
                for (unsigned i = 0; i < V.getStructNumBases(); ++i) b.push_back(apvalue(V.getStructBase(i), QualType()));
                for (unsigned i = 0; i < V.getStructNumFields(); ++i) f.push_back(apvalue(V.getStructField(i), QualType()));
                if (!b.empty()) o["b"] = std::move(b);
                o["s"] = std::move(f);
                return o;
            }
            default: return nullptr;
        }
    }

    json::Value constval(const Expr * E)
    {
        if (E->isValueDependent() || E->isTypeDependent() || E->containsErrors()) return nullptr;
        if (!E->getType()->isIntegralOrEnumerationType()) return nullptr;
        if (!E->isPRValue()) return nullptr;
        Expr::EvalResult R;
        if (E->EvaluateAsInt(R, Ctx, Expr::SE_NoSideEffects)) {
            llvm::SmallString<32> s;
            R.Val.getInt().toString(s, 10);
            return s.str().str();
        }
        return nullptr;
    }

    json::Array exprs(llvm::ArrayRef<const Expr *> A)
    {
        json::Array r;
        for (auto * e : A) r.push_back(expr(e));
        return r;
    }

    json::Value expr(const Expr * E0)
    {
        if (!E0) return nullptr;
        // keep track of temporaries with non-trivial destructors (needed by ownership rules)
        const Expr * E = skip(E0);
        if (!E) return nullptr;
        json::Value r = expr1(E);
        if (auto * o = r.getAsObject()) {
            if (!o->get("t")) (*o)["t"] = type(E->getType());
            if (!o->get("cv") && !isa<CallExpr>(E) ) {
                auto c = constval(E);
                if (c.kind() != json::Value::Null) (*o)["cv"] = std::move(c);
            } else if (isa<CallExpr>(E)) {
                auto c = constval(E);
                if (c.kind() != json::Value::Null) (*o)["cv"] = std::move(c);
            }
        }
        return r;
    }

    json::Value expr1(const Expr * E)
    {
        if (auto * L = dyn_cast<IntegerLiteral>(E)) {
            auto o = node("int", E);
            llvm::SmallString<32> s; L->getValue().toString(s, 10, L->getType()->isSignedIntegerType());
            o["v"] = s.str().str(); return o;
        }
        if (auto * L = dyn_cast<CXXBoolLiteralExpr>(E)) { auto o = node("bool", E); o["v"] = L->getValue(); return o; }
        if (auto * L = dyn_cast<FloatingLiteral>(E)) {
            auto o = node("float", E); o["v"] = fstr(L->getValue());
            // source spelling
            llvm::SmallString<64> buf;
            bool inv = false;
            auto sp = Lexer::getSpelling(SM.getSpellingLoc(L->getLocation()), buf, SM, Ctx.getLangOpts(), &inv);
            if (!inv) o["sp"] = sp.str();
            return o; }
        if (auto * L = dyn_cast<StringLiteral>(E)) {
            auto o = node("str", E);
            if (L->getCharByteWidth() == 1) {
                std::string s = L->getString().str();
                if (!json::isUTF8(s)) s = json::fixUTF8(s);
                o["v"] = s; }
            return o; }
        if (auto * L = dyn_cast<CharacterLiteral>(E)) { auto o = node("int", E); o["v"] = std::to_string(L->getValue()); return o; }
        if (isa<CXXNullPtrLiteralExpr>(E) || isa<GNUNullExpr>(E)) return node("null", E);
        if (isa<CXXThisExpr>(E)) return node("this", E);
        if (auto * D = dyn_cast<DeclRefExpr>(E)) {
            auto * V = D->getDecl();
            auto o = node("ref", E);
            o["n"] = V->getNameAsString();
            o["d"] = id(V);
            if (auto * F = dyn_cast<FunctionDecl>(V)) { o["dk"] = "fn"; fnref(F); }
            else if (isa<ParmVarDecl>(V)) o["dk"] = "parm";
            else if (auto * VD = dyn_cast<VarDecl>(V)) {
                o["dk"] = VD->isStaticDataMember() ? "smem" : VD->hasLocalStorage() ? "var" : VD->isStaticLocal() ? "slocal" : "gvar";
                if (!VD->hasLocalStorage()) {
                    o["q"] = qname(VD);
                    if (!VD->isStaticLocal() && !inRoots(VD->getLocation())) doVar(VD, true);
                }
            }
            else if (auto * EC = dyn_cast<EnumConstantDecl>(V)) {
                o["dk"] = "enum";
                o["q"] = qname(EC);
                llvm::SmallString<32> s; EC->getInitVal().toString(s, 10); o["v"] = s.str().str();
            }
            else if (auto * B = dyn_cast<BindingDecl>(V)) {
                o["dk"] = "bind";
                if (B->getBinding()) {
                    if (auto * HV = B->getHoldingVar()) {
                        if (HV->getInit()) o["b"] = expr(HV->getInit());
                    } else o["b"] = expr(B->getBinding());
                }
            }
            else if (auto * T = dyn_cast<TemplateParamObjectDecl>(V)) { o["dk"] = "tpo"; o["av"] = apvalue(T->getValue(), T->getType()); }
            else o["dk"] = V->getDeclKindName();
            return o;
        }
        if (auto * M = dyn_cast<MemberExpr>(E)) {
            auto o = node("mem", E);
            o["n"] = M->getMemberDecl()->getNameAsString();
            o["d"] = id(M->getMemberDecl());
            if (auto * F = dyn_cast<CXXMethodDecl>(M->getMemberDecl())) fnref(F), o["m"] = true;
            if (isa<VarDecl>(M->getMemberDecl())) { o["sm"] = true; o["q"] = qname(M->getMemberDecl()); }
            if (auto * F = dyn_cast<FieldDecl>(M->getMemberDecl())) { o["rc"] = type(Ctx.getRecordType(F->getParent())); }
            if (M->isArrow()) o["arrow"] = true;
            o["b"] = expr(M->getBase());
            return o;
        }
        if (auto * R = dyn_cast<CXXRewrittenBinaryOperator>(E)) {
            return expr1(skip(R->getSemanticForm()));
        }
        if (auto * C = dyn_cast<CXXOperatorCallExpr>(E)) {
            auto o = node("call", E);
            auto * F = C->getDirectCallee();
            o["f"] = fnref(F);
            o["op"] = getOperatorSpelling(C->getOperator());
            std::vector<const Expr *> as(C->getArgs(), C->getArgs() + C->getNumArgs());
            if (F && isa<CXXMethodDecl>(F) && !cast<CXXMethodDecl>(F)->isStatic()) {
                o["o"] = expr(as[0]);
                as.erase(as.begin());
            } else if (F && isa<CXXMethodDecl>(F)) as.erase(as.begin());
            if (!F) { o["fe"] = expr(C->getCallee()); }
            o["a"] = exprs(as);
            return o;
        }
        if (auto * C = dyn_cast<CXXMemberCallExpr>(E)) {
            auto o = node("call", E);
            auto * F = C->getMethodDecl();
            o["f"] = fnref(F);
            if (!F) o["fe"] = expr(C->getCallee());
            if (C->getImplicitObjectArgument()) o["o"] = expr(C->getImplicitObjectArgument());
            if (auto * ME = dyn_cast<MemberExpr>(C->getCallee()->IgnoreParens())) {
                if (ME->isArrow()) o["arrow"] = true;
                if (F && F->isVirtual() && ME->performsVirtualDispatch(Ctx.getLangOpts())) o["virt"] = true;
            }
            o["a"] = exprs({ C->getArgs(), C->getNumArgs() });
            return o;
        }
        if (auto * C = dyn_cast<CallExpr>(E)) {
            auto o = node("call", E);
            auto * F = C->getDirectCallee();
            o["f"] = fnref(F);
            if (!F) o["fe"] = expr(C->getCallee());
            o["a"] = exprs({ C->getArgs(), C->getNumArgs() });
            // pseudo destructor
            if (auto * PD = dyn_cast<CXXPseudoDestructorExpr>(C->getCallee()->IgnoreParens())) { o["pdtor"] = expr(PD->getBase()); }
            return o;
        }
        if (auto * C = dyn_cast<CXXConstructExpr>(E)) {
            auto o = node("ctor", E);
            o["f"] = fnref(C->getConstructor());
            if (C->isElidable()) o["elide"] = true;
            if (C->isListInitialization()) o["list"] = true;
            if (C->isStdInitListInitialization()) o["sil"] = true;
            if (C->requiresZeroInitialization()) o["zero"] = true;
            if (isa<CXXTemporaryObjectExpr>(C)) o["tmp"] = true;
            o["a"] = exprs({ C->getArgs(), C->getNumArgs() });
            return o;
        }
        if (auto * C = dyn_cast<CXXInheritedCtorInitExpr>(E)) {
            auto o = node("ctor", E);
            o["f"] = fnref(C->getConstructor());
            o["inh"] = true;
            o["a"] = json::Array();
            return o;
        }
        if (auto * N = dyn_cast<CXXNewExpr>(E)) {
            auto o = node("new", E);
            o["nt"] = type(N->getAllocatedType());
            json::Array pl;
            for (unsigned i = 0; i < N->getNumPlacementArgs(); ++i) pl.push_back(expr(N->getPlacementArg(i)));
            o["place"] = std::move(pl);
            if (N->isArray() && N->getArraySize()) o["sz"] = expr(*N->getArraySize());
            if (N->getInitializer()) o["init"] = expr(N->getInitializer());
            return o;
        }
        if (auto * N = dyn_cast<CXXDeleteExpr>(E)) {
            auto o = node("delete", E);
            o["e"] = expr(N->getArgument());
            if (N->isArrayForm()) o["array"] = true;
            return o;
        }
        if (auto * U = dyn_cast<UnaryOperator>(E)) {
            auto o = node("un", E);
            o["op"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str();
            if (U->isPostfix()) o["post"] = true;
            o["e"] = expr(U->getSubExpr());
            return o;
        }
        if (auto * B = dyn_cast<CompoundAssignOperator>(E)) {
            auto o = node("casg", E);
            auto s = B->getOpcodeStr().str();
            o["op"] = s.substr(0, s.size() - 1);
            // the type the operation is done in: the result is converted back
            o["ct"] = type(B->getComputationResultType());
            o["x"] = expr(B->getLHS());
            o["y"] = expr(B->getRHS());
            return o;
        }
        if (auto * B = dyn_cast<BinaryOperator>(E)) {
            auto o = node(B->getOpcode() == BO_Assign ? "asg" : "bin", E);
            o["op"] = B->getOpcodeStr().str();
            o["x"] = expr(B->getLHS());
            o["y"] = expr(B->getRHS());
            return o;
        }
        if (auto * C = dyn_cast<AbstractConditionalOperator>(E)) {
            auto o = node("cond", E);
            o["c"] = expr(C->getCond());
            o["x"] = expr(C->getTrueExpr());
            o["y"] = expr(C->getFalseExpr());
            return o;
        }
        if (auto * S = dyn_cast<ArraySubscriptExpr>(E)) {
            auto o = node("idx", E);
            o["b"] = expr(S->getBase());
            o["i"] = expr(S->getIdx());
            return o;
        }
        if (auto * B = dyn_cast<CXXBindTemporaryExpr>(E)) {
            auto o = node("tmp", E);
            o["e"] = expr(B->getSubExpr());
            return o;
        }
        if (auto * I = dyn_cast<ImplicitCastExpr>(E)) {
            if (I->getCastKind() == CK_LValueToRValue || I->getCastKind() == CK_ArrayToPointerDecay) {
                auto o = node(I->getCastKind() == CK_LValueToRValue ? "ld" : "decay", E);
                o["e"] = expr(I->getSubExpr());
                return o;
            }
        }
        if (auto * C = dyn_cast<CastExpr>(E)) {
            auto o = node("cast", E);
            o["ck"] = C->getCastKindName();
            if (isa<CXXReinterpretCastExpr>(C)) o["how"] = "reinterpret";
            else if (isa<CXXConstCastExpr>(C)) o["how"] = "const";
            else if (isa<ImplicitCastExpr>(C)) o["how"] = "implicit";
            else if (isa<CXXDynamicCastExpr>(C)) o["how"] = "dynamic";
            else if (isa<CXXStaticCastExpr>(C)) o["how"] = "static";
            else o["how"] = "cstyle";
            o["e"] = expr(C->getSubExpr());
            return o;
        }
        if (auto * L = dyn_cast<LambdaExpr>(E)) {
            auto o = node("lambda", E);
            o["cls"] = id(L->getLambdaClass());
            o["f"] = fnref(L->getCallOperator());
            json::Array caps;
            auto init = L->capture_init_begin();
            for (auto & c : L->captures()) {
                json::Object co;
                if (c.capturesThis()) co["this"] = true;
                else if (c.capturesVariable()) {
                    co["d"] = id(c.getCapturedVar());
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["ref"] = c.getCaptureKind() == LCK_ByRef;
                }
                if (init != L->capture_init_end()) { if (*init) co["init"] = expr(*init); ++init; }
                caps.push_back(std::move(co));
            }
            o["caps"] = std::move(caps);
            if (!L->getCallOperator()->isDependentContext()) doFunction(L->getCallOperator());
            // generic lambdas: dump all instantiations of the call operator
            if (auto * FT = L->getCallOperator()->getDescribedFunctionTemplate())
                for (auto * S : FT->specializations()) { doFunction(S); }
            return o;
        }
        if (auto * I = dyn_cast<InitListExpr>(E)) {
            auto * S = I->isSemanticForm() ? I : I->getSemanticForm();
            if (!S) S = I;
            auto o = node("list", E);
            json::Array a;
            for (auto * e : S->inits()) a.push_back(expr(e));
            o["a"] = std::move(a);
            if (S->hasArrayFiller()) o["filler"] = expr(S->getArrayFiller());
            return o;
        }
        if (auto * I = dyn_cast<CXXParenListInitExpr>(E)) {
            auto o = node("list", E);
            json::Array a;
            for (auto * e : I->getInitExprs()) a.push_back(expr(e));
            o["a"] = std::move(a);
            return o;
        }
        if (auto * I = dyn_cast<CXXStdInitializerListExpr>(E)) { return expr1(skip(I->getSubExpr())); }
        if (isa<ImplicitValueInitExpr>(E) || isa<CXXScalarValueInitExpr>(E)) return node("zero", E);
        if (auto * T = dyn_cast<CXXThrowExpr>(E)) { auto o = node("throw", E); o["e"] = expr(T->getSubExpr()); return o; }
        if (auto * T = dyn_cast<StmtExpr>(E)) { auto o = node("stmtexpr", E); o["s"] = stmt(T->getSubStmt()); return o; }
        if (auto * T = dyn_cast<UnaryExprOrTypeTraitExpr>(E)) {
            auto o = node("sizeof", E);
            if (T->isArgumentType()) o["at"] = type(T->getArgumentType());
            return o; }
        if (auto * A = dyn_cast<ArrayInitLoopExpr>(E)) { auto o = node("arrinit", E); o["e"] = expr(A->getCommonExpr()->getSourceExpr()); return o; }
        if (auto * A = dyn_cast<SizeOfPackExpr>(E)) { (void) A; return node("sizeofpack", E); }
        if (auto * P = dyn_cast<PredefinedExpr>(E)) { (void) P; return node("str", E); }
        if (auto * P = dyn_cast<SourceLocExpr>(E)) { (void) P; return node("srcloc", E); }
        if (auto * P = dyn_cast<CXXFoldExpr>(E)) { (void) P; }
        if (isa<TypeTraitExpr>(E) || isa<RequiresExpr>(E) || isa<CXXNoexceptExpr>(E) || isa<ConceptSpecializationExpr>(E)) return node("trait", E);
        auto o = node("other", E);
        o["cls"] = E->getStmtClassName();
        json::Array ch;
        for (auto * c : E->children())
            if (auto * ce = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(ce));
        o["a"] = std::move(ch);
        return o;
    }

    // ---- statements ---------------------------------------------------------------------------
    json::Value vardecl(const VarDecl * V)
    {
        json::Object o;
        o["k"] = "var";
        o["l"] = line(V->getLocation());
        o["d"] = id(V);
        o["n"] = V->getNameAsString();
        o["t"] = type(V->getType());
        if (V->isStaticLocal()) o["static"] = true;
        if (V->isConstexpr()) o["constexpr"] = true;
        if (auto * D = dyn_cast<DecompositionDecl>(V)) {
            json::Array b;
            for (auto * x : D->bindings()) {
                json::Object bo;
                bo["d"] = id(x); bo["n"] = x->getNameAsString();
                if (auto * HV = x->getHoldingVar()) { if (HV->getInit()) bo["e"] = expr(HV->getInit()); }
                else if (x->getBinding()) bo["e"] = expr(x->getBinding());
                b.push_back(std::move(bo));
            }
            o["binds"] = std::move(b);
        }
        if (V->getInit()) {
            o["init"] = expr(V->getInit());
            if (V->isConstexpr() && !V->getInit()->isValueDependent() && !V->getInit()->containsErrors() && !V->isInvalidDecl())
                if (auto * AV = V->evaluateValue()) o["av"] = apvalue(*AV, V->getType());
        }
        return o;
    }

    json::Value stmt(const Stmt * S)
    {
        if (!S) return nullptr;
        if (auto * E = dyn_cast<Expr>(S)) {
            json::Object o = node("expr", S);
            o["e"] = expr(E);
            return o;
        }
        if (auto * C = dyn_cast<CompoundStmt>(S)) {
            auto o = node("block", S);
            json::Array a;
            for (auto * s : C->body()) a.push_back(stmt(s));
            o["s"] = std::move(a);
            return o;
        }
        if (auto * D = dyn_cast<DeclStmt>(S)) {
            auto o = node("decl", S);
            json::Array a;
            for (auto * d : D->decls())
                if (auto * V = dyn_cast<VarDecl>(d)) a.push_back(vardecl(V));
            o["v"] = std::move(a);
            return o;
        }
        if (auto * I = dyn_cast<IfStmt>(S)) {
            auto o = node("if", S);
            if (I->isConsteval()) { o["consteval"] = true; }
            if (I->isConstexpr()) {
                o["constexpr"] = true;
                // the discarded branch of an instantiation is null already; resolve statically
                if (auto nd = I->getNondiscardedCase(Ctx)) {
                    json::Object b = node("block", S);
                    json::Array a;
                    if (I->getInit()) a.push_back(stmt(I->getInit()));
                    if (*nd) a.push_back(stmt(*nd));
                    b["s"] = std::move(a);
                    b["ifc"] = true;
                    return b;
                }
            }
            if (I->getInit()) o["init"] = stmt(I->getInit());
            if (I->getConditionVariable()) o["cvar"] = vardecl(I->getConditionVariable());
            o["c"] = expr(I->getCond());
            o["x"] = stmt(I->getThen());
            if (I->getElse()) o["y"] = stmt(I->getElse());
            return o;
        }
        if (auto * W = dyn_cast<WhileStmt>(S)) {
            auto o = node("while", S);
            if (W->getConditionVariable()) o["cvar"] = vardecl(W->getConditionVariable());
            o["c"] = expr(W->getCond());
            o["b"] = stmt(W->getBody());
            return o;
        }
        if (auto * W = dyn_cast<DoStmt>(S)) {
            auto o = node("do", S);
            o["c"] = expr(W->getCond());
            o["b"] = stmt(W->getBody());
            return o;
        }
        if (auto * F = dyn_cast<ForStmt>(S)) {
            auto o = node("for", S);
            if (F->getInit()) o["init"] = stmt(F->getInit());
            if (F->getCond()) o["c"] = expr(F->getCond());
            if (F->getInc()) o["inc"] = expr(F->getInc());
            o["b"] = stmt(F->getBody());
            return o;
        }
        if (auto * F = dyn_cast<CXXForRangeStmt>(S)) {
            auto o = node("forrange", S);
            o["range"] = expr(F->getRangeInit());
            if (F->getLoopVariable()) o["var"] = vardecl(F->getLoopVariable());
            if (F->getBeginStmt()) o["begin"] = stmt(F->getBeginStmt());
            if (F->getEndStmt()) o["end"] = stmt(F->getEndStmt());
            if (F->getRangeStmt()) o["rs"] = stmt(F->getRangeStmt());
            if (F->getCond()) o["c"] = expr(F->getCond());
            if (F->getInc()) o["inc"] = expr(F->getInc());
            o["b"] = stmt(F->getBody());
            return o;
        }
        if (auto * R = dyn_cast<ReturnStmt>(S)) {
            auto o = node("ret", S);
            if (R->getRetValue()) o["e"] = expr(R->getRetValue());
            return o;
        }
        if (isa<BreakStmt>(S)) return node("break", S);
        if (isa<ContinueStmt>(S)) return node("continue", S);
        if (isa<NullStmt>(S)) return node("nop", S);
        if (auto * Sw = dyn_cast<SwitchStmt>(S)) {
            auto o = node("switch", S);
            o["c"] = expr(Sw->getCond());
            o["b"] = stmt(Sw->getBody());
            return o;
        }
        if (auto * C = dyn_cast<CaseStmt>(S)) {
            auto o = node("case", S);
            o["e"] = expr(C->getLHS());
            o["s"] = stmt(C->getSubStmt());
            return o;
        }
        if (auto * C = dyn_cast<DefaultStmt>(S)) { auto o = node("default", S); o["s"] = stmt(C->getSubStmt()); return o; }
        if (auto * T = dyn_cast<CXXTryStmt>(S)) {
            auto o = node("try", S);
            o["b"] = stmt(T->getTryBlock());
            json::Array h;
            for (unsigned i = 0; i < T->getNumHandlers(); ++i) h.push_back(stmt(T->getHandler(i)->getHandlerBlock()));
            o["h"] = std::move(h);
            return o;
        }
        if (auto * A = dyn_cast<AttributedStmt>(S)) return stmt(A->getSubStmt());
        if (auto * L = dyn_cast<LabelStmt>(S)) { auto o = node("label", S); o["s"] = stmt(L->getSubStmt()); return o; }
        auto o = node("ostmt", S);
        o["cls"] = S->getStmtClassName();
        return o;
    }

    // ---- declarations -------------------------------------------------------------------------
    // how the linker sees a definition: "strong" (one in the program), "odr" (merged), "internal" (one for each translation unit)
    static const char * linkage(GVALinkage L)
    {
        switch (L) {
        case GVA_StrongExternal: return "strong";
        case GVA_Internal: return "internal";
        default: return "odr";
        }
    }
    void doFunction(const FunctionDecl * F)
    {
        if (!F) return;
        const FunctionDecl * Def = nullptr;
        bool has = F->hasBody(Def);
        if (!has) Def = F;
        if (Def->isDependentContext()) return;
        if (!doneFn.insert(Def->getCanonicalDecl()).second) return;
        if (!has) return;
        json::Object o;
        o["id"] = id(Def);
        fnref(Def);
        o["q"] = qname(Def);
        o["n"] = Def->getNameAsString();
        o["file"] = file(Def->getLocation());
        o["l"] = line(Def->getLocation());
        o["ret"] = type(Def->getReturnType());
        json::Array ps;
        for (auto * p : Def->parameters()) {
            json::Object po;
            po["d"] = id(p);
            po["n"] = p->getNameAsString();
            po["t"] = type(p->getType());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto * A = Def->getTemplateSpecializationArgs()) o["ta"] = targs(A->asArray());
        if (auto * P = Def->getTemplateInstantiationPattern()) { o["pat"] = id(P); o["inst"] = true; }
        switch (Def->getAccess()) { case AS_public: o["acc"] = "public"; break; case AS_private: o["acc"] = "private"; break;
            case AS_protected: o["acc"] = "protected"; break; default: break; }
        if (Def->isDefaulted()) o["defaulted"] = true;
        o["lk"] = linkage(Ctx.GetGVALinkageForFunction(Def));
        if (Def->isImplicit()) o["implicit"] = true;
        if (Def->isConstexpr()) o["constexpr"] = true;
        o["kind"] = "fn";
        if (auto * M = dyn_cast<CXXMethodDecl>(Def)) {
            o["kind"] = "method";
            o["cls"] = id(M->getParent());
            o["ct"] = type(Ctx.getRecordType(M->getParent()));
            if (M->getParent()->isLambda()) o["lambda"] = true;
            if (M->isStatic()) o["static"] = true;
            if (M->isConst()) o["const"] = true;
            if (M->isVirtual()) o["virt"] = true;
            json::Array ov;
            for (auto * b : M->overridden_methods()) ov.push_back(fnref(b));
            if (!ov.empty()) o["over"] = std::move(ov);
            if (M->isCopyAssignmentOperator()) o["asg"] = "copy";
            if (M->isMoveAssignmentOperator()) o["asg"] = "move";
        }
        if (auto * C = dyn_cast<CXXConstructorDecl>(Def)) {
            o["kind"] = "ctor";
            o["ctor"] = C->isCopyConstructor() ? "copy" : C->isMoveConstructor() ? "move" : C->isDefaultConstructor() ? "default" : "other";
            json::Array in;
            for (auto * i : C->inits()) {
                json::Object io;
                io["l"] = line(i->getSourceLocation());
                if (i->isMemberInitializer()) { io["d"] = id(i->getMember()); io["n"] = i->getMember()->getNameAsString(); }
                else if (i->isBaseInitializer()) { io["base"] = type(QualType(i->getBaseClass(), 0)); }
                else if (i->isDelegatingInitializer()) io["deleg"] = true;
                if (i->isWritten()) io["written"] = true;
                io["e"] = expr(i->getInit());
                in.push_back(std::move(io));
            }
            o["inits"] = std::move(in);
        }
        if (isa<CXXDestructorDecl>(Def)) o["kind"] = "dtor";
        o["body"] = stmt(Def->getBody());
        functions.push_back(std::move(o));
    }

    void doRecord(const CXXRecordDecl * R)
    {
        R = R->getDefinition();
        if (!R || R->isDependentContext() || !doneRec.insert(R->getCanonicalDecl()).second) return;
        if (R->isInvalidDecl()) return;
        json::Object o;
        o["id"] = id(R);
        o["q"] = qname(R);
        o["t"] = type(Ctx.getRecordType(R));
        o["file"] = file(R->getLocation());
        o["l"] = line(R->getLocation());
        if (R->isLambda()) o["lambda"] = true;
        o["sz"] = (int64_t) Ctx.getTypeSizeInChars(Ctx.getRecordType(R)).getQuantity();
        if (auto * S = dyn_cast<ClassTemplateSpecializationDecl>(R)) {
            o["ta"] = targs(S->getTemplateArgs().asArray());
            o["tmpl"] = qname(S->getSpecializedTemplate());
            o["expl"] = S->isExplicitSpecialization();
        }
        json::Array bs;
        for (auto & b : R->bases()) {
            json::Object bo;
            bo["t"] = type(b.getType());
            if (auto * BR = b.getType()->getAsCXXRecordDecl()) { bo["id"] = id(BR); if (inRoots(BR->getLocation())) doRecord(BR); }
            bo["acc"] = b.getAccessSpecifier() == AS_public ? "public" : b.getAccessSpecifier() == AS_private ? "private" : "protected";
            bs.push_back(std::move(bo));
        }
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto * f : R->fields()) {
            json::Object fo;
            fo["d"] = id(f);
            fo["n"] = f->getNameAsString();
            fo["t"] = type(f->getType());
            fo["l"] = line(f->getLocation());
            fo["acc"] = f->getAccess() == AS_public ? "public" : f->getAccess() == AS_private ? "private" : "protected";
            if (f->isMutable()) fo["mutable"] = true;
            if (f->getType().isConstQualified()) fo["const"] = true;
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto * d : R->decls()) {
            const FunctionDecl * F = dyn_cast<FunctionDecl>(d);
            if (auto * FT = dyn_cast<FunctionTemplateDecl>(d)) F = FT->getTemplatedDecl();
            if (!F) continue;
            json::Object mo;
            mo["id"] = id(F);
            mo["n"] = F->getNameAsString();
            mo["l"] = line(F->getLocation());
            mo["ft"] = type(F->getType());
            mo["acc"] = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_private ? "private" : "protected";
            if (isa<FunctionTemplateDecl>(d)) mo["tmpl"] = true;
            if (F->isDeleted()) mo["deleted"] = true;
            if (F->isDefaulted()) mo["defaulted"] = true;
            if (F->isImplicit()) mo["implicit"] = true;
            if (F->isVirtualAsWritten() || (isa<CXXMethodDecl>(F) && cast<CXXMethodDecl>(F)->isVirtual())) mo["virt"] = true;
            if (auto * M = dyn_cast<CXXMethodDecl>(F)) { if (M->isStatic()) mo["static"] = true; if (M->isConst()) mo["const"] = true;
                if (M->isPureVirtual()) mo["pure"] = true;
                if (M->isCopyAssignmentOperator()) mo["sm"] = "copyasg";
                if (M->isMoveAssignmentOperator()) mo["sm"] = "moveasg"; }
            if (auto * C = dyn_cast<CXXConstructorDecl>(F)) {
                mo["sm"] = C->isCopyConstructor() ? "copyctor" : C->isMoveConstructor() ? "movector" : C->isDefaultConstructor() ? "defctor" : "ctor";
                if (C->isExplicit()) mo["explicit"] = true;
            }
            if (isa<CXXDestructorDecl>(F)) mo["sm"] = "dtor";
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        json::Array fr;
        for (auto * f : R->friends()) {
            json::Object fo;
            if (auto * T = f->getFriendType()) fo["t"] = type(T->getType());
            else if (auto * D = f->getFriendDecl()) { fo["n"] = qname(D); if (auto * CT = dyn_cast<ClassTemplateDecl>(D)) fo["ct"] = qname(CT); }
            fr.push_back(std::move(fo));
        }
        o["friends"] = std::move(fr);
        // implicit special members facts
        json::Object sp;
        sp["trivially_copyable"] = R->isTriviallyCopyable();
        sp["virtual_dtor"] = R->getDestructor() && R->getDestructor()->isVirtual();
        sp["polymorphic"] = R->isPolymorphic();
        sp["abstract"] = R->isAbstract();
        sp["has_simple_copy_ctor"] = R->hasSimpleCopyConstructor();
        sp["has_simple_move_ctor"] = R->hasSimpleMoveConstructor();
        sp["has_simple_copy_asg"] = R->hasSimpleCopyAssignment();
        sp["has_simple_move_asg"] = R->hasSimpleMoveAssignment();
        sp["copy_ctor_deleted_implicit"] = R->defaultedCopyConstructorIsDeleted();
        o["sp"] = std::move(sp);
        records.push_back(std::move(o));
    }

    // {foreign}: a constant of another library the analysed code refers to; its value is all that matters
    void doVar(const VarDecl * V, bool foreign = false)
    {
        if (foreign && (!V->isConstexpr() || qname(V).rfind("pyre::", 0) != 0)) return;
        if (V->getDeclContext()->isDependentContext() || !V->isFileVarDecl()) return;
        if (isa<VarTemplatePartialSpecializationDecl>(V)) return;
        if (V->getDescribedVarTemplate()) return;
        const VarDecl * D = V->getDefinition();
        if (!D) D = V;
        if (!doneVar.insert(D->getCanonicalDecl()).second) return;
        if (D->getType()->isDependentType()) return;
        json::Object o;
        o["id"] = id(D);
        o["q"] = qname(D);
        o["file"] = file(D->getLocation());
        o["l"] = line(D->getLocation());
        o["t"] = type(D->getType());
        if (auto * S = dyn_cast<VarTemplateSpecializationDecl>(D)) o["ta"] = targs(S->getTemplateArgs().asArray());
        if (auto * R = dyn_cast<CXXRecordDecl>(D->getDeclContext())) { o["cls"] = id(R); o["ct"] = type(Ctx.getRecordType(R)); }
        if (D->isConstexpr()) o["constexpr"] = true;
        if (D->getType().isConstQualified()) o["const"] = true;
        if (D->isThisDeclarationADefinition() == VarDecl::Definition) o["lk"] = linkage(Ctx.GetGVALinkageForVariable(D));
        const Expr * I = D->getAnyInitializer();
        if (I && !I->isValueDependent() && !I->isTypeDependent()) {
            if (!foreign) o["init"] = expr(I);
            if (!I->containsErrors() && !D->isInvalidDecl() && (D->isConstexpr() || D->getType().isConstQualified()))
                if (auto * AV = D->evaluateValue()) o["av"] = apvalue(*AV, D->getType());
        }
        vars.push_back(std::move(o));
    }

    void doPattern(const FunctionDecl * F)
    {
        json::Object o;
        o["id"] = id(F);
        o["q"] = qname(F);
        o["file"] = file(F->getLocation());
        o["l"] = line(F->getLocation());
        patterns.push_back(std::move(o));
    }
};

class Visitor : public RecursiveASTVisitor<Visitor> {
  public:
    Visitor(Dumper & d) : D(d) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return true; }
    bool VisitFunctionDecl(FunctionDecl * F)
    {
        if (!D.inRoots(F->getLocation())) {
            // placement construction written with the standard library: its body names the constructor
            if (F->getDeclName().isIdentifier() && F->getName() == "construct_at" && F->isInStdNamespace()
                && !F->isDependentContext() && F->hasBody())
                D.doFunction(F);
            return true;
        }
        if (F->isDependentContext()) {
            if (F->doesThisDeclarationHaveABody()) D.doPattern(F);
            return true;
        }
        D.doFunction(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl * R)
    {
        if (!D.inRoots(R->getLocation())) return true;
        if (!R->isThisDeclarationADefinition()) return true;
        D.doRecord(R);
        return true;
    }
    bool VisitVarDecl(VarDecl * V)
    {
        if (!D.inRoots(V->getLocation())) return true;
        D.doVar(V);
        return true;
    }
    Dumper & D;
};

class Consumer : public ASTConsumer {
  public:
    Consumer(CompilerInstance & ci) : CI(ci) {}
    void HandleTranslationUnit(ASTContext & C) override
    {
        Dumper D(C, CI.getSema());
        Visitor V(D);
        V.TraverseDecl(C.getTranslationUnitDecl());
        json::Object out;
        json::Array ts, fs, ds;
        for (auto & s : D.types) ts.push_back(s);
        for (auto & s : D.files) fs.push_back(s);
        for (auto & d : Diags) {
            json::Object o;
            o["level"] = d.level; o["file"] = d.file; o["line"] = d.line;
            o["msg"] = json::isUTF8(d.msg) ? d.msg : json::fixUTF8(d.msg);
            ds.push_back(std::move(o));
        }
        out["types"] = std::move(ts);
        json::Array es;
        for (auto & s : D.enums) es.push_back(s);
        out["enums"] = std::move(es);
        out["files"] = std::move(fs);
        out["functions"] = std::move(D.functions);
        out["records"] = std::move(D.records);
        out["vars"] = std::move(D.vars);
        out["patterns"] = std::move(D.patterns);
        out["externs"] = std::move(D.externs);
        out["diags"] = std::move(ds);
        std::error_code EC;
        llvm::raw_fd_ostream os(OutPath, EC);
        if (EC) { llvm::errs() << "cannot write " << OutPath << "\n"; exit(3); }
        os << json::Value(std::move(out));
    }
    CompilerInstance & CI;
};

class Action : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance & CI, StringRef) override
    {
        return std::make_unique<Consumer>(CI);
    }
};

class Factory : public tooling::FrontendActionFactory {
  public:
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
};

int main(int argc, const char ** argv)
{
    std::string src;
    std::vector<std::string> flags;
    std::vector<std::pair<std::string, std::string>> Maps;
    std::vector<std::unique_ptr<llvm::MemoryBuffer>> Texts;
    int i = 1;
    for (; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--") { ++i; break; }
        if (a == "-root") Roots.push_back(argv[++i]);
        else if (a == "-o") OutPath = argv[++i];
        else if (a == "-replace") { Maps.emplace_back(argv[i + 1], argv[i + 2]); i += 2; }    // read the second file where the first is included
        else src = a;
    }
    for (; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase DB(".", flags);
    tooling::ClangTool Tool(DB, { src });
    for (auto & [from, to] : Maps) {
        auto B = llvm::MemoryBuffer::getFile(to);
        if (!B) { llvm::errs() << "cannot read " << to << "\n"; return 3; }
        Texts.push_back(std::move(*B));
        Tool.mapVirtualFile(from, Texts.back()->getBuffer());
    }
    DiagCollector DC;
    Tool.setDiagnosticConsumer(&DC);
    Tool.setPrintErrorMessage(false);
    Factory F;
    Tool.run(&F);
    return 0;
}
