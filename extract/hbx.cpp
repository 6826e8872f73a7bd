// hbx: fact extractor for the hydrobricks static analyses (clang libTooling).
// Dumps, for every function/class/enum/global defined under --root, a compact
// JSON form of the resolved AST.  All deciding is done downstream (Python).
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendActions.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <clang/Tooling/Tooling.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>

#include <map>
#include <set>
#include <string>

using namespace clang;
namespace json = llvm::json;

static std::string g_root;
static json::Array g_functions, g_classes, g_enums, g_globals, g_files;
static std::set<std::string> g_seenFn, g_seenCls, g_seenEnum, g_seenGlob;
static int g_errors = 0;

class Dumper {
  public:
    ASTContext& C;
    SourceManager& SM;
    PrintingPolicy PP;
    std::map<const Decl*, std::string> localIds;
    int localCounter = 0;
    int lambdaCounter = 0;

    explicit Dumper(ASTContext& c) : C(c), SM(c.getSourceManager()), PP(c.getPrintingPolicy()) {
        PP.SuppressTagKeyword = true;
        PP.FullyQualifiedName = false;
        PP.Bool = true;
        PP.SuppressUnwrittenScope = true;
        PP.AnonymousTagLocations = false;
        PP.SuppressDefaultTemplateArgs = true;
    }

    std::string file(SourceLocation L) {
        L = SM.getExpansionLoc(L);
        if (L.isInvalid()) return "";
        auto f = SM.getFilename(L);
        std::string s = f.str();
        // normalise
        llvm::SmallString<256> p(s);
        if (auto fe = SM.getFileEntryRefForID(SM.getFileID(L))) {
            auto rp = fe->getFileEntry().tryGetRealPathName();
            if (!rp.empty()) p = rp;
        }
        s = p.str().str();
        return s;
    }
    bool inRoot(SourceLocation L) {
        std::string s = file(L);
        return s.size() > g_root.size() && s.compare(0, g_root.size(), g_root) == 0;
    }
    std::string rel(SourceLocation L) {
        std::string s = file(L);
        if (s.size() > g_root.size() && s.compare(0, g_root.size(), g_root) == 0) return s.substr(g_root.size());
        return s;
    }
    int line(SourceLocation L) {
        return (int)SM.getExpansionLineNumber(L);
    }
    std::string ty(QualType T) {
        if (T.isNull()) return "?";
        return T.getNonReferenceType().getCanonicalType().getUnqualifiedType().getAsString(PP);
    }
    std::string tyFull(QualType T) {
        if (T.isNull()) return "?";
        return T.getCanonicalType().getAsString(PP);
    }
    std::string qname(const NamedDecl* D) {
        std::string s;
        llvm::raw_string_ostream os(s);
        D->printQualifiedName(os, PP);
        return os.str();
    }
    std::string fnId(const FunctionDecl* F) {
        F = F->getCanonicalDecl();
        std::string s = qname(F);
        if (auto* ta = F->getTemplateSpecializationArgs()) {
            s += "<";
            for (unsigned i = 0; i < ta->size(); ++i) {
                if (i) s += ",";
                std::string a;
                llvm::raw_string_ostream os(a);
                ta->get(i).print(PP, os, true);
                s += os.str();
            }
            s += ">";
        }
        s += "(";
        for (unsigned i = 0; i < F->getNumParams(); ++i) {
            if (i) s += ", ";
            s += tyFull(F->getParamDecl(i)->getType());
        }
        s += ")";
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->isConst()) s += " const";
        if (!F->isExternallyVisible() && !isa<CXXMethodDecl>(F)) s = rel(F->getLocation()) + "::" + s;
        return s;
    }
    std::string localId(const Decl* D) {
        auto it = localIds.find(D);
        if (it != localIds.end()) return it->second;
        std::string n = "_";
        if (auto* ND = dyn_cast<NamedDecl>(D)) n = ND->getNameAsString();
        std::string id = n + "#" + std::to_string(localCounter++);
        localIds[D] = id;
        return id;
    }

    json::Value E(const Expr* e) {
        if (!e) return nullptr;
        // strip noise
        while (true) {
            if (auto* x = dyn_cast<ParenExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<ExprWithCleanups>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<MaterializeTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<CXXBindTemporaryExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<ConstantExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) e = x->getReplacement();
            else if (auto* x = dyn_cast<CXXDefaultArgExpr>(e)) e = x->getExpr();
            else if (auto* x = dyn_cast<CXXDefaultInitExpr>(e)) e = x->getExpr();
            else if (auto* x = dyn_cast<CXXStdInitializerListExpr>(e)) e = x->getSubExpr();
            else if (auto* x = dyn_cast<OpaqueValueExpr>(e)) { if (!x->getSourceExpr()) break; e = x->getSourceExpr(); }
            else if (auto* x = dyn_cast<CXXRewrittenBinaryOperator>(e)) e = x->getSemanticForm();
            else if (auto* x = dyn_cast<ImplicitCastExpr>(e)) {
                switch (x->getCastKind()) {
                    case CK_IntegralCast:
                    case CK_FloatingCast:
                    case CK_FloatingToIntegral:
                    case CK_IntegralToFloating: {
                        json::Object o;
                        o["k"] = "cast";
                        o["imp"] = true;
                        o["to"] = ty(x->getType());
                        o["e"] = E(x->getSubExpr());
                        return o;
                    }
                    default:
                        e = x->getSubExpr();
                }
            } else break;
        }
        json::Object o;
        o["l"] = line(e->getExprLoc());
        if (auto* x = dyn_cast<IntegerLiteral>(e)) {
            o["k"] = "int";
            o["v"] = (int64_t)x->getValue().getLimitedValue();
        } else if (auto* x = dyn_cast<FloatingLiteral>(e)) {
            o["k"] = "flt";
            o["v"] = x->getValueAsApproximateDouble();
        } else if (auto* x = dyn_cast<clang::StringLiteral>(e)) {
            o["k"] = "str";
            o["v"] = x->getCharByteWidth() == 1 ? json::fixUTF8(x->getString()) : std::string("");
        } else if (auto* x = dyn_cast<CharacterLiteral>(e)) {
            o["k"] = "chr";
            o["v"] = (int64_t)x->getValue();
        } else if (auto* x = dyn_cast<CXXBoolLiteralExpr>(e)) {
            o["k"] = "bool";
            o["v"] = x->getValue();
        } else if (isa<CXXNullPtrLiteralExpr>(e) || isa<GNUNullExpr>(e)) {
            o["k"] = "null";
        } else if (isa<CXXThisExpr>(e)) {
            o["k"] = "this";
            o["ty"] = ty(e->getType());
        } else if (auto* x = dyn_cast<DeclRefExpr>(e)) {
            const ValueDecl* D = x->getDecl();
            if (auto* b = dyn_cast<BindingDecl>(D)) {
                o["k"] = "ref";
                o["dk"] = "local";
                o["n"] = D->getNameAsString();
                o["id"] = localId(b);
                o["ty"] = ty(D->getType());
            } else if (auto* ec = dyn_cast<EnumConstantDecl>(D)) {
                o["k"] = "enum";
                o["n"] = qname(ec);
                o["v"] = (int64_t)ec->getInitVal().getLimitedValue();
            } else if (auto* fd = dyn_cast<FunctionDecl>(D)) {
                o["k"] = "fref";
                o["fn"] = fnId(fd);
                o["n"] = qname(fd);
            } else if (auto* vd = dyn_cast<VarDecl>(D)) {
                o["k"] = "ref";
                o["n"] = D->getNameAsString();
                o["ty"] = ty(D->getType());
                if (isa<ParmVarDecl>(vd)) {
                    o["dk"] = "param";
                    o["id"] = localId(vd);
                } else if (vd->isLocalVarDecl()) {
                    o["dk"] = vd->isStaticLocal() ? "slocal" : "local";
                    o["id"] = localId(vd);
                } else {
                    o["dk"] = "global";
                    o["id"] = qname(vd);
                    o["n"] = qname(vd);
                    // Constants: record the evaluated value.
                    if (vd->getType().isConstQualified() || vd->isConstexpr()) {
                        Expr::EvalResult r;
                        if (!e->isValueDependent() && e->EvaluateAsRValue(r, C)) {
                            if (r.Val.isInt()) o["cv"] = (r.Val.getInt().isRepresentableByInt64() ? (double)r.Val.getInt().getExtValue() : -1.0);
                            else if (r.Val.isFloat()) {
                                llvm::APFloat f = r.Val.getFloat();
                                bool li;
                                f.convert(llvm::APFloat::IEEEdouble(), llvm::APFloat::rmNearestTiesToEven, &li);
                                if (f.isFinite()) o["cv"] = f.convertToDouble();
                                else o["cv"] = "nonfinite";
                            }
                        }
                    }
                }
            } else {
                o["k"] = "ref";
                o["dk"] = "other";
                o["n"] = D->getNameAsString();
                o["id"] = qname(D);
                o["ty"] = ty(D->getType());
            }
        } else if (auto* x = dyn_cast<MemberExpr>(e)) {
            const ValueDecl* D = x->getMemberDecl();
            if (auto* f = dyn_cast<FieldDecl>(D)) {
                o["k"] = "mem";
                o["f"] = qname(f);
                o["n"] = f->getNameAsString();
                o["ar"] = x->isArrow();
                o["ty"] = ty(f->getType());
                o["b"] = E(x->getBase());
            } else if (auto* v = dyn_cast<VarDecl>(D)) {
                o["k"] = "ref";
                o["dk"] = "global";
                o["id"] = qname(v);
                o["n"] = qname(v);
                o["ty"] = ty(v->getType());
            } else if (auto* fn = dyn_cast<FunctionDecl>(D)) {
                o["k"] = "mfref";
                o["fn"] = fnId(fn);
                o["n"] = qname(fn);
                o["b"] = E(x->getBase());
            } else {
                o["k"] = "other";
                o["n"] = e->getStmtClassName();
            }
        } else if (auto* x = dyn_cast<CXXOperatorCallExpr>(e)) {
            o["k"] = "call";
            o["op"] = getOperatorSpelling(x->getOperator());
            o["ty"] = ty(x->getType());
            json::Array args;
            const FunctionDecl* F = x->getDirectCallee();
            unsigned start = 0;
            if (F) {
                o["fn"] = fnId(F);
                o["n"] = qname(F);
                o["ret"] = tyFull(F->getReturnType());
                if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
                    o["virt"] = M->isVirtual();
                    o["recv"] = E(x->getArg(0));
                    start = 1;
                }
            } else {
                o["n"] = "?op";
            }
            for (unsigned i = start; i < x->getNumArgs(); ++i) args.push_back(E(x->getArg(i)));
            o["args"] = std::move(args);
        } else if (auto* x = dyn_cast<CallExpr>(e)) {
            o["k"] = "call";
            o["ty"] = ty(x->getType());
            json::Array args;
            const FunctionDecl* F = x->getDirectCallee();
            if (F) {
                o["fn"] = fnId(F);
                o["n"] = qname(F);
                o["ret"] = tyFull(F->getReturnType());
            }
            if (auto* mc = dyn_cast<CXXMemberCallExpr>(x)) {
                const Expr* obj = mc->getImplicitObjectArgument();
                if (obj) o["recv"] = E(obj);
                if (auto* M = mc->getMethodDecl()) {
                    bool virt = M->isVirtual();
                    if (auto* me = dyn_cast<MemberExpr>(mc->getCallee()->IgnoreParens())) {
                        if (me->hasQualifier()) virt = false;  // Base::f()
                    }
                    o["virt"] = virt;
                    o["const"] = M->isConst();
                    if (obj) o["rty"] = ty(obj->IgnoreImpCasts()->getType()->isPointerType()
                                               ? obj->IgnoreImpCasts()->getType()->getPointeeType()
                                               : obj->IgnoreImpCasts()->getType());
                }
            } else if (!F) {
                o["n"] = "?";
                o["callee"] = E(x->getCallee());
            }
            if (F && isa<CXXMethodDecl>(F)) o["static"] = cast<CXXMethodDecl>(F)->isStatic();
            for (auto* a : x->arguments()) args.push_back(E(a));
            o["args"] = std::move(args);
        } else if (auto* x = dyn_cast<CXXConstructExpr>(e)) {
            // elide copy/move construction
            auto* cd = x->getConstructor();
            if (cd->isCopyOrMoveConstructor() && x->getNumArgs() >= 1) {
                json::Value inner = E(x->getArg(0));
                if (cd->isMoveConstructor()) return inner;
                o["k"] = "copy";
                o["ty"] = ty(x->getType());
                o["e"] = std::move(inner);
                return o;
            }
            o["k"] = "ctor";
            o["ty"] = ty(x->getType());
            o["fn"] = fnId(cd);
            o["n"] = qname(cd);
            json::Array args;
            for (auto* a : x->arguments()) args.push_back(E(a));
            o["args"] = std::move(args);
        } else if (auto* x = dyn_cast<CXXNewExpr>(e)) {
            o["k"] = "new";
            o["ty"] = ty(x->getAllocatedType());
            o["array"] = x->isArray();
            o["init"] = E(x->getInitializer());
        } else if (auto* x = dyn_cast<CXXDeleteExpr>(e)) {
            o["k"] = "delete";
            o["e"] = E(x->getArgument());
        } else if (auto* x = dyn_cast<CompoundAssignOperator>(e)) {
            o["k"] = "asg";
            o["op"] = x->getOpcodeStr().str();
            o["a"] = E(x->getLHS());
            o["b"] = E(x->getRHS());
        } else if (auto* x = dyn_cast<BinaryOperator>(e)) {
            o["k"] = x->isAssignmentOp() ? "asg" : "bin";
            o["op"] = x->getOpcodeStr().str();
            o["a"] = E(x->getLHS());
            o["b"] = E(x->getRHS());
            if (!x->isAssignmentOp()) o["ty"] = ty(x->getType());
        } else if (auto* x = dyn_cast<UnaryOperator>(e)) {
            o["k"] = "un";
            std::string op = UnaryOperator::getOpcodeStr(x->getOpcode()).str();
            if (x->isPostfix()) op = "p" + op;
            o["op"] = op;
            o["e"] = E(x->getSubExpr());
        } else if (auto* x = dyn_cast<ConditionalOperator>(e)) {
            o["k"] = "cond";
            o["c"] = E(x->getCond());
            o["t"] = E(x->getTrueExpr());
            o["e"] = E(x->getFalseExpr());
        } else if (auto* x = dyn_cast<ArraySubscriptExpr>(e)) {
            o["k"] = "idx";
            o["b"] = E(x->getBase());
            o["i"] = E(x->getIdx());
        } else if (auto* x = dyn_cast<InitListExpr>(e)) {
            if (x->isSemanticForm() == false && x->getSemanticForm()) x = x->getSemanticForm();
            o["k"] = "list";
            o["ty"] = ty(x->getType());
            json::Array es;
            for (auto* i : x->inits()) es.push_back(E(i));
            o["es"] = std::move(es);
        } else if (auto* x = dyn_cast<LambdaExpr>(e)) {
            o["k"] = "lambda";
            json::Array ps;
            const FunctionDecl* callOp = x->getCallOperator();
            if (auto* tpl = x->getLambdaClass()->getDependentLambdaCallOperator()) {
                // generic lambda: the instantiated call operator
                for (auto* sp : tpl->specializations()) {
                    if (sp->hasBody()) {
                        callOp = sp;
                        break;
                    }
                }
            }
            for (auto* p : callOp->parameters()) {
                json::Object po;
                po["n"] = p->getNameAsString();
                po["id"] = localId(p);
                po["ty"] = ty(p->getType());
                po["ref"] = p->getType()->isReferenceType();
                ps.push_back(std::move(po));
            }
            o["params"] = std::move(ps);
            json::Array caps;
            for (auto& c : x->captures()) {
                if (c.capturesThis()) {
                    caps.push_back("this");
                } else if (c.capturesVariable()) {
                    json::Object co;
                    co["n"] = c.getCapturedVar()->getNameAsString();
                    co["id"] = localId(c.getCapturedVar());
                    co["byref"] = c.getCaptureKind() == LCK_ByRef;
                    if (auto* vd = dyn_cast<VarDecl>(c.getCapturedVar()))
                        if (vd->isInitCapture()) co["init"] = E(vd->getInit());
                    caps.push_back(std::move(co));
                }
            }
            o["caps"] = std::move(caps);
            o["body"] = S(callOp->hasBody() ? callOp->getBody() : x->getBody());
            o["cls"] = ty(x->getType());
        } else if (auto* x = dyn_cast<CXXThrowExpr>(e)) {
            o["k"] = "throw";
            o["e"] = E(x->getSubExpr());
            if (x->getSubExpr()) o["ty"] = ty(x->getSubExpr()->getType());
        } else if (auto* x = dyn_cast<ExplicitCastExpr>(e)) {
            o["k"] = "cast";
            if (isa<CXXDynamicCastExpr>(x)) o["dyn"] = true;
            o["to"] = ty(x->getType());
            o["e"] = E(x->getSubExpr());
        } else if (auto* x = dyn_cast<UnaryExprOrTypeTraitExpr>(e)) {
            o["k"] = "other";
            o["n"] = "sizeof";
            (void)x;
        } else if (isa<CXXScalarValueInitExpr>(e) || isa<ImplicitValueInitExpr>(e)) {
            o["k"] = "zero";
            o["ty"] = ty(e->getType());
        } else {
            o["k"] = "other";
            o["n"] = e->getStmtClassName();
            json::Array ch;
            for (auto* c : e->children())
                if (auto* ce = dyn_cast_or_null<Expr>(c)) ch.push_back(E(ce));
            o["ch"] = std::move(ch);
        }
        return o;
    }

    json::Value var(const VarDecl* v) {
        json::Object o;
        o["n"] = v->getNameAsString();
        o["id"] = localId(v);
        o["ty"] = ty(v->getType());
        o["l"] = line(v->getLocation());
        o["ref"] = v->getType()->isReferenceType();
        o["const"] = v->getType().getNonReferenceType().isConstQualified();
        if (v->isStaticLocal()) o["static"] = true;
        if (v->getTLSKind() != VarDecl::TLS_None) o["tls"] = true;
        if (auto* dd = dyn_cast<DecompositionDecl>(v)) {
            json::Array bs;
            for (auto* b : dd->bindings()) {
                json::Object bo;
                bo["n"] = b->getNameAsString();
                bo["id"] = localId(b);
                bs.push_back(std::move(bo));
            }
            o["bind"] = std::move(bs);
        }
        if (v->hasInit() && v->getInit()) o["init"] = E(v->getInit());
        return o;
    }

    json::Value S(const Stmt* s) {
        if (!s) return nullptr;
        json::Object o;
        o["l"] = line(s->getBeginLoc());
        if (auto* x = dyn_cast<CompoundStmt>(s)) {
            o["k"] = "block";
            json::Array a;
            for (auto* c : x->body()) a.push_back(S(c));
            o["s"] = std::move(a);
            o["el"] = line(x->getEndLoc());
        } else if (auto* x = dyn_cast<DeclStmt>(s)) {
            o["k"] = "decl";
            json::Array a;
            for (auto* d : x->decls())
                if (auto* v = dyn_cast<VarDecl>(d)) a.push_back(var(v));
            o["vars"] = std::move(a);
        } else if (auto* x = dyn_cast<IfStmt>(s)) {
            o["k"] = "if";
            if (x->isConstexpr()) o["constexpr"] = true;
            if (x->getInit()) o["init"] = S(x->getInit());
            if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable());
            o["c"] = E(x->getCond());
            o["t"] = S(x->getThen());
            o["e"] = S(x->getElse());
        } else if (auto* x = dyn_cast<WhileStmt>(s)) {
            o["k"] = "while";
            if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable());
            o["c"] = E(x->getCond());
            o["b"] = S(x->getBody());
        } else if (auto* x = dyn_cast<DoStmt>(s)) {
            o["k"] = "do";
            o["c"] = E(x->getCond());
            o["b"] = S(x->getBody());
        } else if (auto* x = dyn_cast<ForStmt>(s)) {
            o["k"] = "for";
            o["i"] = S(x->getInit());
            o["c"] = E(x->getCond());
            o["inc"] = E(x->getInc());
            o["b"] = S(x->getBody());
        } else if (auto* x = dyn_cast<CXXForRangeStmt>(s)) {
            o["k"] = "rfor";
            if (x->getInit()) o["init"] = S(x->getInit());
            json::Object v;
            const VarDecl* lv = x->getLoopVariable();
            v["n"] = lv->getNameAsString();
            v["id"] = localId(lv);
            v["ty"] = ty(lv->getType());
            v["ref"] = lv->getType()->isReferenceType();
            if (auto* dd = dyn_cast<DecompositionDecl>(lv)) {
                json::Array bs;
                for (auto* b : dd->bindings()) {
                    json::Object bo;
                    bo["n"] = b->getNameAsString();
                    bo["id"] = localId(b);
                    bs.push_back(std::move(bo));
                }
                v["bind"] = std::move(bs);
            }
            o["v"] = std::move(v);
            o["range"] = E(x->getRangeInit());
            o["b"] = S(x->getBody());
        } else if (auto* x = dyn_cast<SwitchStmt>(s)) {
            o["k"] = "switch";
            if (x->getInit()) o["init"] = S(x->getInit());
            if (x->getConditionVariable()) o["var"] = var(x->getConditionVariable());
            o["c"] = E(x->getCond());
            o["b"] = S(x->getBody());
        } else if (auto* x = dyn_cast<CaseStmt>(s)) {
            o["k"] = "case";
            o["v"] = E(x->getLHS());
            o["s"] = S(x->getSubStmt());
        } else if (auto* x = dyn_cast<DefaultStmt>(s)) {
            o["k"] = "default";
            o["s"] = S(x->getSubStmt());
        } else if (isa<BreakStmt>(s)) {
            o["k"] = "break";
        } else if (isa<ContinueStmt>(s)) {
            o["k"] = "continue";
        } else if (auto* x = dyn_cast<ReturnStmt>(s)) {
            o["k"] = "return";
            o["e"] = E(x->getRetValue());
        } else if (auto* x = dyn_cast<CXXTryStmt>(s)) {
            o["k"] = "try";
            o["b"] = S(x->getTryBlock());
            json::Array hs;
            for (unsigned i = 0; i < x->getNumHandlers(); ++i) {
                auto* h = x->getHandler(i);
                json::Object ho;
                if (h->getExceptionDecl()) {
                    ho["ty"] = ty(h->getExceptionDecl()->getType());
                    ho["var"] = var(h->getExceptionDecl());
                }
                ho["b"] = S(h->getHandlerBlock());
                hs.push_back(std::move(ho));
            }
            o["h"] = std::move(hs);
        } else if (isa<NullStmt>(s)) {
            o["k"] = "nop";
        } else if (auto* x = dyn_cast<LabelStmt>(s)) {
            o["k"] = "label";
            o["s"] = S(x->getSubStmt());
        } else if (isa<GotoStmt>(s)) {
            o["k"] = "goto";
        } else if (auto* x = dyn_cast<AttributedStmt>(s)) {
            return S(x->getSubStmt());
        } else if (auto* x = dyn_cast<Expr>(s)) {
            o["k"] = "expr";
            o["e"] = E(x);
        } else {
            o["k"] = "otherstmt";
            o["n"] = s->getStmtClassName();
        }
        return o;
    }

    void dumpFunction(const FunctionDecl* F) {
        if (!F->doesThisDeclarationHaveABody() && !F->isDefaulted()) return;
        if (F->isDependentContext()) return;
        if (auto* M = dyn_cast<CXXMethodDecl>(F))
            if (M->getParent()->isLambda()) return;
        std::string id = fnId(F);
        if (!g_seenFn.insert(id).second) return;
        localIds.clear();
        localCounter = 0;
        json::Object o;
        o["id"] = id;
        o["n"] = qname(F);
        o["name"] = F->getNameAsString();
        o["file"] = rel(F->getLocation());
        o["l"] = line(F->getLocation());
        o["ret"] = tyFull(F->getReturnType());
        o["endl"] = line(F->getEndLoc());
        if (F->isDefaulted()) o["defaulted"] = true;
        json::Array ps;
        for (auto* p : F->parameters()) {
            json::Object po;
            po["n"] = p->getNameAsString();
            po["id"] = localId(p);
            po["ty"] = tyFull(p->getType());
            if (p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() && !p->hasUnparsedDefaultArg())
                po["def"] = E(p->getDefaultArg());
            ps.push_back(std::move(po));
        }
        o["params"] = std::move(ps);
        if (auto* M = dyn_cast<CXXMethodDecl>(F)) {
            o["cls"] = qname(M->getParent());
            o["virt"] = M->isVirtual();
            o["const"] = M->isConst();
            o["static"] = M->isStatic();
            json::Array ov;
            for (auto* b : M->overridden_methods()) ov.push_back(fnId(b));
            o["over"] = std::move(ov);
        }
        if (isa<CXXDestructorDecl>(F)) o["dtor"] = true;
        if (auto* K = dyn_cast<CXXConstructorDecl>(F)) {
            o["ctor"] = true;
            json::Array is;
            for (auto* i : K->inits()) {
                json::Object io;
                if (i->isMemberInitializer()) io["f"] = qname(i->getMember());
                else if (i->isBaseInitializer()) io["base"] = ty(QualType(i->getBaseClass(), 0));
                else io["deleg"] = true;
                io["e"] = E(i->getInit());
                io["written"] = i->isWritten();
                is.push_back(std::move(io));
            }
            o["inits"] = std::move(is);
        }
        if (F->hasBody()) o["body"] = S(F->getBody());
        g_functions.push_back(std::move(o));
    }

    void dumpClass(const CXXRecordDecl* R) {
        if (!R->isThisDeclarationADefinition() || R->isDependentContext() || R->isLambda()) return;
        std::string n = qname(R);
        if (!g_seenCls.insert(n).second) return;
        localIds.clear();
        json::Object o;
        o["n"] = n;
        o["file"] = rel(R->getLocation());
        o["l"] = line(R->getLocation());
        json::Array bs;
        for (auto& b : R->bases()) bs.push_back(ty(b.getType()));
        o["bases"] = std::move(bs);
        json::Array fs;
        for (auto* f : R->fields()) {
            json::Object fo;
            fo["n"] = f->getNameAsString();
            fo["q"] = qname(f);
            fo["ty"] = tyFull(f->getType());
            fo["l"] = line(f->getLocation());
            fo["acc"] = (int)f->getAccess();
            fo["mut"] = f->isMutable();
            if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = E(f->getInClassInitializer());
            fs.push_back(std::move(fo));
        }
        o["fields"] = std::move(fs);
        json::Array ms;
        for (auto* m : R->methods()) {
            if (m->isImplicit()) continue;
            json::Object mo;
            mo["id"] = fnId(m);
            mo["name"] = m->getNameAsString();
            mo["virt"] = m->isVirtual();
            mo["pure"] = m->isPureVirtual();
            mo["const"] = m->isConst();
            mo["static"] = m->isStatic();
            mo["acc"] = (int)m->getAccess();
            mo["ret"] = tyFull(m->getReturnType());
            mo["nodiscard"] = m->hasAttr<WarnUnusedResultAttr>();
            mo["l"] = line(m->getLocation());
            json::Array ov;
            for (auto* b : m->overridden_methods()) ov.push_back(fnId(b));
            mo["over"] = std::move(ov);
            ms.push_back(std::move(mo));
        }
        o["methods"] = std::move(ms);
        o["abstract"] = R->isAbstract();
        g_classes.push_back(std::move(o));
    }
};

class V : public RecursiveASTVisitor<V> {
  public:
    Dumper D;
    explicit V(ASTContext& c) : D(c) {}
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }
    bool VisitFunctionDecl(FunctionDecl* F) {
        if (D.inRoot(F->getLocation())) D.dumpFunction(F);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl* R) {
        if (D.inRoot(R->getLocation())) D.dumpClass(R);
        return true;
    }
    bool VisitEnumDecl(EnumDecl* E) {
        if (!D.inRoot(E->getLocation()) || !E->isComplete()) return true;
        std::string n = D.qname(E);
        if (!g_seenEnum.insert(n).second) return true;
        json::Object o;
        o["n"] = n;
        json::Array a;
        for (auto* c : E->enumerators()) {
            json::Object eo;
            eo["n"] = D.qname(c);
            eo["v"] = (int64_t)c->getInitVal().getLimitedValue();
            a.push_back(std::move(eo));
        }
        o["vals"] = std::move(a);
        g_enums.push_back(std::move(o));
        return true;
    }
    bool VisitVarDecl(VarDecl* v) {
        if (!D.inRoot(v->getLocation())) return true;
        if (isa<ParmVarDecl>(v) || v->isLocalVarDecl()) {
            return true;
        }
        if (v->getDeclContext()->isDependentContext()) return true;
        if (!v->isFileVarDecl() && !v->isStaticDataMember()) return true;
        std::string n = D.qname(v);
        if (!v->isExternallyVisible()) n = D.rel(v->getLocation()) + "::" + n;
        bool isDef = v->isThisDeclarationADefinition() != VarDecl::DeclarationOnly;
        if (!isDef) return true;
        if (!g_seenGlob.insert(n).second) return true;
        json::Object o;
        o["n"] = n;
        o["q"] = D.qname(v);
        o["ty"] = D.tyFull(v->getType());
        o["const"] = v->getType().isConstQualified() || v->isConstexpr();
        o["tls"] = v->getTLSKind() != VarDecl::TLS_None;
        o["file"] = D.rel(v->getLocation());
        o["l"] = D.line(v->getLocation());
        D.localIds.clear();
        if (v->hasInit() && v->getInit() && !v->getInit()->isValueDependent()) o["init"] = D.E(v->getInit());
        g_globals.push_back(std::move(o));
        return true;
    }
};

class Cons : public ASTConsumer {
  public:
    void HandleTranslationUnit(ASTContext& c) override {
        if (c.getDiagnostics().hasErrorOccurred()) g_errors++;
        V v(c);
        for (auto* d : c.getTranslationUnitDecl()->decls()) {
            // Namespaces that merely re-open std etc. lie outside the root.
            if (v.D.inRoot(d->getLocation())) v.TraverseDecl(d);
        }
    }
};
class Act : public ASTFrontendAction {
  public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance& CI, StringRef f) override {
        g_files.push_back(f.str());
        return std::make_unique<Cons>();
    }
};

// usage: hbx --root DIR/ --out FILE src... -- flags...
int main(int argc, const char** argv) {
    std::string out;
    std::vector<std::string> srcs, flags;
    int i = 1;
    for (; i < argc; ++i) {
        std::string a = argv[i];
        if (a == "--root") g_root = argv[++i];
        else if (a == "--out") out = argv[++i];
        else if (a == "--") { ++i; break; }
        else srcs.push_back(a);
    }
    for (; i < argc; ++i) flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, srcs);
    int rc = tool.run(tooling::newFrontendActionFactory<Act>().get());
    json::Object root;
    root["functions"] = std::move(g_functions);
    root["classes"] = std::move(g_classes);
    root["enums"] = std::move(g_enums);
    root["globals"] = std::move(g_globals);
    root["files"] = std::move(g_files);
    root["errors"] = g_errors;
    std::error_code ec;
    llvm::raw_fd_ostream os(out, ec);
    if (ec) return 3;
    os << json::Value(std::move(root));
    os.flush();
    return rc;
}
