// capyextract: dumps a resolved, flattened view of one translation unit as JSON.
//
// Everything written here comes from clang's semantic analysis (resolved declarations, types,
// constant values, template instantiations, clang::CFG); nothing is matched on source text.
//
// usage: capyextract OUT.json ROOT[:ROOT...] SOURCE -- <compiler flags>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/ASTContext.h>
#include <clang/AST/DeclCXX.h>
#include <clang/AST/DeclTemplate.h>
#include <clang/AST/ExprCXX.h>
#include <clang/AST/RecursiveASTVisitor.h>
#include <clang/AST/StmtCXX.h>
#include <clang/Analysis/CFG.h>
#include <clang/Basic/SourceManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/Index/USRGeneration.h>
#include <clang/Tooling/Tooling.h>
#include <clang/Tooling/CompilationDatabase.h>
#include <llvm/Support/JSON.h>
#include <llvm/Support/raw_ostream.h>
#include <set>
#include <unordered_map>

using namespace clang;
namespace json = llvm::json;

static std::vector<std::string> roots;
static std::string outpath;

namespace {

class Extractor : public RecursiveASTVisitor<Extractor> {
public:
    explicit Extractor(ASTContext &c, json::OStream &o)
        : ctx(c), sm(c.getSourceManager()), J(o), pp(c.getLangOpts()) {
        pp.SuppressTagKeyword = true;
        pp.Bool = true;
        pp.UseVoidForZeroParams = false;
    }
    bool shouldVisitTemplateInstantiations() const { return true; }
    bool shouldVisitImplicitCode() const { return false; }

    std::string fileOf(SourceLocation l) {
        auto el = sm.getExpansionLoc(l);
        auto f = sm.getFilename(el);
        return f.str();
    }
    unsigned lineOf(SourceLocation l) { return sm.getExpansionLineNumber(l); }
    bool inRepo(const Decl *d) {
        auto f = fileOf(d->getLocation());
        for(auto &r : roots) {
            if(f.rfind(r, 0) == 0)
                return true;
        }
        return false;
    }

    int typeId(QualType q) {
        if(q.isNull())
            return -1;
        q = q.getCanonicalType();
        auto s = q.getAsString(pp);
        auto it = tids.find(s);
        if(it != tids.end())
            return it->second;
        int n = (int)types.size();
        types.push_back(s);
        tids.emplace(std::move(s), n);
        return n;
    }

    static std::string usrOf(const Decl *d) {
        llvm::SmallString<256> buf;
        if(index::generateUSRForDecl(d, buf))
            return "";
        return buf.str().str();
    }

    std::string qual(const NamedDecl *d) {
        std::string s;
        llvm::raw_string_ostream os(s);
        d->printQualifiedName(os, pp);
        os.flush();
        return s;
    }

    std::string fnKey(const FunctionDecl *fd) {
        fd = fd->getCanonicalDecl();
        auto it = fkeys.find(fd);
        if(it != fkeys.end())
            return it->second;
        std::string k;
        if(auto *md = dyn_cast<CXXMethodDecl>(fd); md && md->getParent()->isLambda()) {
            auto *r = md->getParent();
            auto l = sm.getExpansionLoc(r->getBeginLoc());
            k = "lambda@" + sm.getFilename(l).str() + ":" +
                std::to_string(sm.getExpansionLineNumber(l)) + ":" +
                std::to_string(sm.getExpansionColumnNumber(l)) + "(";
            for(auto *p : md->parameters())
                k += p->getType().getCanonicalType().getAsString(pp) + ",";
            k += ")";
            if(auto *spec = md->getTemplateSpecializationArgs()) {
                k += "<";
                for(auto &a : spec->asArray()) {
                    if(a.getKind() == TemplateArgument::Type)
                        k += a.getAsType().getCanonicalType().getAsString(pp) + ",";
                }
                k += ">";
            }
            // A lambda inside different instantiations of the same template.
            k += "#" + usrOf(r).substr(0, 400);
        } else {
            k = usrOf(fd);
            if(k.empty())
                k = qual(fd);
        }
        fkeys[fd] = k;
        return k;
    }

    bool nothrow(const FunctionDecl *fd) {
        if(!fd)
            return false;
        auto *pt = fd->getType()->getAs<FunctionProtoType>();
        if(!pt)
            return true; // C function without prototype
        auto est = pt->getExceptionSpecType();
        if(isUnresolvedExceptionSpec(est)) {
            // Unevaluated: implicit special members.  Destructors default to noexcept.
            if(isa<CXXDestructorDecl>(fd))
                return true;
            if(auto *m = dyn_cast<CXXMethodDecl>(fd); m && m->isTrivial())
                return true;
            return false;
        }
        return pt->isNothrow();
    }

    // ---- statements
    static const Stmt *strip(const Stmt *s) {
        while(s) {
            if(auto *e = dyn_cast<ParenExpr>(s))
                s = e->getSubExpr();
            else if(auto *e = dyn_cast<ImplicitCastExpr>(s))
                s = e->getSubExpr();
            else if(auto *e = dyn_cast<FullExpr>(s))
                s = e->getSubExpr();
            else if(auto *e = dyn_cast<MaterializeTemporaryExpr>(s))
                s = e->getSubExpr();
            else if(auto *e = dyn_cast<CXXBindTemporaryExpr>(s))
                s = e->getSubExpr();
            else if(auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
                s = e->getReplacement();
            else if(auto *e = dyn_cast<CXXStdInitializerListExpr>(s))
                s = e->getSubExpr();
            else
                break;
        }
        return s;
    }

    std::unordered_map<const Stmt *, int> sid;
    std::unordered_map<const Decl *, int> vid;
    int nextId = 0;
    int varId(const Decl *d) {
        d = d->getCanonicalDecl();
        auto it = vid.find(d);
        if(it != vid.end())
            return it->second;
        int n = (int)vid.size() + 1;
        vid[d] = n;
        return n;
    }

    void declRef(const ValueDecl *d) {
        J.attribute("n", d->getNameAsString());
        if(auto *ec = dyn_cast<EnumConstantDecl>(d)) {
            J.attribute("dk", "enumc");
            J.attribute("q", qual(ec));
            J.attribute("cv", llvm::toString(ec->getInitVal(), 10));
        } else if(auto *fd = dyn_cast<FunctionDecl>(d)) {
            J.attribute("dk", "fn");
            J.attribute("f", fnKey(fd));
            J.attribute("q", qual(fd));
        } else if(auto *vd = dyn_cast<VarDecl>(d)) {
            if(isa<ParmVarDecl>(vd))
                J.attribute("dk", "param");
            else if(vd->isLocalVarDecl())
                J.attribute("dk", "local");
            else {
                J.attribute("dk", "global");
                J.attribute("q", qual(vd));
            }
            J.attribute("v", varId(vd));
        } else if(isa<BindingDecl>(d)) {
            J.attribute("dk", "binding");
            J.attribute("v", varId(d));
        } else {
            J.attribute("dk", "other");
        }
    }

    void calleeAttrs(const FunctionDecl *fd) {
        J.attribute("q", qual(fd));
        J.attribute("n", fd->getNameAsString());
        J.attribute("f", fnKey(fd));
        if(nothrow(fd))
            J.attribute("nt", 1);
        if(fd->isExternC())
            J.attribute("ec", 1);
        if(fd->isNoReturn())
            J.attribute("nr", 1);
        if(inRepo(fd))
            J.attribute("rp", 1);
        if(auto *md = dyn_cast<CXXMethodDecl>(fd)) {
            J.attribute("cls", qual(md->getParent()));
            if(md->isConst())
                J.attribute("cst", 1);
            if(md->isStatic())
                J.attribute("sta", 1);
            if(md->isVirtual())
                J.attribute("vir", 1);
            if(md->isDefaulted() || md->isImplicit())
                J.attribute("dft", 1);
        }
    }

    void emitVar(const VarDecl *vd) {
        J.object([&] {
            J.attribute("v", varId(vd));
            J.attribute("n", vd->getNameAsString());
            J.attribute("t", typeId(vd->getType()));
            J.attribute("ts", vd->getType().getAsString(pp));
            J.attribute("l", lineOf(vd->getLocation()));
            if(vd->isStaticLocal())
                J.attribute("static", 1);
            if(vd->getType().isConstQualified() || vd->isConstexpr())
                J.attribute("const", 1);
            if(vd->getType()->isReferenceType())
                J.attribute("ref", 1);
            if(auto *dd = dyn_cast<DecompositionDecl>(vd)) {
                J.attributeArray("bind", [&] {
                    for(auto *b : dd->bindings()) {
                        J.object([&] {
                            J.attribute("v", varId(b));
                            J.attribute("n", b->getNameAsString());
                            J.attribute("t", typeId(b->getType()));
                            if(b->getBinding()) {
                                J.attributeBegin("e");
                                emit(b->getBinding());
                                J.attributeEnd();
                            }
                        });
                    }
                });
            }
            if(vd->hasInit()) {
                J.attributeBegin("i");
                emit(vd->getInit());
                J.attributeEnd();
            }
        });
    }

    void emit(const Stmt *orig) {
        if(!orig) {
            J.value(nullptr);
            return;
        }
        // record wrappers
        const Stmt *s = strip(orig);
        int id = nextId++;
        bool narrowing = false;
        QualType castTo;
        std::string castKind;
        for(const Stmt *w = orig; w && w != s;) {
            sid[w] = id;
            if(auto *ic = dyn_cast<ImplicitCastExpr>(w)) {
                if(ic->getCastKind() == CK_IntegralCast || ic->getCastKind() == CK_FloatingToIntegral ||
                   ic->getCastKind() == CK_IntegralToFloating || ic->getCastKind() == CK_FloatingCast) {
                    if(castKind.empty()) {
                        castTo = ic->getType();
                        castKind = ic->getCastKindName();
                        narrowing = true;
                    }
                }
                w = ic->getSubExpr();
            } else if(auto *e = dyn_cast<ParenExpr>(w))
                w = e->getSubExpr();
            else if(auto *e = dyn_cast<FullExpr>(w))
                w = e->getSubExpr();
            else if(auto *e = dyn_cast<MaterializeTemporaryExpr>(w))
                w = e->getSubExpr();
            else if(auto *e = dyn_cast<CXXBindTemporaryExpr>(w))
                w = e->getSubExpr();
            else if(auto *e = dyn_cast<SubstNonTypeTemplateParmExpr>(w))
                w = e->getReplacement();
            else if(auto *e = dyn_cast<CXXStdInitializerListExpr>(w))
                w = e->getSubExpr();
            else
                break;
        }
        if(!s) {
            J.value(nullptr);
            return;
        }
        sid[s] = id;
        J.object([&] {
            J.attribute("id", id);
            J.attribute("k", s->getStmtClassName());
            J.attribute("l", lineOf(s->getBeginLoc()));
            if(s->getBeginLoc().isMacroID())
                J.attribute("mac", 1);
            if(narrowing) {
                J.attribute("ic", typeId(castTo));
                J.attribute("ick", castKind);
            }
            const Expr *e = dyn_cast<Expr>(s);
            if(e) {
                J.attribute("t", typeId(e->getType()));
                if(!e->isValueDependent() && !e->isTypeDependent() &&
                   (e->getType()->isIntegralOrEnumerationType()) && !isa<IntegerLiteral>(e) &&
                   !isa<CXXBoolLiteralExpr>(e) && !isa<CharacterLiteral>(e)) {
                    Expr::EvalResult r;
                    if(e->isPRValue() && e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects))
                        J.attribute("cv", llvm::toString(r.Val.getInt(), 10));
                    else if(auto *dr = dyn_cast<DeclRefExpr>(e)) {
                        if(auto *vd = dyn_cast<VarDecl>(dr->getDecl());
                           vd && vd->isUsableInConstantExpressions(ctx)) {
                            if(e->EvaluateAsInt(r, ctx, Expr::SE_NoSideEffects))
                                J.attribute("cv", llvm::toString(r.Val.getInt(), 10));
                        }
                    }
                }
            }
            specifics(s);
        });
    }

    void kids(std::initializer_list<const Stmt *> l) {
        J.attributeArray("c", [&] {
            for(auto *x : l)
                emit(x);
        });
    }
    template <typename R> void kidsRange(R &&r) {
        J.attributeArray("c", [&] {
            for(auto *x : r)
                emit(x);
        });
    }

    void specifics(const Stmt *s) {
        if(auto *x = dyn_cast<DeclRefExpr>(s)) {
            declRef(x->getDecl());
            return;
        }
        if(auto *x = dyn_cast<MemberExpr>(s)) {
            auto *m = x->getMemberDecl();
            J.attribute("n", m->getNameAsString());
            if(auto *f = dyn_cast<FieldDecl>(m)) {
                J.attribute("dk", "field");
                J.attribute("cls", qual(f->getParent()));
            } else if(auto *fd = dyn_cast<FunctionDecl>(m)) {
                J.attribute("dk", "fn");
                J.attribute("f", fnKey(fd));
            } else {
                J.attribute("dk", "other");
            }
            if(x->isArrow())
                J.attribute("arrow", 1);
            kids({x->getBase()});
            return;
        }
        if(auto *x = dyn_cast<CXXMemberCallExpr>(s)) {
            if(auto *md = x->getMethodDecl())
                calleeAttrs(md);
            J.attributeBegin("obj");
            emit(x->getImplicitObjectArgument());
            J.attributeEnd();
            kidsRange(x->arguments());
            // callee MemberExpr is part of the call; map it to the call's own id.
            mapCallee(x->getCallee(), sid[s]);
            return;
        }
        if(auto *x = dyn_cast<CXXOperatorCallExpr>(s)) {
            if(auto *fd = x->getDirectCallee())
                calleeAttrs(fd);
            J.attribute("op", getOperatorSpelling(x->getOperator()));
            kidsRange(x->arguments());
            mapCallee(x->getCallee(), sid[s]);
            return;
        }
        if(auto *x = dyn_cast<CallExpr>(s)) {
            if(auto *fd = x->getDirectCallee()) {
                calleeAttrs(fd);
                mapCallee(x->getCallee(), sid[s]);
                if(isa<UserDefinedLiteral>(s)) {
                }
            } else {
                J.attributeBegin("fe");
                emit(x->getCallee());
                J.attributeEnd();
            }
            kidsRange(x->arguments());
            return;
        }
        if(auto *x = dyn_cast<CXXConstructExpr>(s)) {
            calleeAttrs(x->getConstructor());
            if(x->getConstructor()->isCopyConstructor())
                J.attribute("cm", "copy");
            else if(x->getConstructor()->isMoveConstructor())
                J.attribute("cm", "move");
            if(x->isListInitialization())
                J.attribute("li", 1);
            kidsRange(x->arguments());
            return;
        }
        if(auto *x = dyn_cast<CXXNewExpr>(s)) {
            J.attribute("at", typeId(x->getAllocatedType()));
            J.attributeArray("c", [&] {
                if(x->isArray() && x->getArraySize())
                    emit(*x->getArraySize());
                if(x->hasInitializer())
                    emit(x->getInitializer());
            });
            return;
        }
        if(auto *x = dyn_cast<CXXDeleteExpr>(s)) {
            J.attribute("at", typeId(x->getDestroyedType()));
            if(auto *r = x->getDestroyedType()->getAsCXXRecordDecl()) {
                if(auto *d = r->getDestructor())
                    if(nothrow(d))
                        J.attribute("nt", 1);
                if(r->hasTrivialDestructor())
                    J.attribute("nt", 1);
            } else
                J.attribute("nt", 1);
            kids({x->getArgument()});
            return;
        }
        if(auto *x = dyn_cast<ExplicitCastExpr>(s)) {
            J.attribute("ck", x->getCastKindName());
            J.attribute("tt", typeId(x->getTypeAsWritten()));
            J.attribute("tts", x->getTypeAsWritten().getAsString(pp));
            kids({x->getSubExpr()});
            return;
        }
        if(auto *x = dyn_cast<BinaryOperator>(s)) {
            J.attribute("op", x->getOpcodeStr());
            kids({x->getLHS(), x->getRHS()});
            return;
        }
        if(auto *x = dyn_cast<UnaryOperator>(s)) {
            J.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode()));
            if(x->isPostfix())
                J.attribute("post", 1);
            kids({x->getSubExpr()});
            return;
        }
        if(auto *x = dyn_cast<CXXRewrittenBinaryOperator>(s)) {
            auto d = x->getDecomposedForm();
            J.attribute("op", BinaryOperator::getOpcodeStr(d.Opcode));
            kids({d.LHS, d.RHS});
            // make the semantic form resolve to this node
            std::vector<const Stmt *> st{x->getSemanticForm()};
            while(!st.empty()) {
                auto *y = st.back();
                st.pop_back();
                if(!y || sid.count(y))
                    continue;
                sid[y] = sid[s];
                for(auto *c : y->children())
                    st.push_back(c);
            }
            return;
        }
        if(auto *x = dyn_cast<StringLiteral>(s)) {
            if(x->getCharByteWidth() == 1)
                J.attribute("s", json::fixUTF8(x->getString()));
            return;
        }
        if(auto *x = dyn_cast<IntegerLiteral>(s)) {
            J.attribute("cv", llvm::toString(x->getValue(), 10, x->getType()->isSignedIntegerType()));
            return;
        }
        if(auto *x = dyn_cast<CharacterLiteral>(s)) {
            J.attribute("cv", std::to_string(x->getValue()));
            return;
        }
        if(auto *x = dyn_cast<CXXBoolLiteralExpr>(s)) {
            J.attribute("cv", x->getValue() ? "1" : "0");
            return;
        }
        if(auto *x = dyn_cast<FloatingLiteral>(s)) {
            llvm::SmallString<32> b;
            x->getValue().toString(b);
            J.attribute("fv", b.str());
            return;
        }
        if(auto *x = dyn_cast<DeclStmt>(s)) {
            J.attributeArray("d", [&] {
                for(auto *d : x->decls()) {
                    if(auto *vd = dyn_cast<VarDecl>(d))
                        emitVar(vd);
                }
            });
            return;
        }
        if(auto *x = dyn_cast<LambdaExpr>(s)) {
            auto *op = x->getCallOperator();
            J.attributeArray("lam", [&] {
                if(auto *ft = op->getDescribedFunctionTemplate()) {
                    for(auto *spec : ft->specializations())
                        J.value(fnKey(spec));
                } else
                    J.value(fnKey(op));
            });
            J.attributeArray("cap", [&] {
                auto it = x->capture_init_begin();
                for(auto &c : x->captures()) {
                    J.object([&] {
                        if(c.capturesVariable()) {
                            J.attribute("v", varId(c.getCapturedVar()));
                            J.attribute("n", c.getCapturedVar()->getNameAsString());
                            J.attribute("by", c.getCaptureKind() == LCK_ByRef ? "ref" : "copy");
                        } else if(c.capturesThis())
                            J.attribute("by", "this");
                        if(it != x->capture_init_end() && *it && c.capturesVariable() &&
                           c.getCapturedVar()->isInitCapture()) {
                            J.attributeBegin("i");
                            emit(*it);
                            J.attributeEnd();
                        }
                    });
                    ++it;
                }
            });
            return;
        }
        if(auto *x = dyn_cast<InitListExpr>(s)) {
            if(auto *sem = x->isSemanticForm() ? x : x->getSemanticForm(); sem) {
                if(sem != x)
                    sid[sem] = sid[s];
                if(auto *r = sem->getType()->getAsCXXRecordDecl(); r && !r->isUnion()) {
                    J.attribute("rec", qual(r));
                    J.attributeArray("flds", [&] {
                        for(unsigned b = 0; b < r->getNumBases(); ++b)
                            J.value("<base>");
                        for(auto *f : r->fields()) {
                            if(!f->isUnnamedBitfield())
                                J.value(f->getNameAsString());
                        }
                    });
                }
                if(sem->hasArrayFiller())
                    J.attribute("filler", 1);
                kidsRange(sem->inits());
            } else
                kidsRange(x->inits());
            return;
        }
        if(auto *x = dyn_cast<CXXDefaultInitExpr>(s)) {
            J.attribute("n", x->getField()->getNameAsString());
            kids({x->getExpr()});
            return;
        }
        if(auto *x = dyn_cast<CXXDefaultArgExpr>(s)) {
            kids({x->getExpr()});
            return;
        }
        if(auto *x = dyn_cast<CXXTryStmt>(s)) {
            J.attributeArray("c", [&] {
                emit(x->getTryBlock());
                for(unsigned i = 0; i < x->getNumHandlers(); ++i)
                    emit(x->getHandler(i));
            });
            return;
        }
        if(auto *x = dyn_cast<CXXCatchStmt>(s)) {
            if(!x->getExceptionDecl())
                J.attribute("all", 1);
            else {
                J.attribute("ct", typeId(x->getCaughtType()));
                J.attribute("v", varId(x->getExceptionDecl()));
            }
            kids({x->getHandlerBlock()});
            return;
        }
        if(auto *x = dyn_cast<CXXForRangeStmt>(s)) {
            // c: range-init, loop var decl, body ; also the desugared parts
            J.attributeArray("c", [&] {
                emit(x->getRangeStmt());
                emit(x->getLoopVarStmt());
                emit(x->getBody());
            });
            J.attributeArray("x", [&] {
                emit(x->getInit());
                emit(x->getBeginStmt());
                emit(x->getEndStmt());
                emit(x->getCond());
                emit(x->getInc());
            });
            return;
        }
        if(auto *x = dyn_cast<IfStmt>(s)) {
            if(x->isConstexpr())
                J.attribute("cx", 1);
            J.attributeArray("c", [&] {
                emit(x->getInit());
                emit(x->getConditionVariableDeclStmt());
                emit(x->getCond());
                emit(x->getThen());
                emit(x->getElse());
            });
            return;
        }
        if(auto *x = dyn_cast<SwitchStmt>(s)) {
            J.attributeArray("c", [&] {
                emit(x->getInit());
                emit(x->getConditionVariableDeclStmt());
                emit(x->getCond());
                emit(x->getBody());
            });
            return;
        }
        if(auto *x = dyn_cast<CaseStmt>(s)) {
            J.attributeArray("c", [&] {
                emit(x->getLHS());
                emit(x->getSubStmt());
            });
            return;
        }
        if(auto *x = dyn_cast<ForStmt>(s)) {
            J.attributeArray("c", [&] {
                emit(x->getInit());
                emit(x->getConditionVariableDeclStmt());
                emit(x->getCond());
                emit(x->getInc());
                emit(x->getBody());
            });
            return;
        }
        if(auto *x = dyn_cast<WhileStmt>(s)) {
            J.attributeArray("c", [&] {
                emit(x->getConditionVariableDeclStmt());
                emit(x->getCond());
                emit(x->getBody());
            });
            return;
        }
        if(auto *x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) {
            if(x->isArgumentType())
                J.attribute("at", typeId(x->getArgumentType()));
            else {
                J.attribute("at", typeId(x->getArgumentExpr()->getType()));
            }
            return;
        }
        if(auto *x = dyn_cast<OpaqueValueExpr>(s)) {
            if(x->getSourceExpr())
                kids({x->getSourceExpr()});
            return;
        }
        if(auto *x = dyn_cast<CXXInheritedCtorInitExpr>(s)) {
            calleeAttrs(x->getConstructor());
            return;
        }
        if(auto *x = dyn_cast<UnresolvedLookupExpr>(s)) {
            J.attribute("n", x->getName().getAsString());
            return;
        }
        if(auto *x = dyn_cast<CXXDependentScopeMemberExpr>(s)) {
            J.attribute("n", x->getMember().getAsString());
            if(!x->isImplicitAccess())
                kids({x->getBase()});
            return;
        }
        if(auto *x = dyn_cast<UnresolvedMemberExpr>(s)) {
            J.attribute("n", x->getMemberName().getAsString());
            if(!x->isImplicitAccess())
                kids({x->getBase()});
            return;
        }
        kidsRange(s->children());
    }

    void mapCallee(const Stmt *c, int id) {
        std::vector<const Stmt *> st{c};
        while(!st.empty()) {
            auto *y = st.back();
            st.pop_back();
            if(!y || sid.count(y))
                continue;
            sid[y] = -id - 2; // callee reference: not an event of its own
            if(isa<MemberExpr>(y))
                continue;
            for(auto *ch : y->children())
                st.push_back(ch);
        }
    }

    void emitCFG(const FunctionDecl *fd) {
        CFG::BuildOptions bo;
        bo.setAllAlwaysAdd();
        bo.AddImplicitDtors = true;
        bo.AddInitializers = true;
        bo.AddEHEdges = false;
        bo.PruneTriviallyFalseEdges = true;
        auto cfg = CFG::buildCFG(fd, fd->getBody(), &ctx, bo);
        if(!cfg)
            return;
        J.attributeBegin("cfg");
        J.object([&] {
            J.attribute("entry", (int)cfg->getEntry().getBlockID());
            J.attribute("exit", (int)cfg->getExit().getBlockID());
            J.attributeArray("b", [&] {
                for(auto *b : *cfg) {
                    J.object([&] {
                        J.attribute("i", (int)b->getBlockID());
                        J.attributeArray("e", [&] {
                            int last = -1;
                            for(auto &el : *b) {
                                if(auto st = el.getAs<CFGStmt>()) {
                                    auto *p = st->getStmt();
                                    auto it = sid.find(p);
                                    if(it == sid.end())
                                        it = sid.find(strip(p));
                                    if(it != sid.end()) {
                                        if(it->second >= 0 && it->second != last)
                                            J.value(it->second);
                                        if(it->second >= 0)
                                            last = it->second;
                                    } else if(auto *ds = dyn_cast<DeclStmt>(p)) {
                                        // CFG synthesises single-decl DeclStmts
                                        J.array([&] {
                                            J.value("decl");
                                            for(auto *d : ds->decls())
                                                J.value(varId(d));
                                        });
                                    }
                                } else if(auto dt = el.getAs<CFGAutomaticObjDtor>()) {
                                    J.array([&] {
                                        J.value("dtor");
                                        J.value(varId(dt->getVarDecl()));
                                    });
                                } else if(auto ini = el.getAs<CFGInitializer>()) {
                                    auto *i = ini->getInitializer();
                                    J.array([&] {
                                        J.value("init");
                                        J.value(i->isAnyMemberInitializer()
                                                    ? i->getAnyMember()->getNameAsString()
                                                    : std::string("<base>"));
                                        auto it = sid.find(i->getInit());
                                        if(it == sid.end())
                                            it = sid.find(strip(i->getInit()));
                                        J.value(it == sid.end() ? -1 : it->second);
                                    });
                                }
                            }
                        });
                        if(auto *t = b->getTerminatorStmt()) {
                            auto it = sid.find(t);
                            if(it != sid.end())
                                J.attribute("t", it->second);
                            J.attribute("tk", t->getStmtClassName());
                        }
                        if(auto *c = b->getTerminatorCondition()) {
                            auto it = sid.find(c);
                            if(it == sid.end())
                                it = sid.find(strip(c));
                            if(it != sid.end())
                                J.attribute("c", it->second);
                        }
                        if(auto *l = b->getLabel()) {
                            auto it = sid.find(l);
                            if(it != sid.end())
                                J.attribute("lab", it->second);
                        }
                        if(b->hasNoReturnElement())
                            J.attribute("nr", 1);
                        J.attributeArray("s", [&] {
                            for(auto &su : b->succs()) {
                                auto *sb = su.getReachableBlock();
                                if(sb)
                                    J.value((int)sb->getBlockID());
                                else
                                    J.value(-1);
                            }
                        });
                    });
                }
            });
        });
        J.attributeEnd();
    }

    std::set<std::string> done;
    std::set<const FunctionDecl *> declsDone;

    void emitFunction(const FunctionDecl *fd) {
        auto key = fnKey(fd);
        if(!done.insert(key).second)
            return;
        sid.clear();
        nextId = 0;
        J.object([&] {
            J.attribute("f", key);
            J.attribute("q", qual(fd));
            J.attribute("n", fd->getNameAsString());
            J.attribute("file", fileOf(fd->getLocation()));
            J.attribute("l", lineOf(fd->getLocation()));
            J.attribute("le", lineOf(fd->getEndLoc()));
            J.attribute("rt", typeId(fd->getReturnType()));
            J.attribute("rts", fd->getReturnType().getAsString(pp));
            if(nothrow(fd))
                J.attribute("nt", 1);
            if(fd->isExternC())
                J.attribute("ec", 1);
            if(fd->isNoReturn())
                J.attribute("nr", 1);
            if(fd->isDependentContext())
                J.attribute("dep", 1);
            if(fd->isTemplateInstantiation())
                J.attribute("inst", 1);
            if(fd->getStorageClass() == SC_Static || fd->isInAnonymousNamespace())
                J.attribute("internal", 1);
            if(isa<CXXConstructorDecl>(fd))
                J.attribute("ctor", 1);
            if(isa<CXXDestructorDecl>(fd))
                J.attribute("dtor", 1);
            if(isa<CXXConversionDecl>(fd))
                J.attribute("conv", 1);
            if(fd->isConstexpr())
                J.attribute("cexpr", 1);
            if(auto *md = dyn_cast<CXXMethodDecl>(fd)) {
                J.attribute("cls", qual(md->getParent()));
                if(md->isConst())
                    J.attribute("cst", 1);
                if(md->isStatic())
                    J.attribute("sta", 1);
                if(md->getParent()->isLambda()) {
                    J.attribute("lambda", 1);
                }
                J.attribute("acc", md->getAccess() == AS_public      ? "public"
                                   : md->getAccess() == AS_protected ? "protected"
                                                                     : "private");
            }
            J.attributeArray("p", [&] {
                for(auto *p : fd->parameters()) {
                    J.object([&] {
                        J.attribute("n", p->getNameAsString());
                        J.attribute("v", varId(p));
                        J.attribute("t", typeId(p->getType()));
                        J.attribute("ts", p->getType().getAsString(pp));
                        if(p->hasDefaultArg() && !p->hasUninstantiatedDefaultArg() &&
                           !p->hasUnparsedDefaultArg())
                            J.attribute("def", 1);
                    });
                }
            });
            if(auto *cd = dyn_cast<CXXConstructorDecl>(fd)) {
                J.attributeArray("inits", [&] {
                    for(auto *i : cd->inits()) {
                        J.object([&] {
                            if(i->isAnyMemberInitializer())
                                J.attribute("m", i->getAnyMember()->getNameAsString());
                            else if(i->isDelegatingInitializer())
                                J.attribute("dlg", 1);
                            else
                                J.attribute("base", 1);
                            if(i->isWritten())
                                J.attribute("w", 1);
                            J.attributeBegin("i");
                            emit(i->getInit());
                            J.attributeEnd();
                        });
                    }
                });
            }
            J.attributeBegin("body");
            emit(fd->getBody());
            J.attributeEnd();
            if(!fd->isDependentContext())
                emitCFG(fd);
        });
    }

    std::vector<const FunctionDecl *> fns;
    std::vector<const CXXRecordDecl *> recs;
    std::vector<const EnumDecl *> enums;
    std::vector<const VarDecl *> globals;
    std::vector<const FunctionDecl *> decls;

    bool VisitFunctionDecl(FunctionDecl *fd) {
        if(!inRepo(fd))
            return true;
        if(fd->isThisDeclarationADefinition() && fd->hasBody() && !fd->isDefaulted())
            fns.push_back(fd);
        decls.push_back(fd);
        return true;
    }
    bool VisitLambdaExpr(LambdaExpr *le) {
        auto *op = le->getCallOperator();
        if(!inRepo(op))
            return true;
        if(auto *ft = op->getDescribedFunctionTemplate()) {
            for(auto *s : ft->specializations()) {
                if(s->hasBody()) {
                    fns.push_back(s);
                    // nested lambdas inside instantiated generic lambdas
                    TraverseStmt(s->getBody());
                }
            }
        } else
            fns.push_back(op);
        return true;
    }
    bool VisitCXXRecordDecl(CXXRecordDecl *r) {
        if(r->isThisDeclarationADefinition() && inRepo(r) && !r->isLambda())
            recs.push_back(r);
        return true;
    }
    bool VisitEnumDecl(EnumDecl *e) {
        if(e->isThisDeclarationADefinition() && inRepo(e))
            enums.push_back(e);
        return true;
    }
    bool VisitVarDecl(VarDecl *v) {
        if(!inRepo(v))
            return true;
        if(v->isFileVarDecl() || v->isStaticLocal())
            globals.push_back(v);
        return true;
    }

    void run() {
        TraverseDecl(ctx.getTranslationUnitDecl());
        J.object([&] {
            J.attributeArray("functions", [&] {
                for(auto *f : fns)
                    emitFunction(f);
            });
            J.attributeArray("decls", [&] {
                std::set<std::string> seen;
                for(auto *f : decls) {
                    if(f->isDependentContext())
                        continue;
                    auto k = fnKey(f) + "|" + fileOf(f->getLocation()) +
                             std::to_string(lineOf(f->getLocation()));
                    if(!seen.insert(k).second)
                        continue;
                    J.object([&] {
                        J.attribute("f", fnKey(f));
                        J.attribute("q", qual(f));
                        J.attribute("n", f->getNameAsString());
                        J.attribute("file", fileOf(f->getLocation()));
                        J.attribute("l", lineOf(f->getLocation()));
                        J.attribute("def", f->isThisDeclarationADefinition());
                        J.attribute("rts", f->getReturnType().getAsString(pp));
                        J.attribute("rt", typeId(f->getReturnType()));
                        if(nothrow(f))
                            J.attribute("nt", 1);
                        if(f->isExternC())
                            J.attribute("ec", 1);
                        if(f->isImplicit() || f->isDefaulted())
                            J.attribute("dft", 1);
                        if(f->isDeleted())
                            J.attribute("del", 1);
                        if(auto *va = f->getAttr<VisibilityAttr>())
                            J.attribute("vis", va->getVisibility() == VisibilityAttr::Default ? 1 : 0);
                        {
                            std::set<int> nn;
                            for(auto *at : f->specific_attrs<NonNullAttr>()) {
                                if(at->args_size() == 0) {
                                    for(unsigned i = 0; i < f->getNumParams(); ++i)
                                        nn.insert(i);
                                }
                                for(auto &ix : at->args())
                                    nn.insert((int)ix.getASTIndex());
                            }
                            J.attributeArray("nonnull", [&] {
                                for(int i : nn)
                                    J.value(i);
                            });
                        }
                        if(f->hasAttr<WarnUnusedResultAttr>())
                            J.attribute("nodiscard", 1);
                        J.attributeArray("p", [&] {
                            for(auto *p : f->parameters()) {
                                J.object([&] {
                                    J.attribute("n", p->getNameAsString());
                                    J.attribute("t", typeId(p->getType()));
                                    J.attribute("ts", p->getType().getAsString(pp));
                                });
                            }
                        });
                    });
                }
            });
            J.attributeArray("records", [&] {
                std::set<std::string> seen;
                for(auto *r : recs) {
                    auto q = qual(r);
                    if(r->isDependentContext() || !seen.insert(q).second)
                        continue;
                    sid.clear();
                    nextId = 0;
                    J.object([&] {
                        J.attribute("q", q);
                        J.attribute("file", fileOf(r->getLocation()));
                        J.attribute("l", lineOf(r->getLocation()));
                        J.attribute("usr", usrOf(r));
                        J.attribute("t", typeId(ctx.getRecordType(r)));
                        if(r->isUnion())
                            J.attribute("union", 1);
                        J.attribute("agg", r->isAggregate());
                        if(r->hasUserDeclaredDestructor())
                            J.attribute("udtor", 1);
                        if(r->hasUserDeclaredConstructor())
                            J.attribute("uctor", 1);
                        J.attribute("copyable", r->hasSimpleCopyConstructor() || r->hasUserDeclaredCopyConstructor());
                        J.attributeArray("bases", [&] {
                            for(auto &b : r->bases())
                                J.value(b.getType().getCanonicalType().getAsString(pp));
                        });
                        J.attributeArray("fields", [&] {
                            for(auto *f : r->fields()) {
                                J.object([&] {
                                    J.attribute("n", f->getNameAsString());
                                    J.attribute("t", typeId(f->getType()));
                                    J.attribute("ts", f->getType().getAsString(pp));
                                    J.attribute("l", lineOf(f->getLocation()));
                                    auto ty = f->getType().getCanonicalType();
                                    const char *tk = "record";
                                    auto base = ty;
                                    while(base->isConstantArrayType())
                                        base = base->getAsArrayTypeUnsafe()->getElementType().getCanonicalType();
                                    if(base->isPointerType())
                                        tk = "pointer";
                                    else if(base->isEnumeralType())
                                        tk = "enum";
                                    else if(base->isBuiltinType())
                                        tk = "builtin";
                                    else if(base->isReferenceType())
                                        tk = "ref";
                                    J.attribute("tk", tk);
                                    if(f->isMutable())
                                        J.attribute("mut", 1);
                                    if(f->hasInClassInitializer() && f->getInClassInitializer()) {
                                        J.attributeBegin("i");
                                        emit(f->getInClassInitializer());
                                        J.attributeEnd();
                                    }
                                    if(!ty->isDependentType() && !ty->isReferenceType() && !ty->isIncompleteType())
                                        J.attribute("sz", (int64_t)ctx.getTypeSizeInChars(ty).getQuantity());
                                });
                            }
                        });
                    });
                }
            });
            J.attributeArray("enums", [&] {
                std::set<std::string> seen;
                for(auto *e : enums) {
                    auto q = qual(e);
                    if(!seen.insert(q + std::to_string(lineOf(e->getLocation()))).second)
                        continue;
                    J.object([&] {
                        J.attribute("q", q);
                        if(auto *td = e->getTypedefNameForAnonDecl())
                            J.attribute("td", td->getNameAsString());
                        J.attribute("file", fileOf(e->getLocation()));
                        J.attribute("l", lineOf(e->getLocation()));
                        J.attribute("scoped", e->isScoped());
                        J.attributeArray("e", [&] {
                            for(auto *c : e->enumerators()) {
                                J.array([&] {
                                    J.value(c->getNameAsString());
                                    J.value(c->getInitVal().getExtValue());
                                    J.value((int)lineOf(c->getLocation()));
                                });
                            }
                        });
                    });
                }
            });
            J.attributeArray("globals", [&] {
                std::set<std::string> seen;
                for(auto *v : globals) {
                    if(v->getDeclContext()->isDependentContext())
                        continue;
                    auto k = qual(v) + fileOf(v->getLocation()) + std::to_string(lineOf(v->getLocation()));
                    if(!seen.insert(k).second)
                        continue;
                    sid.clear();
                    nextId = 0;
                    J.object([&] {
                        J.attribute("q", qual(v));
                        J.attribute("file", fileOf(v->getLocation()));
                        J.attribute("def", (bool)v->isThisDeclarationADefinition());
                        if(v->getTSCSpec() != TSCS_unspecified)
                            J.attribute("tls", 1);
                        auto ty = v->getType();
                        bool c = ty.isConstQualified() || v->isConstexpr();
                        if(ty->isArrayType())
                            c = c || ctx.getBaseElementType(ty).isConstQualified();
                        if(c)
                            J.attribute("konst", 1);
                        if(v->isStaticLocal())
                            J.attribute("slocal", 1);
                        if(v->isStaticDataMember())
                            J.attribute("smember", 1);
                        J.attributeBegin("var");
                        emitVar(v);
                        J.attributeEnd();
                    });
                }
            });
            J.attributeArray("types", [&] {
                for(auto &t : types)
                    J.value(t);
            });
        });
    }

private:
    ASTContext &ctx;
    SourceManager &sm;
    json::OStream &J;
    PrintingPolicy pp;
    std::vector<std::string> types;
    std::unordered_map<std::string, int> tids;
    std::unordered_map<const FunctionDecl *, std::string> fkeys;
};

class Consumer : public ASTConsumer {
public:
    void HandleTranslationUnit(ASTContext &ctx) override {
        if(ctx.getDiagnostics().hasErrorOccurred())
            return;
        std::error_code ec;
        llvm::raw_fd_ostream os(outpath, ec);
        if(ec) {
            llvm::errs() << "cannot write " << outpath << "\n";
            exit(3);
        }
        json::OStream J(os);
        Extractor ex(ctx, J);
        ex.run();
        os << "\n";
    }
};

class Action : public ASTFrontendAction {
public:
    std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override {
        return std::make_unique<Consumer>();
    }
};

} // namespace

int main(int argc, const char **argv) {
    if(argc < 5) {
        llvm::errs() << "usage: capyextract OUT ROOTS SOURCE -- flags\n";
        return 2;
    }
    outpath = argv[1];
    std::string r = argv[2];
    size_t p = 0;
    while(p <= r.size()) {
        auto q = r.find(':', p);
        if(q == std::string::npos)
            q = r.size();
        if(q > p)
            roots.push_back(r.substr(p, q - p));
        p = q + 1;
    }
    std::string src = argv[3];
    std::vector<std::string> flags;
    for(int i = 5; i < argc; ++i)
        flags.push_back(argv[i]);
    tooling::FixedCompilationDatabase db(".", flags);
    tooling::ClangTool tool(db, {src});
    return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
