// qtx: mechanical extractor.  Parses one translation unit of /repo with clang and writes, as JSON, the fully
// resolved AST (template instantiations included, implicit conversions explicit) of every function whose
// qualified name matches one of the requested roots and of every function with a body in the source tree
// reachable from them.  Nothing is rewritten: what is dropped is listed in DESIGN.md.
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include <deque>
#include <map>
#include <regex>
#include <set>
using namespace clang;
using llvm::json::OStream;

static std::vector<std::string> g_roots;    // regexes over qualified names
static std::vector<std::string> g_prefix;   // file prefixes whose bodies are emitted
static std::string g_out;

struct Emitter
{
	ASTContext &C;
	std::error_code ec;
	llvm::raw_fd_ostream os;
	OStream J;
	PrintingPolicy PP;
	std::map<const Decl *, int> ids;
	std::deque<const FunctionDecl *> work;
	std::set<const FunctionDecl *> queued;
	std::map<const Type *, int> tids;
	std::vector<QualType> types;
	std::map<const RecordDecl *, int> rids;
	std::vector<const RecordDecl *> recs;

	Emitter(ASTContext &c) : C(c), os(g_out, ec), J(os, 0), PP(c.getLangOpts())
	{
		PP.SuppressTagKeyword = true;
		PP.FullyQualifiedName = true;
		PP.PrintCanonicalTypes = true;
	}
	int id(const Decl *d)
	{
		d = d->getCanonicalDecl();
		auto it = ids.find(d);
		if (it != ids.end()) return it->second;
		int n = ids.size() + 1;
		ids[d] = n;
		return n;
	}
	int rec(const RecordDecl *r)
	{
		if (auto d = r->getDefinition()) r = d;
		auto it = rids.find(r);
		if (it != rids.end()) return it->second;
		int n = recs.size();
		rids[r] = n;
		recs.push_back(r);
		return n;
	}
	int type(QualType q)
	{
		q = q.getCanonicalType();
		bool cq = q.isConstQualified();
		(void)cq;
		q = q.getUnqualifiedType();
		const Type *t = q.getTypePtr();
		auto it = tids.find(t);
		if (it != tids.end()) return it->second;
		int n = types.size();
		tids[t] = n;
		types.push_back(q);
		return n;
	}
	std::string file(const Decl *d)
	{
		auto &SM = C.getSourceManager();
		auto l = SM.getFileLoc(d->getLocation());
		auto f = SM.getFilename(l).str();
		return f;
	}
	int line(SourceLocation l)
	{
		auto &SM = C.getSourceManager();
		return SM.getExpansionLineNumber(l);
	}
	bool wanted(const FunctionDecl *f)
	{
		auto n = file(f);
		for (auto &p : g_prefix)
			if (n.compare(0, p.size(), p) == 0) return true;
		return false;
	}
	const FunctionDecl *def(const FunctionDecl *f)
	{
		const FunctionDecl *d = nullptr;
		if (f->hasBody(d)) return d;
		// defaulted special members have no written body
		return nullptr;
	}
	void need(const FunctionDecl *f)
	{
		auto d = def(f);
		if (!d) return;
		if (d->isDependentContext()) return;
		if (!wanted(d)) return;
		if (queued.insert(d).second) work.push_back(d);
	}
	std::string qual(const NamedDecl *d)
	{
		std::string s;
		llvm::raw_string_ostream o(s);
		PrintingPolicy P2 = PP;
		P2.SuppressUnwrittenScope = true;
		d->printQualifiedName(o, P2);
		return o.str();
	}
	void targ(const TemplateArgument &a)
	{
		J.object([&] {
			switch (a.getKind())
			{
			case TemplateArgument::Type: J.attribute("type", type(a.getAsType())); break;
			case TemplateArgument::Integral: {
				llvm::SmallString<32> s;
				a.getAsIntegral().toString(s);
				J.attribute("int", s.str());
				break;
			}
			case TemplateArgument::Pack:
				J.attributeArray("pack", [&] {
					for (auto &b : a.pack_elements())
						targ(b);
				});
				break;
			default: J.attribute("other", (int)a.getKind());
			}
		});
	}
	void funcref(const FunctionDecl *f)
	{
		need(f);
		J.attributeObject("fn", [&] { fhead(f); });
	}
	void fhead(const FunctionDecl *f)
	{
		auto d = def(f);
		J.attribute("id", id(f));
		J.attribute("name", f->getNameAsString());
		J.attribute("qual", qual(f));
		J.attribute("ret", type(f->getReturnType()));
		J.attributeArray("pt", [&] {
			for (auto p : f->parameters())
				J.value(type(p->getType()));
		});
		if (f->isOverloadedOperator()) J.attribute("op", getOperatorSpelling(f->getOverloadedOperator()));
		if (auto m = dyn_cast<CXXMethodDecl>(f))
		{
			J.attribute("static", m->isStatic());
			J.attribute("virtual", m->isVirtual());
			J.attribute("pure", m->isPureVirtual());
			J.attribute("const", m->isConst());
			J.attribute("rec", rec(m->getParent()));
			J.attribute("lambda", m->getParent()->isLambda());
			J.attribute("implicit", f->isImplicit() || f->isDefaulted());
		}
		const char *k = "func";
		if (isa<CXXConstructorDecl>(f)) k = "ctor";
		else if (isa<CXXDestructorDecl>(f)) k = "dtor";
		else if (isa<CXXConversionDecl>(f)) k = "conv";
		else if (isa<CXXMethodDecl>(f)) k = "method";
		J.attribute("kind", k);
		if (auto c = dyn_cast<CXXConstructorDecl>(f))
			J.attribute("ck", c->isCopyConstructor() ? "copy" : c->isMoveConstructor() ? "move" : c->isDefaultConstructor() ? "default" : "other");
		if (auto ta = f->getTemplateSpecializationArgs())
			J.attributeArray("targs", [&] {
				for (auto &a : ta->asArray())
					targ(a);
			});
		J.attribute("body", d && !d->isDependentContext() && wanted(d));
	}
	void var(const VarDecl *v)
	{
		J.attribute("id", id(v));
		J.attribute("name", v->getNameAsString());
		J.attribute("t", type(v->getType()));
		J.attribute("static", v->isStaticLocal());
		if (auto dd = dyn_cast<DecompositionDecl>(v))
			J.attributeArray("bindings", [&] {
				for (auto b : dd->bindings())
					J.object([&] {
						J.attribute("id", id(b));
						J.attribute("name", b->getNameAsString());
						J.attribute("t", type(b->getType()));
						if (auto h = b->getHoldingVar())
						{
							J.attribute("hid", id(h));
							J.attribute("ht", type(h->getType()));
							if (h->getInit())
							{
								J.attributeBegin("hinit");
								stmt(h->getInit());
								J.attributeEnd();
							}
						}
						else if (b->getBinding())
						{
							J.attributeBegin("e");
							stmt(b->getBinding());
							J.attributeEnd();
						}
					});
			});
		if (v->getInit())
		{
			J.attributeBegin("init");
			stmt(v->getInit());
			J.attributeEnd();
		}
	}
	void opt(const char *n, const Stmt *s)
	{
		if (!s) return;
		J.attributeBegin(n);
		stmt(s);
		J.attributeEnd();
	}
	void stmt(const Stmt *s)
	{
		if (!s)
		{
			J.value(nullptr);
			return;
		}
		// transparent wrappers
		if (auto x = dyn_cast<ExprWithCleanups>(s)) return stmt(x->getSubExpr());
		if (auto x = dyn_cast<ParenExpr>(s)) return stmt(x->getSubExpr());
		if (auto x = dyn_cast<MaterializeTemporaryExpr>(s))
		{
			J.object([&] {
				J.attribute("k", "Mat");
				J.attribute("t", type(x->getType()));
				opt("e", x->getSubExpr());
			});
			return;
		}
		if (auto x = dyn_cast<CXXBindTemporaryExpr>(s)) return stmt(x->getSubExpr());
		if (auto x = dyn_cast<ConstantExpr>(s)) return stmt(x->getSubExpr());
		if (auto x = dyn_cast<CXXDefaultArgExpr>(s)) return stmt(x->getExpr());
		if (auto x = dyn_cast<CXXDefaultInitExpr>(s)) return stmt(x->getExpr());
		if (auto x = dyn_cast<CXXStdInitializerListExpr>(s))
		{
			J.object([&] {
				J.attribute("k", "StdInitList");
				J.attribute("t", type(x->getType()));
				opt("e", x->getSubExpr());
			});
			return;
		}
		J.object([&] {
			J.attribute("k", s->getStmtClassName());
			J.attribute("l", line(s->getBeginLoc()));
			if (auto e = dyn_cast<Expr>(s))
			{
				J.attribute("t", type(e->getType()));
				J.attribute("vk", e->isLValue() ? "l" : e->isXValue() ? "x" : "p");
				if (!e->isValueDependent() && !e->isTypeDependent() && e->getType()->isIntegralOrEnumerationType() && e->isPRValue())
				{
					Expr::EvalResult r;
					if (!isa<CXXConstructExpr>(e) && e->EvaluateAsInt(r, C, Expr::SE_NoSideEffects))
					{
						llvm::SmallString<32> t;
						r.Val.getInt().toString(t);
						J.attribute("cv", t.str());
						if (nttp(e)) J.attribute("sym", true);
					}
				}
			}
			body(s);
		});
	}
	// does the value depend on a non-type template argument
	static const Expr *staticInit(const ValueDecl *d)
	{
		auto v = dyn_cast<VarDecl>(d);
		if (!v || !v->isStaticDataMember() || !isa<ClassTemplateSpecializationDecl>(v->getDeclContext())) return nullptr;
		const VarDecl *w = nullptr;
		return v->getAnyInitializer(w);
	}
	static bool nttp(const Stmt *s)
	{
		if (!s) return false;
		if (isa<SubstNonTypeTemplateParmExpr>(s)) return true;
		if (auto x = dyn_cast<DeclRefExpr>(s))
			if (auto i = staticInit(x->getDecl())) return nttp(i);
		if (auto x = dyn_cast<MemberExpr>(s))
			if (auto i = staticInit(x->getMemberDecl())) return nttp(i);
		for (auto c : s->children())
			if (nttp(c)) return true;
		return false;
	}
	void kids(const Stmt *s)
	{
		J.attributeArray("c", [&] {
			for (auto c : s->children())
				stmt(c);
		});
	}
	void args(const char *n, llvm::ArrayRef<const Expr *> a)
	{
		J.attributeArray(n, [&] {
			for (auto x : a)
				stmt(x);
		});
	}
	void body(const Stmt *s)
	{
		if (auto x = dyn_cast<SubstNonTypeTemplateParmExpr>(s))
		{
			J.attribute("name", x->getParameter()->getNameAsString());
			opt("e", x->getReplacement());
			return;
		}
		if (auto x = dyn_cast<DeclRefExpr>(s))
		{
			auto d = x->getDecl();
			if (nttp(x)) opt("ginit", staticInit(d));
			J.attribute("name", d->getNameAsString());
			J.attribute("id", id(d));
			J.attribute("dk", d->getDeclKindName());
			J.attribute("dt", type(d->getType()));
			if (auto f = dyn_cast<FunctionDecl>(d)) funcref(f);
			if (auto v = dyn_cast<VarDecl>(d))
			{
				if (v->hasGlobalStorage())
				{
					J.attribute("global", true);
					J.attribute("qual", qual(v));
				}
			}
			if (auto ec = dyn_cast<EnumConstantDecl>(d))
			{
				llvm::SmallString<32> t;
				ec->getInitVal().toString(t);
				J.attribute("ev", t.str());
			}
			return;
		}
		if (auto x = dyn_cast<MemberExpr>(s))
		{
			J.attribute("name", x->getMemberDecl()->getNameAsString());
			J.attribute("arrow", x->isArrow());
			J.attribute("dk", x->getMemberDecl()->getDeclKindName());
			J.attribute("dt", type(x->getMemberDecl()->getType()));
			if (auto f = dyn_cast<FunctionDecl>(x->getMemberDecl())) funcref(f);
			if (auto v = dyn_cast<VarDecl>(x->getMemberDecl()))
			{
				J.attribute("global", true);
				J.attribute("qual", qual(v));
			}
			opt("e", x->getBase());
			return;
		}
		if (auto x = dyn_cast<CXXConstructExpr>(s))
		{
			J.attribute("elide", x->isElidable());
			J.attribute("list", x->isListInitialization());
			funcref(x->getConstructor());
			args("args", llvm::ArrayRef(x->getArgs(), x->getNumArgs()));
			return;
		}
		if (auto x = dyn_cast<CXXInheritedCtorInitExpr>(s))
		{
			funcref(x->getConstructor());
			return;
		}
		if (auto x = dyn_cast<CallExpr>(s))
		{
			if (auto f = x->getDirectCallee()) funcref(f);
			if (auto o = dyn_cast<CXXOperatorCallExpr>(s)) J.attribute("op", getOperatorSpelling(o->getOperator()));
			opt("callee", x->getCallee());
			args("args", llvm::ArrayRef(x->getArgs(), x->getNumArgs()));
			return;
		}
		if (auto x = dyn_cast<CastExpr>(s))
		{
			J.attribute("ck", x->getCastKindName());
			if (auto f = dyn_cast_or_null<FunctionDecl>(x->getConversionFunction())) funcref(f);
			opt("e", x->getSubExpr());
			return;
		}
		if (auto x = dyn_cast<BinaryOperator>(s))
		{
			J.attribute("op", x->getOpcodeStr());
			if (auto ca = dyn_cast<CompoundAssignOperator>(s)) J.attribute("ct", type(ca->getComputationLHSType()));
			opt("a", x->getLHS());
			opt("b", x->getRHS());
			return;
		}
		if (auto x = dyn_cast<UnaryOperator>(s))
		{
			J.attribute("op", UnaryOperator::getOpcodeStr(x->getOpcode()));
			J.attribute("post", x->isPostfix());
			opt("e", x->getSubExpr());
			return;
		}
		if (auto x = dyn_cast<IntegerLiteral>(s))
		{
			llvm::SmallString<32> t;
			x->getValue().toString(t, 10, false);
			J.attribute("v", t.str());
			return;
		}
		if (auto x = dyn_cast<CXXBoolLiteralExpr>(s))
		{
			J.attribute("v", x->getValue());
			return;
		}
		if (auto x = dyn_cast<FloatingLiteral>(s))
		{
			J.attribute("v", x->getValueAsApproximateDouble());
			return;
		}
		if (auto x = dyn_cast<StringLiteral>(s))
		{
			J.attribute("v", x->isOrdinary() ? llvm::json::fixUTF8(x->getString()) : std::string("?"));
			return;
		}
		if (auto x = dyn_cast<DeclStmt>(s))
		{
			J.attributeArray("decls", [&] {
				for (auto d : x->decls())
					if (auto v = dyn_cast<VarDecl>(d)) J.object([&] { var(v); });
			});
			return;
		}
		if (auto x = dyn_cast<IfStmt>(s))
		{
			J.attribute("constexpr", x->isConstexpr());
			opt("init", x->getInit());
			if (auto cv = x->getConditionVariableDeclStmt()) opt("cvar", cv);
			opt("cond", x->getCond());
			opt("then", x->getThen());
			opt("else", x->getElse());
			return;
		}
		if (auto x = dyn_cast<ForStmt>(s))
		{
			opt("init", x->getInit());
			opt("cond", x->getCond());
			opt("inc", x->getInc());
			opt("body", x->getBody());
			return;
		}
		if (auto x = dyn_cast<WhileStmt>(s))
		{
			if (auto cv = x->getConditionVariableDeclStmt()) opt("cvar", cv);
			opt("cond", x->getCond());
			opt("body", x->getBody());
			return;
		}
		if (auto x = dyn_cast<DoStmt>(s))
		{
			opt("cond", x->getCond());
			opt("body", x->getBody());
			return;
		}
		if (auto x = dyn_cast<CXXForRangeStmt>(s))
		{
			opt("init", x->getInit());
			opt("range", x->getRangeStmt());
			opt("begin", x->getBeginStmt());
			opt("end", x->getEndStmt());
			opt("cond", x->getCond());
			opt("inc", x->getInc());
			opt("var", x->getLoopVarStmt());
			opt("body", x->getBody());
			return;
		}
		if (auto x = dyn_cast<LambdaExpr>(s))
		{
			auto r = x->getLambdaClass();
			J.attribute("rec", rec(r));
			need(x->getCallOperator());
			if (auto ft = x->getCallOperator()->getDescribedFunctionTemplate())
				for (auto sp : ft->specializations())
					need(sp);
			J.attribute("callop", id(x->getCallOperator()));
			J.attributeArray("caps", [&] {
				auto it = x->capture_init_begin();
				for (auto &c : x->captures())
				{
					J.object([&] {
						J.attribute("this", c.capturesThis());
						if (c.capturesVariable())
						{
							J.attribute("id", id(c.getCapturedVar()));
							J.attribute("name", c.getCapturedVar()->getNameAsString());
						}
						J.attribute("byref", c.getCaptureKind() == LCK_ByRef || c.getCaptureKind() == LCK_This);
						opt("init", *it);
					});
					++it;
				}
			});
			return;
		}
		if (auto x = dyn_cast<CXXTryStmt>(s))
		{
			opt("body", x->getTryBlock());
			J.attributeArray("h", [&] {
				for (unsigned i = 0; i < x->getNumHandlers(); ++i)
					J.object([&] {
						auto h = x->getHandler(i);
						if (h->getExceptionDecl()) J.attribute("t", type(h->getCaughtType()));
						opt("body", h->getHandlerBlock());
					});
			});
			return;
		}
		if (auto x = dyn_cast<UnaryExprOrTypeTraitExpr>(s)) { (void)x; return; }
		kids(s);
	}
	void function(const FunctionDecl *f)
	{
		J.object([&] {
			fhead(f);
			J.attribute("file", file(f));
			J.attribute("line", line(f->getBeginLoc()));
			J.attribute("endline", line(f->getEndLoc()));
			J.attributeArray("params", [&] {
				for (auto p : f->parameters())
					J.object([&] {
						J.attribute("id", id(p));
						J.attribute("name", p->getNameAsString());
						J.attribute("t", type(p->getType()));
					});
			});
			if (auto c = dyn_cast<CXXConstructorDecl>(f))
				J.attributeArray("inits", [&] {
					for (auto i : c->inits())
						J.object([&] {
							if (i->isAnyMemberInitializer()) J.attribute("member", i->getAnyMember()->getNameAsString());
							else if (i->isBaseInitializer()) J.attribute("base", type(QualType(i->getBaseClass(), 0)));
							else J.attribute("delegating", true);
							opt("e", i->getInit());
						});
				});
			opt("body_", f->getBody());
		});
	}
	void tables()
	{
		J.attributeArray("records", [&] {
			for (size_t i = 0; i < recs.size(); ++i)
			{
				auto r = recs[i];
				J.object([&] {
					J.attribute("name", qual(r));
					J.attribute("union", r->isUnion());
					J.attribute("file", file(r));
					auto cx = dyn_cast<CXXRecordDecl>(r);
					J.attribute("lambda", cx && cx->isLambda());
					if (auto ts = dyn_cast<ClassTemplateSpecializationDecl>(r))
						J.attributeArray("targs", [&] {
							for (auto &a : ts->getTemplateArgs().asArray())
								targ(a);
						});
					J.attributeArray("fields", [&] {
						if (r->getDefinition())
							for (auto f : r->getDefinition()->fields())
								J.object([&] {
									J.attribute("name", f->getNameAsString());
									J.attribute("t", type(f->getType()));
								});
					});
					if (cx && cx->hasDefinition())
					{
						J.attributeArray("bases", [&] {
							for (auto &b : cx->bases())
								J.value(type(b.getType()));
						});
						// virtual methods: overriders, for dynamic dispatch on known dynamic types
						J.attributeArray("vm", [&] {
							for (auto m : cx->methods())
								if (m->isVirtual() && !isa<CXXDestructorDecl>(m))
								{
									need(m);
									J.object([&] {
										J.attribute("id", id(m));
										J.attribute("name", m->getNameAsString());
										J.attributeArray("over", [&] {
											for (auto o : m->overridden_methods())
												J.value(id(o));
										});
									});
								}
						});
					}
				});
				// records may have queued new functions; emitted afterwards through another pass
			}
		});
	}
	void typetable()
	{
		J.attributeArray("types", [&] {
			for (size_t i = 0; i < types.size(); ++i)
			{
				QualType q = types[i];
				J.object([&] {
					J.attribute("s", q.getAsString(PP));
					const Type *t = q.getTypePtr();
					if (t->isBooleanType()) J.attribute("k", "bool");
					else if (t->isEnumeralType())
					{
						J.attribute("k", "enum");
						J.attribute("bits", (int64_t)C.getTypeSize(q));
						J.attribute("sg", t->isSignedIntegerOrEnumerationType());
					}
					else if (t->isIntegerType())
					{
						J.attribute("k", "int");
						J.attribute("bits", (int64_t)C.getTypeSize(q));
						J.attribute("sg", t->isSignedIntegerType());
					}
					else if (t->isFloatingType()) J.attribute("k", "float");
					else if (t->isVoidType()) J.attribute("k", "void");
					else if (auto r = t->getAs<LValueReferenceType>()) { J.attribute("k", "ref"); J.attribute("to", type(r->getPointeeType())); }
					else if (auto r = t->getAs<RValueReferenceType>()) { J.attribute("k", "rref"); J.attribute("to", type(r->getPointeeType())); }
					else if (auto r = t->getAs<PointerType>()) { J.attribute("k", "ptr"); J.attribute("to", type(r->getPointeeType())); }
					else if (auto r = t->getAs<RecordType>()) { J.attribute("k", "rec"); J.attribute("rec", rec(r->getDecl())); }
					else if (t->isArrayType())
					{
						J.attribute("k", "array");
						J.attribute("to", type(QualType(t->getArrayElementTypeNoTypeQual(), 0)));
						if (auto ca = C.getAsConstantArrayType(q)) J.attribute("n", (int64_t)ca->getSize().getZExtValue());
					}
					else J.attribute("k", "other");
				});
			}
		});
	}
	void run(const std::vector<const FunctionDecl *> &roots)
	{
		J.object([&] {
			J.attributeArray("roots", [&] {
				for (auto f : roots)
					J.value(id(f));
			});
			for (auto f : roots)
				need(f);
			J.attributeArray("funcs", [&] {
				size_t seen = 0;
				while (true)
				{
					while (!work.empty())
					{
						auto f = work.front();
						work.pop_front();
						function(f);
					}
					// virtual methods of records met so far
					bool more = false;
					for (; seen < recs.size(); ++seen)
					{
						auto cx = dyn_cast<CXXRecordDecl>(recs[seen]);
						if (!cx || !cx->hasDefinition() || cx->isDependentContext()) continue;
						for (auto m : cx->methods())
							if (m->isVirtual()) need(m);
						for (auto &b : cx->bases())
							type(b.getType());
					}
					// resolve types into records
					for (size_t i = 0; i < types.size(); ++i)
						if (auto r = types[i]->getAs<RecordType>()) rec(r->getDecl());
					more = seen < recs.size() || !work.empty();
					if (!more) break;
				}
			});
			// field types may create new types/records: iterate until stable by pre-touching
			for (size_t i = 0, j = 0; i < recs.size() || j < types.size();)
			{
				for (; i < recs.size(); ++i)
				{
					auto r = recs[i];
					if (r->getDefinition())
						for (auto f : r->getDefinition()->fields())
							type(f->getType());
					if (auto cx = dyn_cast<CXXRecordDecl>(r))
						if (cx->hasDefinition())
							for (auto &b : cx->bases())
								type(b.getType());
					if (auto ts = dyn_cast<ClassTemplateSpecializationDecl>(r))
						for (auto &a : ts->getTemplateArgs().asArray())
							touch(a);
				}
				for (; j < types.size(); ++j)
				{
					const Type *t = types[j].getTypePtr();
					if (auto r = t->getAs<ReferenceType>()) type(r->getPointeeType());
					if (auto r = t->getAs<PointerType>()) type(r->getPointeeType());
					if (auto r = t->getAs<RecordType>()) rec(r->getDecl());
					if (t->isArrayType()) type(QualType(t->getArrayElementTypeNoTypeQual(), 0));
				}
			}
			tables();
			typetable();
		});
		os << "\n";
	}
	void touch(const TemplateArgument &a)
	{
		if (a.getKind() == TemplateArgument::Type) type(a.getAsType());
		if (a.getKind() == TemplateArgument::Pack)
			for (auto &b : a.pack_elements())
				touch(b);
	}
};

struct Finder : RecursiveASTVisitor<Finder>
{
	Emitter &E;
	std::vector<std::regex> rx;
	std::vector<const FunctionDecl *> found;
	std::set<const FunctionDecl *> seen;
	Finder(Emitter &e) : E(e)
	{
		for (auto &r : g_roots)
			rx.emplace_back(r);
	}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }
	bool VisitFunctionDecl(FunctionDecl *f)
	{
		const FunctionDecl *d = E.def(f);
		if (!d || d->isDependentContext() || !E.wanted(d)) return true;
		auto q = E.qual(d);
		for (auto &r : rx)
			if (std::regex_match(q, r))
			{
				if (seen.insert(d->getCanonicalDecl()).second) found.push_back(d);
				break;
			}
		return true;
	}
};
struct Consumer : ASTConsumer
{
	void HandleTranslationUnit(ASTContext &C) override
	{
		Emitter E(C);
		Finder F(E);
		F.TraverseDecl(C.getTranslationUnitDecl());
		E.run(F.found);
	}
};
struct Action : ASTFrontendAction
{
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override
	{
		return std::make_unique<Consumer>();
	}
};

int main(int argc, const char **argv)
{
	// qtx OUT.json ROOTSFILE SOURCE -- flags ; ROOTSFILE lines: "R regex" or "P prefix"
	if (argc < 4) return 2;
	g_out = argv[1];
	{
		auto b = llvm::MemoryBuffer::getFile(argv[2]);
		if (!b) return 2;
		llvm::SmallVector<llvm::StringRef, 32> ls;
		(*b)->getBuffer().split(ls, '\n', -1, false);
		for (auto l : ls)
		{
			if (l.starts_with("R ")) g_roots.push_back(l.substr(2).trim().str());
			if (l.starts_with("P ")) g_prefix.push_back(l.substr(2).trim().str());
		}
	}
	std::vector<std::string> flags;
	for (int i = 5; i < argc; ++i)
		flags.push_back(argv[i]);
	tooling::FixedCompilationDatabase db(".", flags);
	tooling::ClangTool tool(db, {argv[3]});
	return tool.run(tooling::newFrontendActionFactory<Action>().get());
}
