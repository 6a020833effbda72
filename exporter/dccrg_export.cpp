// dccrg_export: dumps the type-checked, template-instantiated AST of every
// function whose definition lies under a given directory as JSON.
//
// usage: dccrg_export --root=/repo --out=FILE SRC.cpp -- <compiler flags>
//
// The output is a single JSON object:
//   { "types": [...], "files": [...], "errors": [...],
//     "records": [...], "functions": [...] }
#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/AST/ExprCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendActions.h"
#include "clang/Frontend/TextDiagnosticPrinter.h"
#include "clang/Tooling/CommonOptionsParser.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/CommandLine.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"
#include <map>
#include <set>
#include <string>
#include <vector>

using namespace clang;
using namespace clang::tooling;
namespace json = llvm::json;

static llvm::cl::OptionCategory Cat("dccrg_export");
static llvm::cl::opt<std::string> Root("root", llvm::cl::cat(Cat), llvm::cl::init("/repo"));
static llvm::cl::opt<std::string> Out("out", llvm::cl::cat(Cat), llvm::cl::Required);

static std::vector<std::string> Diags;

struct DiagCollector : DiagnosticConsumer {
	void HandleDiagnostic(DiagnosticsEngine::Level L, const Diagnostic &Info) override {
		DiagnosticConsumer::HandleDiagnostic(L, Info);
		if (L < DiagnosticsEngine::Error) return;
		llvm::SmallString<256> s;
		Info.FormatDiagnostic(s);
		std::string loc;
		if (Info.hasSourceManager() && Info.getLocation().isValid())
			loc = Info.getLocation().printToString(Info.getSourceManager());
		Diags.push_back(loc + ": " + std::string(s.str()));
	}
};

struct Exporter {
	ASTContext &Ctx;
	SourceManager &SM;
	PrintingPolicy PP;
	std::map<std::string, int> types;
	std::vector<std::string> type_list;
	std::map<std::string, int> files;
	std::vector<std::string> file_list;
	std::map<const Decl*, int> ids;
	json::Array functions, records;
	std::set<const FunctionDecl*> done;
	std::set<const CXXRecordDecl*> done_rec;

	Exporter(ASTContext &C) : Ctx(C), SM(C.getSourceManager()), PP(C.getLangOpts()) {
		PP.SuppressTagKeyword = true;
		PP.PrintCanonicalTypes = true;
		PP.FullyQualifiedName = true;
	}

	int typeId(QualType T) {
		std::string s = T.isNull() ? "" : T.getCanonicalType().getAsString(PP);
		auto it = types.find(s);
		if (it != types.end()) return it->second;
		int i = type_list.size();
		types[s] = i; type_list.push_back(s);
		return i;
	}
	int declId(const Decl *D) {
		D = D->getCanonicalDecl();
		auto it = ids.find(D);
		if (it != ids.end()) return it->second;
		int i = ids.size() + 1;
		ids[D] = i;
		return i;
	}
	std::string fileOf(SourceLocation L) {
		L = SM.getExpansionLoc(L);
		if (L.isInvalid()) return "";
		return SM.getFilename(L).str();
	}
	int fileId(SourceLocation L) {
		std::string f = fileOf(L);
		auto it = files.find(f);
		if (it != files.end()) return it->second;
		int i = file_list.size();
		files[f] = i; file_list.push_back(f);
		return i;
	}
	int line(SourceLocation L) {
		return SM.getExpansionLineNumber(L);
	}
	bool inRoot(SourceLocation L) {
		std::string f = fileOf(L);
		return f.compare(0, Root.size(), Root) == 0;
	}
	std::string qual(const NamedDecl *D) {
		std::string s;
		llvm::raw_string_ostream os(s);
		// qualified name without template arguments
		std::vector<std::string> parts;
		parts.push_back(D->getNameAsString());
		const DeclContext *DC = D->getDeclContext();
		while (DC) {
			if (auto *N = dyn_cast<NamespaceDecl>(DC)) {
				if (!N->isInline() && !N->isAnonymousNamespace()) parts.push_back(N->getNameAsString());
			} else if (auto *R = dyn_cast<RecordDecl>(DC)) parts.push_back(R->getNameAsString());
			DC = DC->getParent();
		}
		for (auto i = parts.rbegin(); i != parts.rend(); ++i) {
			if (i != parts.rbegin()) os << "::";
			os << *i;
		}
		return os.str();
	}

	json::Object node(const char *k, SourceLocation L) {
		json::Object o;
		o["k"] = k;
		if (L.isValid()) o["l"] = line(L);
		return o;
	}

	json::Value E(const Expr *X) {
		if (!X) return nullptr;
		// transparent wrappers
		if (auto *P = dyn_cast<ParenExpr>(X)) return E(P->getSubExpr());
		if (auto *P = dyn_cast<ExprWithCleanups>(X)) return E(P->getSubExpr());
		if (auto *P = dyn_cast<MaterializeTemporaryExpr>(X)) return E(P->getSubExpr());
		if (auto *P = dyn_cast<CXXBindTemporaryExpr>(X)) return E(P->getSubExpr());
		if (auto *P = dyn_cast<SubstNonTypeTemplateParmExpr>(X)) return E(P->getReplacement());
		if (auto *P = dyn_cast<ConstantExpr>(X)) return E(P->getSubExpr());
		if (auto *P = dyn_cast<CXXDefaultArgExpr>(X)) {
			json::Value v = E(P->getExpr());
			if (auto *o = v.getAsObject()) (*o)["dflt"] = true;
			return v;
		}
		if (auto *P = dyn_cast<CXXDefaultInitExpr>(X)) return E(P->getExpr());
		if (auto *P = dyn_cast<CXXStdInitializerListExpr>(X)) return E(P->getSubExpr());
		SourceLocation L = X->getExprLoc();
		if (auto *C = dyn_cast<ImplicitCastExpr>(X)) {
			switch (C->getCastKind()) {
			case CK_IntegralCast: case CK_IntegralToFloating: case CK_FloatingToIntegral:
			case CK_FloatingCast: case CK_IntegralToBoolean: case CK_FloatingToBoolean:
			case CK_PointerToBoolean: {
				json::Object o = node("cast", L);
				o["imp"] = true;
				o["t"] = typeId(C->getType());
				o["from"] = typeId(C->getSubExpr()->getType());
				o["a"] = json::Array{E(C->getSubExpr())};
				return o;
			}
			default: return E(C->getSubExpr());
			}
		}
		if (auto *C = dyn_cast<ExplicitCastExpr>(X)) {
			const Expr *S = C->getSubExpr();
			// strip an implicit cast directly below: explicit casts carry it
			while (auto *I = dyn_cast<ImplicitCastExpr>(S)) S = I->getSubExpr();
			if (C->getCastKind() == CK_ConstructorConversion) return E(S);
			json::Object o = node("cast", L);
			o["t"] = typeId(C->getType());
			o["from"] = typeId(S->getType());
			o["ck"] = isa<CXXConstCastExpr>(C) ? "const" : isa<CXXReinterpretCastExpr>(C) ? "reinterpret" : isa<CStyleCastExpr>(C) ? "c" : isa<CXXFunctionalCastExpr>(C) ? "func" : "static";
			o["a"] = json::Array{E(S)};
			return o;
		}
		if (auto *I = dyn_cast<IntegerLiteral>(X)) {
			json::Object o = node("int", L);
			llvm::SmallString<32> s; I->getValue().toString(s, 10, I->getType()->isSignedIntegerType());
			o["v"] = s.str().str(); o["t"] = typeId(I->getType());
			return o;
		}
		if (auto *I = dyn_cast<FloatingLiteral>(X)) {
			json::Object o = node("float", L);
			llvm::SmallString<32> s; I->getValue().toString(s);
			o["v"] = s.str().str();
			return o;
		}
		if (auto *I = dyn_cast<CXXBoolLiteralExpr>(X)) {
			json::Object o = node("bool", L); o["v"] = I->getValue(); return o;
		}
		if (auto *I = dyn_cast<CharacterLiteral>(X)) {
			json::Object o = node("int", L); o["v"] = std::to_string(I->getValue()); o["t"] = typeId(I->getType()); return o;
		}
		if (auto *I = dyn_cast<clang::StringLiteral>(X)) {
			json::Object o = node("str", L);
			std::string s = I->getCharByteWidth() == 1 ? I->getString().str() : "";
			o["v"] = json::fixUTF8(s); return o;
		}
		if (isa<CXXNullPtrLiteralExpr>(X) || isa<GNUNullExpr>(X)) return node("null", L);
		if (isa<CXXThisExpr>(X)) return node("this", L);
		if (auto *D = dyn_cast<DeclRefExpr>(X)) {
			json::Object o = node("var", L);
			const ValueDecl *V = D->getDecl();
			o["n"] = (isa<VarDecl>(V) && cast<VarDecl>(V)->isLocalVarDeclOrParm()) ? V->getNameAsString() : qual(V);
			o["id"] = declId(V);
			o["t"] = typeId(V->getType());
			if (auto *P = dyn_cast<ParmVarDecl>(V)) { (void)P; o["vk"] = "param"; }
			else if (auto *VD = dyn_cast<VarDecl>(V)) o["vk"] = VD->isLocalVarDecl() ? "local" : "global";
			else if (isa<EnumConstantDecl>(V)) o["vk"] = "enum";
			else if (isa<FunctionDecl>(V)) {
				o["vk"] = "func";
				if (auto *F = dyn_cast<FunctionDecl>(V)) if (F->isDefined()) { noteFunction(F); }
			}
			else o["vk"] = "other";
			return o;
		}
		if (auto *M = dyn_cast<MemberExpr>(X)) {
			json::Object o = node("mem", M->getMemberLoc());
			o["b"] = E(M->getBase());
			const ValueDecl *V = M->getMemberDecl();
			o["n"] = V->getNameAsString();
			if (auto *R = dyn_cast<RecordDecl>(V->getDeclContext())) o["c"] = qual(R);
			o["t"] = typeId(V->getType());
			o["id"] = declId(V);
			return o;
		}
		if (auto *U = dyn_cast<UnaryOperator>(X)) {
			json::Object o = node("un", L);
			o["o"] = UnaryOperator::getOpcodeStr(U->getOpcode()).str() + (U->isPostfix() ? "post" : "");
			o["t"] = typeId(U->getType());
			o["a"] = json::Array{E(U->getSubExpr())};
			return o;
		}
		if (auto *B = dyn_cast<BinaryOperator>(X)) {
			json::Object o = node(B->isAssignmentOp() ? "asg" : "bin", L);
			o["o"] = B->getOpcodeStr().str();
			o["t"] = typeId(B->getType());
			o["a"] = json::Array{E(B->getLHS()), E(B->getRHS())};
			return o;
		}
		if (auto *C = dyn_cast<ConditionalOperator>(X)) {
			json::Object o = node("cond", L);
			o["t"] = typeId(C->getType());
			o["a"] = json::Array{E(C->getCond()), E(C->getTrueExpr()), E(C->getFalseExpr())};
			return o;
		}
		if (auto *A = dyn_cast<ArraySubscriptExpr>(X)) {
			json::Object o = node("op", L);
			o["o"] = "[]"; o["t"] = typeId(A->getType());
			o["a"] = json::Array{E(A->getBase()), E(A->getIdx())};
			return o;
		}
		if (auto *C = dyn_cast<CXXOperatorCallExpr>(X)) {
			const FunctionDecl *F = C->getDirectCallee();
			OverloadedOperatorKind K = C->getOperator();
			json::Object o = node(K == OO_Call ? "call" : "op", L);
			o["t"] = typeId(C->getType());
			json::Array a;
			if (K == OO_Call) {
				o["n"] = "operator()";
				if (F) { json::Array pt; for (auto *P : F->parameters()) pt.push_back(typeId(P->getType())); o["pt"] = std::move(pt); }
				o["b"] = E(C->getArg(0));
				for (unsigned i = 1; i < C->getNumArgs(); i++) a.push_back(E(C->getArg(i)));
				if (auto *M = dyn_cast_or_null<CXXMethodDecl>(F)) {
					o["c"] = qual(M->getParent());
					if (M->getParent()->isLambda()) o["lam"] = declId(M->getParent());
				}
			} else {
				std::string s = getOperatorSpelling(K);
				if ((K == OO_PlusPlus || K == OO_MinusMinus) && C->getNumArgs() == 2) s += "post";
				o["o"] = s;
				if (F) {
					o["rt"] = typeId(F->getReturnType());
					if (auto *M = dyn_cast<CXXMethodDecl>(F)) { o["mc"] = M->isConst(); }
				}
				for (unsigned i = 0; i < C->getNumArgs(); i++) a.push_back(E(C->getArg(i)));
			}
			o["a"] = std::move(a);
			if (F) { o["fid"] = declId(F); noteFunction(F); }
			return o;
		}
		if (auto *C = dyn_cast<CallExpr>(X)) {
			json::Object o = node("call", L);
			o["t"] = typeId(C->getType());
			const FunctionDecl *F = C->getDirectCallee();
			json::Array a;
			if (auto *MC = dyn_cast<CXXMemberCallExpr>(C)) {
				o["b"] = E(MC->getImplicitObjectArgument());
				if (auto *M = MC->getMethodDecl()) {
					o["c"] = qual(M->getParent());
					o["mc"] = M->isConst();
				}
			}
			if (F) {
				o["n"] = isa<CXXMethodDecl>(F) ? F->getNameAsString() : qual(F);
				if (auto *M = dyn_cast<CXXMethodDecl>(F)) if (M->isStatic()) { o["c"] = qual(M->getParent()); o["static"] = true; }
				o["fid"] = declId(F);
				if (F->isVariadic()) o["variadic"] = true;
				if (F->isNoReturn()) o["noret"] = true;
				if (auto *TA = F->getTemplateSpecializationArgs()) {
					std::string s; llvm::raw_string_ostream os(s);
					for (unsigned i = 0; i < TA->size(); i++) { if (i) os << ","; TA->get(i).print(PP, os, true); }
					o["ta"] = os.str();
				}
				json::Array pt;
				for (auto *P : F->parameters()) pt.push_back(typeId(P->getType()));
				o["pt"] = std::move(pt);
				noteFunction(F);
			} else {
				o["n"] = "?";
				o["callee"] = E(C->getCallee());
			}
			for (auto *A : C->arguments()) a.push_back(E(A));
			o["a"] = std::move(a);
			return o;
		}
		if (auto *C = dyn_cast<CXXConstructExpr>(X)) {
			const CXXConstructorDecl *K = C->getConstructor();
			json::Object o = node("ctor", L);
			o["t"] = typeId(C->getType());
			o["c"] = qual(K->getParent());
			o["fid"] = declId(K);
			if (K->isCopyOrMoveConstructor()) o["copy"] = true;
			{ json::Array pt; for (auto *P : K->parameters()) pt.push_back(typeId(P->getType())); o["pt"] = std::move(pt); }
			json::Array a;
			for (auto *A : C->arguments()) a.push_back(E(A));
			o["a"] = std::move(a);
			noteFunction(K);
			return o;
		}
		if (auto *I = dyn_cast<InitListExpr>(X)) {
			json::Object o = node("ilist", L);
			o["t"] = typeId(I->getType());
			json::Array a;
			for (auto *A : I->inits()) a.push_back(E(A));
			o["a"] = std::move(a);
			return o;
		}
		if (isa<ImplicitValueInitExpr>(X) || isa<CXXScalarValueInitExpr>(X)) {
			json::Object o = node("zero", L); o["t"] = typeId(X->getType()); return o;
		}
		if (auto *Lm = dyn_cast<LambdaExpr>(X)) {
			json::Object o = node("lambda", L);
			o["id"] = declId(Lm->getLambdaClass());
			json::Array ps, caps;
			if (auto *CO = Lm->getCallOperator()) for (auto *P : CO->parameters()) ps.push_back(param(P));
			for (auto &c : Lm->captures()) if (c.capturesVariable()) {
				json::Object co; co["id"] = declId(c.getCapturedVar()); co["n"] = c.getCapturedVar()->getNameAsString();
				co["ref"] = c.getCaptureKind() == LCK_ByRef; caps.push_back(std::move(co));
			}
			o["p"] = std::move(ps); o["caps"] = std::move(caps);
			o["body"] = S(Lm->getBody());
			return o;
		}
		if (auto *U = dyn_cast<UnaryExprOrTypeTraitExpr>(X)) {
			json::Object o = node("sizeof", L);
			o["v"] = typeId(U->getTypeOfArgument()); o["tr"] = (int)U->getKind(); o["t"] = typeId(U->getType());
			return o;
		}
		if (auto *T = dyn_cast<CXXThrowExpr>(X)) {
			json::Object o = node("throw", L);
			o["a"] = json::Array{E(T->getSubExpr())};
			return o;
		}
		if (auto *N = dyn_cast<CXXNewExpr>(X)) {
			json::Object o = node("new", L); o["t"] = typeId(N->getType());
			json::Array a;
			if (N->getArraySize()) if (*N->getArraySize()) a.push_back(E(*N->getArraySize()));
			if (N->getInitializer()) a.push_back(E(N->getInitializer()));
			o["a"] = std::move(a);
			return o;
		}
		if (auto *N = dyn_cast<CXXDeleteExpr>(X)) {
			json::Object o = node("delete", L); o["a"] = json::Array{E(N->getArgument())}; return o;
		}
		if (auto *R = dyn_cast<RecoveryExpr>(X)) { (void)R; return node("recovery", L); }
		// fallback: generic node with children
		json::Object o = node("expr", L);
		o["ek"] = X->getStmtClassName();
		o["t"] = typeId(X->getType());
		json::Array a;
		for (const Stmt *c : X->children()) if (auto *e = dyn_cast_or_null<Expr>(c)) a.push_back(E(e));
		o["a"] = std::move(a);
		return o;
	}

	json::Value V(const VarDecl *D) {
		json::Object o;
		o["n"] = D->getNameAsString(); o["id"] = declId(D); o["t"] = typeId(D->getType());
		o["l"] = line(D->getLocation());
		if (D->isStaticLocal()) o["static"] = true;
		if (D->getInit()) o["init"] = E(D->getInit());
		return o;
	}
	json::Value param(const ParmVarDecl *D) {
		json::Object o;
		o["n"] = D->getNameAsString(); o["id"] = declId(D); o["t"] = typeId(D->getType());
		if (D->hasDefaultArg() && !D->hasUninstantiatedDefaultArg() && !D->hasUnparsedDefaultArg())
			o["dflt"] = E(D->getDefaultArg());
		else if (D->hasDefaultArg()) o["dflt"] = json::Object{{"k","unknown"}};
		return o;
	}

	json::Value S(const Stmt *X) {
		if (!X) return nullptr;
		SourceLocation L = X->getBeginLoc();
		if (auto *C = dyn_cast<CompoundStmt>(X)) {
			json::Object o = node("blk", L);
			json::Array a;
			for (auto *s : C->body()) a.push_back(S(s));
			o["s"] = std::move(a); return o;
		}
		if (auto *I = dyn_cast<IfStmt>(X)) {
			json::Object o = node("if", L);
			if (I->getConditionVariable()) o["cv"] = V(I->getConditionVariable());
			o["c"] = E(I->getCond()); o["t"] = S(I->getThen()); o["e"] = S(I->getElse());
			return o;
		}
		if (auto *F = dyn_cast<ForStmt>(X)) {
			json::Object o = node("for", L);
			o["i"] = S(F->getInit()); o["c"] = E(F->getCond()); o["n"] = E(F->getInc()); o["b"] = S(F->getBody());
			return o;
		}
		if (auto *F = dyn_cast<CXXForRangeStmt>(X)) {
			json::Object o = node("rfor", L);
			if (F->getLoopVariable()) {
				json::Object v;
				auto *D = F->getLoopVariable();
				v["n"] = D->getNameAsString(); v["id"] = declId(D); v["t"] = typeId(D->getType()); v["l"] = line(D->getLocation());
				o["v"] = std::move(v);
			}
			o["r"] = E(F->getRangeInit()); o["b"] = S(F->getBody());
			return o;
		}
		if (auto *W = dyn_cast<WhileStmt>(X)) {
			json::Object o = node("while", L); o["c"] = E(W->getCond()); o["b"] = S(W->getBody()); return o;
		}
		if (auto *W = dyn_cast<DoStmt>(X)) {
			json::Object o = node("do", L); o["c"] = E(W->getCond()); o["b"] = S(W->getBody()); return o;
		}
		if (auto *W = dyn_cast<SwitchStmt>(X)) {
			json::Object o = node("switch", L); o["c"] = E(W->getCond()); o["b"] = S(W->getBody()); return o;
		}
		if (auto *C = dyn_cast<CaseStmt>(X)) {
			json::Object o = node("case", L); o["v"] = E(C->getLHS()); o["s"] = S(C->getSubStmt()); return o;
		}
		if (auto *C = dyn_cast<DefaultStmt>(X)) {
			json::Object o = node("default", L); o["s"] = S(C->getSubStmt()); return o;
		}
		if (auto *R = dyn_cast<ReturnStmt>(X)) {
			json::Object o = node("ret", L); o["v"] = E(R->getRetValue()); return o;
		}
		if (isa<BreakStmt>(X)) return node("break", L);
		if (isa<ContinueStmt>(X)) return node("cont", L);
		if (isa<NullStmt>(X)) return node("nop", L);
		if (auto *D = dyn_cast<DeclStmt>(X)) {
			json::Object o = node("decl", L);
			json::Array a;
			for (auto *d : D->decls()) if (auto *v = dyn_cast<VarDecl>(d)) a.push_back(V(v));
			o["v"] = std::move(a); return o;
		}
		if (auto *T = dyn_cast<CXXTryStmt>(X)) {
			json::Object o = node("try", L);
			o["b"] = S(T->getTryBlock());
			json::Array h;
			for (unsigned i = 0; i < T->getNumHandlers(); i++) {
				json::Object c = node("catch", T->getHandler(i)->getBeginLoc());
				if (auto *D = T->getHandler(i)->getExceptionDecl()) { c["et"] = typeId(D->getType()); }
				c["b"] = S(T->getHandler(i)->getHandlerBlock());
				h.push_back(std::move(c));
			}
			o["h"] = std::move(h); return o;
		}
		if (auto *e = dyn_cast<Expr>(X)) {
			json::Object o = node("x", L); o["e"] = E(e); return o;
		}
		if (auto *A = dyn_cast<AttributedStmt>(X)) return S(A->getSubStmt());
		if (auto *A = dyn_cast<GotoStmt>(X)) {
			json::Object o = node("goto", L); o["n"] = A->getLabel()->getNameAsString(); return o;
		}
		if (auto *A = dyn_cast<LabelStmt>(X)) {
			json::Object o = node("label", L); o["s"] = S(A->getSubStmt()); return o;
		}
		json::Object o = node("stmt", L); o["sk"] = X->getStmtClassName();
		return o;
	}

	std::vector<const FunctionDecl*> pending;
	void noteFunction(const FunctionDecl *F) {
		const FunctionDecl *D = nullptr;
		if (!F->isDefined(D) || !D) return;
		if (!inRoot(D->getLocation())) return;
		if (D->isDependentContext()) return;
		if (done.insert(D).second) pending.push_back(D);
	}
	void drain() {
		while (!pending.empty()) {
			auto *D = pending.back(); pending.pop_back();
			emit(D);
		}
	}
	void emit(const FunctionDecl *D) {
		json::Object o;
		o["n"] = D->getNameAsString();
		o["q"] = qual(D);
		o["id"] = declId(D);
		o["file"] = fileId(D->getLocation());
		o["l"] = line(D->getLocation());
		o["l1"] = line(D->getBeginLoc());
		o["l2"] = line(D->getEndLoc());
		o["rt"] = typeId(D->getReturnType());
		if (auto *M = dyn_cast<CXXMethodDecl>(D)) {
			record(M->getParent());
			o["c"] = qual(M->getParent());
			o["cfull"] = typeId(Ctx.getRecordType(M->getParent()));
			o["const"] = M->isConst();
			o["static"] = M->isStatic();
			o["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected";
			if (M->isImplicit()) o["implicit"] = true;
			if (M->isDefaulted()) o["defaulted"] = true;
			if (M->getParent()->isLambda()) o["lambda"] = declId(M->getParent());
		}
		if (auto *K = dyn_cast<CXXConstructorDecl>(D)) {
			o["ctor"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : K->isDefaultConstructor() ? "default" : "other";
			json::Array ini;
			for (auto *I : K->inits()) {
				json::Object i;
				if (I->isMemberInitializer()) i["f"] = I->getMember()->getNameAsString();
				else i["f"] = "<base>";
				i["written"] = I->isWritten();
				i["e"] = E(I->getInit());
				ini.push_back(std::move(i));
			}
			o["inits"] = std::move(ini);
		}
		if (isa<CXXDestructorDecl>(D)) o["dtor"] = true;
		if (auto *TA = D->getTemplateSpecializationArgs()) {
			std::string s; llvm::raw_string_ostream os(s);
			for (unsigned i = 0; i < TA->size(); i++) { if (i) os << ","; TA->get(i).print(PP, os, true); }
			o["targs"] = os.str();
		}
		json::Array ps;
		for (auto *P : D->parameters()) ps.push_back(param(P));
		o["p"] = std::move(ps);
		if (D->isInvalidDecl()) o["invalid"] = true;
		o["body"] = D->hasBody() ? S(D->getBody()) : json::Value(nullptr);
		functions.push_back(std::move(o));
	}
	void record(const CXXRecordDecl *R) {
		R = R->getDefinition();
		if (!R || R->isDependentContext() || R->isLambda()) return;
		const CXXRecordDecl *Pat = R->getTemplateInstantiationPattern();
		if (!inRoot(Pat ? Pat->getLocation() : R->getLocation())) return;
		if (!done_rec.insert(R).second) return;
		json::Object o;
		o["q"] = qual(R); o["full"] = typeId(Ctx.getRecordType(R)); o["file"] = fileId((Pat ? Pat : R)->getLocation()); o["l"] = line((Pat ? Pat : R)->getLocation());
		json::Array fs;
		for (auto *F : R->fields()) {
			json::Object f;
			f["n"] = F->getNameAsString(); f["t"] = typeId(F->getType()); f["l"] = line(F->getLocation());
			f["acc"] = F->getAccess() == AS_public ? "public" : F->getAccess() == AS_private ? "private" : "protected";
			f["ref"] = F->getType()->isReferenceType();
			f["const"] = F->getType().getNonReferenceType().isConstQualified();
			f["ptr"] = F->getType()->isPointerType();
			f["mut"] = F->isMutable();
			fs.push_back(std::move(f));
		}
		o["fields"] = std::move(fs);
		json::Array ms;
		for (auto *M : R->methods()) {
			json::Object m;
			m["n"] = M->getNameAsString(); m["id"] = declId(M); m["l"] = line(M->getLocation());
			m["acc"] = M->getAccess() == AS_public ? "public" : M->getAccess() == AS_private ? "private" : "protected";
			m["const"] = M->isConst(); m["static"] = M->isStatic(); m["rt"] = typeId(M->getReturnType());
			m["implicit"] = M->isImplicit(); m["deleted"] = M->isDeleted(); m["user"] = M->isUserProvided();
			if (auto *K = dyn_cast<CXXConstructorDecl>(M)) m["ctor"] = K->isCopyConstructor() ? "copy" : K->isMoveConstructor() ? "move" : K->isDefaultConstructor() ? "default" : "other";
			if (isa<CXXDestructorDecl>(M)) m["dtor"] = true;
			m["copyassign"] = M->isCopyAssignmentOperator();
			json::Array pt; for (auto *P : M->parameters()) pt.push_back(typeId(P->getType()));
			m["pt"] = std::move(pt);
			if (M->isDefined()) noteFunction(M);
			ms.push_back(std::move(m));
		}
		o["methods"] = std::move(ms);
		o["implicit_copy"] = R->hasSimpleCopyConstructor() || (!R->hasUserDeclaredCopyConstructor());
		o["user_copy_ctor"] = R->hasUserDeclaredCopyConstructor();
		records.push_back(std::move(o));
	}
};

struct Visitor : RecursiveASTVisitor<Visitor> {
	Exporter &X;
	Visitor(Exporter &x) : X(x) {}
	bool shouldVisitTemplateInstantiations() const { return true; }
	bool shouldVisitImplicitCode() const { return false; }
	bool VisitFunctionDecl(FunctionDecl *F) { X.noteFunction(F); return true; }
	bool VisitCXXRecordDecl(CXXRecordDecl *R) { X.record(R); return true; }
};

struct Consumer : ASTConsumer {
	void HandleTranslationUnit(ASTContext &Ctx) override {
		Exporter X(Ctx);
		Visitor V(X);
		V.TraverseDecl(Ctx.getTranslationUnitDecl());
		X.drain();
		json::Object o;
		json::Array t, f, e;
		for (auto &s : X.type_list) t.push_back(s);
		for (auto &s : X.file_list) f.push_back(s);
		for (auto &s : Diags) e.push_back(json::fixUTF8(s));
		o["types"] = std::move(t); o["files"] = std::move(f); o["errors"] = std::move(e);
		o["records"] = std::move(X.records); o["functions"] = std::move(X.functions);
		std::error_code EC;
		llvm::raw_fd_ostream os(Out, EC);
		os << json::Value(std::move(o));
	}
};
struct Action : ASTFrontendAction {
	std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &CI, llvm::StringRef) override {
		CI.getDiagnostics().setSuppressAllDiagnostics(false);
		return std::make_unique<Consumer>();
	}
};

int main(int argc, const char **argv) {
	auto P = CommonOptionsParser::create(argc, argv, Cat);
	if (!P) { llvm::errs() << llvm::toString(P.takeError()) << "\n"; return 2; }
	ClangTool T(P->getCompilations(), P->getSourcePathList());
	DiagCollector DC;
	T.setDiagnosticConsumer(&DC);
	T.run(newFrontendActionFactory<Action>().get());
	return 0;
}
