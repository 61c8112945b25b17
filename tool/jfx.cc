// jfx: exports the typed AST of every function defined under a root directory
// (template instantiations, lambdas and implicitly defined members included)
// as compact JSON for the analyses in ../jfa.
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/RecordLayout.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace J = llvm::json;

static std::string g_root;
static std::string g_out;

namespace {

class Exporter : public RecursiveASTVisitor<Exporter> {
 public:
  explicit Exporter(ASTContext &c) : ctx_(c), sm_(c.getSourceManager()), pp_(c.getLangOpts()) {
    pp_.SuppressTagKeyword = true;
    pp_.Bool = true;
    pp_.SuppressUnwrittenScope = false;
    pp_.PrintCanonicalTypes = true;
    pp_.AnonymousTagLocations = true;
    mangle_.reset(ctx_.createMangleContext());
  }

  bool shouldVisitTemplateInstantiations() const { return true; }
  bool shouldVisitImplicitCode() const { return true; }

  bool inRoot(SourceLocation l) {
    if (l.isInvalid()) return false;
    l = sm_.getExpansionLoc(l);
    FileID fid = sm_.getFileID(l);
    if (fid.isInvalid()) return false;
    auto it = root_cache_.find(fid);
    if (it != root_cache_.end()) return it->second;
    bool r = false;
    if (auto fe = sm_.getFileEntryRefForID(fid)) {
      std::string p = fe->getName().str();
      p = norm(p);
      r = p.rfind(g_root, 0) == 0 && p.find("/_build/") == std::string::npos;
    }
    root_cache_[fid] = r;
    return r;
  }
  // Bodies of the standard algorithms, for which the analysis may have no model of its own.
  bool inLib(SourceLocation l, bool rec) {
    if (l.isInvalid()) return false;
    l = sm_.getExpansionLoc(l);
    FileID fid = sm_.getFileID(l);
    if (fid.isInvalid()) return false;
    auto it = lib_cache_.find(fid);
    int r = 0;
    if (it == lib_cache_.end()) {
      if (auto fe = sm_.getFileEntryRefForID(fid)) {
        std::string p = norm(fe->getName().str());
        auto ends = [&](const char *e) { std::string x = std::string("/") + e; return p.size() > x.size() && p.compare(p.size() - x.size(), x.size(), x) == 0; };
        if (ends("bits/predefined_ops.h") || ends("bits/stl_iterator_base_types.h")) r = 2;
        else if (ends("bits/stl_algo.h") || ends("bits/stl_algobase.h") || ends("bits/stl_numeric.h") || ends("bits/stl_heap.h")) r = 1;
      }
      lib_cache_[fid] = r;
    } else {
      r = it->second;
    }
    return rec ? r == 2 : r != 0;
  }
  static std::string norm(std::string p) {
    llvm::SmallString<256> s(p);
    llvm::sys::path::remove_dots(s, true);
    return s.str().str();
  }

  bool VisitFunctionDecl(FunctionDecl *fd) {
    if (!fd->doesThisDeclarationHaveABody() && !fd->isDefaulted()) return true;
    if (fd->isDependentContext() || fd->isDeleted()) return true;
    if (!inRoot(fd->getLocation())) return true;
    queue(fd);
    return true;
  }
  bool VisitCXXRecordDecl(CXXRecordDecl *rd) {
    if (!rd->isThisDeclarationADefinition() || rd->isDependentContext()) return true;
    if (!inRoot(rd->getLocation())) return true;
    record(rd);
    return true;
  }
  bool VisitEnumDecl(EnumDecl *ed) {
    if (!ed->isThisDeclarationADefinition()) return true;
    if (!inRoot(ed->getLocation())) return true;
    J::Object o;
    o["q"] = ed->getQualifiedNameAsString();
    J::Array vs;
    for (auto *e : ed->enumerators()) {
      J::Array p;
      p.push_back(e->getNameAsString());
      p.push_back(e->getInitVal().getExtValue());
      vs.push_back(std::move(p));
    }
    o["v"] = std::move(vs);
    o["l"] = loc(ed->getLocation());
    enums_.push_back(std::move(o));
    return true;
  }
  bool VisitVarDecl(VarDecl *vd) {
    if (!vd->hasGlobalStorage() || vd->getType()->isDependentType()) return true;
    if (vd->getDeclContext()->isDependentContext()) return true;
    if (!inRoot(vd->getLocation())) return true;
    if (!vd->isThisDeclarationADefinition() && !vd->hasInit()) return true;
    globals_.insert(vd);
    return true;
  }

  void run() {
    for (auto *d : ctx_.getTranslationUnitDecl()->decls())
      if (inRoot(d->getLocation())) TraverseDecl(d);
    while (!work_.empty()) {
      const FunctionDecl *fd = work_.back();
      work_.pop_back();
      funcs_.push_back(function(fd));
    }
    J::Array gl;
    for (auto *vd : globals_) {
      J::Object o;
      o["q"] = vd->getQualifiedNameAsString();
      o["id"] = declId(vd);
      o["t"] = type(vd->getType());
      o["l"] = loc(vd->getLocation());
      o["loc"] = vd->isStaticLocal();
      o["const"] = vd->getType().isConstQualified() || vd->isConstexpr();
      o["tls"] = vd->getTLSKind() != VarDecl::TLS_None;
      if (vd->hasInit()) o["init"] = expr(vd->getInit());
      gl.push_back(std::move(o));
    }
    while (!work_.empty()) {
      const FunctionDecl *fd = work_.back();
      work_.pop_back();
      funcs_.push_back(function(fd));
    }
    J::Object top;
    top["funcs"] = std::move(funcs_);
    top["globals"] = std::move(gl);
    top["records"] = std::move(records_);
    top["enums"] = std::move(enums_);
    top["types"] = std::move(types_);
    top["decls"] = std::move(fdecls_);
    J::Array fl;
    for (auto &f : files_) fl.push_back(f);
    top["files"] = std::move(fl);
    std::error_code ec;
    llvm::raw_fd_ostream os(g_out, ec);
    os << J::Value(std::move(top));
  }

 private:
  ASTContext &ctx_;
  SourceManager &sm_;
  PrintingPolicy pp_;
  std::unique_ptr<MangleContext> mangle_;
  llvm::DenseMap<FileID, bool> root_cache_;
  std::map<FileID, int> lib_cache_;
  std::vector<const FunctionDecl *> work_;
  std::set<const FunctionDecl *> queued_;
  std::set<const VarDecl *> globals_;
  std::set<const CXXRecordDecl *> recs_;
  std::map<const Decl *, int> ids_;
  std::map<std::string, int> type_ids_;
  std::map<std::string, int> file_ids_;
  std::vector<std::string> files_;
  std::map<const FunctionDecl *, int> fd_ids_;
  J::Array funcs_, records_, enums_, types_, fdecls_;

  int declId(const Decl *d) {
    d = d->getCanonicalDecl();
    auto it = ids_.find(d);
    if (it != ids_.end()) return it->second;
    int n = ids_.size();
    ids_[d] = n;
    return n;
  }
  J::Value loc(SourceLocation l) {
    l = sm_.getExpansionLoc(l);
    PresumedLoc p = sm_.getPresumedLoc(l, false);
    J::Array a;
    if (p.isInvalid()) {
      a.push_back(-1);
      a.push_back(0);
      return a;
    }
    std::string f = norm(p.getFilename());
    auto it = file_ids_.find(f);
    int n;
    if (it == file_ids_.end()) {
      n = files_.size();
      file_ids_[f] = n;
      files_.push_back(f);
    } else {
      n = it->second;
    }
    a.push_back(n);
    a.push_back((int64_t)p.getLine());
    return a;
  }
  std::string typeStr(QualType t) { return t.getCanonicalType().getAsString(pp_); }
  int type(QualType t) {
    if (t.isNull()) return -1;
    t = t.getCanonicalType();
    std::string s = t.getAsString(pp_);
    auto it = type_ids_.find(s);
    if (it != type_ids_.end()) return it->second;
    int n = type_ids_.size();
    type_ids_[s] = n;
    types_.push_back(nullptr);
    J::Object o;
    o["s"] = s;
    if (t.isConstQualified()) o["const"] = true;
    if (auto *bt = t->getAs<BuiltinType>()) {
      if (bt->isInteger()) {
        o["k"] = "int";
        o["w"] = (int64_t)ctx_.getTypeSize(t);
        o["sg"] = bt->isSignedInteger();
        if (t->isBooleanType()) o["k"] = "bool";
      } else if (bt->isFloatingPoint()) {
        o["k"] = "flt";
        o["w"] = (int64_t)ctx_.getTypeSize(t);
      } else if (bt->isVoidType()) {
        o["k"] = "void";
      } else {
        o["k"] = "builtin";
      }
    } else if (t->isReferenceType()) {
      o["k"] = "ref";
      o["e"] = type(t->getPointeeType());
      o["rv"] = t->isRValueReferenceType();
    } else if (t->isPointerType()) {
      o["k"] = "ptr";
      o["e"] = type(t->getPointeeType());
    } else if (auto *at = dyn_cast<ConstantArrayType>(t.getTypePtr())) {
      o["k"] = "arr";
      o["e"] = type(at->getElementType());
      o["n"] = (int64_t)at->getSize().getZExtValue();
    } else if (auto *et = t->getAs<EnumType>()) {
      o["k"] = "enum";
      o["q"] = et->getDecl()->getQualifiedNameAsString();
      o["w"] = (int64_t)ctx_.getTypeSize(t);
      o["sg"] = et->getDecl()->getIntegerType()->isSignedIntegerType();
    } else if (auto *rd = t->getAsCXXRecordDecl()) {
      o["k"] = "rec";
      o["q"] = rd->getQualifiedNameAsString();
      if (rd->isLambda()) o["lambda"] = declId(rd);
      if (auto *sp = dyn_cast<ClassTemplateSpecializationDecl>(rd)) o["ta"] = targs(sp->getTemplateArgs());
      if (rd->isCompleteDefinition() && !rd->isDependentType()) {
        o["sz"] = (int64_t)ctx_.getTypeSizeInChars(t).getQuantity();
        o["al"] = (int64_t)ctx_.getTypeAlignInChars(t).getQuantity();
        if (inRoot(rd->getLocation()) || inLib(rd->getLocation(), true)) record(rd);
      }
    } else if (t->isFunctionType()) {
      o["k"] = "fn";
      if (auto *fp = t->getAs<FunctionProtoType>()) {
        o["r"] = type(fp->getReturnType());
        J::Array ps;
        for (auto p : fp->param_types()) ps.push_back(type(p));
        o["p"] = std::move(ps);
      }
    } else {
      o["k"] = "other";
    }
    types_[n] = std::move(o);
    return n;
  }
  J::Value targs(const TemplateArgumentList &l) {
    J::Array a;
    for (auto &x : l.asArray()) targ(x, a);
    return a;
  }
  void targ(const TemplateArgument &x, J::Array &a) {
    switch (x.getKind()) {
      case TemplateArgument::Type: {
        J::Object o;
        o["t"] = type(x.getAsType());
        a.push_back(std::move(o));
        break;
      }
      case TemplateArgument::Integral: {
        J::Object o;
        o["v"] = x.getAsIntegral().getExtValue();
        o["t"] = type(x.getIntegralType());
        a.push_back(std::move(o));
        break;
      }
      case TemplateArgument::Declaration: {
        J::Object o;
        if (auto *fd = dyn_cast<FunctionDecl>(x.getAsDecl()))
          o["f"] = fdecl(fd);
        else
          o["d"] = x.getAsDecl()->getQualifiedNameAsString();
        a.push_back(std::move(o));
        break;
      }
      case TemplateArgument::Pack:
        for (auto &y : x.pack_elements()) targ(y, a);
        break;
      default: {
        J::Object o;
        o["o"] = true;
        a.push_back(std::move(o));
      }
    }
  }

  void record(const CXXRecordDecl *rd) {
    rd = rd->getDefinition();
    if (!rd || rd->isDependentContext() || rd->isInvalidDecl()) return;
    if (!recs_.insert(rd).second) return;
    J::Object o;
    o["q"] = rd->getQualifiedNameAsString();
    o["t"] = type(ctx_.getRecordType(rd));
    o["l"] = loc(rd->getLocation());
    o["lambda"] = rd->isLambda();
    o["id"] = declId(rd);
    o["union"] = rd->isUnion();
    o["triv"] = rd->isTriviallyCopyable();
    J::Array bs;
    for (auto &b : rd->bases()) bs.push_back(type(b.getType()));
    o["bases"] = std::move(bs);
    J::Array fs;
    const ASTRecordLayout *lay = nullptr;
    if (!rd->isDependentType()) lay = &ctx_.getASTRecordLayout(rd);
    for (auto *f : rd->fields()) {
      J::Object fo;
      fo["n"] = f->getNameAsString();
      fo["t"] = type(f->getType());
      fo["mut"] = f->isMutable();
      fo["acc"] = (int)f->getAccess();
      fo["l"] = loc(f->getLocation());
      if (lay) fo["off"] = (int64_t)(lay->getFieldOffset(f->getFieldIndex()) / 8);
      if (f->hasInClassInitializer() && f->getInClassInitializer()) fo["init"] = expr(f->getInClassInitializer());
      fs.push_back(std::move(fo));
    }
    o["fields"] = std::move(fs);
    J::Array ms;
    for (auto *m : rd->methods()) {
      if (m->isImplicit() && !m->isVirtual()) continue;
      ms.push_back(fdecl(m));
    }
    o["methods"] = std::move(ms);
    // constexpr static data members
    J::Object sc;
    for (auto *d : rd->decls()) {
      if (auto *vd = dyn_cast<VarDecl>(d)) {
        if (vd->isConstexpr() && vd->getType()->isIntegralOrEnumerationType() && vd->hasInit()) {
          if (auto *v = vd->evaluateValue())
            if (v->isInt()) sc[vd->getNameAsString()] = v->getInt().getExtValue();
        }
      }
      if (auto *td = dyn_cast<TypedefNameDecl>(d)) sc["T:" + td->getNameAsString()] = type(td->getUnderlyingType());
    }
    o["sconst"] = std::move(sc);
    records_.push_back(std::move(o));
  }

  std::string mangled(const FunctionDecl *fd) {
    std::string s;
    llvm::raw_string_ostream os(s);
    if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) {
      mangle_->mangleName(GlobalDecl(cd, Ctor_Complete), os);
    } else if (auto *dd = dyn_cast<CXXDestructorDecl>(fd)) {
      mangle_->mangleName(GlobalDecl(dd, Dtor_Complete), os);
    } else if (mangle_->shouldMangleDeclName(fd)) {
      mangle_->mangleName(GlobalDecl(fd), os);
    } else {
      os << fd->getNameAsString();
    }
    return os.str();
  }

  void queue(const FunctionDecl *fd) {
    const FunctionDecl *def = nullptr;
    if (!fd->hasBody(def) || !def) {
      if (!fd->isDefaulted()) return;
      def = fd;
    }
    if (def->isDependentContext()) return;
    if (!inRoot(def->getLocation()) && !inLib(def->getLocation(), false)) return;
    if (!queued_.insert(def->getCanonicalDecl()).second) return;
    work_.push_back(def);
  }

  int fdecl(const FunctionDecl *fd) {
    fd = fd->getCanonicalDecl();
    auto it = fd_ids_.find(fd);
    if (it != fd_ids_.end()) return it->second;
    int n = fd_ids_.size();
    fd_ids_[fd] = n;
    fdecls_.push_back(nullptr);
    J::Object o;
    o["q"] = fd->getQualifiedNameAsString();
    o["n"] = fd->getNameAsString();
    if (!fd->isDependentContext() && !isa<CXXDeductionGuideDecl>(fd)) o["m"] = mangled(fd);
    o["r"] = type(fd->getReturnType());
    J::Array ps;
    for (auto *p : fd->parameters()) ps.push_back(type(p->getType()));
    o["p"] = std::move(ps);
    if (fd->isVariadic()) o["va"] = true;
    o["repo"] = inRoot(fd->getLocation());
    if (!fd->isExternallyVisible()) o["int"] = true;
    if (fd->isNoReturn()) o["noret"] = true;
    if (auto *fp = fd->getType()->getAs<FunctionProtoType>()) {
      auto es = fp->getExceptionSpecType();
      if (es == EST_BasicNoexcept || es == EST_NoexceptTrue || es == EST_NoThrow || es == EST_DynamicNone) o["nothrow"] = true;
      if (es == EST_Unevaluated && isa<CXXDestructorDecl>(fd)) o["nothrow"] = true;
    }
    if (fd->hasAttr<WarnUnusedResultAttr>()) o["nodiscard"] = true;
    if (auto *md = dyn_cast<CXXMethodDecl>(fd)) {
      o["cls"] = type(ctx_.getRecordType(md->getParent()));
      if (md->isVirtual()) o["virt"] = true;
      if (md->isPureVirtual()) o["pure"] = true;
      if (md->isStatic()) o["static"] = true;
      if (md->isConst()) o["const"] = true;
      if (isa<CXXConstructorDecl>(md)) {
        o["ctor"] = true;
        auto *cd = cast<CXXConstructorDecl>(md);
        if (cd->isCopyConstructor()) o["copyctor"] = true;
        if (cd->isMoveConstructor()) o["movector"] = true;
        if (cd->isDefaultConstructor()) o["defctor"] = true;
      }
      if (isa<CXXDestructorDecl>(md)) o["dtor"] = true;
      if (isa<CXXConversionDecl>(md)) o["conv"] = true;
      if (md->isCopyAssignmentOperator()) o["copyassign"] = true;
      if (md->isMoveAssignmentOperator()) o["moveassign"] = true;
      if (fd->isDefaulted()) o["defaulted"] = true;
      if (fd->isDeleted()) o["deleted"] = true;
      if (fd->isImplicit()) o["implicit"] = true;
      o["acc"] = (int)md->getAccess();
      J::Array ov;
      if (md->isVirtual())
        for (auto *b : md->overridden_methods()) ov.push_back(fdecl(b));
      o["over"] = std::move(ov);
    }
    if (auto *ta = fd->getTemplateSpecializationArgs()) o["ta"] = targs(*ta);
    if (fd->isOverloadedOperator()) o["op"] = getOperatorSpelling(fd->getOverloadedOperator());
    fdecls_[n] = std::move(o);
    queue(fd);
    return n;
  }

  J::Object function(const FunctionDecl *fd) {
    J::Object o;
    o["d"] = fdecl(fd);
    if (!inRoot(fd->getLocation())) o["lib"] = true;
    o["l"] = loc(fd->getLocation());
    o["e"] = loc(fd->getEndLoc());
    J::Array ps;
    for (auto *p : fd->parameters()) {
      J::Array a;
      a.push_back(declId(p));
      a.push_back(p->getNameAsString());
      a.push_back(type(p->getType()));
      ps.push_back(std::move(a));
    }
    o["ps"] = std::move(ps);
    if (auto *cd = dyn_cast<CXXConstructorDecl>(fd)) {
      J::Array is;
      for (auto *i : cd->inits()) {
        J::Object io;
        if (i->isMemberInitializer())
          io["m"] = i->getMember()->getNameAsString();
        else if (i->isBaseInitializer())
          io["b"] = type(QualType(i->getBaseClass(), 0));
        else if (i->isDelegatingInitializer())
          io["del"] = true;
        else
          io["m"] = i->getAnyMember()->getNameAsString();
        io["e"] = expr(i->getInit());
        is.push_back(std::move(io));
      }
      o["inits"] = std::move(is);
    }
    if (fd->getBody()) o["b"] = stmt(fd->getBody());
    return o;
  }

  // ---- statements ----
  J::Object S(const char *k, const Stmt *s) {
    J::Object o;
    o["k"] = k;
    o["l"] = loc(s->getBeginLoc());
    return o;
  }
  J::Value stmt(const Stmt *s) {
    if (!s) return nullptr;
    if (auto *e = dyn_cast<Expr>(s)) {
      J::Object o = S("expr", s);
      o["e"] = expr(e);
      return o;
    }
    switch (s->getStmtClass()) {
      case Stmt::CompoundStmtClass: {
        J::Object o = S("block", s);
        J::Array a;
        for (auto *c : cast<CompoundStmt>(s)->body()) a.push_back(stmt(c));
        o["b"] = std::move(a);
        return o;
      }
      case Stmt::NullStmtClass:
        return S("null", s);
      case Stmt::DeclStmtClass: {
        J::Object o = S("decl", s);
        J::Array a;
        for (auto *d : cast<DeclStmt>(s)->decls())
          if (auto *vd = dyn_cast<VarDecl>(d)) a.push_back(var(vd));
        o["d"] = std::move(a);
        return o;
      }
      case Stmt::IfStmtClass: {
        auto *i = cast<IfStmt>(s);
        J::Object o = S("if", s);
        if (i->isConstexpr()) o["cx"] = true;
        if (i->getInit()) o["init"] = stmt(i->getInit());
        if (i->getConditionVariable()) o["var"] = var(i->getConditionVariable());
        o["c"] = expr(i->getCond());
        o["t"] = stmt(i->getThen());
        if (i->getElse()) o["f"] = stmt(i->getElse());
        return o;
      }
      case Stmt::SwitchStmtClass: {
        auto *i = cast<SwitchStmt>(s);
        J::Object o = S("switch", s);
        if (i->getInit()) o["init"] = stmt(i->getInit());
        if (i->getConditionVariable()) o["var"] = var(i->getConditionVariable());
        o["c"] = expr(i->getCond());
        o["b"] = stmt(i->getBody());
        return o;
      }
      case Stmt::CaseStmtClass: {
        auto *c = cast<CaseStmt>(s);
        J::Object o = S("case", s);
        o["v"] = expr(c->getLHS());
        if (c->getRHS()) o["hi"] = expr(c->getRHS());
        o["b"] = stmt(c->getSubStmt());
        return o;
      }
      case Stmt::DefaultStmtClass: {
        J::Object o = S("default", s);
        o["b"] = stmt(cast<DefaultStmt>(s)->getSubStmt());
        return o;
      }
      case Stmt::ForStmtClass: {
        auto *f = cast<ForStmt>(s);
        J::Object o = S("for", s);
        if (f->getInit()) o["init"] = stmt(f->getInit());
        if (f->getCond()) o["c"] = expr(f->getCond());
        if (f->getInc()) o["inc"] = expr(f->getInc());
        o["b"] = stmt(f->getBody());
        return o;
      }
      case Stmt::WhileStmtClass: {
        auto *w = cast<WhileStmt>(s);
        J::Object o = S("while", s);
        if (w->getConditionVariable()) o["var"] = var(w->getConditionVariable());
        o["c"] = expr(w->getCond());
        o["b"] = stmt(w->getBody());
        return o;
      }
      case Stmt::DoStmtClass: {
        auto *w = cast<DoStmt>(s);
        J::Object o = S("do", s);
        o["c"] = expr(w->getCond());
        o["b"] = stmt(w->getBody());
        return o;
      }
      case Stmt::CXXForRangeStmtClass: {
        auto *f = cast<CXXForRangeStmt>(s);
        J::Object o = S("rangefor", s);
        o["r"] = expr(f->getRangeInit());
        o["v"] = var(f->getLoopVariable());
        o["b"] = stmt(f->getBody());
        return o;
      }
      case Stmt::ReturnStmtClass: {
        J::Object o = S("return", s);
        if (auto *e = cast<ReturnStmt>(s)->getRetValue()) o["e"] = expr(e);
        return o;
      }
      case Stmt::BreakStmtClass:
        return S("break", s);
      case Stmt::ContinueStmtClass:
        return S("continue", s);
      case Stmt::GotoStmtClass: {
        J::Object o = S("goto", s);
        o["n"] = cast<GotoStmt>(s)->getLabel()->getNameAsString();
        return o;
      }
      case Stmt::LabelStmtClass: {
        J::Object o = S("label", s);
        o["n"] = cast<LabelStmt>(s)->getDecl()->getNameAsString();
        o["b"] = stmt(cast<LabelStmt>(s)->getSubStmt());
        return o;
      }
      case Stmt::CXXTryStmtClass: {
        auto *t = cast<CXXTryStmt>(s);
        J::Object o = S("try", s);
        o["b"] = stmt(t->getTryBlock());
        J::Array a;
        for (unsigned i = 0; i < t->getNumHandlers(); ++i) {
          auto *h = t->getHandler(i);
          J::Object ho;
          ho["l"] = loc(h->getBeginLoc());
          if (h->getExceptionDecl())
            ho["v"] = var(h->getExceptionDecl());
          else
            ho["all"] = true;
          ho["b"] = stmt(h->getHandlerBlock());
          a.push_back(std::move(ho));
        }
        o["h"] = std::move(a);
        return o;
      }
      case Stmt::AttributedStmtClass:
        return stmt(cast<AttributedStmt>(s)->getSubStmt());
      default: {
        J::Object o = S("unk", s);
        o["c"] = s->getStmtClassName();
        return o;
      }
    }
  }
  J::Value var(const VarDecl *vd) {
    J::Object o;
    o["id"] = declId(vd);
    o["n"] = vd->getNameAsString();
    o["t"] = type(vd->getType());
    o["l"] = loc(vd->getLocation());
    if (vd->isStaticLocal()) o["static"] = true;
    if (vd->hasInit()) o["init"] = expr(vd->getInit());
    if (auto *dd = dyn_cast<DecompositionDecl>(vd)) {
      J::Array a;
      for (auto *b : dd->bindings()) {
        J::Array p;
        p.push_back(declId(b));
        p.push_back(b->getNameAsString());
        a.push_back(std::move(p));
      }
      o["binds"] = std::move(a);
    }
    return o;
  }

  // ---- expressions ----
  J::Object E(const char *k, const Expr *e) {
    J::Object o;
    o["k"] = k;
    o["l"] = loc(e->getExprLoc());
    o["t"] = type(e->getType());
    if (e->isGLValue()) o["g"] = true;
    return o;
  }
  J::Value intv(const llvm::APSInt &v) {
    if (v.getSignificantBits() <= 64 && v.isSigned()) return v.getExtValue();
    if (v.getActiveBits() <= 63) return (int64_t)v.getZExtValue();
    llvm::SmallString<40> s;
    v.toString(s, 10);
    return s.str().str();
  }
  J::Value expr(const Expr *e) {
    if (!e) return nullptr;
    // strip wrappers
    while (true) {
      if (auto *p = dyn_cast<ParenExpr>(e)) {
        e = p->getSubExpr();
      } else if (auto *p = dyn_cast<FullExpr>(e)) {
        e = p->getSubExpr();
      } else if (auto *p = dyn_cast<MaterializeTemporaryExpr>(e)) {
        J::Object o = E("tmp", e);
        o["e"] = expr(p->getSubExpr());
        return o;
      } else if (auto *p = dyn_cast<CXXBindTemporaryExpr>(e)) {
        e = p->getSubExpr();
      } else if (auto *p = dyn_cast<SubstNonTypeTemplateParmExpr>(e)) {
        e = p->getReplacement();
      } else if (auto *p = dyn_cast<ChooseExpr>(e)) {
        e = p->getChosenSubExpr();
      } else if (auto *p = dyn_cast<GenericSelectionExpr>(e)) {
        e = p->getResultExpr();
      } else if (auto *p = dyn_cast<CXXDefaultArgExpr>(e)) {
        e = p->getExpr();
      } else if (auto *p = dyn_cast<CXXDefaultInitExpr>(e)) {
        e = p->getExpr();
      } else if (auto *p = dyn_cast<ImplicitCastExpr>(e); p && p->getCastKind() == CK_NoOp) {
        e = p->getSubExpr();
      } else {
        break;
      }
    }
    // constants
    if (!e->isValueDependent() && !e->isGLValue() && e->getType()->isIntegralOrEnumerationType()) {
      Expr::EvalResult r;
      if (e->EvaluateAsInt(r, ctx_, Expr::SE_NoSideEffects) && r.Val.isInt()) {
        J::Object o = E("int", e);
        o["v"] = intv(r.Val.getInt());
        return o;
      }
    }
    if (!e->isValueDependent() && !e->isGLValue() && e->getType()->isRealFloatingType()) {
      Expr::EvalResult r;
      if (e->EvaluateAsRValue(r, ctx_) && r.Val.isFloat() && !r.HasSideEffects) {
        J::Object o = E("flt", e);
        llvm::SmallString<40> s;
        r.Val.getFloat().toString(s);
        o["v"] = s.str().str();
        return o;
      }
    }
    switch (e->getStmtClass()) {
      case Stmt::StringLiteralClass: {
        J::Object o = E("str", e);
        auto *sl = cast<StringLiteral>(e);
        if (sl->isOrdinary() || sl->isUTF8()) {
          std::string b = sl->getString().str();
          if (!J::isUTF8(b)) {
            o["hex"] = llvm::toHex(b);
            b = J::fixUTF8(b);
          }
          o["v"] = b;
        }
        return o;
      }
      case Stmt::PredefinedExprClass: {
        J::Object o = E("str", e);
        o["v"] = "<func>";
        return o;
      }
      case Stmt::CXXNullPtrLiteralExprClass:
      case Stmt::GNUNullExprClass:
        return E("null", e);
      case Stmt::DeclRefExprClass: {
        auto *d = cast<DeclRefExpr>(e)->getDecl();
        if (auto *fd = dyn_cast<FunctionDecl>(d)) {
          J::Object o = E("fref", e);
          o["f"] = fdecl(fd);
          return o;
        }
        J::Object o = E("var", e);
        o["id"] = declId(d);
        o["n"] = d->getNameAsString();
        if (auto *vd = dyn_cast<VarDecl>(d)) {
          if (vd->hasGlobalStorage()) {
            o["glob"] = vd->getQualifiedNameAsString();
            if (vd->isStaticDataMember() && vd->getAnyInitializer() && vd->isConstexpr()) globals_.insert(vd->getDefinition() ? vd->getDefinition() : vd);
          }
        }
        return o;
      }
      case Stmt::CXXThisExprClass:
        return E("this", e);
      case Stmt::MemberExprClass: {
        auto *m = cast<MemberExpr>(e);
        if (auto *fd = dyn_cast<FunctionDecl>(m->getMemberDecl())) {
          J::Object o = E("mref", e);
          o["f"] = fdecl(fd);
          o["o"] = expr(m->getBase());
          if (m->isArrow()) o["arrow"] = true;
          return o;
        }
        J::Object o = E("mem", e);
        o["o"] = expr(m->getBase());
        o["n"] = m->getMemberDecl()->getNameAsString();
        if (m->isArrow()) o["arrow"] = true;
        if (auto *vd = dyn_cast<VarDecl>(m->getMemberDecl())) {
          o["k"] = "var";
          o["id"] = declId(vd);
          o["glob"] = vd->getQualifiedNameAsString();
          globals_.insert(vd->getDefinition() ? vd->getDefinition() : vd);
        }
        return o;
      }
      case Stmt::CXXMemberCallExprClass: {
        auto *c = cast<CXXMemberCallExpr>(e);
        J::Object o = E("mcall", e);
        if (auto *md = c->getMethodDecl()) {
          o["f"] = fdecl(md);
          const Expr *callee = c->getCallee()->IgnoreParens();
          if (auto *me = dyn_cast<MemberExpr>(callee)) {
            o["o"] = expr(me->getBase());
            if (me->isArrow()) o["arrow"] = true;
            if (md->isVirtual() && !me->hasQualifier()) o["virt"] = true;
          }
        } else {
          o["callee"] = expr(c->getCallee());
        }
        o["a"] = args(c->arguments());
        return o;
      }
      case Stmt::CXXOperatorCallExprClass:
      case Stmt::UserDefinedLiteralClass:
      case Stmt::CallExprClass: {
        auto *c = cast<CallExpr>(e);
        const FunctionDecl *fd = c->getDirectCallee();
        auto *oc = dyn_cast<CXXOperatorCallExpr>(e);
        if (oc && fd && isa<CXXMethodDecl>(fd) && !cast<CXXMethodDecl>(fd)->isStatic() && c->getNumArgs() >= 1) {
          J::Object o = E("mcall", e);
          o["f"] = fdecl(fd);
          o["o"] = expr(c->getArg(0));
          if (cast<CXXMethodDecl>(fd)->isVirtual()) o["virt"] = true;
          J::Array a;
          for (unsigned i = 1; i < c->getNumArgs(); ++i) a.push_back(expr(c->getArg(i)));
          o["a"] = std::move(a);
          return o;
        }
        J::Object o = E("call", e);
        if (fd)
          o["f"] = fdecl(fd);
        else
          o["callee"] = expr(c->getCallee());
        o["a"] = args(c->arguments());
        return o;
      }
      case Stmt::CXXTemporaryObjectExprClass:
      case Stmt::CXXConstructExprClass: {
        auto *c = cast<CXXConstructExpr>(e);
        J::Object o = E("ctor", e);
        o["f"] = fdecl(c->getConstructor());
        o["a"] = args(c->arguments());
        if (c->isStdInitListInitialization()) o["il"] = true;
        if (c->requiresZeroInitialization()) o["zero"] = true;
        return o;
      }
      case Stmt::CXXInheritedCtorInitExprClass: {
        J::Object o = E("ictor", e);
        o["f"] = fdecl(cast<CXXInheritedCtorInitExpr>(e)->getConstructor());
        return o;
      }
      case Stmt::CXXStdInitializerListExprClass: {
        J::Object o = E("stdil", e);
        o["e"] = expr(cast<CXXStdInitializerListExpr>(e)->getSubExpr());
        return o;
      }
      case Stmt::InitListExprClass: {
        auto *il = cast<InitListExpr>(e);
        if (il->isSemanticForm() == false && il->getSemanticForm()) il = il->getSemanticForm();
        J::Object o = E("il", e);
        J::Array a;
        for (auto *x : il->inits()) a.push_back(expr(x));
        o["a"] = std::move(a);
        if (il->hasArrayFiller() && il->getArrayFiller()) o["fill"] = expr(il->getArrayFiller());
        if (il->getType()->isRecordType()) {
          J::Array ns;
          auto *rd = il->getType()->getAsCXXRecordDecl();
          if (rd) {
            for (auto &b : rd->bases()) {
              (void)b;
              ns.push_back(nullptr);
            }
            for (auto *f : rd->fields())
              if (!f->isUnnamedBitfield()) ns.push_back(f->getNameAsString());
          }
          o["fn"] = std::move(ns);
        }
        return o;
      }
      case Stmt::ImplicitValueInitExprClass:
      case Stmt::CXXScalarValueInitExprClass:
        return E("zeroinit", e);
      case Stmt::LambdaExprClass: {
        auto *l = cast<LambdaExpr>(e);
        J::Object o = E("lambda", e);
        o["rec"] = declId(l->getLambdaClass());
        J::Array ops;
        if (auto *ft = l->getLambdaClass()->getDependentLambdaCallOperator()) {
          for (auto *sp : ft->specializations()) ops.push_back(fdecl(sp));
        } else {
          ops.push_back(fdecl(l->getCallOperator()));
        }
        o["ops"] = std::move(ops);
        J::Array cs;
        auto init = l->capture_init_begin();
        for (auto &c : l->captures()) {
          J::Object co;
          if (c.capturesThis()) {
            co["this"] = true;
            co["ref"] = c.getCaptureKind() == LCK_This;
          } else if (c.capturesVariable()) {
            co["id"] = declId(c.getCapturedVar());
            co["n"] = c.getCapturedVar()->getNameAsString();
            co["ref"] = c.getCaptureKind() == LCK_ByRef;
            co["t"] = type(c.getCapturedVar()->getType());
            if (auto *vd = dyn_cast<VarDecl>(c.getCapturedVar()); vd && vd->isInitCapture()) co["init"] = expr(vd->getInit());
          }
          if (init != l->capture_init_end() && *init) co["e"] = expr(*init);
          ++init;
          cs.push_back(std::move(co));
        }
        o["caps"] = std::move(cs);
        return o;
      }
      case Stmt::UnaryOperatorClass: {
        auto *u = cast<UnaryOperator>(e);
        J::Object o = E("un", e);
        o["op"] = UnaryOperator::getOpcodeStr(u->getOpcode());
        if (u->isPostfix()) o["post"] = true;
        o["e"] = expr(u->getSubExpr());
        return o;
      }
      case Stmt::BinaryOperatorClass: {
        auto *b = cast<BinaryOperator>(e);
        J::Object o = E("bin", e);
        o["op"] = b->getOpcodeStr();
        o["a"] = expr(b->getLHS());
        o["b"] = expr(b->getRHS());
        return o;
      }
      case Stmt::CompoundAssignOperatorClass: {
        auto *b = cast<CompoundAssignOperator>(e);
        J::Object o = E("casg", e);
        o["op"] = b->getOpcodeStr();
        o["ct"] = type(b->getComputationLHSType());
        o["a"] = expr(b->getLHS());
        o["b"] = expr(b->getRHS());
        return o;
      }
      case Stmt::ConditionalOperatorClass: {
        auto *c = cast<ConditionalOperator>(e);
        J::Object o = E("cond", e);
        o["c"] = expr(c->getCond());
        o["a"] = expr(c->getTrueExpr());
        o["b"] = expr(c->getFalseExpr());
        return o;
      }
      case Stmt::ArraySubscriptExprClass: {
        auto *a = cast<ArraySubscriptExpr>(e);
        J::Object o = E("idx", e);
        o["a"] = expr(a->getBase());
        o["i"] = expr(a->getIdx());
        return o;
      }
      case Stmt::CXXNewExprClass: {
        auto *n = cast<CXXNewExpr>(e);
        J::Object o = E("new", e);
        o["et"] = type(n->getAllocatedType());
        if (n->isArray()) {
          o["arr"] = true;
          if (n->getArraySize() && *n->getArraySize()) o["n"] = expr(*n->getArraySize());
        }
        if (n->hasInitializer() && n->getInitializer()) o["e"] = expr(n->getInitializer());
        J::Array pa;
        for (auto *x : n->placement_arguments()) pa.push_back(expr(x));
        o["pl"] = std::move(pa);
        if (n->getOperatorNew()) o["on"] = fdecl(n->getOperatorNew());
        return o;
      }
      case Stmt::CXXDeleteExprClass: {
        auto *d = cast<CXXDeleteExpr>(e);
        J::Object o = E("delete", e);
        o["e"] = expr(d->getArgument());
        if (d->isArrayForm()) o["arr"] = true;
        return o;
      }
      case Stmt::CXXThrowExprClass: {
        J::Object o = E("throw", e);
        if (auto *s = cast<CXXThrowExpr>(e)->getSubExpr()) o["e"] = expr(s);
        return o;
      }
      case Stmt::CXXTypeidExprClass:
        return E("typeid", e);
      case Stmt::CXXPseudoDestructorExprClass: {
        J::Object o = E("pdtor", e);
        o["e"] = expr(cast<CXXPseudoDestructorExpr>(e)->getBase());
        return o;
      }
      case Stmt::ArrayInitLoopExprClass: {
        J::Object o = E("arrloop", e);
        o["e"] = expr(cast<ArrayInitLoopExpr>(e)->getCommonExpr()->getSourceExpr());
        return o;
      }
      case Stmt::OpaqueValueExprClass:
        if (auto *s = cast<OpaqueValueExpr>(e)->getSourceExpr()) return expr(s);
        return E("opaque", e);
      case Stmt::StmtExprClass: {
        J::Object o = E("stmtexpr", e);
        o["b"] = stmt(cast<StmtExpr>(e)->getSubStmt());
        return o;
      }
      default:
        break;
    }
    if (auto *c = dyn_cast<CastExpr>(e)) {
      switch (c->getCastKind()) {
        case CK_LValueToRValue: {
          J::Object o = E("ld", e);
          o["e"] = expr(c->getSubExpr());
          return o;
        }
        case CK_NoOp:
        case CK_ConstructorConversion:
        case CK_UserDefinedConversion:
          return expr(c->getSubExpr());
        default: {
          J::Object o = E("cast", e);
          o["ck"] = c->getCastKindName();
          if (!isa<ImplicitCastExpr>(e)) o["x"] = true;
          o["e"] = expr(c->getSubExpr());
          return o;
        }
      }
    }
    J::Object o = E("unk", e);
    o["c"] = e->getStmtClassName();
    J::Array ch;
    for (auto *c : e->children())
      if (auto *ce = dyn_cast_or_null<Expr>(c)) ch.push_back(expr(ce));
    o["ch"] = std::move(ch);
    return o;
  }
  template <typename R>
  J::Value args(R r) {
    J::Array a;
    for (auto *x : r) a.push_back(expr(x));
    return a;
  }
};

class Consumer : public ASTConsumer {
 public:
  void HandleTranslationUnit(ASTContext &c) override {
    if (c.getDiagnostics().hasErrorOccurred()) return;
    Exporter x(c);
    x.run();
  }
};
class Action : public ASTFrontendAction {
 public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, StringRef) override { return std::make_unique<Consumer>(); }
};

}  // namespace

int main(int argc, char **argv) {
  // jfx ROOT OUT SRC -- flags...
  if (argc < 5) {
    llvm::errs() << "usage: jfx ROOT OUT SRC -- FLAGS\n";
    return 2;
  }
  g_root = argv[1];
  if (g_root.back() != '/') g_root += '/';
  g_out = argv[2];
  std::string src = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back(argv[i]);
  tooling::FixedCompilationDatabase db(g_root, flags);
  tooling::ClangTool tool(db, {src});
  struct F : tooling::FrontendActionFactory {
    std::unique_ptr<FrontendAction> create() override { return std::make_unique<Action>(); }
  } f;
  return tool.run(&f);
}
