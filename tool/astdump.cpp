// astdump: dumps the type-checked, template-instantiated AST of the functions
// reachable from a translation unit's roots as JSON lines.  It is a read-only
// front end for the Python analyses in /verif/sa; it executes no analysed code.
//
// usage: astdump OUT.jsonl TUID FILE -- compiler flags
#include <cstdio>
#include <deque>
#include <fstream>
#include <map>
#include <set>
#include <string>
#include <vector>

#include "clang/AST/ASTConsumer.h"
#include "clang/AST/ASTContext.h"
#include "clang/AST/Mangle.h"
#include "clang/AST/DeclCXX.h"
#include "clang/AST/DeclTemplate.h"
#include "clang/AST/ExprCXX.h"
#include "clang/AST/ExprConcepts.h"
#include "clang/AST/RecursiveASTVisitor.h"
#include "clang/AST/StmtCXX.h"
#include "clang/Frontend/CompilerInstance.h"
#include "clang/Frontend/FrontendAction.h"
#include "clang/Tooling/CompilationDatabase.h"
#include "clang/Tooling/Tooling.h"
#include "llvm/Support/JSON.h"
#include "llvm/Support/raw_ostream.h"

using namespace clang;
namespace json = llvm::json;
using json::Object; using json::Array; using json::Value;

static std::string OutPath, TuId;

namespace {

class Dumper {
public:
  Dumper (ASTContext &C) : Ctx (C), Names (C), PP (C.getPrintingPolicy ()) {
    std::error_code ec;
    OS = std::make_unique<llvm::raw_fd_ostream> (OutPath, ec);
    PP.SuppressTagKeyword = true;
  }

  ASTContext &Ctx;
  ASTNameGenerator Names;
  PrintingPolicy PP;
  std::unique_ptr<llvm::raw_fd_ostream> OS;

  std::map<Decl const *, int> LocalIds;
  std::map<Decl const *, std::string> Keys;
  std::map<std::string, int> TypeIds;
  std::set<Decl const *> DoneFns, DoneVars, DoneRecs;
  std::deque<FunctionDecl const *> FnQueue;
  std::deque<VarDecl const *> VarQueue;
  std::deque<CXXRecordDecl const *> RecQueue;

  void emit (Object o) { *OS << Value (std::move (o)) << "\n"; }

  int localId (Decl const *d) {
    d = d->getCanonicalDecl ();
    auto it = LocalIds.find (d);
    if (it != LocalIds.end ()) return it->second;
    int id = (int)LocalIds.size () + 1;
    LocalIds[d] = id;
    return id;
  }
  std::string qualName (NamedDecl const *d) {
    std::string s;
    std::vector<std::string> parts;
    std::string own = d->getDeclName ().isIdentifier () ? d->getName ().str () : d->getNameAsString ();
    if (isa<CXXConstructorDecl> (d)) own = "<ctor>";
    else if (isa<CXXDestructorDecl> (d)) own = "<dtor>";
    else if (isa<CXXConversionDecl> (d)) own = "<conv>";
    parts.push_back (own);
    for (DeclContext const *dc = d->getDeclContext (); dc && !dc->isTranslationUnit (); dc = dc->getParent ()) {
      if (auto const *ns = dyn_cast<NamespaceDecl> (dc)) {
        if (ns->isInline ()) continue;
        parts.push_back (ns->isAnonymousNamespace () ? "(anon)" : ns->getName ().str ());
      } else if (auto const *rd = dyn_cast<CXXRecordDecl> (dc)) {
        if (rd->isLambda ()) parts.push_back ("(lambda)");
        else parts.push_back (rd->getName ().empty () ? "(anonrec)" : rd->getName ().str ());
      } else if (auto const *fd = dyn_cast<FunctionDecl> (dc)) {
        parts.push_back (fd->getDeclName ().isIdentifier () ? fd->getName ().str () : fd->getNameAsString ());
      } else if (auto const *ed = dyn_cast<EnumDecl> (dc)) {
        if (ed->isScoped ()) parts.push_back (ed->getName ().str ());
      }
    }
    for (auto it = parts.rbegin (); it != parts.rend (); ++it) {
      if (!s.empty ()) s += "::";
      s += *it;
    }
    return s;
  }

  std::string key (NamedDecl const *d) {
    auto const *c = cast<NamedDecl> (d->getCanonicalDecl ());
    auto it = Keys.find (c);
    if (it != Keys.end ()) return it->second;
    std::string k;
    bool ext = c->isExternallyVisible ();
    if (ext && (isa<FunctionDecl> (c) || isa<VarDecl> (c))) {
      if (auto const *fd = dyn_cast<FunctionDecl> (c); fd && fd->isTemplated ()) ext = false;
      if (ext) k = Names.getName (c);
    }
    if (k.empty ()) k = TuId + ":" + std::to_string (localId (c)) + ":" + qualName (c);
    Keys[c] = k;
    return k;
  }

  std::string loc (SourceLocation l) {
    if (l.isInvalid ()) return "";
    auto &sm = Ctx.getSourceManager ();
    auto p = sm.getPresumedLoc (sm.getExpansionLoc (l));
    if (p.isInvalid ()) return "";
    return std::string (p.getFilename ()) + ":" + std::to_string (p.getLine ());
  }
  bool macroFrom (SourceLocation l, char const *name) {
    auto &sm = Ctx.getSourceManager ();
    while (l.isMacroID ()) {
      if (Lexer::getImmediateMacroName (l, sm, Ctx.getLangOpts ()) == name) return true;
      l = sm.getImmediateMacroCallerLoc (l);
    }
    return false;
  }

  Array targsOf (ArrayRef<TemplateArgument> args) {
    Array a;
    for (auto const &ta : args) {
      switch (ta.getKind ()) {
      case TemplateArgument::Type: a.push_back (Object{{"t", type (ta.getAsType ())}}); break;
      case TemplateArgument::Integral: {
        llvm::SmallString<32> s; ta.getAsIntegral ().toString (s);
        a.push_back (Object{{"v", std::string (s.str ())}, {"t", type (ta.getIntegralType ())}});
        break;
      }
      case TemplateArgument::Pack: {
        a.push_back (Object{{"pack", targsOf (ta.getPackAsArray ())}});
        break;
      }
      case TemplateArgument::Declaration:
        if (auto const *fd = dyn_cast<FunctionDecl> (ta.getAsDecl ())) { queueFn (fd); a.push_back (Object{{"fn", key (fd)}}); }
        else a.push_back (Object{{"decl", key (cast<NamedDecl> (ta.getAsDecl ()))}});
        break;
      default: a.push_back (Object{{"other", true}}); break;
      }
    }
    return a;
  }

  std::string recKey (CXXRecordDecl const *rd) {
    rd = rd->getCanonicalDecl ();
    auto it = Keys.find (rd);
    if (it != Keys.end ()) return it->second;
    std::string k;
    if (rd->isLambda () || !rd->isExternallyVisible () || rd->getParentFunctionOrMethod ())
      k = TuId + ":R" + std::to_string (localId (rd)) + ":" + qualName (rd);
    else
      k = Ctx.getTypeDeclType (rd).getCanonicalType ().getAsString (PP);
    Keys[rd] = k;
    return k;
  }

  int type (QualType q) {
    q = q.getCanonicalType ();
    bool c = q.isConstQualified ();
    std::string k = q.getAsString (PP);
    // distinguish local/lambda records by decl identity
    Type const *t = q.getTypePtr ();
    std::string uniq = std::to_string ((uintptr_t)q.getAsOpaquePtr ());
    auto it = TypeIds.find (uniq);
    if (it != TypeIds.end ()) return it->second;
    int id = (int)TypeIds.size () + 1;
    TypeIds[uniq] = id;
    Object o{{"R", "type"}, {"id", id}, {"n", k}};
    if (c) o["c"] = true;
    if (auto const *bt = dyn_cast<BuiltinType> (t)) {
      if (bt->getKind () == BuiltinType::Bool) { o["k"] = "bool"; }
      else if (bt->isVoidType ()) o["k"] = "void";
      else if (bt->isInteger ()) { o["k"] = "int"; o["w"] = (int)Ctx.getTypeSize (q); o["s"] = bt->isSignedInteger (); }
      else if (bt->isFloatingPoint ()) { o["k"] = "float"; }
      else if (bt->isNullPtrType ()) o["k"] = "nullptr";
      else o["k"] = "other";
    } else if (auto const *et = dyn_cast<EnumType> (t)) {
      o["k"] = "enum"; o["qn"] = qualName (et->getDecl ());
      QualType u = et->getDecl ()->getIntegerType ();
      if (!u.isNull ()) {
        o["w"] = (int)Ctx.getTypeSize (u); o["s"] = u->isSignedIntegerType ();
        o["u"] = type (u);
        if (u->isBooleanType ()) o["w"] = 1;
      }
      if (et->getDecl ()->isComplete ()) {
        Object ens;
        for (auto const *ec : et->getDecl ()->enumerators ()) {
          llvm::SmallString<32> s; ec->getInitVal ().toString (s);
          ens[ec->getName ()] = std::string (s.str ());
        }
        o["enumerators"] = std::move (ens);
      }
    } else if (auto const *pt = dyn_cast<PointerType> (t)) { o["k"] = "ptr"; o["to"] = type (pt->getPointeeType ()); }
    else if (auto const *rt = dyn_cast<ReferenceType> (t)) { o["k"] = isa<RValueReferenceType> (t) ? "rref" : "ref"; o["to"] = type (rt->getPointeeType ()); }
    else if (auto const *rc = dyn_cast<RecordType> (t)) {
      o["k"] = "rec";
      if (auto const *rd = dyn_cast<CXXRecordDecl> (rc->getDecl ())) { o["rec"] = recKey (rd); queueRec (rd); }
    } else if (auto const *ca = dyn_cast<ConstantArrayType> (t)) {
      o["k"] = "arr"; o["of"] = type (ca->getElementType ()); o["len"] = (int64_t)ca->getSize ().getZExtValue ();
    } else if (isa<FunctionProtoType> (t)) { o["k"] = "fn"; }
    else if (isa<MemberPointerType> (t)) { o["k"] = "memptr"; }
    else if (auto const *at = dyn_cast<AtomicType> (t)) { o["k"] = "atomic"; o["to"] = type (at->getValueType ()); }
    else o["k"] = "other";
    emit (std::move (o));
    return id;
  }

  void queueFn (FunctionDecl const *fd) {
    fd = fd->getCanonicalDecl ();
    if (fd->isTemplated ()) return;
    if (DoneFns.insert (fd).second) FnQueue.push_back (fd);
  }
  void queueVar (VarDecl const *vd) {
    vd = vd->getCanonicalDecl ();
    if (DoneVars.insert (vd).second) VarQueue.push_back (vd);
  }
  void queueRec (CXXRecordDecl const *rd) {
    rd = rd->getCanonicalDecl ();
    if (DoneRecs.insert (rd).second) RecQueue.push_back (rd);
  }

  // ---- functions -----------------------------------------------------
  void dumpFn (FunctionDecl const *canon) {
    FunctionDecl const *fd = canon;
    FunctionDecl const *def = nullptr;
    if (canon->isDefined (def) && def) fd = def;
    Object o{{"R", "fn"}, {"key", key (canon)}, {"qn", qualName (fd)},
             {"name", fd->getNameAsString ()}, {"loc", loc (fd->getLocation ())}};
    o["ret"] = type (fd->getReturnType ());
    if (fd->isVariadic ()) o["variadic"] = true;
    if (fd->isNoReturn ()) o["noreturn"] = true;
    if (fd->isConstexpr ()) o["constexpr"] = true;
    if (fd->isDefaulted ()) o["defaulted"] = true;
    if (fd->isDeleted ()) o["deleted"] = true;
    if (fd->isTrivial ()) o["trivial"] = true;
    if (fd->isExternC ()) o["externc"] = true;
    if (fd->getBuiltinID ()) o["builtin"] = (int)fd->getBuiltinID ();
    if (!fd->isExternallyVisible ()) o["internal"] = true;
    if (fd->isImplicit ()) o["implicit"] = true;
    if (auto const *fpt = fd->getType ()->getAs<FunctionProtoType> ()) {
      auto es = fpt->getExceptionSpecType ();
      if (es != EST_Unevaluated && es != EST_Uninstantiated && es != EST_Unparsed && es != EST_DependentNoexcept && fpt->isNothrow ()) o["nothrow"] = true;
    }
    if (auto const *ta = fd->getTemplateSpecializationArgs ()) o["targs"] = targsOf (ta->asArray ());
    if (auto const *md = dyn_cast<CXXMethodDecl> (fd)) {
      o["rec"] = recKey (md->getParent ());
      queueRec (md->getParent ());
      o["static"] = md->isStatic ();
      if (md->isConst ()) o["const"] = true;
      if (md->isVirtual ()) o["virtual"] = true;
      if (md->isCopyAssignmentOperator ()) o["spec"] = "copyassign";
      if (md->isMoveAssignmentOperator ()) o["spec"] = "moveassign";
    }
    if (auto const *cd = dyn_cast<CXXConstructorDecl> (fd)) {
      o["ctor"] = true;
      if (cd->isCopyConstructor ()) o["spec"] = "copy";
      else if (cd->isMoveConstructor ()) o["spec"] = "move";
      else if (cd->isDefaultConstructor ()) o["spec"] = "default";
    }
    if (isa<CXXDestructorDecl> (fd)) o["dtor"] = true;
    if (isa<CXXConversionDecl> (fd)) o["conv"] = true;
    Array ps;
    for (auto const *p : fd->parameters ()) {
      ps.push_back (Object{{"id", localId (p)}, {"name", p->getNameAsString ()}, {"t", type (p->getType ())}});
    }
    o["params"] = std::move (ps);
    if (fd->doesThisDeclarationHaveABody () && !fd->isTemplated ()) {
      if (auto const *cd = dyn_cast<CXXConstructorDecl> (fd)) {
        Array inits;
        for (auto const *ci : cd->inits ()) {
          Object io;
          if (ci->isAnyMemberInitializer ()) {
            auto const *m = ci->getAnyMember ();
            io["field"] = m->getNameAsString ();
            io["fi"] = (int)m->getFieldIndex ();
            if (ci->isIndirectMemberInitializer ()) io["indirect"] = true;
          }
          else if (ci->isBaseInitializer ()) {
            io["base"] = type (QualType (ci->getBaseClass (), 0));
          } else io["delegating"] = true;
          io["e"] = expr (ci->getInit ());
          inits.push_back (std::move (io));
        }
        o["inits"] = std::move (inits);
      }
      o["body"] = stmt (fd->getBody ());
    }
    emit (std::move (o));
  }
  void dumpVar (VarDecl const *canon) {
    VarDecl const *vd = canon->getDefinition () ? canon->getDefinition () : canon;
    VarDecl const *initd = nullptr;
    Expr const *in = vd->getAnyInitializer (initd);
    Object o{{"R", "var"}, {"key", key (canon)}, {"qn", qualName (vd)}, {"t", type (vd->getType ())}, {"loc", loc (vd->getLocation ())}};
    if (vd->isConstexpr ()) o["constexpr"] = true;
    if (vd->isStaticLocal ()) o["staticlocal"] = true;
    if (vd->isStaticDataMember ()) o["staticmember"] = true;
    if (!vd->isExternallyVisible ()) o["internal"] = true;
    if (vd->getTLSKind () != VarDecl::TLS_None) o["tls"] = true;
    QualType q = vd->getType ();
    o["constant"] = q.isConstQualified () || q->isReferenceType () || (q->isArrayType () && Ctx.getBaseElementType (q).isConstQualified ());
    bool mut = false;
    if (auto const *rd = Ctx.getBaseElementType (q)->getAsCXXRecordDecl ()) if (rd->hasDefinition ()) mut = rd->hasMutableFields ();
    if (mut) o["mutable"] = true;
    if (in && !in->isValueDependent ()) o["init"] = expr (in);
    emit (std::move (o));
  }
  void dumpRec (CXXRecordDecl const *canon) {
    CXXRecordDecl const *rd = canon->getDefinition ();
    Object o{{"R", "rec"}, {"key", recKey (canon)}, {"qn", qualName (canon)}, {"loc", loc (canon->getLocation ())}};
    if (auto const *sp = dyn_cast<ClassTemplateSpecializationDecl> (canon)) o["targs"] = targsOf (sp->getTemplateArgs ().asArray ());
    if (!rd) { o["incomplete"] = true; emit (std::move (o)); return; }
    Array fs;
    for (auto const *f : rd->fields ()) {
      Object fo{{"name", f->getNameAsString ()}, {"t", type (f->getType ())}, {"fi", (int)f->getFieldIndex ()}};
      if (f->isBitField ()) fo["bits"] = (int)f->getBitWidthValue (Ctx);
      if (f->isMutable ()) fo["mutable"] = true;
      if (f->isAnonymousStructOrUnion ()) fo["anon"] = true;
      if (auto const *in = f->getInClassInitializer ()) { if (!in->isValueDependent () && !in->isTypeDependent ()) fo["init"] = expr (in); }
      fs.push_back (std::move (fo));
    }
    o["fields"] = std::move (fs);
    Array bs;
    for (auto const &b : rd->bases ()) {
      bs.push_back (type (b.getType ()));
    }
    o["bases"] = std::move (bs);
    if (rd->isUnion ()) o["union"] = true;
    if (rd->isAggregate ()) o["aggregate"] = true;
    if (rd->isEmpty ()) o["empty"] = true;
    if (rd->isTriviallyCopyable ()) o["trivcopy"] = true;
    if (rd->isLambda ()) {
      o["lambda"] = true;
      if (auto const *op = rd->getLambdaCallOperator ()) {
        if (!op->isTemplated ()) { o["callop"] = key (op); queueFn (op); }
      }
      Array caps;
      auto fit = rd->field_begin ();
      for (auto const &cap : rd->captures ()) {
        Object co;
        if (cap.capturesThis ()) co["kind"] = cap.getCaptureKind () == LCK_StarThis ? "starthis" : "this";
        else if (cap.capturesVariable ()) {
          co["kind"] = cap.getCaptureKind () == LCK_ByRef ? "ref" : "copy";
          co["var"] = localId (cap.getCapturedVar ());
          co["name"] = cap.getCapturedVar ()->getNameAsString ();
        } else co["kind"] = "vla";
        if (fit != rd->field_end ()) { co["fi"] = (int)fit->getFieldIndex (); ++fit; }
        caps.push_back (std::move (co));
      }
      o["captures"] = std::move (caps);
    }
    // virtual methods, for resolving overrides
    Array vm;
    for (auto const *m : rd->methods ()) {
      if (m->isVirtual ()) { vm.push_back (Object{{"name", m->getNameAsString ()}, {"key", key (m)}}); }
    }
    if (!vm.empty ()) o["vmethods"] = std::move (vm);
    emit (std::move (o));
  }

  // ---- statements ------------------------------------------------------
  Value varDecl (VarDecl const *vd) {
    Object o{{"id", localId (vd)}, {"name", vd->getNameAsString ()}, {"t", type (vd->getType ())}};
    if (vd->isStaticLocal ()) { o["static"] = key (vd); queueVar (vd); return o; }
    if (vd->getInit ()) o["init"] = expr (vd->getInit ());
    if (vd->isNRVOVariable ()) o["nrvo"] = true;
    if (auto const *dd = dyn_cast<DecompositionDecl> (vd)) {
      Array bs;
      for (auto const *b : dd->bindings ()) {
        Object bo{{"id", localId (b)}, {"name", b->getNameAsString ()}};
        if (auto const *hv = b->getHoldingVar ()) { bo["hold"] = varDecl (hv); }
        if (b->getBinding ()) bo["e"] = expr (b->getBinding ());
        bs.push_back (std::move (bo));
      }
      o["bindings"] = std::move (bs);
    }
    return o;
  }
  Value stmt (Stmt const *s) {
    if (!s) return nullptr;
    Object o;
    auto L = [&] (char const *k) { o["k"] = k; o["l"] = loc (s->getBeginLoc ()); };
    if (auto const *e = dyn_cast<Expr> (s)) { L ("Expr"); o["e"] = expr (e); return o; }
    switch (s->getStmtClass ()) {
    case Stmt::CompoundStmtClass: {
      L ("Block"); Array a;
      for (auto const *c : cast<CompoundStmt> (s)->body ()) a.push_back (stmt (c));
      o["s"] = std::move (a); return o;
    }
    case Stmt::DeclStmtClass: {
      L ("Decl"); Array a;
      for (auto const *d : cast<DeclStmt> (s)->decls ()) {
        if (auto const *vd = dyn_cast<VarDecl> (d)) a.push_back (varDecl (vd));
      }
      o["vars"] = std::move (a); return o;
    }
    case Stmt::IfStmtClass: {
      auto const *i = cast<IfStmt> (s);
      if (i->isConstexpr ()) {
        L ("Block"); Array a;
        if (i->getInit ()) a.push_back (stmt (i->getInit ()));
        if (auto const *v = i->getConditionVariableDeclStmt ()) a.push_back (stmt (v));
        auto nd = i->getNondiscardedCase (Ctx);
        if (nd) { if (*nd) a.push_back (stmt (*nd)); }
        else { a.push_back (Object{{"k", "Unsupported"}, {"cls", "IfConstexprUnresolved"}}); }
        o["s"] = std::move (a); return o;
      }
      if (i->isConsteval ()) {
        Stmt const *run = i->isNegatedConsteval () ? i->getThen () : i->getElse ();
        if (!run) { L ("Null"); return o; }
        return stmt (run);
      }
      L ("If");
      if (i->getInit ()) o["init"] = stmt (i->getInit ());
      if (auto const *v = i->getConditionVariable ()) o["cv"] = varDecl (v);
      o["c"] = expr (i->getCond ()); o["t"] = stmt (i->getThen ());
      if (i->getElse ()) o["f"] = stmt (i->getElse ());
      return o;
    }
    case Stmt::WhileStmtClass: {
      auto const *w = cast<WhileStmt> (s); L ("While");
      if (auto const *v = w->getConditionVariable ()) o["cv"] = varDecl (v);
      o["c"] = expr (w->getCond ()); o["b"] = stmt (w->getBody ()); return o;
    }
    case Stmt::DoStmtClass: {
      auto const *w = cast<DoStmt> (s); L ("Do"); o["c"] = expr (w->getCond ()); o["b"] = stmt (w->getBody ()); return o;
    }
    case Stmt::ForStmtClass: {
      auto const *f = cast<ForStmt> (s); L ("For");
      if (f->getInit ()) o["init"] = stmt (f->getInit ());
      if (auto const *v = f->getConditionVariable ()) o["cv"] = varDecl (v);
      if (f->getCond ()) o["c"] = expr (f->getCond ());
      if (f->getInc ()) o["inc"] = expr (f->getInc ());
      o["b"] = stmt (f->getBody ()); return o;
    }
    case Stmt::CXXForRangeStmtClass: {
      auto const *f = cast<CXXForRangeStmt> (s); L ("RangeFor");
      if (f->getInit ()) o["init"] = stmt (f->getInit ());
      o["range"] = stmt (f->getRangeStmt ()); o["begin"] = stmt (f->getBeginStmt ()); o["end"] = stmt (f->getEndStmt ());
      o["c"] = expr (f->getCond ()); o["inc"] = expr (f->getInc ());
      o["var"] = stmt (f->getLoopVarStmt ()); o["b"] = stmt (f->getBody ()); return o;
    }
    case Stmt::ReturnStmtClass: {
      auto const *r = cast<ReturnStmt> (s); L ("Return");
      if (r->getRetValue ()) o["e"] = expr (r->getRetValue ());
      return o;
    }
    case Stmt::BreakStmtClass: L ("Break"); return o;
    case Stmt::ContinueStmtClass: L ("Continue"); return o;
    case Stmt::NullStmtClass: L ("Null"); return o;
    case Stmt::SwitchStmtClass: {
      auto const *w = cast<SwitchStmt> (s); L ("Switch");
      if (w->getInit ()) o["init"] = stmt (w->getInit ());
      if (auto const *v = w->getConditionVariable ()) o["cv"] = varDecl (v);
      o["c"] = expr (w->getCond ()); o["b"] = stmt (w->getBody ()); return o;
    }
    case Stmt::CaseStmtClass: {
      auto const *c = cast<CaseStmt> (s); L ("Case");
      o["v"] = expr (c->getLHS ()); if (c->getRHS ()) o["v2"] = expr (c->getRHS ());
      o["s"] = stmt (c->getSubStmt ()); return o;
    }
    case Stmt::DefaultStmtClass: L ("Default"); o["s"] = stmt (cast<DefaultStmt> (s)->getSubStmt ()); return o;
    case Stmt::LabelStmtClass: L ("Label"); o["name"] = cast<LabelStmt> (s)->getName (); o["s"] = stmt (cast<LabelStmt> (s)->getSubStmt ()); return o;
    case Stmt::GotoStmtClass: L ("Goto"); o["name"] = cast<GotoStmt> (s)->getLabel ()->getNameAsString (); return o;
    case Stmt::AttributedStmtClass: return stmt (cast<AttributedStmt> (s)->getSubStmt ());
    case Stmt::CXXTryStmtClass: {
      auto const *t = cast<CXXTryStmt> (s); L ("Try"); o["b"] = stmt (t->getTryBlock ());
      Array hs;
      for (unsigned i = 0; i < t->getNumHandlers (); ++i) {
        auto const *h = t->getHandler (i);
        Object ho; if (h->getExceptionDecl ()) ho["var"] = varDecl (h->getExceptionDecl ());
        ho["b"] = stmt (h->getHandlerBlock ()); hs.push_back (std::move (ho));
      }
      o["h"] = std::move (hs); return o;
    }
    default: L ("Unsupported"); o["cls"] = s->getStmtClassName (); return o;
    }
  }

  // ---- expressions -----------------------------------------------------
  static bool isLit (Expr const *e) {
    return isa<IntegerLiteral> (e) || isa<CharacterLiteral> (e) || isa<CXXBoolLiteralExpr> (e);
  }
  Value expr (Expr const *e) {
    if (!e) return nullptr;
    // transparent wrappers
    for (;;) {
      if (auto const *p = dyn_cast<ParenExpr> (e)) { e = p->getSubExpr (); continue; }
      if (auto const *p = dyn_cast<ExprWithCleanups> (e)) { e = p->getSubExpr (); continue; }
      if (auto const *p = dyn_cast<CXXBindTemporaryExpr> (e)) { e = p->getSubExpr (); continue; }
      if (auto const *p = dyn_cast<SubstNonTypeTemplateParmExpr> (e)) { e = p->getReplacement (); continue; }
      if (auto const *p = dyn_cast<ConstantExpr> (e)) { e = p->getSubExpr (); continue; }
      if (auto const *p = dyn_cast<CXXDefaultArgExpr> (e)) { e = p->getExpr (); continue; }
      if (auto const *p = dyn_cast<CXXDefaultInitExpr> (e)) { e = p->getExpr (); continue; }
      if (auto const *p = dyn_cast<CXXRewrittenBinaryOperator> (e)) { e = p->getSemanticForm (); continue; }
      if (auto const *p = dyn_cast<CXXStdInitializerListExpr> (e)) { (void)p; break; }
      if (auto const *p = dyn_cast<GenericSelectionExpr> (e)) { e = p->getResultExpr (); continue; }
      if (auto const *p = dyn_cast<UnaryOperator> (e); p && p->getOpcode () == UO_Extension) { e = p->getSubExpr (); continue; }
      if (auto const *p = dyn_cast<ChooseExpr> (e)) { e = p->getChosenSubExpr (); continue; }
      break;
    }
    Object o;
    QualType q = e->getType ();
    o["t"] = type (q);
    o["l"] = loc (e->getExprLoc ());
    if (e->isGLValue ()) o["lv"] = true;
    if (!e->isValueDependent () && e->isPRValue () && q->isIntegralOrEnumerationType () && !q->isDependentType ()) {
      Expr::EvalResult er;
      if (auto const *il = dyn_cast<IntegerLiteral> (e)) { llvm::SmallString<32> s; il->getValue ().toString (s, 10, q->isSignedIntegerType ()); o["k"] = "Int"; o["v"] = std::string (s.str ()); return o; }
      if (e->EvaluateAsRValue (er, Ctx) && !er.HasSideEffects && er.Val.isInt ()) {
        llvm::SmallString<32> s; er.Val.getInt ().toString (s);
        o["k"] = "Int"; o["v"] = std::string (s.str ());
        return o;
      }
    }
    switch (e->getStmtClass ()) {
    case Stmt::StringLiteralClass: {
      auto const *sl = cast<StringLiteral> (e); o["k"] = "Str";
      Array a; for (unsigned i = 0; i < sl->getLength (); ++i) a.push_back ((int64_t)sl->getCodeUnit (i));
      o["v"] = std::move (a); return o;
    }
    case Stmt::PredefinedExprClass: {
      auto const *pe = cast<PredefinedExpr> (e); o["k"] = "Str"; Array a;
      if (pe->getFunctionName ()) for (unsigned char c : pe->getFunctionName ()->getBytes ()) a.push_back ((int64_t)c);
      o["v"] = std::move (a); return o;
    }
    case Stmt::FloatingLiteralClass: o["k"] = "Float"; o["v"] = cast<FloatingLiteral> (e)->getValueAsApproximateDouble (); return o;
    case Stmt::CXXNullPtrLiteralExprClass: case Stmt::GNUNullExprClass: o["k"] = "Null"; return o;
    case Stmt::DeclRefExprClass: return declRef (cast<DeclRefExpr> (e), std::move (o));
    case Stmt::MemberExprClass: {
      auto const *m = cast<MemberExpr> (e);
      auto const *md = m->getMemberDecl ();
      if (auto const *vd = dyn_cast<VarDecl> (md)) { o["k"] = "Global"; o["v"] = key (vd); queueVar (vd); return o; }
      if (auto const *fd = dyn_cast<FunctionDecl> (md)) {
        queueFn (fd); o["k"] = "MemFn"; o["fn"] = key (fd); o["b"] = expr (m->getBase ()); if (m->isArrow ()) o["arrow"] = true; return o;
      }
      if (isa<EnumConstantDecl> (md)) { o["k"] = "Unsupported"; o["cls"] = "MemberEnum"; return o; }
      o["k"] = "Member"; o["f"] = md->getNameAsString ();
      if (auto const *fd = dyn_cast<FieldDecl> (md)) { o["fi"] = (int)fd->getFieldIndex (); o["frec"] = recKey (cast<CXXRecordDecl> (fd->getParent ())); }
      if (m->isArrow ()) o["arrow"] = true;
      o["b"] = expr (m->getBase ()); return o;
    }
    case Stmt::CXXThisExprClass: o["k"] = "This"; return o;
    case Stmt::CXXMemberCallExprClass: {
      auto const *c = cast<CXXMemberCallExpr> (e);
      auto const *md = c->getMethodDecl ();
      if (!md) { o["k"] = "CallPtrMem"; o["callee"] = expr (c->getCallee ()); o["args"] = args (c->arguments ()); return o; }
      o["k"] = "MCall"; o["fn"] = key (md); queueFn (md); o["qn"] = qualName (md);
      auto const *me = dyn_cast<MemberExpr> (c->getCallee ()->IgnoreParens ());
      if (me) { o["obj"] = expr (me->getBase ()); if (me->isArrow ()) o["arrow"] = true;
        if (md->isVirtual () && !me->hasQualifier ()) o["virtual"] = true; }
      else o["obj"] = expr (c->getImplicitObjectArgument ());
      o["args"] = args (c->arguments ()); return o;
    }
    case Stmt::CXXOperatorCallExprClass:
    case Stmt::UserDefinedLiteralClass:
    case Stmt::CallExprClass: {
      auto const *c = cast<CallExpr> (e);
      auto const *fd = c->getDirectCallee ();
      if (!fd) { o["k"] = "CallE"; o["callee"] = expr (c->getCallee ()); o["args"] = args (c->arguments ()); return o; }
      queueFn (fd);
      auto const *md = dyn_cast<CXXMethodDecl> (fd);
      if (isa<CXXOperatorCallExpr> (c) && md) {
        // first argument is the object (also for static operator())
        if (md->isStatic ()) {
          o["k"] = "Call"; o["fn"] = key (fd); o["qn"] = qualName (fd);
          Array a; for (unsigned i = 1; i < c->getNumArgs (); ++i) a.push_back (expr (c->getArg (i)));
          o["args"] = std::move (a); return o;
        }
        o["k"] = "MCall"; o["fn"] = key (fd); o["qn"] = qualName (fd); o["obj"] = expr (c->getArg (0));
        if (md->isVirtual ()) o["virtual"] = true;
        o["op"] = getOperatorSpelling (cast<CXXOperatorCallExpr> (c)->getOperator ());
        Array a; for (unsigned i = 1; i < c->getNumArgs (); ++i) a.push_back (expr (c->getArg (i)));
        o["args"] = std::move (a); return o;
      }
      o["k"] = "Call"; o["fn"] = key (fd); o["qn"] = qualName (fd); o["args"] = args (c->arguments ());
      if (auto const *oc = dyn_cast<CXXOperatorCallExpr> (c)) o["op"] = getOperatorSpelling (oc->getOperator ());
      return o;
    }
    case Stmt::CXXConstructExprClass:
    case Stmt::CXXTemporaryObjectExprClass: {
      auto const *c = cast<CXXConstructExpr> (e);
      auto const *cd = c->getConstructor ();
      o["k"] = "Construct"; o["fn"] = key (cd); o["qn"] = qualName (cd); queueFn (cd); queueRec (cd->getParent ());
      if (c->isElidable ()) o["elide"] = true;
      if (c->requiresZeroInitialization ()) o["zero"] = true;
      if (cd->isCopyOrMoveConstructor ()) o["copy"] = true;
      if (c->isListInitialization ()) o["list"] = true;
      o["args"] = args (c->arguments ()); return o;
    }
    case Stmt::CXXInheritedCtorInitExprClass: {
      auto const *c = cast<CXXInheritedCtorInitExpr> (e);
      o["k"] = "InheritedCtor"; o["fn"] = key (c->getConstructor ()); queueFn (c->getConstructor ()); return o;
    }
    case Stmt::ImplicitCastExprClass: case Stmt::CXXStaticCastExprClass: case Stmt::CXXFunctionalCastExprClass:
    case Stmt::CStyleCastExprClass: case Stmt::CXXConstCastExprClass: case Stmt::CXXReinterpretCastExprClass:
    case Stmt::CXXDynamicCastExprClass: case Stmt::BuiltinBitCastExprClass: {
      auto const *c = cast<CastExpr> (e);
      o["k"] = "Cast"; o["ck"] = c->getCastKindName (); o["e"] = expr (c->getSubExpr ());
      if (isa<ImplicitCastExpr> (e)) o["implicit"] = true;
      return o;
    }
    case Stmt::UnaryOperatorClass: {
      auto const *u = cast<UnaryOperator> (e);
      o["k"] = "Un"; o["op"] = UnaryOperator::getOpcodeStr (u->getOpcode ()).str ();
      if (u->isPostfix ()) o["post"] = true;
      if (u->getOpcode () == UO_AddrOf) {
        if (auto const *dr = dyn_cast<DeclRefExpr> (u->getSubExpr ()->IgnoreParens ())) {
          if (auto const *md = dyn_cast<CXXMethodDecl> (dr->getDecl ()); md && !md->isStatic ()) {
            o["k"] = "MemPtr"; o["fn"] = key (md); queueFn (md); return o;
          }
          if (auto const *fd = dyn_cast<FieldDecl> (dr->getDecl ())) { o["k"] = "MemPtrField"; o["f"] = fd->getNameAsString (); o["fi"] = (int)fd->getFieldIndex (); return o; }
        }
      }
      o["e"] = expr (u->getSubExpr ()); return o;
    }
    case Stmt::BinaryOperatorClass: {
      auto const *b = cast<BinaryOperator> (e);
      o["k"] = "Bin"; o["op"] = b->getOpcodeStr ().str (); o["a"] = expr (b->getLHS ()); o["b"] = expr (b->getRHS ()); return o;
    }
    case Stmt::CompoundAssignOperatorClass: {
      auto const *b = cast<CompoundAssignOperator> (e);
      o["k"] = "CAsg"; o["op"] = b->getOpcodeStr ().str (); o["a"] = expr (b->getLHS ()); o["b"] = expr (b->getRHS ());
      o["ct"] = type (b->getComputationLHSType ()); o["crt"] = type (b->getComputationResultType ()); return o;
    }
    case Stmt::ConditionalOperatorClass: {
      auto const *c = cast<ConditionalOperator> (e);
      o["k"] = "Cond"; o["c"] = expr (c->getCond ()); o["a"] = expr (c->getTrueExpr ()); o["b"] = expr (c->getFalseExpr ());
      if (macroFrom (e->getBeginLoc (), "assert")) o["assert"] = true;
      return o;
    }
    case Stmt::BinaryConditionalOperatorClass: {
      auto const *c = cast<BinaryConditionalOperator> (e);
      o["k"] = "Elvis"; o["a"] = expr (c->getCommon ()); o["b"] = expr (c->getFalseExpr ()); o["opq"] = localOpq (c->getOpaqueValue ());
      o["c"] = expr (c->getCond ()); o["tv"] = expr (c->getTrueExpr ()); return o;
    }
    case Stmt::OpaqueValueExprClass: {
      auto const *ov = cast<OpaqueValueExpr> (e);
      o["k"] = "Opaque"; o["id"] = localOpq (ov); if (ov->getSourceExpr ()) o["e"] = expr (ov->getSourceExpr ()); return o;
    }
    case Stmt::ArraySubscriptExprClass: {
      auto const *a = cast<ArraySubscriptExpr> (e); o["k"] = "Sub"; o["a"] = expr (a->getBase ()); o["b"] = expr (a->getIdx ()); return o;
    }
    case Stmt::InitListExprClass: {
      auto const *il = cast<InitListExpr> (e);
      if (il->isSyntacticForm () && il->getSemanticForm ()) il = il->getSemanticForm ();
      if (il->isTransparent ()) return expr (il->getInit (0));
      o["k"] = "InitList"; Array a; for (auto const *i : il->inits ()) a.push_back (expr (i)); o["e"] = std::move (a);
      if (il->hasArrayFiller ()) o["filler"] = expr (il->getArrayFiller ());
      if (auto const *f = il->getInitializedFieldInUnion ()) o["ufi"] = (int)f->getFieldIndex ();
      return o;
    }
    case Stmt::CXXParenListInitExprClass: {
      auto const *il = cast<CXXParenListInitExpr> (e);
      o["k"] = "InitList"; Array a; for (auto const *i : il->getInitExprs ()) a.push_back (expr (i)); o["e"] = std::move (a); return o;
    }
    case Stmt::CXXStdInitializerListExprClass: o["k"] = "StdInitList"; o["e"] = expr (cast<CXXStdInitializerListExpr> (e)->getSubExpr ()); return o;
    case Stmt::ImplicitValueInitExprClass: case Stmt::CXXScalarValueInitExprClass: o["k"] = "Zero"; return o;
    case Stmt::LambdaExprClass: {
      auto const *l = cast<LambdaExpr> (e);
      o["k"] = "Lambda"; o["rec"] = recKey (l->getLambdaClass ()); queueRec (l->getLambdaClass ());
      Array a; for (auto const *ci : l->capture_inits ()) a.push_back (expr (ci)); o["caps"] = std::move (a); return o;
    }
    case Stmt::MaterializeTemporaryExprClass: o["k"] = "Mat"; o["e"] = expr (cast<MaterializeTemporaryExpr> (e)->getSubExpr ());
      if (cast<MaterializeTemporaryExpr> (e)->getStorageDuration () != SD_FullExpression) o["ext"] = true;
      return o;
    case Stmt::CXXNewExprClass: {
      auto const *n = cast<CXXNewExpr> (e); o["k"] = "New"; o["nt"] = type (n->getAllocatedType ());
      if (n->isArray () && n->getArraySize ()) o["n"] = expr (*n->getArraySize ());
      Array pa; for (auto const *a : n->placement_arguments ()) pa.push_back (expr (a));
      o["place"] = std::move (pa);
      if (n->getInitializer ()) o["init"] = expr (n->getInitializer ()); return o;
    }
    case Stmt::CXXDeleteExprClass: o["k"] = "Delete"; o["e"] = expr (cast<CXXDeleteExpr> (e)->getArgument ()); return o;
    case Stmt::CXXThrowExprClass: o["k"] = "Throw"; if (cast<CXXThrowExpr> (e)->getSubExpr ()) o["e"] = expr (cast<CXXThrowExpr> (e)->getSubExpr ()); return o;
    case Stmt::CXXPseudoDestructorExprClass: o["k"] = "Pseudo"; return o;
    case Stmt::CXXTypeidExprClass: o["k"] = "Typeid"; return o;
    case Stmt::StmtExprClass: o["k"] = "StmtExpr"; o["s"] = stmt (cast<StmtExpr> (e)->getSubStmt ()); return o;
    case Stmt::CXXFoldExprClass: o["k"] = "Unsupported"; o["cls"] = "Fold"; return o;
    case Stmt::ArrayInitLoopExprClass: o["k"] = "ArrayCopy"; o["e"] = expr (cast<ArrayInitLoopExpr> (e)->getCommonExpr ()); return o;
    default: o["k"] = "Unsupported"; o["cls"] = e->getStmtClassName (); return o;
    }
  }
  int localOpq (OpaqueValueExpr const *ov) {
    static std::map<OpaqueValueExpr const *, int> m; auto it = m.find (ov); if (it != m.end ()) return it->second;
    int n = (int)m.size () + 1; m[ov] = n; return n;
  }
  template <typename Range> Array args (Range const &r) {
    Array a; for (auto const *x : r) a.push_back (expr (x)); return a;
  }
  Value declRef (DeclRefExpr const *dr, Object o) {
    auto const *d = dr->getDecl ();
    if (auto const *ec = dyn_cast<EnumConstantDecl> (d)) {
      llvm::SmallString<32> s; ec->getInitVal ().toString (s); o["k"] = "Int"; o["v"] = std::string (s.str ()); o["en"] = ec->getNameAsString (); return o;
    }
    if (auto const *fd = dyn_cast<FunctionDecl> (d)) { queueFn (fd); o["k"] = "Fn"; o["fn"] = key (fd); o["qn"] = qualName (fd); return o; }
    if (auto const *bd = dyn_cast<BindingDecl> (d)) {
      if (auto const *hv = bd->getHoldingVar ()) { o["k"] = "Local"; o["v"] = localId (hv); o["n"] = bd->getNameAsString (); return o; }
      o["k"] = "Binding"; o["v"] = localId (bd); o["n"] = bd->getNameAsString ();
      return o;
    }
    if (auto const *vd = dyn_cast<VarDecl> (d)) {
      if (vd->hasGlobalStorage () ) { o["k"] = "Global"; o["v"] = key (vd); o["n"] = vd->getNameAsString (); queueVar (vd); return o; }
      o["k"] = "Local"; o["v"] = localId (vd); o["n"] = vd->getNameAsString ();
      if (dr->refersToEnclosingVariableOrCapture ()) o["cap"] = true;
      // const locals with constant init that are not captured (used without odr-use)
      if (dr->isNonOdrUse () != NOUR_None && vd->getInit () && vd->getType ()->isIntegralOrEnumerationType ()) {
        Expr::EvalResult er;
        if (vd->getInit ()->EvaluateAsRValue (er, Ctx) && er.Val.isInt ()) { llvm::SmallString<32> s; er.Val.getInt ().toString (s); o["const"] = std::string (s.str ()); }
      }
      return o;
    }
    if (isa<NonTypeTemplateParmDecl> (d)) { o["k"] = "Unsupported"; o["cls"] = "NTTP"; return o; }
    if (auto const *tp = dyn_cast<TemplateParamObjectDecl> (d)) { (void)tp; o["k"] = "Unsupported"; o["cls"] = "TPO"; return o; }
    o["k"] = "Unsupported"; o["cls"] = "DeclRef"; return o;
  }

  void drain () {
    while (!FnQueue.empty () || !VarQueue.empty () || !RecQueue.empty ()) {
      if (!FnQueue.empty ()) { auto const *f = FnQueue.front (); FnQueue.pop_front (); dumpFn (f); continue; }
      if (!RecQueue.empty ()) { auto const *r = RecQueue.front (); RecQueue.pop_front (); dumpRec (r); continue; }
      auto const *v = VarQueue.front (); VarQueue.pop_front (); dumpVar (v);
    }
  }
};

// Roots: every function/variable with a body located outside system headers.
class RootFinder : public RecursiveASTVisitor<RootFinder> {
public:
  RootFinder (Dumper &D) : D (D) {}
  Dumper &D;
  bool shouldVisitTemplateInstantiations () const { return true; }
  bool shouldVisitImplicitCode () const { return false; }
  bool mine (SourceLocation l) {
    return l.isValid () && !D.Ctx.getSourceManager ().isInSystemHeader (D.Ctx.getSourceManager ().getExpansionLoc (l));
  }
  bool VisitFunctionDecl (FunctionDecl *fd) {
    if (fd->isTemplated () || !mine (fd->getLocation ())) return true;
    D.queueFn (fd);
    return true;
  }
  bool VisitVarDecl (VarDecl *vd) {
    if (vd->isTemplated () || !mine (vd->getLocation ())) return true;
    if (vd->hasGlobalStorage ()) D.queueVar (vd);
    return true;
  }
  bool VisitCXXRecordDecl (CXXRecordDecl *rd) {
    if (rd->isTemplated () || rd->isDependentContext () || !mine (rd->getLocation ())) return true;
    D.queueRec (rd);
    return true;
  }
};

class Consumer : public ASTConsumer {
public:
  void HandleTranslationUnit (ASTContext &Ctx) override {
    if (Ctx.getDiagnostics ().hasErrorOccurred ()) return;
    Dumper D (Ctx);
    RootFinder R (D);
    R.TraverseDecl (Ctx.getTranslationUnitDecl ());
    D.drain ();
    D.emit (Object{{"R", "end"}});
  }
};
class Action : public ASTFrontendAction {
public:
  std::unique_ptr<ASTConsumer> CreateASTConsumer (CompilerInstance &, StringRef) override { return std::make_unique<Consumer> (); }
};
}  // namespace

int main (int argc, char const **argv) {
  if (argc < 5) { fprintf (stderr, "usage: astdump OUT TUID FILE -- flags\n"); return 2; }
  OutPath = argv[1]; TuId = argv[2];
  std::string file = argv[3];
  std::vector<std::string> flags;
  for (int i = 5; i < argc; ++i) flags.push_back (argv[i]);
  tooling::FixedCompilationDatabase db (".", flags);
  tooling::ClangTool tool (db, {file});
  return tool.run (tooling::newFrontendActionFactory<Action> ().get ());
}
