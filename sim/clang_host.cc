// The compiler front end inside the simulator: one source text in, the plug-in run on it,
// or (second entry point) what the compiler itself says about the layout of its declarations.
#include <clang/AST/Attr.h>
#include <clang/AST/AST.h>
#include <clang/AST/ASTConsumer.h>
#include <clang/AST/RecordLayout.h>
#include <clang/Basic/FileManager.h>
#include <clang/Frontend/CompilerInstance.h>
#include <clang/Frontend/CompilerInvocation.h>
#include <clang/Frontend/FrontendAction.h>
#include <clang/FrontendTool/Utils.h>
#include <llvm/Support/VirtualFileSystem.h>
#include <llvm/Support/MemoryBuffer.h>
#include "clang_host.h"
using namespace clang;
typedef std::vector<std::string> Args;
static CompilerInstance *g_ci;

static CompilerInstance *make(const std::string &name, const std::string &text, const Args &args, DiagnosticConsumer *dc, bool &ok) {
    auto *ci = new CompilerInstance;
    auto mem = llvm::IntrusiveRefCntPtr<llvm::vfs::InMemoryFileSystem>(new llvm::vfs::InMemoryFileSystem);
    mem->addFile(name, 0, llvm::MemoryBuffer::getMemBufferCopy(text, name));
    std::vector<const char *> a = { "-triple", "x86_64-pc-linux-gnu", "-fsyntax-only", "-std=gnu17" };
    for (auto &p : args) a.push_back(p.c_str());
    a.push_back("-x"); a.push_back("c"); a.push_back(name.c_str());
    auto diags = CompilerInstance::createDiagnostics(new DiagnosticOptions, dc, true);
    auto inv = std::make_shared<CompilerInvocation>();
    ok = CompilerInvocation::CreateFromArgs(*inv, a, *diags);
    ci->setInvocation(inv); ci->setDiagnostics(diags.get()); ci->setFileManager(new FileManager(FileSystemOptions(), mem));
    return ci;
}
int host_compile(const std::string &name, const std::string &text, const Args &plugin_args) {
    Args a = { "-plugin", "crefl" }; for (auto &p : plugin_args) { a.push_back("-plugin-arg-crefl"); a.push_back(p); }
    bool ok; g_ci = make(name, text, a, new IgnoringDiagConsumer, ok);
    bool r = ok && ExecuteCompilerInvocation(g_ci);
    CompilerInstance *ci = g_ci; g_ci = nullptr; delete ci;
    return r ? 0 : 1;
}
// the simulated process died inside host_compile: its memory goes
void host_abandon() { CompilerInstance *ci = g_ci; g_ci = nullptr; delete ci; }

namespace {
struct Say : DiagnosticConsumer {
    std::string *out; Say(std::string *o) : out(o) {}
    void HandleDiagnostic(DiagnosticsEngine::Level l, const Diagnostic &d) override { DiagnosticConsumer::HandleDiagnostic(l, d); if (l >= DiagnosticsEngine::Error) { llvm::SmallString<200> s; d.FormatDiagnostic(s); *out += std::string(s.str()) + "; "; } }
};
struct Walk {
    ASTContext &c;
    // a type whose layout follows from sizes alone: no bit-fields, nothing packed or aligned
    bool plain(QualType q) {
        for (;;) {
            if (const auto *t = dyn_cast<TypedefType>(q.getTypePtr())) { if (t->getDecl()->hasAttr<AlignedAttr>() || t->getDecl()->hasAttr<PackedAttr>()) return false; }
            QualType n = q.getSingleStepDesugaredType(c); if (n == q) break; q = n;
        }
        if (const ArrayType *a = c.getAsArrayType(q)) return plain(a->getElementType());
        if (q->isPointerType()) return true;
        if (const auto *r = q->getAs<RecordType>()) return plain(r->getDecl());
        return true;
    }
    bool plain(RecordDecl *d) {
        d = d->getDefinition(); if (!d) return false;
        if (d->hasAttr<AlignedAttr>() || d->hasAttr<PackedAttr>()) return false;
        for (auto *f : d->fields()) if (f->isBitField() || f->hasAttr<AlignedAttr>() || f->hasAttr<PackedAttr>() || !plain(f->getType())) return false;
        return true;
    }
    void type(HostDecl &h, QualType q) {
        h.sized = !q->isIncompleteType() && !q->isFunctionType() && !q->isVariablyModifiedType() && !q->isVectorType(); h.plain = h.sized && plain(q);
        if (h.sized) h.width = c.getTypeSize(q);
    }
    void list(DeclContext *dc, std::vector<HostDecl> &out) {
        for (Decl *d : dc->decls()) {
            auto *n = dyn_cast<NamedDecl>(d); auto *f = dyn_cast<FieldDecl>(d); if (!n) continue;
            if (d->isImplicit() && !(f && f->isAnonymousStructOrUnion())) continue;
            HostDecl h; h.name = n->getNameAsString();
            if (auto *r = dyn_cast<RecordDecl>(d)) {
                h.kind = r->isUnion() ? 'u' : 's'; h.defined = r->isCompleteDefinition();
                if (h.defined) { type(h, c.getRecordType(r)); h.align = c.getTypeAlign(c.getRecordType(r)); list(r, h.members); const ASTRecordLayout &l = c.getASTRecordLayout(r); size_t i = 0; for (auto &m : h.members) if (m.kind == 'f') m.offset = l.getFieldOffset(i++); }
            } else if (auto *e = dyn_cast<EnumDecl>(d)) { h.kind = 'e'; h.defined = e->isCompleteDefinition(); if (h.defined) { h.sized = h.plain = true; h.width = c.getTypeSize(e->getIntegerType()); } }
            else if (f) { h.kind = 'f'; type(h, f->getType()); if (f->isBitField()) h.plain = false; }
            else if (auto *v = dyn_cast<VarDecl>(d)) { h.kind = 'f'; type(h, v->getTypeSourceInfo()->getType()); }
            else if (auto *t = dyn_cast<TypedefDecl>(d)) { h.kind = 't'; type(h, t->getUnderlyingType()); }
            else if (isa<FunctionDecl>(d)) h.kind = 'p';
            else continue;
            out.push_back(std::move(h));
        }
    }
};
struct Cons : ASTConsumer { std::vector<HostDecl> &o; Cons(std::vector<HostDecl> &o) : o(o) {} void HandleTranslationUnit(ASTContext &c) override { if (c.getDiagnostics().hasErrorOccurred()) return; Walk w{ c }; w.list(c.getTranslationUnitDecl(), o); } };
struct Act : ASTFrontendAction { std::vector<HostDecl> &o; Act(std::vector<HostDecl> &o) : o(o) {} std::unique_ptr<ASTConsumer> CreateASTConsumer(CompilerInstance &, llvm::StringRef) override { return std::make_unique<Cons>(o); } };
}
bool host_layout(const std::string &name, const std::string &text, std::vector<HostDecl> &out, std::string &err) {
    bool ok; CompilerInstance *ci = make(name, text, {}, new Say(&err), ok);
    Act a(out); ok = ok && ci->ExecuteAction(a) && err.empty(); delete ci; return ok;
}
