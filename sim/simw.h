// A simulated process running the library, shared by the scenarios.
#pragma once
#include "core.h"
namespace sim {
struct Host {
    Proc *proc = nullptr; U boots = 0;
    std::function<void()> on_boot;                 // in-memory state is gone
    void boot() { proc = boots++ ? proc_new() : proc_default(); if (on_boot) on_boot(); }
    // one library call; false if the process died of an injected cause (and was restarted)
    bool sut(const char *what, std::function<void()> f) {
        size_t fds = proc_open_fds(proc);
        Outcome o = call(f, proc);
        if (o.st == T_CRASHED && o.injected) { event("process died, restarting"); probe("process restarts"); boot(); return false; }
        REQUIRE(o.st != T_CRASHED, "crash", "%s crashed: %s", what, o.why.c_str());
        REQUIRE(o.st == T_DONE, "exit", "%s ended the whole process (exit code %d)", what, o.code);
        REQUIRE(proc_open_fds(proc) == fds, "handle-leak", "%s left %zu file handle(s) open", what, proc_open_fds(proc) - fds);
        return true;
    }
};
}
