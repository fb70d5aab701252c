#pragma once
#include <string>
#include <vector>
#include <cstdint>
struct HostDecl {           // what the compiler knows about a declaration (widths in bits)
    char kind = '?'; std::string name; bool defined = false, sized = false, plain = false; uint64_t width = 0, align = 0, offset = 0; std::vector<HostDecl> members;
};
int host_compile(const std::string &name, const std::string &text, const std::vector<std::string> &plugin_args);
void host_abandon();
bool host_layout(const std::string &name, const std::string &text, std::vector<HostDecl> &out, std::string &err);
