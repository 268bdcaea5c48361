// Stand-in for Emscripten's binding header: class_ keeps what is bound under which name.
#pragma once
#include <any>
#include <map>
#include <string>
namespace emscripten {
inline std::map<std::string, std::any>& bound() { static std::map<std::string, std::any> m; return m; }
template <typename C> struct class_ {
    std::string name;
    explicit class_(const char* n) : name(n) {}
    template <typename... A> const class_& constructor() const { return *this; }
    template <typename F> const class_& function(const char* n, F f) const { bound()[name + "." + n] = f; return *this; }
};
}
#define EMSCRIPTEN_BINDINGS(n) static void n##_bindings(); static const bool n##_bound = (n##_bindings(), true); static void n##_bindings()
