// Message formatting is not part of any checked property: format() yields its format string.
#pragma once
#include <string>
#include <string_view>
#include <type_traits>
#include "../vp_stream.h"
namespace fmt {
#ifndef VP_FMT_REAL
template <class... A>
inline std::string format(std::string_view f, const A&...) { return std::string(f); }
#else
// harnesses in which names are built by formatting: plain {} fields with strings and integers
template <class T>
inline std::string vp_text(const T& v) {
    if constexpr (std::is_same_v<T, bool>) return v ? "true" : "false";
    else if constexpr (std::is_same_v<T, char>) return std::string(1, v);
    else if constexpr (std::is_integral_v<T>) return std::to_string(v);
    else if constexpr (std::is_convertible_v<const T&, std::string_view>) return std::string(std::string_view(v));
    else return std::string("?");
}
inline void vp_fields(std::string& o, std::string_view f) { o.append(f); }
template <class T, class... A>
inline void vp_fields(std::string& o, std::string_view f, const T& v, const A&... a) {
    size_t at = f.find("{}");
    if (at == std::string_view::npos) { o.append(f); return; }
    o.append(f.substr(0, at));
    o.append(vp_text(v));
    vp_fields(o, f.substr(at + 2), a...);
}
template <class... A>
inline std::string format(std::string_view f, const A&... a) { std::string o; vp_fields(o, f, a...); return o; }
#endif
inline std::string_view runtime(std::string_view f) { return f; }
template <class R>
inline std::string join(const R&, std::string_view) { return std::string(); }
template <class... A>
inline void print(std::string_view, const A&...) {}
template <class T, class C = char, class E = void>
struct formatter {
    template <class X> constexpr auto parse(X& c) { return c.begin(); }
    template <class V, class X> auto format(const V&, X& c) const { return c.out(); }
};
template <class It, class... A>
inline It format_to(It o, std::string_view, const A&...) { return o; }
class format_parse_context { public: const char* begin() { return ""; } };
class format_context { public: char* out() { return nullptr; } };
template <class T> const void* ptr(T) { return nullptr; }
}
