// Include after the standard headers and before using the library.
#pragma once
#include "elem.hpp"
#include <exception>
#if YEAR == 2025
#include <pystd2025.hpp>
namespace NS = pystd2025;
#else
#include <pystd2026.hpp>
namespace NS = pystd2026;
#endif
inline std::string describe_exception_impl(std::exception_ptr e) {
    try {
        std::rethrow_exception(e);
    } catch(const NS::PyException &x) {
        const auto &m = x.what();
        return std::string("PyException: ") + std::string(m.c_str(), m.size_bytes());
    } catch(const char *s) {
        return std::string("const char *: ") + s;
    } catch(const std::exception &x) {
        return std::string("std::exception: ") + x.what();
    } catch(...) {
        return "unknown type";
    }
}
std::string describe_exception(std::exception_ptr e) __attribute__((used));
std::string describe_exception(std::exception_ptr e) { return describe_exception_impl(e); }

inline std::string str(const NS::CString &s) { return std::string(s.c_str(), s.size()); }
