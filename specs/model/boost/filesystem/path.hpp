// Model of boost::filesystem::path: the textual part.
#pragma once
#include <string>
namespace boost {
namespace filesystem {
class path {
    std::string s_;

   public:
    path() {}
    path(const char* s) : s_(s) {}
    path(const std::string& s) : s_(s) {}
    path filename() const {
        size_t p = s_.rfind('/');
        return p == std::string::npos ? *this : path(s_.substr(p + 1));
    }
    path stem() const {
        std::string f = filename().s_;
        size_t p = f.rfind('.');
        return p == std::string::npos || p == 0 ? path(f) : path(f.substr(0, p));
    }
    path parent_path() const {
        size_t p = s_.rfind('/');
        return p == std::string::npos ? path() : path(s_.substr(0, p));
    }
    const std::string& string() const { return s_; }
    const char* c_str() const { return s_.c_str(); }
    bool empty() const { return s_.empty(); }
};
}  // namespace filesystem
}  // namespace boost
