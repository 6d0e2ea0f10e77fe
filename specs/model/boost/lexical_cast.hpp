// Model of boost::lexical_cast: the whole text has to be used.
#pragma once
#include <sstream>
#include <string>
#include <type_traits>
#include <typeinfo>
namespace boost {
class bad_lexical_cast : public std::bad_cast {
   public:
    const char* what() const noexcept override { return "bad lexical cast"; }
};
namespace va {
template <class T>
T parse(const std::string& s) {
    if constexpr (std::is_same<T, std::string>::value) return s;
    else if constexpr (std::is_same<T, char>::value) {
        if (s.size() != 1) throw bad_lexical_cast();
        return s[0];
    } else if constexpr (std::is_same<T, bool>::value) {
        if (s == "1" || s == "+1") return true;
        if (s == "0" || s == "+0" || s == "-0") return false;
        throw bad_lexical_cast();
    } else if constexpr (std::is_arithmetic<T>::value) {
        if (s.empty() || va_model::space(s[0])) throw bad_lexical_cast();
        size_t u = 0;
        T v;
        if constexpr (std::is_floating_point<T>::value) v = (T)va_model::toD(s, 0, u);
        else {
            long x = va_model::toI(s, 0, u);
            if (u && x != (long)(T)x) throw bad_lexical_cast();
            v = (T)x;
        }
        if (u == 0 || u != s.size()) throw bad_lexical_cast();
        return v;
    } else {
        std::stringstream ss(s);
        T v;
        if (!(ss >> v)) throw bad_lexical_cast();
        return v;
    }
}
}  // namespace va
template <class T, class S>
T lexical_cast(const S& s) {
    if constexpr (std::is_convertible<S, std::string>::value) return va::parse<T>(std::string(s));
    else {
        std::stringstream ss;
        ss << s;
        return va::parse<T>(ss.str());
    }
}
namespace conversion {
template <class S, class T>
bool try_lexical_convert(const S& s, T& v) {
    try {
        v = lexical_cast<T>(s);
        return true;
    } catch (const bad_lexical_cast&) {
        return false;
    }
}
namespace detail {
using conversion::try_lexical_convert;
}
}  // namespace conversion
}  // namespace boost
