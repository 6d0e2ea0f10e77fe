// The members of std::string that libstdc++ keeps in its binary, from its own headers.
#include <string>
template class std::basic_string<char>;
// <cctype> in the "C" locale, so that any way to classify a character can be followed
extern "C" {
__attribute__((used)) int isdigit(int c) noexcept { return c >= '0' && c <= '9'; }
__attribute__((used)) int isupper(int c) noexcept { return c >= 'A' && c <= 'Z'; }
__attribute__((used)) int islower(int c) noexcept { return c >= 'a' && c <= 'z'; }
__attribute__((used)) int isalpha(int c) noexcept { return isupper(c) || islower(c); }
__attribute__((used)) int isalnum(int c) noexcept { return isalpha(c) || isdigit(c); }
__attribute__((used)) int isspace(int c) noexcept { return c == ' ' || (c >= 9 && c <= 13); }
__attribute__((used)) int isblank(int c) noexcept { return c == ' ' || c == 9; }
__attribute__((used)) int ispunct(int c) noexcept { return c > 32 && c < 127 && !isalnum(c); }
__attribute__((used)) int isgraph(int c) noexcept { return c > 32 && c < 127; }
__attribute__((used)) int isprint(int c) noexcept { return c >= 32 && c < 127; }
__attribute__((used)) int toupper(int c) noexcept { return islower(c) ? c - 32 : c; }
__attribute__((used)) int tolower(int c) noexcept { return isupper(c) ? c + 32 : c; }
}
