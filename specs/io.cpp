// C25: directory listings and time stamps. Model streams, model file system.
#include <rofl/common/io.h>
#include <filesystem>
#include <chrono>
#include <ctime>
#include <sys/time.h>
#include <cstring>
#include "va.h"
#define ENTRY extern "C" __attribute__((used)) void
static std::tm LOCAL, UTC;
static long NOW;
extern "C" {
time_t time(time_t* t) {
    if (t) *t = NOW;
    return NOW;
}
struct tm* localtime(const time_t* t) {
    va_assert(*t == NOW, "the stamp is that of the current time");
    return &LOCAL;
}
struct tm* gmtime(const time_t* t) {
    va_assert(*t == NOW, "the stamp is that of the current time");
    return &UTC;
}
int gettimeofday(struct timeval* t, void*) noexcept {
    t->tv_sec = NOW;
    t->tv_usec = 0;
    return 0;
}
int clock_gettime(clockid_t, struct timespec* t) noexcept {
    t->tv_sec = NOW;
    t->tv_nsec = 0;
    return 0;
}
int timespec_get(struct timespec* t, int base) noexcept { return clock_gettime(0, t), base; }
struct tm* localtime_r(const time_t* t, struct tm* r) { return *r = *localtime(t), r; }
struct tm* gmtime_r(const time_t* t, struct tm* r) { return *r = *gmtime(t), r; }
size_t strftime(char* b, size_t n, const char* f, const struct tm* t) {
    std::string s = va_model::strtime(t, f);
    if (s.size() + 1 > n) return 0;
    for (size_t i = 0; i < s.size(); i++) b[i] = s[i];
    b[s.size()] = 0;
    return s.size();
}
}
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept { return time_point(std::chrono::seconds(NOW)); }
static std::string two(int v) {
    std::string s;
    s.push_back((char)('0' + v / 10 % 10));
    s.push_back((char)('0' + v % 10));
    return s;
}
static const char* PRE[] = {"", "log_", "a%Yb ", "x/y"};
ENTRY spec_stamp() {
    static const int F[][6] = {{2021, 3, 9, 1, 2, 8}, {1999, 12, 31, 23, 59, 58}, {2024, 10, 5, 14, 40, 7}, {2030, 1, 20, 0, 0, 0}};
    const int* f = F[va_choice(4)];
    NOW = va_int(1, 2000000000);
    LOCAL.tm_year = f[0] - 1900;
    LOCAL.tm_mon = f[1] - 1;
    LOCAL.tm_mday = f[2];
    LOCAL.tm_hour = f[3];
    LOCAL.tm_min = f[4];
    LOCAL.tm_sec = f[5];
    UTC = LOCAL;
    UTC.tm_hour = (f[3] + 22) % 24;
    std::string a = PRE[va_choice(4)], b = va_choice(2) ? ".txt" : "";
    if (va_choice(2)) {  // a stamp was made earlier, at another time
        long t = NOW;
        int sec = LOCAL.tm_sec;
        NOW = va_int(1, 2000000000);
        LOCAL.tm_sec = UTC.tm_sec = (sec + 11) % 60;
        rofl::generateStampedString(a, b);
        NOW = t;
        LOCAL.tm_sec = UTC.tm_sec = sec;
    }
    std::string s = rofl::generateStampedString(a, b);
    std::string e = a + two(f[0] / 100) + two(f[0]) + two(f[1]) + two(f[2]) + "_" + two(f[3]) + two(f[4]) + "_" + two(f[5]) + b;
    va_assert(s == e, "prefix, local date and time, postfix");
    va_reach("stamped");
}
// directories of many files, names that differ in case, in the last letter or in length only
ENTRY spec_many() {
    va_long(2000000000);
    static const int N[] = {12, 100, 1100};
    auto& t = va_fs::tree();
    t.push_back({"d", va_fs::DIR_});
    int n = N[va_choice(3)];
    size_t want = 0;
    for (int i = 0; i < n; i++) {
        int k = (i * 7 + 5) % n;
        std::string p = "d/f";
        p += (char)('0' + k / 1000 % 10);
        p += (char)('0' + k / 100 % 10);
        if (k % 4) p += (char)(k % 4 == 1 ? 'x' : k % 4 == 2 ? 'X' : 'y');
        if (k % 8 > 5) p += " file with a long name, longer than the others.";
        p += (char)('0' + k / 10 % 10);
        p += (char)(k % 2 ? 'a' + k % 10 : 'A' + k % 10);
        t.push_back({p, k % 16 == 9 ? va_fs::DIR_ : va_fs::FILE_});
        want += k % 16 != 9;
    }
    std::vector<std::string> got;
    rofl::getDirectoryFiles("d", got);
    va_assert(got.size() == want, "as many files as the directory has, no others");
    for (size_t i = 1; i < got.size(); i++) va_assert(got[i - 1] < got[i], "the list is sorted, without repetitions");
    va_reach("listed many");
}
// names that are almost the same
ENTRY spec_alike() {
    static const char* N[] = {"a.txt", "a.txT", "A.txt", "a.txt ", "a.txt~", "a.txt.bak", "a_txt", "atxt", ".a.txt", "a.tx"};
    auto& t = va_fs::tree();
    t.push_back({"d", va_fs::DIR_});
    int r = va_choice(10);
    for (int i = 0; i < 10; i++) t.push_back({std::string("d/") + N[(i * 3 + r) % 10], va_fs::FILE_});
    std::vector<std::string> got;
    rofl::getDirectoryFiles("d", got);
    va_assert(got.size() == 10, "as many files as the directory has, no others");
    for (size_t i = 1; i < got.size(); i++) va_assert(got[i - 1] < got[i], "the list is sorted, without repetitions");
    va_reach("listed names that are almost the same");
}
static const char* NAMES[] = {"b.txt", "a.txt", "B", "a.txT", "a", ".hidden", "a.b.c", "A.txt"};
ENTRY spec_list() {
    auto& t = va_fs::tree();
    std::string d = va_choice(2) ? "data" : "/var/x";
    t.push_back({d, va_fs::DIR_});
    int n = va_choice(4), k0 = va_choice(va_tier() ? 8 : 3);
    std::vector<std::string> want;
    for (int i = 0; i < n; i++) {
        std::string p = d + "/" + NAMES[(k0 + i * 3) % 8];
        va_fs::Kind k = (va_fs::Kind)va_choice(6);
        t.push_back({p, k, (unsigned long)(i % 2 * 10)});
        if (k == va_fs::DIR_) t.push_back({p + "/in.txt", va_fs::FILE_});
        if (k == va_fs::FILE_ || k == va_fs::LINK_FILE) want.push_back(p);
    }
    t.push_back({"other", va_fs::DIR_});
    t.push_back({"other/z.txt", va_fs::FILE_});
    std::vector<std::string> got;
    rofl::getDirectoryFiles(va_choice(2) ? d + "/" : d, got);
    va_assert(got.size() == want.size(), "as many files as the directory has, no others");
    for (size_t i = 0; i < got.size(); i++) {
        bool f = false;
        for (auto& w : want) f = f || w == got[i];
        va_assert(f, "every name listed is that of a file of the directory, with its path");
        if (i) va_assert(got[i - 1] < got[i], "the list is sorted, without repetitions");
    }
    va_reach("listed");
}
