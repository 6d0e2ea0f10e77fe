// C23 (profiler statistics), C24 with -DTIMER (scoped timers). Model streams.
#include <rofl/common/profiler.h>
#include <chrono>
#include <cmath>
#include <sstream>
#include <string>
#include "va.h"
using namespace rofl;
#define ENTRY extern "C" __attribute__((used)) void
struct Row {
    std::string label;
    double avg = -1, var = -1, mn = -1, mx = -1;
    long count = -1;
};
// the statistics printed, one line per label
static int rows(Row* r, int max) {
    std::ostringstream o;
    Profiler::getProfiler().printStats(o);
    std::istringstream in(o.str());
    std::string line;
    int n = 0;
    while (n < max && std::getline(in, line)) {
        std::istringstream ls(line);
        va_assert((bool)(ls >> r[n].label >> r[n].avg >> r[n].var >> r[n].mn >> r[n].mx >> r[n].count), "a line of the report has a label and five numbers");
        std::string more;
        va_assert(!(ls >> more), "a line of the report has nothing else");
        n++;
    }
    return n;
}
#ifndef TIMER
static const char* L[] = {"beta", "alpha", "gamma"};
static void history(int labels, int len) {
    double t[3][8], sum[3] = {0, 0, 0};
    int n[3] = {0, 0, 0}, kinds = 0;
    for (int i = 0; i < len; i++) {
        int l = va_choice(labels);
        double x = va_real(-1e6, 1e6);
        Profiler::getProfiler().updateStat(L[l], x);
        if (!n[l]) kinds++;
        t[l][n[l]++] = x;
        sum[l] += x;
    }
    Row r[4];
    int k = rows(r, 4);
    va_assert(k == kinds, "one line per label measured");
    va_reach("report read");
    for (int l = 0; l < labels; l++) {
        if (!n[l]) continue;
        int at = -1;
        for (int i = 0; i < k; i++)
            if (r[i].label == L[l]) at = i;
        va_assert(at >= 0, "every label measured is reported");
        if (at < 0) return;
        va_assert(r[at].count == n[l], "the count is the number of measurements of the label");
        double m = sum[l] / n[l], v = 0;
        va_near(r[at].avg, m, 1e-6, "the average is the mean of the measurements");
        for (int i = 0; i < n[l]; i++) v += (t[l][i] - m) * (t[l][i] - m);
        va_near(r[at].var, n[l] > 1 ? v / (n[l] - 1) : 0.0, 1e-3, "the variance is that of the measurements");
        bool mn = false, mx = false;
        for (int i = 0; i < n[l]; i++) {
            va_assert(r[at].mn <= t[l][i], "no measurement is below the minimum");
            va_assert(r[at].mx >= t[l][i], "no measurement is above the maximum");
            mn = mn || r[at].mn == t[l][i];
            mx = mx || r[at].mx == t[l][i];
        }
        va_assert(mn && mx, "the extremes are measurements");
    }
}
ENTRY spec_series() { history(1, 1 + va_choice(va_tier() ? 6 : 4)); }
ENTRY spec_labels() { history(3, 1 + va_choice(va_tier() ? 5 : 4)); }
// long series: a measurement unlike the others is a measurement all the same
ENTRY spec_long() {
    static const int N[] = {12, 70, 300, 700};
    int n = N[va_choice(4)], kind = va_choice(4);
    double x = va_real(0.5, 8.0), sum = 0, sq = 0, mn = 0, mx = 0;
    static double t[700];
    for (int i = 0; i < n; i++) {
        t[i] = kind == 0 ? x : kind == 1 ? (double)(i % 7) : kind == 2 ? (i == n - 1 ? 1e5 : 0.25 * (i % 3)) : (i == n / 2 ? -1e4 : i == n - 2 ? 0.0 : 1.0 + i);
        Profiler::getProfiler().updateStat("series", t[i]);
        if (!i || t[i] < mn) mn = t[i];
        if (!i || t[i] > mx) mx = t[i];
        sum += t[i];
    }
    for (int i = 0; i < n; i++) sq += (t[i] - sum / n) * (t[i] - sum / n);
    Row r[2];
    va_assert(rows(r, 2) == 1, "one line per label measured");
    va_assert(r[0].count == n, "the count is the number of measurements of the label");
    if (kind) {
        double a = sum / n;  // printed with six digits
        va_near(r[0].avg / a, 1.0, 1e-5, "the average is the mean of the measurements");
        va_near(r[0].var / (sq / (n - 1)), 1.0, 1e-5, "the variance is that of the measurements");
        va_assert(r[0].mn == mn && r[0].mx == mx, "the extremes are measurements");
    }
    va_reach("long series");
}
// labels of any text: long ones that differ at the end only, the empty one, labels that begin alike
ENTRY spec_texts() {
    std::string base(60, 'q');
    std::string l[5] = {"", base + "/////////one", base + "/////////two", base, "q"};
    for (int i = 0; i < 5; i++)
        for (int k = 0; k <= i; k++) Profiler::getProfiler().updateStat(l[i], 2.0 * i);
    std::ostringstream o;
    Profiler::getProfiler().printStats(o);
    std::istringstream in(o.str());
    std::string line;
    int n = 0, seen = 0;
    while (std::getline(in, line)) {
        n++;
        for (int i = 0; i < 5; i++)
            if (line.size() > l[i].size() && line.compare(0, l[i].size(), l[i]) == 0 && line[l[i].size()] == ' ') {
                std::istringstream ls(line.substr(l[i].size()));
                double avg = -1, var = -1, mn = -1, mx = -1;
                long c = -1;
                ls >> avg >> var >> mn >> mx >> c;
                va_assert(avg == 2.0 * i && mn == avg && mx == avg && c == i + 1, "every label has the measurements made under it");
                seen++;
            }
    }
    va_assert(n == 5 && seen == 5, "one line per label measured");
    va_reach("texts");
}
// the profiler is one object, and the report leaves the statistics as they are
ENTRY spec_single() {
    va_assert(&Profiler::getProfiler() == &Profiler::getProfiler(), "there is one profiler");
    Row a[2], b[2];
    double x = va_real(0, 10), y = va_real(0, 10);
    Profiler::getProfiler().updateStat("s", x);
    int na = rows(a, 2), nb = rows(b, 2);
    va_assert(na == 1 && nb == 1 && b[0].count == 1 && b[0].avg == x, "a report changes nothing");
    Profiler::getProfiler().updateStat("s", y);
    nb = rows(b, 2);
    va_assert(nb == 1 && b[0].count == 2, "measurements go on after a report");
    va_near(2 * b[0].avg, x + y, 1e-9, "the average goes on after a report");
}
#else
typedef ScopedTimer::timer_type Clock;
static double ns() { return (double)Clock::now().time_since_epoch().count(); }
static double perMs() { return 1e-3 * Clock::period::den / Clock::period::num; }
ENTRY spec_elapsed() {
    double t0 = ns();
    ScopedTimer t("x");
    double t1 = ns();
    int n = 1 + va_choice(3);
    for (int i = 0; i < n; i++) {
        double t2 = ns();
        double e = t.elapsedTimeMs() * perMs();
        double t3 = ns();
        va_ge(e, t2 - t1, 1e-6, "the time elapsed reaches from the construction to the query, in milliseconds");
        va_ge(t3 - t0, e, 1e-6, "the time elapsed is no longer than from the construction to the query");
    }
    Row r[2];
    va_assert(rows(r, 2) == 0, "nothing is recorded before the timer ends");
}
static void one(const char* label, double& lo, double& hi) {
    double t0 = ns(), t1, t2;
    {
        ScopedTimer t(label);
        t1 = ns();
        t2 = ns();
    }
    double t3 = ns();
    lo = (t2 - t1) / perMs();
    hi = (t3 - t0) / perMs();
}
ENTRY spec_record() {
    double lo[3], hi[3];
    int n = 1 + va_choice(3);
    double sl = 0, sh = 0;
    for (int i = 0; i < n; i++) {
        one("job", lo[i], hi[i]);
        sl += lo[i];
        sh += hi[i];
    }
    Row r[3];
    va_assert(rows(r, 3) == 1, "the measurements of a label are one series");
    va_assert(r[0].label == "job", "a timer records under its label");
    va_assert(r[0].count == n, "every timer records exactly one measurement");
    va_ge(r[0].avg * n, sl, 1e-6, "the measurement covers the life of the timer");
    va_ge(sh, r[0].avg * n, 1e-6, "the measurement is no longer than the life of the timer");
}
ENTRY spec_empty_label() {
    double lo, hi;
    one("", lo, hi);
    std::ostringstream o;
    Profiler::getProfiler().printStats(o);
    std::istringstream in(o.str());
    double avg = -1, var = -1, mn = -1, mx = -1;
    long c = -1;
    in >> avg >> var >> mn >> mx >> c;
    va_assert(c == 1, "every timer records exactly one measurement");
    va_ge(avg, lo, 1e-6, "the measurement covers the life of the timer");
}
ENTRY spec_nested() {
    double t1, t2, t3, t4;
    {
        ScopedTimer a("outer");
        t1 = ns();
        {
            ScopedTimer b("inner");
            t2 = ns();
            t3 = ns();
        }
        t4 = ns();
    }
    Row r[3];
    va_assert(rows(r, 3) == 2, "nested timers record under their own labels");
    int o = r[0].label == "outer" ? 0 : 1;
    va_assert(r[o].label == "outer" && r[1 - o].label == "inner", "both labels are reported");
    va_ge(r[o].avg * perMs(), t4 - t1, 1e-6, "the outer timer covers its scope");
    va_ge(r[1 - o].avg * perMs(), t3 - t2, 1e-6, "the inner timer covers its scope");
    va_ge(t4 - t1, r[1 - o].avg * perMs(), 1e-6, "the inner timer is no longer than its scope");
}
static int lineHere = 0;
static double measuredFunction() {
    double t0 = ns();
    lineHere = __LINE__ + 1;
    ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE
    double t1 = ns();
    double t2 = ns();
    (void)t0;
    return t2 - t1;
}
static std::string digits(int v) {
    std::string s;
    while (v) s = std::string(1, (char)('0' + v % 10)) + s, v /= 10;
    return s;
}
ENTRY spec_here() {
    double a = ns();
    double in = measuredFunction();
    double b = ns();
    Row r[3];
    va_assert(rows(r, 3) == 1, "a timer placed in a scope records one series");
    va_assert(r[0].label == "profiler.cpp_measuredFunction_" + digits(lineHere), "its label is the file, the function and the line");
    va_assert(r[0].count == 1, "it records once per execution of the scope");
    va_ge(r[0].avg * perMs(), in, 1e-6, "a timer placed in a scope measures the rest of the scope");
    va_ge(b - a, r[0].avg * perMs(), 1e-6, "a timer placed in a scope measures no more than the scope");
}
ENTRY spec_here_exception() {
    double in = 0;
    try {
        ROFL_COMMON_PROFILER_SCOPED_TIMER_HERE
        double t1 = ns();
        in = ns() - t1;
        if (va_choice(2)) throw 1;
    } catch (int) {
    }
    Row r[2];
    va_assert(rows(r, 2) == 1 && r[0].count == 1, "a scope left by an exception is measured too");
    va_ge(r[0].avg * perMs(), in, 1e-6, "up to the exception");
}
#endif
