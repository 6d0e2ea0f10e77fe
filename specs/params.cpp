// C22: the parameter map (model streams). 
#include <rofl/common/param_map.h>
#include <cstdlib>
#include <string>
#include <vector>
#include "va.h"
using namespace rofl;
#define ENTRY extern "C" __attribute__((used)) void

struct Ref {  // last binding wins, insertion order irrelevant
    std::string k[60], v[60];
    int n = 0;
    void set(const std::string& a, const std::string& b) {
        for (int i = 0; i < n; i++)
            if (k[i] == a) {
                v[i] = b;
                return;
            }
        k[n] = a;
        v[n++] = b;
    }
};
static int countLines(const std::string& s) {
    int n = 0;
    for (char c : s) n += c == '\n';
    return n;
}
static void same(ParamMap& m, const Ref& r, const char* what) {
    std::ostringstream o;
    va_assert(m.write(o), "writing to a stream succeeds");
    va_assert(countLines(o.str()) == r.n, "the map holds exactly the bindings of the input");
    for (int i = 0; i < r.n; i++) {
        std::string v = "?";
        va_assert(m.getParam<std::string>(r.k[i], v, "missing"), "a bound parameter is found");
        va_assert(v == r.v[i], what);
    }
}
// words of a line
static void refLine(Ref& r, const std::string& line) {
    std::string w[2];
    int n = 0;
    bool in = false;
    for (char c : line) {
        bool sp = c == ' ' || c == '\t';
        if (sp) in = false;
        else {
            if (!in) {
                in = true;
                n++;
            }
            if (n <= 2) w[n - 1].push_back(c);
        }
    }
    if (n >= 2 && w[0][0] != '#') r.set(w[0], w[1]);
}
static void refText(Ref& r, const std::string& t) {
    std::string line;
    for (char c : t)
        if (c == '\n') {
            refLine(r, line);
            line.clear();
        } else
            line.push_back(c);
    refLine(r, line);
}
// every text up to a length over an alphabet
static void texts(const char* alpha, int na, int len) {
    std::string t;
    int n = va_choice(len + 1);
    for (int i = 0; i < n; i++) t.push_back(alpha[va_choice(na)]);
    Ref r;
    refText(r, t);
    ParamMap m;
    std::istringstream in(t);
    va_assert(m.read(in), "reading a stream succeeds");
    va_reach("text read");
    same(m, r, "a parameter has the value of its last line");
}
ENTRY spec_text_words() { texts("a \nb", 4, va_tier() ? 7 : 6); }
ENTRY spec_text_comment() { texts("#x \n", 4, va_tier() ? 7 : 6); }
ENTRY spec_text_tabs() { texts("k\t \n", 4, 5); }
// longer texts out of whole pieces
ENTRY spec_text_lines() {
    static const char* P[] = {"alpha 1\n", "beta two three\n", "alpha 2\n", "# alpha 3\n", "\n", "  gamma   ~/x y\n", "delta\n", "#beta 5\n", "beta -7", "alpha#1 9\n"};
    std::string t;
    int n = 1 + va_choice(va_tier() ? 4 : 3);
    for (int i = 0; i < n; i++) t += P[va_choice(10)];
    Ref r;
    refText(r, t);
    ParamMap m;
    std::istringstream in(t);
    m.read(in);
    same(m, r, "a parameter has the value of its last line");
    // what is written reads back as the same parameters
    std::ostringstream o;
    m.write(o);
    ParamMap m2;
    std::istringstream in2(o.str());
    m2.read(in2);
    same(m2, r, "written parameters read back with their values");
    // a prefix starts every line; a comment prefix makes all of them comments
    std::ostringstream o2;
    va_assert(m.write(o2, "# "), "writing with a prefix succeeds");
    va_assert(o2.str().size() == o.str().size() + 2 * r.n, "the prefix is added to each line");
    ParamMap m3;
    std::istringstream in3(o2.str());
    m3.read(in3);
    same(m3, Ref(), "commented parameters are not read");
    // reading more lines keeps the others, clearing removes all
    std::istringstream in4("gamma 77\n");
    m.read(in4);
    r.set("gamma", "77");
    same(m, r, "reading again replaces only the parameters it names");
    m.clear();
    same(m, Ref(), "a cleared map is empty");
}
// lines of any length
ENTRY spec_text_long() {
    static const int N[] = {1, 1990, 1999, 2000, 2001, 4100};
    int n = N[va_choice(6)], c = va_choice(3);
    std::string big(n, 'x');
    Ref r;
    std::string t = "first 1\n";
    if (c == 0) t += "big " + big + "\n";
    else if (c == 1) t += big + " 7\n";
    else t += "# " + big + " 8\n";
    t += "last 2\n";
    r.set("first", "1");
    if (c == 0) r.set("big", big);
    if (c == 1) r.set(big, "7");
    r.set("last", "2");
    ParamMap m;
    std::istringstream in(t);
    va_assert(m.read(in), "reading a stream succeeds");
    va_reach("long line read");
    same(m, r, "a line of any length is read, and those after it");
}
ENTRY spec_file() {
    ParamMap m, m2;
    m.setParam("first", 12);
    m.setParamString("second", "hello");
    std::string name = "conf.txt", none = "nothere.txt", bad = "!unwritable";
    va_assert(m.write(name), "writing a file succeeds");
    m2.setParam("third", 5);
    m2.setParam("first", 6);
    va_assert(m2.read(name), "reading that file succeeds");
    Ref r;
    r.set("first", "12");
    r.set("second", "hello");
    r.set("third", "5");
    same(m2, r, "a file holds the parameters written to it");
    va_assert(!m2.read(none), "reading a file that does not exist is reported");
    va_assert(!m.write(bad), "writing a file that cannot be created is reported");
    same(m2, r, "a failed read changes nothing");
}
// command line: an option followed by a value that is no option binds it
ENTRY spec_cmdline() {
    static const char* A[] = {"-a", "-Zc", "1", "-5", "val", "-", "--x", "-.5", ""};
    int n = va_choice(va_tier() ? 6 : 5);
    char prog[] = "prog";
    char buf[6][8];
    char* argv[7];
    argv[0] = prog;
    for (int i = 0; i < n; i++) {
        const char* s = A[va_choice(9)];
        int k = 0;
        for (; s[k]; k++) buf[i][k] = s[k];
        buf[i][k] = 0;
        argv[i + 1] = buf[i];
    }
    Ref r;
    auto opt = [](const std::string& s) { return s.size() >= 2 && s[0] == '-' && ((s[1] >= 'a' && s[1] <= 'z') || (s[1] >= 'A' && s[1] <= 'Z')); };
    for (int i = 1; i < n; i++)
        if (opt(buf[i - 1]) && !opt(buf[i])) r.set(std::string(buf[i - 1]).substr(1), buf[i]);
    ParamMap m;
    va_assert(m.read(n + 1, argv), "reading the command line succeeds");
    va_reach("command line read");
    same(m, r, "a command line option binds the argument after it");
}
// long command lines, every first letter of an option, options given more than once
ENTRY spec_cmdlong() {
    va_long(100000000);
    static const char* V[] = {"0", "-1.5", "text", "~/x", "a=b", "-", "1e5", "#no"};
    int n = va_choice(2) ? 104 : 260;
    static char buf[260][64];
    static char* argv[261];
    argv[0] = buf[0];
    Ref r;
    for (int i = 0; i < n; i += 2) {
        int o = i / 2 % 52;
        std::string name(1, (char)(o < 26 ? 'a' + o : 'A' + o - 26));
        if (o % 3 == 1) name += "_2";
        if (o % 8 == 2) name += "-long.name/with:signs-0123456789";
        std::string a = "-" + name, b = V[(i / 2 + i / 104) % 8];
        for (size_t k = 0; k <= a.size(); k++) buf[i][k] = a.c_str()[k];
        for (size_t k = 0; k <= b.size(); k++) buf[i + 1][k] = b.c_str()[k];
        argv[i + 1] = buf[i];
        argv[i + 2] = buf[i + 1];
        r.set(name, b);
    }
    ParamMap m;
    va_assert(m.read(n + 1, argv), "reading the command line succeeds");
    same(m, r, "a command line option binds the argument after it");
    va_reach("long command line");
}
// many lines, read and written again with every prefix
ENTRY spec_manylines() {
    va_long(100000000);
    int n = va_choice(2) ? 20 : 60;
    std::string t;
    Ref r;
    for (int i = 0; i < n; i++) {
        std::string k = "key" + std::to_string(i * 7 % 45), v = std::to_string(i);
        t += k + " " + v + (i % 3 ? "\n" : "  trailing words\n");
        r.set(k, v);
    }
    ParamMap m, m2;
    std::istringstream in(t);
    m.read(in);
    same(m, r, "a parameter has the value of its last line");
    static const char* P[] = {"", " ", "\t  "};
    std::string p = P[va_choice(3)];
    std::ostringstream o;
    va_assert(m.write(o, p), "writing with a prefix succeeds");
    std::istringstream in2(o.str());
    m2.read(in2);
    same(m2, r, "written parameters read back with their values");
    va_reach("many lines");
}
// real values of every order of magnitude keep six digits
ENTRY spec_reals() {
    static const double D[] = {1e-9, -3.25e-5, 0.001, 123456, 1.5e7, -2.5e10, 0.1, 99999.5, 6.02214e23, 1.0 / 3};
    double x = D[va_choice(10)], y = 0;
    ParamMap m;
    if (va_choice(2)) {
        m.setParam("x", x);
        va_assert(m.getParam<double>("x", y, 7.0), "a real parameter is found");
    } else {
        m.getParam<double>("x", y, x);
        va_assert(y == x, "an absent parameter has its default");
        y = 0;
        va_assert(m.getParam<double>("x", y, 7.0), "the default becomes the value of the parameter");
    }
    va_near(y / x, 1.0, 1e-5, "a real parameter keeps its value");
    va_reach("real");
}
ENTRY spec_values() {
    ParamMap m;
    long x = va_int(-1000000, 1000000);
    int i = 0;
    m.setParam("i", (int)x);
    va_assert(m.getParam<int>("i", i, 3), "an integer parameter is found");
    va_assert(i == x, "an integer parameter keeps its value");
    long l = 0;
    va_assert(m.getParam<long>("i", l, 3L) && l == x, "a parameter may be read as a wider type");
    // absent: the default is returned and becomes the value
    int d = 0, e = 0;
    long y = va_int(-5000, 5000);
    va_assert(!m.getParam<int>("absent", d, (int)y), "an absent parameter is reported");
    va_assert(d == y, "an absent parameter has its default");
    va_assert(m.getParam<int>("absent", e, 77) && e == y, "the default becomes the value of the parameter");
    double dv = 0;
    m.setParam("f", 2.5);
    va_assert(m.getParam<double>("f", dv, 1.0) && dv == 2.5, "a real parameter keeps its value");
    bool bo = false;
    m.setParam("b", true);
    va_assert(m.getParam<bool>("b", bo, false) && bo, "a boolean parameter keeps its value");
    std::string s;
    m.setParamString("s", "one");
    m.setParamString("s", "two");
    va_assert(m.getParam<std::string>("s", s, "none") && s == "two", "setting a parameter again replaces it");
}
// histories of setting and querying: the last value set, or the first default given
ENTRY spec_history() {
    ParamMap m;
    static const char* K[] = {"k", "kk"};
    bool has[2] = {false, false};
    long val[2] = {0, 0};
    int n = va_tier() ? 4 : 3;
    for (int i = 0; i < n; i++) {
        int k = va_choice(2);
        long x = va_int(-1000, 1000);
        switch (va_choice(4)) {
            case 0: m.setParam(K[k], (int)x); has[k] = true; val[k] = x; break;
            case 1: m.setParamString(K[k], "42"); has[k] = true; val[k] = 42; break;
            case 2: {
                int v = 0;
                va_assert(m.getParam<int>(K[k], v, (int)x) == has[k], "a query tells whether the parameter is set");
                if (!has[k]) val[k] = x;
                has[k] = true;
                va_assert(v == val[k], "a query gives the value set last, or the default");
                break;
            }
            default: {
                std::istringstream in("kk 17\n");
                m.read(in);
                has[1] = true;
                val[1] = 17;
            }
        }
    }
    for (int k = 0; k < 2; k++) {
        int v = 0;
        va_assert(m.getParam<int>(K[k], v, 5555) == has[k] && v == (has[k] ? val[k] : 5555), "in the end each parameter has the value set last");
    }
    va_reach("history ended");
}
// text that is no value of the requested type
ENTRY spec_badvalue() {
    static const char* B[] = {"abc", "1x", "2.5", "", "--3"};
    ParamMap m;
    m.setParamString("p", B[va_choice(5)]);
    int v = 1234, w;
    long d = va_int(0, 10);
    m.getParam<int>("p", v, (int)d);
    va_assert(v == d, "a parameter that cannot be converted has its default");
    m.getParam<int>("p", w, (int)d);
    va_assert(w == d, "a variable given to the query is always set");
}
ENTRY spec_container() {
    static const char* T[] = {"[1,2,3]", "1,2,3,4", "[]", "7", "[5,x,6]", " [1,2"};
    static const int E[6][3] = {{1, 2, 3}, {1, 2, 3}, {-1, -1, -1}, {7, -1, -1}, {5, -1, -1}, {-9, -9, -9}};
    int k = va_choice(5);
    ParamMap m;
    m.setParamString("c", T[k]);
    int out[3] = {9, 9, 9};
    va_assert(m.getParamContainer<int>("c", out, out + 3, "[8,8,8]", -1), "a container parameter is found");
    for (int i = 0; i < 3; i++) va_assert(out[i] == E[k][i], "container elements are the tokens, the default where there are none");
    int d[3] = {9, 9, 9};
    va_assert(!m.getParamContainer<int>("absent", d, d + 3, "[4,5]", -2), "an absent container parameter is reported");
    va_assert(d[0] == 4 && d[1] == 5 && d[2] == -2, "an absent container parameter has the default tokens");
    va_assert(m.getParamContainer<int>("absent", d, d + 3, "[1,1,1]", 0) && d[0] == 4 && d[1] == 5, "the default text becomes its value");
    std::vector<int> v;
    if (k != 4) {
        static const int N[] = {3, 4, 0, 1};
        va_assert(m.getParamContainerInserter<int>("c", std::back_inserter(v), 0), "a list parameter is found");
        va_assert((int)v.size() == N[k], "every token of a list parameter is inserted");
        for (int i = 0; i < (int)v.size() && i < 3; i++) va_assert(v[i] == E[k][i], "list elements are the tokens in order");
    }
    std::vector<int> none;
    va_assert(!m.getParamContainerInserter<int>("nolist", std::back_inserter(none), 0) && none.empty(), "an absent list parameter is reported");
}
static int homeSet = 1;
extern "C" __attribute__((used)) const char* va_getenv(const char* n) { return homeSet && std::string(n) == "HOME" ? "/home/u" : nullptr; }
// a leading tilde stands for the home directory, elsewhere it is a character
ENTRY spec_tilde() {
    static const char* T[] = {"~/data/x", "~", "/tmp/~", "a~b", "~/back~up", "plain", "", "~/", "~user/x", "~~/y", " ~/z"};
    static const char* X[] = {"/data/x", "/", nullptr, nullptr, "/back~up", nullptr, nullptr, "/", nullptr, nullptr, nullptr};
    ParamMap m;
    Ref r;
    homeSet = va_choice(2);
    const char* home = getenv("HOME");
    int n = 1 + va_choice(3);
    static const char* K[] = {"a", "b", "c"};
    for (int i = 0; i < n; i++) {
        int t = va_choice(11);
        m.setParamString(K[i], T[t]);
        r.set(K[i], X[t] && home ? std::string(home) + X[t] : std::string(T[t]));
    }
    m.adaptTildeInPaths();
    va_reach("tildes expanded");
    same(m, r, "a leading tilde is replaced by the home directory");
}
