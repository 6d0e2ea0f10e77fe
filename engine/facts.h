// Facts of one abstract state: zones (difference bounds), polynomial facts,
// bit assignments; and the decision procedures of the domain (no solver).
#pragma once
#include "poly.h"

struct Bound {
    LD c;
    bool s;  // strict
};
inline bool tighter(const Bound& a, const Bound& b) { return a.c < b.c || (a.c == b.c && a.s && !b.s); }
inline Bound bAdd(const Bound& a, const Bound& b) {
    if (a.c == INF || b.c == INF) return {INF, false};
    return {a.c + b.c, a.s || b.s};
}
struct DBM {  // D[i][j] bounds x_i - x_j <= c ; index 0 is the constant zero
    std::vector<u32> syms;           // syms[0] unused
    std::unordered_map<u32, u32> ix;  // sym -> index
    std::vector<Bound> d;
    u32 n = 0, cap = 0;
    bool bad = false;
    DBM() {
        grow(8);
        n = 1;
        syms.push_back(~0u);
        at(0, 0) = {0, false};
    }
    void grow(u32 c);
    Bound& at(u32 i, u32 j) { return d[(size_t)i * cap + j]; }
    const Bound& at(u32 i, u32 j) const { return d[(size_t)i * cap + j]; }
    u32 idx(u32 sym);  // adds
    int find(u32 sym) const {
        auto it = ix.find(sym);
        return it == ix.end() ? -1 : (int)it->second;
    }
    bool addEdge(u32 i, u32 j, Bound b);  // x_i - x_j <= b ; returns feasibility
};

enum FactKind { FK_GE, FK_GT, FK_EQ, FK_NE };
struct Fact {
    P p;
    FactKind k;
};

struct Facts {
    std::shared_ptr<DBM> dbm;
    std::vector<Fact> raw;
    std::vector<std::pair<u32, P>> subst;  // symbol := poly  (applied in order)
    std::shared_ptr<std::map<u32, bool>> bits;
    bool bad = false;

    Iv range(u32 sym) const;  // range of a symbol
    P norm(P p) const;        // apply substitutions
    Iv eval(P p) const;       // interval evaluation
    bool add(P p, FactKind k);
    bool addBit(u32 var, bool v);
    int bit(u32 lit) const;  // 0,1 or -1
};
enum Tri { NO = 0, YES = 1, UNK = 2 };
// decide p >= 0 (strict: > 0)
Tri decideGE(const Facts& f, P p, bool strict, int depth = 0);
Tri decideEQ(const Facts& f, P p);
bool proveGE(const Facts& f, P p, bool strict, int depth = 0);
// branch and bound proof of p >= -tol ; returns YES proven, UNK otherwise
bool bnbProve(const Facts& f, P p, LD tol, int maxBoxes);
typedef std::map<u32, LD> Assign;
u32 xorLit(u32 p, u32 q);  // literal of the exclusive or of two literals
bool evalAt(P p, Assign& a, const std::map<u32, bool>& bits, LD& out);
bool findWitness(const Facts& f, Assign& out, std::map<u32, bool>& bits, int tries,
                 const std::function<bool(Assign&, std::map<u32, bool>&)>& target);
extern u64 rngState;
extern time_t bnbDeadline;
