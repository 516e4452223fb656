// Reference semantics: a deliberately boring brute-force evaluator for the
// structured programs generated by the checks.
#pragma once
#include <algorithm>
#include <cstdint>
#include <functional>
#include <set>
#include <sstream>
#include <string>
#include <vector>

namespace V {

using I = long long;

struct Mono { I co; std::vector<int> vars; };
using Poly = std::vector<Mono>;

using W = __int128;

inline W eval(Poly const &p, std::vector<I> const &a) {
    W s = 0;
    for (auto const &m : p) {
        W t = m.co;
        for (int v : m.vars) { t *= a[v]; }
        s += t;
    }
    return s;
}

inline bool rel_holds(W l, std::string const &r, W x) {
    if (r == "<=") { return l <= x; }
    if (r == "<") { return l < x; }
    if (r == ">=") { return l >= x; }
    if (r == ">") { return l > x; }
    if (r == "=") { return l == x; }
    return l != x;
}

inline char const *const RELS[] = {"<=", ">=", "<", ">", "=", "!="};

// theory atom
struct Atom {
    enum Kind { SUM, DISTINCT, DISJOINT, DOM } kind{SUM};
    std::vector<Poly> elems;
    std::string rel{"<="};
    Poly rhs;
    std::vector<I> len;                    // disjoint
    std::vector<std::pair<I, I>> dom;      // dom (inclusive)
    std::string text;

    bool holds(std::vector<I> const &a) const {
        switch (kind) {
            case SUM: {
                W s = 0;
                for (auto const &e : elems) { s += eval(e, a); }
                return rel_holds(s, rel, eval(rhs, a));
            }
            case DISTINCT: {
                std::vector<W> v;
                for (auto const &e : elems) { v.push_back(eval(e, a)); }
                std::sort(v.begin(), v.end());
                return std::adjacent_find(v.begin(), v.end()) == v.end();
            }
            case DISJOINT: {
                for (size_t i = 0; i < elems.size(); ++i) {
                    for (size_t j = i + 1; j < elems.size(); ++j) {
                        if (len[i] <= 0 || len[j] <= 0) { continue; }
                        W si = eval(elems[i], a), sj = eval(elems[j], a);
                        if (si < sj + len[j] && sj < si + len[i]) { return false; }
                    }
                }
                return true;
            }
            case DOM: {
                W x = eval(elems[0], a);
                for (auto [l, r] : dom) { if (l <= x && x <= r) { return true; } }
                return false;
            }
        }
        return false;
    }
};

struct Lit {
    bool neg{false};
    int boolean{-1};  // index of Boolean atom, or
    Atom atom;        // theory atom
};

struct Rule {
    enum Head { NONE, BOOL, THEORY } head{NONE};
    int boolean{-1};
    Atom atom;
    std::vector<Lit> body;
};

inline std::string const BN = "abcdefghi";

struct Program {
    std::vector<std::string> vars;                 // variable names
    std::vector<std::vector<I>> values;            // candidate values per variable
    int nbool{0};
    std::vector<int> choice;                       // choice atoms
    std::vector<Rule> rules;                       // Boolean heads stratified in this order
    std::string extra;                             // text put in front (domains, ...)

    std::string text() const {
        std::ostringstream o;
        o << extra;
        for (int c : choice) { o << "{" << BN[c] << "}. "; }
        for (auto const &r : rules) {
            if (r.head == Rule::BOOL) { o << BN[r.boolean]; }
            if (r.head == Rule::THEORY) { o << r.atom.text; }
            if (!r.body.empty() || r.head == Rule::NONE) { o << " :- "; }
            bool sep = false;
            for (auto const &l : r.body) {
                o << (sep ? ", " : "") << (l.neg ? "not " : "");
                if (l.boolean >= 0) { o << BN[l.boolean]; } else { o << l.atom.text; }
                sep = true;
            }
            o << ". ";
        }
        return o.str();
    }
};

struct Sol {
    uint64_t mask;
    std::vector<I> vals;
    bool operator<(Sol const &o) const { return mask != o.mask ? mask < o.mask : vals < o.vals; }
    bool operator==(Sol const &o) const { return mask == o.mask && vals == o.vals; }
};

inline bool holds(Lit const &l, uint64_t mask, std::vector<I> const &a) {
    bool t = l.boolean >= 0 ? ((mask >> l.boolean) & 1) != 0 : l.atom.holds(a);
    return t != l.neg;
}

// All pairs of Boolean interpretation and assignment that are solutions.
inline std::vector<Sol> brute(Program const &p) {
    std::vector<Sol> res;
    std::vector<I> a(p.vars.size());
    std::function<void(size_t)> rec = [&](size_t i) {
        if (i < p.vars.size()) {
            for (I v : p.values[i]) { a[i] = v; rec(i + 1); }
            return;
        }
        for (uint64_t c = 0; c < (1ULL << p.choice.size()); ++c) {
            uint64_t mask = 0;
            for (size_t k = 0; k < p.choice.size(); ++k) { if ((c >> k) & 1) { mask |= 1ULL << p.choice[k]; } }
            bool ok = true;
            for (auto const &r : p.rules) {
                bool b = true;
                for (auto const &l : r.body) { if (!holds(l, mask, a)) { b = false; break; } }
                if (!b) { continue; }
                if (r.head == Rule::NONE) { ok = false; break; }
                if (r.head == Rule::BOOL) { mask |= 1ULL << r.boolean; }
                if (r.head == Rule::THEORY && !r.atom.holds(a)) { ok = false; break; }
            }
            if (ok) { res.push_back({mask, a}); }
        }
    };
    rec(0);
    std::sort(res.begin(), res.end());
    return res;
}

inline std::string show(Sol const &s, std::vector<std::string> const &vars) {
    std::ostringstream o;
    o << "{";
    bool sep = false;
    for (size_t i = 0; i < BN.size(); ++i) { if ((s.mask >> i) & 1) { o << (sep ? " " : "") << BN[i]; sep = true; } }
    o << "}";
    for (size_t i = 0; i < s.vals.size(); ++i) { o << " " << (i < vars.size() ? vars[i] : "?") << "=" << s.vals[i]; }
    return o.str();
}

inline std::string diff(std::vector<Sol> const &want, std::vector<Sol> const &got, std::vector<std::string> const &vars) {
    std::ostringstream o;
    std::vector<Sol> m, e;
    std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(m));
    std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(e));
    o << "expected " << want.size() << " solutions, got " << got.size() << "\n";
    for (size_t i = 0; i < m.size() && i < 8; ++i) { o << "  missing: " << show(m[i], vars) << "\n"; }
    for (size_t i = 0; i < e.size() && i < 8; ++i) { o << "  unexpected or repeated: " << show(e[i], vars) << "\n"; }
    return o.str();
}

inline std::vector<I> range(I l, I r) {
    std::vector<I> v;
    for (I i = l; i <= r; ++i) { v.push_back(i); }
    return v;
}

} // namespace V
