// Exact arithmetic terms: multivariate rational functions over Q.
// Used as the normal form of symbolic `double` values in the engine's `real` semantics.
#pragma once
#include <gmpxx.h>
#include <algorithm>
#include <cstdint>
#include <map>
#include <memory>
#include <string>
#include <unordered_map>
#include <vector>

namespace rf {

using Mono = std::vector<std::pair<uint32_t, uint32_t>>;  // (var, exp), sorted by var

struct MonoTable {
    std::vector<Mono> m;
    std::map<Mono, uint32_t> idx;
    std::unordered_map<uint64_t, uint32_t> cache;
    MonoTable() { get(Mono{}); }
    uint32_t get(const Mono& x) {
        auto it = idx.find(x);
        if (it != idx.end()) return it->second;
        uint32_t id = (uint32_t)m.size();
        m.push_back(x);
        idx.emplace(x, id);
        return id;
    }
    uint32_t var(uint32_t v) { return get(Mono{{v, 1}}); }
    uint32_t mul(uint32_t a, uint32_t b) {
        if (a == 0) return b;
        if (b == 0) return a;
        if (a > b) std::swap(a, b);
        uint64_t key = ((uint64_t)a << 32) | b;
        auto it = cache.find(key);
        if (it != cache.end()) return it->second;
        Mono r;
        const Mono &x = m[a], &y = m[b];
        size_t i = 0, j = 0;
        while (i < x.size() || j < y.size()) {
            if (j == y.size() || (i < x.size() && x[i].first < y[j].first)) r.push_back(x[i++]);
            else if (i == x.size() || y[j].first < x[i].first) r.push_back(y[j++]);
            else { r.push_back({x[i].first, x[i].second + y[j].second}); ++i; ++j; }
        }
        uint32_t id = get(r);
        cache[key] = id;
        return id;
    }
    // a / b if b divides a
    bool div(uint32_t a, uint32_t b, uint32_t& q) {
        if (b == 0) { q = a; return true; }
        Mono r;
        const Mono &x = m[a], &y = m[b];
        size_t i = 0;
        for (size_t j = 0; j < y.size(); ++j) {
            while (i < x.size() && x[i].first < y[j].first) r.push_back(x[i++]);
            if (i == x.size() || x[i].first != y[j].first || x[i].second < y[j].second) return false;
            if (x[i].second > y[j].second) r.push_back({x[i].first, x[i].second - y[j].second});
            ++i;
        }
        while (i < x.size()) r.push_back(x[i++]);
        q = get(r);
        return true;
    }
    // lexicographic comparison (a > b): lower variable index dominates
    bool greater(uint32_t a, uint32_t b) const {
        if (a == b) return false;
        const Mono &x = m[a], &y = m[b];
        size_t i = 0;
        for (; i < x.size() && i < y.size(); ++i) {
            if (x[i].first != y[i].first) return x[i].first < y[i].first;
            if (x[i].second != y[i].second) return x[i].second > y[i].second;
        }
        return x.size() > y.size();
    }
};
inline MonoTable& MT() { static MonoTable t; return t; }

struct Poly {
    std::vector<std::pair<uint32_t, mpq_class>> t;  // sorted by monomial id, no zeros
    bool zero() const { return t.empty(); }
    bool isConst() const { return t.empty() || (t.size() == 1 && t[0].first == 0); }
    mpq_class constVal() const { return t.empty() ? mpq_class(0) : t[0].second; }
    bool operator==(const Poly& o) const { return t == o.t; }
};
inline Poly pconst(const mpq_class& c) { Poly p; if (c != 0) p.t.push_back({0, c}); return p; }
inline Poly padd(const Poly& a, const Poly& b, int sign) {
    Poly r;
    r.t.reserve(a.t.size() + b.t.size());
    size_t i = 0, j = 0;
    while (i < a.t.size() || j < b.t.size()) {
        if (j == b.t.size() || (i < a.t.size() && a.t[i].first < b.t[j].first)) r.t.push_back(a.t[i++]);
        else if (i == a.t.size() || b.t[j].first < a.t[i].first) {
            r.t.push_back(b.t[j]);
            if (sign < 0) r.t.back().second = -r.t.back().second;
            ++j;
        } else {
            mpq_class c = sign > 0 ? mpq_class(a.t[i].second + b.t[j].second) : mpq_class(a.t[i].second - b.t[j].second);
            if (c != 0) r.t.push_back({a.t[i].first, c});
            ++i; ++j;
        }
    }
    return r;
}
inline Poly pscale(const Poly& a, const mpq_class& c) {
    if (c == 0) return Poly{};
    if (c == 1) return a;
    Poly r = a;
    for (auto& x : r.t) x.second *= c;
    return r;
}
inline Poly pmul(const Poly& a, const Poly& b) {
    if (a.zero() || b.zero()) return Poly{};
    if (a.isConst()) return pscale(b, a.t[0].second);
    if (b.isConst()) return pscale(a, b.t[0].second);
    std::unordered_map<uint32_t, mpq_class> acc;
    acc.reserve(a.t.size() * b.t.size());
    for (auto& x : a.t)
        for (auto& y : b.t) acc[MT().mul(x.first, y.first)] += x.second * y.second;
    Poly r;
    r.t.reserve(acc.size());
    for (auto& x : acc) if (x.second != 0) r.t.push_back({x.first, x.second});
    std::sort(r.t.begin(), r.t.end(), [](auto& p, auto& q) { return p.first < q.first; });
    return r;
}
inline size_t plead(const Poly& a) {
    size_t l = 0;
    for (size_t i = 1; i < a.t.size(); ++i) if (MT().greater(a.t[i].first, a.t[l].first)) l = i;
    return l;
}
// exact division; false if not divisible
inline bool pdiv(const Poly& a, const Poly& b, Poly& q) {
    if (b.isConst()) { q = pscale(a, 1 / b.t[0].second); return true; }
    // ordered accumulation by lexicographic order for the remainder
    auto cmp = [](uint32_t x, uint32_t y) { return MT().greater(x, y); };
    std::map<uint32_t, mpq_class, decltype(cmp)> rem(cmp);
    for (auto& x : a.t) rem.emplace(x.first, x.second);
    size_t lb = plead(b);
    std::map<uint32_t, mpq_class> qq;
    while (!rem.empty()) {
        auto it = rem.begin();
        uint32_t mq;
        if (!MT().div(it->first, b.t[lb].first, mq)) return false;
        mpq_class c = it->second / b.t[lb].second;
        qq[mq] += c;
        for (auto& y : b.t) {
            uint32_t mm = MT().mul(mq, y.first);
            auto r = rem.find(mm);
            mpq_class d = c * y.second;
            if (r == rem.end()) rem.emplace(mm, -d);
            else { r->second -= d; if (r->second == 0) rem.erase(r); }
        }
    }
    q.t.clear();
    for (auto& x : qq) if (x.second != 0) q.t.push_back({x.first, x.second});
    return true;
}

// table of denominator factors (leading coefficient 1)
struct FactorTable {
    std::vector<Poly> f;
    uint32_t get(const Poly& p) {
        for (uint32_t i = 0; i < f.size(); ++i) if (f[i] == p) return i;
        f.push_back(p);
        return (uint32_t)f.size() - 1;
    }
};
inline FactorTable& FT() { static FactorTable t; return t; }
using Den = std::vector<std::pair<uint32_t, uint32_t>>;  // (factor, exp), sorted

struct RF {
    enum Sp : uint8_t { FIN, NANV, PINF, NINF } sp = FIN;
    bool c = true;    // constant?
    mpq_class v;      // value if constant
    Poly num;         // otherwise
    Den den;
};
using RFp = std::shared_ptr<const RF>;

inline RFp mkc(const mpq_class& x) { auto r = std::make_shared<RF>(); r->v = x; return r; }
inline RFp mksp(RF::Sp s) { auto r = std::make_shared<RF>(); r->sp = s; return r; }
inline RFp mkvar(uint32_t v) {
    auto r = std::make_shared<RF>();
    r->c = false;
    r->num.t.push_back({MT().var(v), 1});
    return r;
}
inline Poly numOf(const RFp& a) { return a->c ? pconst(a->v) : a->num; }
inline Poly denPoly(const Den& d) {
    Poly p = pconst(1);
    for (auto& x : d) for (uint32_t i = 0; i < x.second; ++i) p = pmul(p, FT().f[x.first]);
    return p;
}
inline RFp norm(Poly num, Den den) {
    if (!den.empty()) {
        Den nd;
        for (auto& x : den) {
            uint32_t e = x.second;
            Poly q;
            while (e > 0 && pdiv(num, FT().f[x.first], q)) { num = q; --e; if (num.zero()) { e = 0; break; } }
            if (e) nd.push_back({x.first, e});
        }
        den = std::move(nd);
    }
    if (num.zero()) return mkc(0);
    if (den.empty() && num.isConst()) return mkc(num.constVal());
    auto r = std::make_shared<RF>();
    r->c = false;
    r->num = std::move(num);
    r->den = std::move(den);
    return r;
}
inline Den dmerge(const Den& a, const Den& b, bool sum) {  // sum of exponents, or max (lcm)
    Den r;
    size_t i = 0, j = 0;
    while (i < a.size() || j < b.size()) {
        if (j == b.size() || (i < a.size() && a[i].first < b[j].first)) r.push_back(a[i++]);
        else if (i == a.size() || b[j].first < a[i].first) r.push_back(b[j++]);
        else { r.push_back({a[i].first, sum ? a[i].second + b[j].second : std::max(a[i].second, b[j].second)}); ++i; ++j; }
    }
    return r;
}
inline Den dsub(const Den& l, const Den& a) {  // l - a
    Den r;
    size_t j = 0;
    for (auto& x : l) {
        uint32_t e = x.second;
        while (j < a.size() && a[j].first < x.first) ++j;
        if (j < a.size() && a[j].first == x.first) e -= a[j].second;
        if (e) r.push_back({x.first, e});
    }
    return r;
}
inline RFp addsub(const RFp& a, const RFp& b, int sign) {
    if (a->sp || b->sp) {
        if (a->sp == RF::NANV || b->sp == RF::NANV) return mksp(RF::NANV);
        auto bs = b->sp;
        if (sign < 0) bs = bs == RF::PINF ? RF::NINF : bs == RF::NINF ? RF::PINF : RF::FIN;
        if (a->sp == RF::FIN) return mksp(bs);
        if (bs == RF::FIN || bs == a->sp) return mksp(a->sp);
        return mksp(RF::NANV);
    }
    if (a->c && b->c) return mkc(sign > 0 ? mpq_class(a->v + b->v) : mpq_class(a->v - b->v));
    if (b->c && b->v == 0) return a;
    if (a->c && a->v == 0 && sign > 0) return b;
    if (a->den.empty() && b->den.empty()) return norm(padd(numOf(a), numOf(b), sign), {});
    Den l = dmerge(a->den, b->den, false);
    Poly x = pmul(numOf(a), denPoly(dsub(l, a->den)));
    Poly y = pmul(numOf(b), denPoly(dsub(l, b->den)));
    return norm(padd(x, y, sign), l);
}
inline RFp neg(const RFp& a) { return addsub(mkc(0), a, -1); }
inline int signOf(const RFp& a) { return a->sp == RF::PINF ? 1 : a->sp == RF::NINF ? -1 : a->sp ? 0 : a->c ? sgn(a->v) : 2; }
inline RFp mul(const RFp& a, const RFp& b) {
    if (a->sp || b->sp) {
        if (a->sp == RF::NANV || b->sp == RF::NANV) return mksp(RF::NANV);
        int sa = signOf(a), sb = signOf(b);
        if (sa == 0 || sb == 0 || sa == 2 || sb == 2) return mksp(RF::NANV);
        return mksp(sa * sb > 0 ? RF::PINF : RF::NINF);
    }
    if (a->c && b->c) return mkc(a->v * b->v);
    if (a->c) { if (a->v == 0) return mkc(0); if (a->v == 1) return b; }
    if (b->c) { if (b->v == 0) return mkc(0); if (b->v == 1) return a; }
    if (a->c || b->c) {
        const RFp& s = a->c ? b : a;
        auto r = std::make_shared<RF>();
        r->c = false;
        r->num = pscale(s->num, a->c ? a->v : b->v);
        r->den = s->den;
        return r;
    }
    return norm(pmul(a->num, b->num), dmerge(a->den, b->den, true));
}
// splits p into constant * product of factors
inline mpq_class decompose(Poly p, Den& out) {
    mpq_class c = p.t[plead(p)].second;
    p = pscale(p, 1 / c);
    std::map<uint32_t, uint32_t> fs;
    // monomial content
    {
        std::map<uint32_t, uint32_t> mn;
        bool first = true;
        for (auto& x : p.t) {
            std::map<uint32_t, uint32_t> cur;
            for (auto& ve : MT().m[x.first]) cur[ve.first] = ve.second;
            if (first) { mn = cur; first = false; }
            else {
                for (auto it = mn.begin(); it != mn.end();) {
                    auto f = cur.find(it->first);
                    if (f == cur.end()) it = mn.erase(it);
                    else { it->second = std::min(it->second, f->second); ++it; }
                }
            }
        }
        for (auto& x : mn) {
            Poly v;
            v.t.push_back({MT().var(x.first), 1});
            fs[FT().get(v)] += x.second;
            Poly q;
            for (uint32_t i = 0; i < x.second; ++i) { pdiv(p, v, q); p = q; }
        }
    }
    if (!p.isConst()) {
        for (uint32_t i = 0; i < FT().f.size() && !p.isConst(); ++i) {
            if (FT().f[i].t.size() < 2) continue;
            Poly q;
            while (!p.isConst() && pdiv(p, FT().f[i], q)) { p = q; fs[i]++; }
        }
        if (!p.isConst()) { mpq_class c2 = p.t[plead(p)].second; p = pscale(p, 1 / c2); c *= c2; fs[FT().get(p)]++; }
        else c *= p.constVal();
    } else c *= p.constVal();
    out.assign(fs.begin(), fs.end());
    return c;
}
// caller guarantees b != 0
inline RFp div(const RFp& a, const RFp& b) {
    if (a->sp || b->sp) {
        if (a->sp == RF::NANV || b->sp == RF::NANV) return mksp(RF::NANV);
        if (a->sp && b->sp) return mksp(RF::NANV);
        if (b->sp) return mkc(0);
        int sb = signOf(b);
        if (sb == 2) return mksp(RF::NANV);
        return (a->sp == RF::PINF) == (sb >= 0) ? mksp(RF::PINF) : mksp(RF::NINF);
    }
    if (b->c) {
        if (b->v == 0) {
            int sa = signOf(a);
            return sa == 1 ? mksp(RF::PINF) : sa == -1 ? mksp(RF::NINF) : mksp(RF::NANV);
        }
        if (a->c) return mkc(a->v / b->v);
        return mul(a, mkc(1 / b->v));
    }
    if (a->c && a->v == 0) return a;
    Den d;
    mpq_class c = decompose(b->num, d);
    Poly n = pscale(numOf(a), 1 / c);
    // cancel common factors between b's denominator (going to the numerator) lazily through norm
    n = pmul(n, denPoly(b->den));
    return norm(n, dmerge(a->den, d, true));
}

}  // namespace rf
