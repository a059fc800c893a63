// P23: value semantics. Histories of copies, moves, assignments, self-assignments, writes and destructions over a pool
// of objects, each followed by a model of its own; after every step every live object must read as its model says.
#include "sparse.hpp"
#include "trisys.hpp"
#include "cholcheck.hpp"
#include "ilupat.hpp"
using namespace vp;
using namespace lalib;
using namespace lalib::solver;

// Mostly small, sometimes past the block sizes of copying loops.
inline size_t dim(Ctx& c, size_t k) { return 1 + c.rng.below(c.rng.chance(0.05) ? 8 * k : k); }
template<class T> struct Obs { std::vector<size_t> dim; std::vector<T> v; };

// ---- how to make, read and change each type ----
template<class X> struct Kind;
template<class X> struct VecKind {
    using T = typename X::ElemType;
    static Obs<T> read(const X& x) { Obs<T> o; o.dim = {x.size()}; for (size_t i = 0; i < x.size(); ++i) o.v.push_back(x[i]); return o; }
    static Obs<T> read2(const X& x) { Obs<T> o; o.dim = {x.size()}; for (auto e : x) o.v.push_back(e); return o; }
    static void change(Ctx& c, X& x, Obs<T>& o) {
        if (o.v.empty()) return;
        size_t i = c.rng.below(o.v.size()); T t = gen<T>(c.rng, D_INT) + T(100);
        switch (c.rng.below(3)) { case 0: x[i] = t; break; case 1: x.data()[i] = t; break; default: *(x.begin() + i) = t; }
        o.v[i] = t;
    }
};
template<class T, size_t N> struct Kind<SizedVec<T, N>> : VecKind<SizedVec<T, N>> {
    using X = SizedVec<T, N>;
    static std::string name() { return "SizedVec"; }
    static std::unique_ptr<Guarded<X>> make(Ctx& c, Obs<T>& o) {
        o.dim = {N}; o.v = gen_vec<T>(c.rng, D_REAL, N);
        auto src = o.v; auto p = std::make_unique<Guarded<X>>(src);
        std::fill(src.begin(), src.end(), T(77));
        return p;
    }
};
template<class T> struct Kind<DynVec<T>> : VecKind<DynVec<T>> {
    using X = DynVec<T>;
    static std::string name() { return "DynVec"; }
    static std::unique_ptr<Guarded<X>> make(Ctx& c, Obs<T>& o) {
        size_t n = c.rng.below(c.rng.chance(0.1) ? 400 : 40); o.dim = {n}; o.v = gen_vec<T>(c.rng, D_REAL, n);
        auto src = o.v; std::unique_ptr<Guarded<X>> p;
        if (c.rng.chance(0.5)) p = std::make_unique<Guarded<X>>(std::move(src)); else { p = std::make_unique<Guarded<X>>(src); std::fill(src.begin(), src.end(), T(77)); }
        return p;
    }
};
template<class X, class T> struct MatKind {
    static Obs<T> read(const X& x) { Obs<T> o; auto s = x.shape(); o.dim = {s.first, s.second}; for (size_t i = 0; i < s.first; ++i) for (size_t j = 0; j < s.second; ++j) o.v.push_back(x(i, j)); return o; }
    static Obs<T> read2(const X& x) { Obs<T> o; auto s = x.shape(); o.dim = {s.first, s.second}; for (size_t i = 0; i < s.first; ++i) for (size_t j = 0; j < s.second; ++j) o.v.push_back(x.at(i, j)); return o; }
    // Writes at (i, j) inside the structure; `herm` writes the mirror in the model too.
    static void put(Ctx& c, X& x, Obs<T>& o, size_t i, size_t j, bool herm = false) {
        size_t m = o.dim[1]; T t = gen<T>(c.rng, D_INT) + T(100);
        if (c.rng.chance(0.5)) x(i, j) = t; else x.mut_at(i, j) = t;
        o.v[i * m + j] = t; if (herm) o.v[j * m + i] = t;
    }
    static T near(Ctx& c) { T t; do t = gen<T>(c.rng, D_INT); while (t == T(0)); return t; }
};
template<class T, size_t N, size_t M> struct Kind<SizedMat<T, N, M>> : MatKind<SizedMat<T, N, M>, T> {
    using X = SizedMat<T, N, M>;
    static std::string name() { return "SizedMat"; }
    static std::unique_ptr<Guarded<X>> make(Ctx& c, Obs<T>& o) {
        o.dim = {N, M}; o.v = gen_vec<T>(c.rng, D_REAL, N * M);
        auto src = o.v; auto p = std::make_unique<Guarded<X>>(src); std::fill(src.begin(), src.end(), T(77)); return p;
    }
    static void change(Ctx& c, X& x, Obs<T>& o) {
        size_t q = c.rng.below(N * M); if (c.rng.chance(0.3)) { T t = gen<T>(c.rng, D_INT) + T(50); x.data()[q] = t; o.v[q] = t; } else Kind::put(c, x, o, q / M, q % M);
    }
};
template<class T> struct Kind<DynMat<T>> : MatKind<DynMat<T>, T> {
    using X = DynMat<T>;
    static std::string name() { return "DynMat"; }
    static std::unique_ptr<Guarded<X>> make(Ctx& c, Obs<T>& o) {
        size_t n = dim(c, 6), m = dim(c, 6);
        o.dim = {n, m}; o.v = gen_vec<T>(c.rng, D_REAL, n * m);
        auto src = o.v; auto p = std::make_unique<Guarded<X>>(n, m, src); std::fill(src.begin(), src.end(), T(77)); return p;
    }
    static void change(Ctx& c, X& x, Obs<T>& o) {
        size_t m = o.dim[1], q = c.rng.below(o.v.size()); if (c.rng.chance(0.3)) { T t = gen<T>(c.rng, D_INT) + T(50); x.data()[q] = t; o.v[q] = t; } else Kind::put(c, x, o, q / m, q % m);
    }
};
template<class X, class T> struct TriKind : MatKind<X, T> {
    static void change(Ctx& c, X& x, Obs<T>& o) {
        size_t n = o.dim[0], i = c.rng.below(n);
        if (c.rng.chance(0.4)) {
            T t = gen<T>(c.rng, D_INT) + T(50); size_t w = c.rng.below(3);
            if (w == 0) { x.data_d()[i] = t; o.v[i * n + i] = t; }
            else if (i + 1 < n && w == 1) { x.data_dl()[i] = t; o.v[(i + 1) * n + i] = t; }
            else if (i + 1 < n) { x.data_du()[i] = t; o.v[i * n + i + 1] = t; }
            return;
        }
        long j = (long)i + c.rng.range(-1, 1); if (j < 0 || j >= (long)n) j = i;
        TriKind::put(c, x, o, i, (size_t)j);
    }
    static void fill(Obs<T>& o, const std::vector<T>& dl, const std::vector<T>& d, const std::vector<T>& du) {
        size_t n = d.size(); o.dim = {n, n}; o.v.assign(n * n, T(0));
        for (size_t i = 0; i < n; ++i) { o.v[i * n + i] = d[i]; if (i + 1 < n) { o.v[(i + 1) * n + i] = dl[i]; o.v[i * n + i + 1] = du[i]; } }
    }
};
template<class T> struct Kind<DynTriDiagMat<T>> : TriKind<DynTriDiagMat<T>, T> {
    using X = DynTriDiagMat<T>;
    static std::string name() { return "DynTriDiagMat"; }
    static std::unique_ptr<Guarded<X>> make(Ctx& c, Obs<T>& o) {
        size_t n = dim(c, 8); auto dl = gen_vec<T>(c.rng, D_REAL, n - 1), d = gen_vec<T>(c.rng, D_REAL, n), du = gen_vec<T>(c.rng, D_REAL, n - 1);
        Kind::fill(o, dl, d, du);
        std::unique_ptr<Guarded<X>> p;
        if (c.rng.chance(0.5)) p = std::make_unique<Guarded<X>>(std::move(dl), std::move(d), std::move(du));
        else { p = std::make_unique<Guarded<X>>(dl, d, du); std::fill(d.begin(), d.end(), T(77)); std::fill(dl.begin(), dl.end(), T(77)); std::fill(du.begin(), du.end(), T(77)); }
        return p;
    }
};
template<class T, size_t N> struct Kind<SizedTriDiagMat<T, N>> : TriKind<SizedTriDiagMat<T, N>, T> {
    using X = SizedTriDiagMat<T, N>;
    static std::string name() { return "SizedTriDiagMat"; }
    static std::unique_ptr<Guarded<X>> make(Ctx& c, Obs<T>& o) {
        auto dl = gen_vec<T>(c.rng, D_REAL, N - 1), d = gen_vec<T>(c.rng, D_REAL, N), du = gen_vec<T>(c.rng, D_REAL, N - 1);
        Kind::fill(o, dl, d, du);
        std::array<T, N - 1> a, u; std::array<T, N> b; std::copy(dl.begin(), dl.end(), a.begin()); std::copy(du.begin(), du.end(), u.begin()); std::copy(d.begin(), d.end(), b.begin());
        return std::make_unique<Guarded<X>>(a, b, u);
    }
};
template<class T> struct Kind<HessenbergMat<T>> : MatKind<HessenbergMat<T>, T> {
    using X = HessenbergMat<T>;
    static std::string name() { return "HessenbergMat"; }
    static std::unique_ptr<Guarded<X>> make(Ctx& c, Obs<T>& o) {
        size_t n = dim(c, 6); o.dim = {n, n}; o.v.assign(n * n, T(0)); std::vector<T> h;
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i <= std::min(j + 1, n - 1); ++i) if (i <= j) { }
        // packed by extension: column k holds rows 0..k, and the sub-diagonal element of the row added
        auto p = std::make_unique<Guarded<X>>(X::with_capacity(c.rng.below(30)));
        for (size_t k = 0; k < n; ++k) p->v.extend_with_zero();
        for (size_t i = 0; i < n; ++i) for (size_t j = i ? i - 1 : 0; j < n; ++j) { T t = gen<T>(c.rng, D_REAL); p->v(i, j) = t; o.v[i * n + j] = t; }
        return p;
    }
    static void change(Ctx& c, X& x, Obs<T>& o) {
        size_t n = o.dim[0];
        if (c.rng.chance(0.3)) {   // extend
            x.extend_with_zero(); std::vector<T> w((n + 1) * (n + 1), T(0));
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) w[i * (n + 1) + j] = o.v[i * n + j];
            o.v = w; o.dim = {n + 1, n + 1}; return;
        }
        size_t i = c.rng.below(n), lo = i ? i - 1 : 0, j = lo + c.rng.below(n - lo);
        Kind::put(c, x, o, i, j);
    }
};
template<class T> struct Kind<DynUpperTriMat<T>> : MatKind<DynUpperTriMat<T>, T> {
    using X = DynUpperTriMat<T>;
    static std::string name() { return "DynUpperTriMat"; }
    static std::unique_ptr<Guarded<X>> make(Ctx& c, Obs<T>& o) {
        size_t n = dim(c, 6); o.dim = {n, n}; o.v.assign(n * n, T(0)); std::vector<T> p;
        for (size_t j = 0; j < n; ++j) for (size_t i = 0; i <= j; ++i) { T t = gen<T>(c.rng, D_REAL); p.push_back(t); o.v[i * n + j] = t; }
        return std::make_unique<Guarded<X>>(std::move(p));
    }
    static void change(Ctx& c, X& x, Obs<T>& o) {
        size_t n = o.dim[0];
        if (c.rng.chance(0.3)) {
            x.extend_with_zero(); std::vector<T> w((n + 1) * (n + 1), T(0));
            for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < n; ++j) w[i * (n + 1) + j] = o.v[i * n + j];
            o.v = w; o.dim = {n + 1, n + 1}; return;
        }
        size_t i = c.rng.below(n), j = i + c.rng.below(n - i);
        Kind::put(c, x, o, i, j);
    }
};
template<class T> std::vector<T> lower_pack(Ctx& c, Obs<T>& o, size_t n, bool herm) {
    o.dim = {n, n}; o.v.assign(n * n, T(0)); std::vector<T> p;
    for (size_t i = 0; i < n; ++i) for (size_t j = 0; j <= i; ++j) { T t = gen<T>(c.rng, D_REAL); p.push_back(t); o.v[i * n + j] = t; if (herm) o.v[j * n + i] = t; }
    return p;
}
template<class X, class T, bool H> struct LowKind : MatKind<X, T> {
    static void change(Ctx& c, X& x, Obs<T>& o) {
        size_t n = o.dim[0], i = c.rng.below(n), j = H ? c.rng.below(n) : c.rng.below(i + 1);
        if (c.rng.chance(0.3) && j <= i) { T t = gen<T>(c.rng, D_INT) + T(50); x.lower_data()[i * (i + 1) / 2 + j] = t; o.v[i * n + j] = t; if (H) o.v[j * n + i] = t; }
        else LowKind::put(c, x, o, i, j, H);
    }
};
template<class T> struct Kind<DynLowerTriMat<T>> : LowKind<DynLowerTriMat<T>, T, false> {
    using X = DynLowerTriMat<T>;
    static std::string name() { return "DynLowerTriMat"; }
    static std::unique_ptr<Guarded<X>> make(Ctx& c, Obs<T>& o) { size_t n = dim(c, 7); auto p = lower_pack(c, o, n, false); return std::make_unique<Guarded<X>>(n, std::move(p)); }
};
template<class T> struct Kind<DynHermiteMat<T>> : LowKind<DynHermiteMat<T>, T, true> {
    using X = DynHermiteMat<T>;
    static std::string name() { return "DynHermiteMat"; }
    static std::unique_ptr<Guarded<X>> make(Ctx& c, Obs<T>& o) { size_t n = dim(c, 7); auto p = lower_pack(c, o, n, true); return std::make_unique<Guarded<X>>(n, std::move(p)); }
};
template<class T, size_t N> struct Kind<SizedLowerTriMat<T, N>> : LowKind<SizedLowerTriMat<T, N>, T, false> {
    using X = SizedLowerTriMat<T, N>;
    static std::string name() { return "SizedLowerTriMat"; }
    static std::unique_ptr<Guarded<X>> make(Ctx& c, Obs<T>& o) { auto p = lower_pack(c, o, N, false); std::array<T, N * (N + 1) / 2> a; std::copy(p.begin(), p.end(), a.begin()); return std::make_unique<Guarded<X>>(a); }
};
template<class T, size_t N> struct Kind<SizedHermiteMat<T, N>> : LowKind<SizedHermiteMat<T, N>, T, true> {
    using X = SizedHermiteMat<T, N>;
    static std::string name() { return "SizedHermiteMat"; }
    static std::unique_ptr<Guarded<X>> make(Ctx& c, Obs<T>& o) { auto p = lower_pack(c, o, N, true); std::array<T, N * (N + 1) / 2> a; std::copy(p.begin(), p.end(), a.begin()); return std::make_unique<Guarded<X>>(a); }
};
template<class X, class T> struct SpKind : MatKind<X, T> {
    static SpModel<T> model(Ctx& c, size_t n, size_t m) {
        SpModel<T> s; for (size_t i = 0; i < n; ++i) for (size_t j = 0; j < m; ++j) if (c.rng.chance(0.4)) s[{i, j}] = SpKind::near(c);
        s[{n - 1, m - 1}] = SpKind::near(c);
        return s;
    }
    // As many entries in the same shape, in other places where there is room.
    static SpModel<T> shuffled(Ctx& c, const Obs<T>& like, size_t nnz) {
        size_t n = like.dim[0], m = like.dim[1]; SpModel<T> s; s[{n - 1, m - 1}] = SpKind::near(c);
        while (s.size() < nnz) s[{c.rng.below(n), c.rng.below(m)}] = SpKind::near(c);
        return s;
    }
    static size_t entries(const Obs<T>& o) { size_t k = 0; for (auto& v : o.v) k += v != T(0); return k; }
    static void fill(Obs<T>& o, const SpModel<T>& s, size_t n, size_t m) { o.dim = {n, m}; o.v.assign(n * m, T(0)); for (auto& [p, v] : s) o.v[p.first * m + p.second] = v; }
    static void change(Ctx& c, X& x, Obs<T>& o) {
        std::vector<size_t> nz; for (size_t q = 0; q < o.v.size(); ++q) if (o.v[q] != T(0)) nz.push_back(q);
        if (nz.empty()) return;
        size_t q = c.rng.pick(nz); T t = SpKind::near(c) + T(100);
        x.mut_at(q / o.dim[1], q % o.dim[1]) = t; o.v[q] = t;
    }
};
template<class T> struct Kind<SpCooMat<T>> : SpKind<SpCooMat<T>, T> {
    using X = SpCooMat<T>;
    static std::string name() { return "SpCooMat"; }
    static std::unique_ptr<Guarded<X>> twin(Ctx& c, const Obs<T>& like, Obs<T>& o) { auto s = Kind::shuffled(c, like, Kind::entries(like)); Kind::fill(o, s, like.dim[0], like.dim[1]); return std::make_unique<Guarded<X>>(coo_of(c.rng, s, (int)c.rng.below(4))); }
    static std::unique_ptr<Guarded<X>> make(Ctx& c, Obs<T>& o) { size_t n = dim(c, 6), m = dim(c, 6); auto s = Kind::model(c, n, m); Kind::fill(o, s, n, m); return std::make_unique<Guarded<X>>(coo_of(c.rng, s, (int)c.rng.below(4))); }
};
template<class T> struct Kind<SpMat<T>> : SpKind<SpMat<T>, T> {
    using X = SpMat<T>;
    static std::string name() { return "SpMat"; }
    static std::unique_ptr<Guarded<X>> twin(Ctx& c, const Obs<T>& like, Obs<T>& o) { auto s = Kind::shuffled(c, like, Kind::entries(like)); Kind::fill(o, s, like.dim[0], like.dim[1]); return std::make_unique<Guarded<X>>(csr_of(s, like.dim[0])); }
    static std::unique_ptr<Guarded<X>> make(Ctx& c, Obs<T>& o) {
        size_t n = dim(c, 6), m = dim(c, 6); auto s = Kind::model(c, n, m); Kind::fill(o, s, n, m);
        if (c.rng.chance(0.5)) return std::make_unique<Guarded<X>>(csr_of(s, n));
        auto coo = coo_of(c.rng, s, (int)c.rng.below(4));
        if (c.rng.chance(0.5)) return std::make_unique<Guarded<X>>(std::move(coo));
        auto p = std::make_unique<Guarded<X>>(coo);   // the source changes and goes away
        Obs<T> dummy; Kind::fill(dummy, s, n, m); Kind<SpCooMat<T>>::change(c, coo, dummy);
        return p;
    }
};

// ---- the pool ----
enum { CREATE, COPY, MOVE, ASSIGN, MOVE_ASSIGN, SELF, SELF_MOVE_BY_SWAP, CHANGE, DESTROY, BY_VALUE, ASSIGN_SIBLING, OPS };
static const char* opname[] = {"create", "copy", "move", "assign", "move-assign", "self-assign", "swap", "change", "destroy", "by-value", "assign-sibling"};
template<class X> X through(X x) { return x; }
template<class X, class T> std::unique_ptr<Guarded<X>> sibling(Ctx& c, const Obs<T>& like, Obs<T>& o) {
    if constexpr (requires { Kind<X>::twin(c, like, o); }) return Kind<X>::twin(c, like, o);
    else {
        for (int k = 0; k < 12; ++k) { o = {}; auto p = Kind<X>::make(c, o); if (o.dim == like.dim) return p; }
        return nullptr;
    }
}
template<class X, class T> void pool(Ctx& c, size_t steps) {
    auto& r = c.rng;
    struct Slot { std::unique_ptr<Guarded<X>> p; Obs<T> m; bool moved = false; };
    std::vector<Slot> s(6);
    auto live = [&](bool also_moved) { std::vector<size_t> v; for (size_t i = 0; i < s.size(); ++i) if (s[i].p && (also_moved || !s[i].moved)) v.push_back(i); return v; };
    constexpr bool as = std::is_copy_assignable_v<X>, mas = std::is_move_assignable_v<X>;
    uint64_t h = hash_str(Kind<X>::name().c_str()); std::string trail;
    for (size_t k = 0; k < steps; ++k) {
        int op = (int)r.below(OPS);
        auto l = live(false), lm = live(true);
        if (l.empty()) op = CREATE;
        size_t to = r.below(s.size()), from = l.empty() ? 0 : r.pick(l);
        if (!as && (op == ASSIGN || op == SELF || op == ASSIGN_SIBLING)) op = COPY;
        if (!mas && (op == MOVE_ASSIGN || op == SELF_MOVE_BY_SWAP)) op = MOVE;
        if ((op == ASSIGN || op == MOVE_ASSIGN) && !s[to].p) op = COPY;
        if ((op == COPY || op == MOVE || op == BY_VALUE || op == MOVE_ASSIGN || op == ASSIGN) && to == from) op = CHANGE;
        h = mix(h ^ (uint64_t)(op * 64 + to * 8 + from));
        trail += std::string(trail.empty() ? "" : " ") + opname[op] + "(" + std::to_string(to) + "," + std::to_string(from) + ")";
        if (trail.size() > 300) trail.erase(0, trail.size() - 300);
        c.begin(cat((Kind<X>::name() + "." + opname[op]).c_str(), tname<T>()), h, k > 2, "step %zu: ..%s", k, trail.c_str());
        switch (op) {
            case CREATE: s[to].p.reset(); s[to].m = {}; s[to].p = Kind<X>::make(c, s[to].m); s[to].moved = false; break;
            case COPY: s[to].p.reset(); s[to].p = std::make_unique<Guarded<X>>(static_cast<const X&>(s[from].p->v)); s[to].m = s[from].m; s[to].moved = false; break;
            case BY_VALUE: s[to].p.reset(); s[to].p = std::make_unique<Guarded<X>>(through<X>(s[from].p->v)); s[to].m = s[from].m; s[to].moved = false; break;
            case MOVE: s[to].p.reset(); s[to].p = std::make_unique<Guarded<X>>(std::move(s[from].p->v)); s[to].m = s[from].m; s[to].moved = false; s[from].moved = true; break;
            case ASSIGN: if constexpr (as) { X& ref = (s[to].p->v = static_cast<const X&>(s[from].p->v)); c.want(&ref == &s[to].p->v, "returned", "assignment returns another object"); s[to].m = s[from].m; s[to].moved = false; } break;
            case MOVE_ASSIGN: if constexpr (mas) { X& ref = (s[to].p->v = std::move(s[from].p->v)); c.want(&ref == &s[to].p->v, "returned", "assignment returns another object"); s[to].m = s[from].m; s[to].moved = false; s[from].moved = true; } break;
            case SELF: if constexpr (as) { X& a = s[from].p->v; const X& b = a; a = b; } break;
            case SELF_MOVE_BY_SWAP: if constexpr (mas) { size_t b = r.pick(l); if (b != from) { std::swap(s[from].p->v, s[b].p->v); std::swap(s[from].m, s[b].m); } } break;
            case ASSIGN_SIBLING: if constexpr (as) {   // another object of the same size (and number of entries), but other contents
                Obs<T> o; auto t = sibling<X>(c, s[from].m, o);
                if (t) { if (!mas || r.chance(0.6)) s[from].p->v = static_cast<const X&>(t->v); else if constexpr (mas) s[from].p->v = std::move(t->v); s[from].m = o; c.count("assigned_from_a_sibling"); }
            } break;
            case CHANGE: Kind<X>::change(c, s[from].p->v, s[from].m); break;
            default: s[r.pick(lm)].p.reset();
        }
        for (size_t i = 0; i < s.size(); ++i) {
            if (!s[i].p) { s[i].moved = false; continue; }
            c.want(s[i].p->ok(), "stray-write", "bytes around object %zu were overwritten", i);
            if (s[i].moved) continue;
            for (int way = 0; way < 2; ++way) {
                auto o = way ? Kind<X>::read2(s[i].p->v) : Kind<X>::read(s[i].p->v);
                bool dims = o.dim == s[i].m.dim && o.v.size() == s[i].m.v.size();
                c.want(dims, "shape", "object %zu has %zu elements, its own history gives %zu", i, o.v.size(), s[i].m.v.size());
                if (dims) c.same("value", o.v.data(), s[i].m.v.data(), o.v.size());
                if (!dims) { s[i].m = o; }   // reported once
            }
        }
    }
}
template<class T> void pools(Ctx& c, size_t reps) {
    for (size_t q = 0; q < reps; ++q) {
        size_t k = 10 + c.rng.below(50);
        pool<SizedVec<T, 1>, T>(c, k); pool<SizedVec<T, 3>, T>(c, k); pool<SizedVec<T, 8>, T>(c, k); pool<DynVec<T>, T>(c, k);
        pool<SizedMat<T, 1, 1>, T>(c, k); pool<SizedMat<T, 2, 3>, T>(c, k); pool<SizedMat<T, 4, 4>, T>(c, k); pool<DynMat<T>, T>(c, k);
        pool<DynTriDiagMat<T>, T>(c, k); pool<SizedTriDiagMat<T, 4>, T>(c, k); pool<HessenbergMat<T>, T>(c, k); pool<DynUpperTriMat<T>, T>(c, k);
        pool<DynLowerTriMat<T>, T>(c, k); pool<DynHermiteMat<T>, T>(c, k); pool<SizedLowerTriMat<T, 3>, T>(c, k); pool<SizedHermiteMat<T, 3>, T>(c, k);
        pool<SpCooMat<T>, T>(c, k); pool<SpMat<T>, T>(c, k);
    }
}

// ---- solvers own their matrix ----
template<class T> long double dist(const std::vector<T>& a, const std::vector<T>& b) {
    long double d = 0, m = 0; if (a.size() != b.size()) return 1e30L;
    for (size_t i = 0; i < a.size(); ++i) { long double e = fabsl((long double)a[i] - b[i]); if (!(e <= d)) d = e; m = std::max(m, mag(b[i])); }
    return d / (m + 1e-30L);
}
template<class T> void agree(Ctx& c, const char* kind, const std::vector<T>& x, const std::vector<T>& ref, const char* when) {
    long double d = dist(x, ref);
    c.want(d <= 1e4L * eps<T>(), kind, "%s the solution differs from the one before by %.3Lg (relative)", when, d);
}
// make() gives a solver over an original that outlives it for now; spoil() changes the original.
template<class T, class S, class Solve, class Spoil> void solver_history(Ctx& c, std::unique_ptr<S> s, Solve&& solve, Spoil&& spoil) {
    auto& r = c.rng;
    auto ref = solve(*s);
    spoil();
    agree(c, "original-changed", solve(*s), ref, "after changing the original matrix");
    std::vector<std::unique_ptr<S>> pool; pool.push_back(std::move(s));
    for (int k = 0; k < 6; ++k) {
        size_t i = r.below(pool.size());
        switch (r.below(4)) {
            case 0: pool.push_back(std::make_unique<S>(static_cast<const S&>(*pool[i]))); break;
            case 1: { auto n = std::make_unique<S>(std::move(*pool[i])); pool.erase(pool.begin() + i); pool.push_back(std::move(n)); break; }
            case 2: if (pool.size() > 1) pool.erase(pool.begin() + i); break;
            default: if constexpr (std::is_copy_assignable_v<S>) { size_t j = r.below(pool.size()); *pool[i] = static_cast<const S&>(*pool[j]); } else pool.push_back(std::make_unique<S>(static_cast<const S&>(*pool[i])));
        }
        for (auto& p : pool) agree(c, "copy", solve(*p), ref, "after copying, moving, assigning or destroying solvers,");
    }
}
template<class T, class V> std::vector<T> tovec(const V& v) { return std::vector<T>(v.begin(), v.end()); }
template<class T> void solvers(Ctx& c, size_t reps) {
    auto& r = c.rng;
    for (size_t q = 0; q < reps; ++q) {
        size_t n = 1 + r.below(12);
        {
            Sys<T> s(r, n, 1, SYS);
            c.begin(opn<T>("TriDiag"), s.hash(), n > 1, "n=%zu", n);
            auto orig = std::make_unique<DynTriDiagMat<T>>(s.dl, s.d, s.du);
            auto solve = [&](TriDiag<DynTriDiagMat<T>>& t) { DynVec<T> b(s.b.a), x = DynVec<T>::uninit(n); t.solve_linear(b, x); return tovec<T>(x); };
            if (r.chance(0.7)) solver_history<T>(c, std::make_unique<TriDiag<DynTriDiagMat<T>>>(*orig), solve, [&] {
                for (size_t i = 0; i < n; ++i) orig->data_d()[i] = T(1e3);
                for (size_t i = 0; i + 1 < n; ++i) { orig->data_dl()[i] = T(5); orig->data_du()[i] = T(-7); }
                auto o2 = *orig; if (r.chance(0.5)) orig.reset(); });
            else solver_history<T>(c, std::make_unique<TriDiag<DynTriDiagMat<T>>>(std::move(*orig)), solve, [&] { *orig = DynTriDiagMat<T>(std::vector<T>(n - 1, T(3)), std::vector<T>(n, T(99)), std::vector<T>(n - 1, T(3))); orig.reset(); });
        }
        {
            Sys<T> s(r, 5, 1, SYS); std::array<T, 4> a, u; std::array<T, 5> d;
            std::copy(s.dl.begin(), s.dl.end(), a.begin()); std::copy(s.du.begin(), s.du.end(), u.begin()); std::copy(s.d.begin(), s.d.end(), d.begin());
            c.begin(opn<T>("TriDiag-sized"), s.hash(), true, "n=5");
            using M = SizedTriDiagMat<T, 5>;
            auto orig = std::make_unique<M>(a, d, u);
            solver_history<T>(c, std::make_unique<TriDiag<M>>(*orig), [&](TriDiag<M>& t) { SizedVec<T, 5> b(s.b.a), x = SizedVec<T, 5>::filled(T(9)); t.solve_linear(b, x); return tovec<T>(x); },
                [&] { for (size_t i = 0; i < 5; ++i) orig->data_d()[i] = T(1e3); orig.reset(); });
        }
        auto spd = gen_spd<T>(r, n, r.chance(0.5) ? 3 : 0);
        auto b = gen_vec<T>(r, D_REAL, n);
        auto chol = [&]<class S, class M>(const char* name, std::unique_ptr<M> orig, auto&& other) {
            c.begin(opn<T>(name), hv(spd.a.a, hv(b)), n > 1, "n=%zu", n);
            solver_history<T>(c, std::make_unique<S>(std::move(*orig)), [&](S& t) { DynVec<T> v(b); return tovec<T>(t.solve_linear(v)); }, [&] { *orig = other(); if (r.chance(0.5)) orig.reset(); });
        };
        auto otherd = [&] { return DynMat<T>::diag(T(9), n); };
        chol.template operator()<DynCholeskyFactorization<T>>("Cholesky", std::make_unique<DynMat<T>>(n, n, spd.a.a), otherd);
        chol.template operator()<DynModCholeskyFactorization<T>>("ModCholesky", std::make_unique<DynMat<T>>(n, n, spd.a.a), otherd);
        chol.template operator()<DynTriCholeskyFactorization<T>>("TriCholesky", std::make_unique<DynHermiteMat<T>>(n, packed_lower(spd.a)), [&] { return DynHermiteMat<T>(n, std::vector<T>(n * (n + 1) / 2, T(4))); });
        auto sp = gen_dom<T>(r, n, (int)r.below(PATTERNS), 1.6);
        auto ilu = [&]<class M>(const char* name, std::unique_ptr<M> orig, auto&& other) {
            c.begin(opn<T>((std::string("Ilu-") + name).c_str()), hsp(sp, hv(b)), n > 1, "n=%zu", n);
            { auto o = std::make_unique<M>(*orig); using S = Ilu<T, M>; solver_history<T>(c, std::make_unique<S>(std::move(*o)), [&](S& t) { DynVec<T> v(b); return tovec<T>(t.solve(v)); }, [&] { *o = other(); if (r.chance(0.5)) o.reset(); }); }
            c.begin(opn<T>((std::string("Gmres-") + name).c_str()), hsp(sp, hv(b)), n > 1, "n=%zu", n);
            if constexpr (!std::is_same_v<M, SpCooMat<T>>) { using S = Gmres<T, M>; auto ref0 = DynVec<T>(b);
                solver_history<T>(c, std::make_unique<S>(std::move(*orig), (T)1e-6), [&](S& t) { DynVec<T> v(b); return tovec<T>(t.solve(v)); }, [&] { *orig = other(); if (r.chance(0.5)) orig.reset(); }); }
        };
        ilu.template operator()<SpMat<T>>("csr", std::make_unique<SpMat<T>>(csr_of(sp, n)), [&] { return SpMat<T>::unit(n); });
        ilu.template operator()<DynMat<T>>("dense", std::make_unique<DynMat<T>>(n, n, dense_of(sp, n, n).a), otherd);
    }
}
int main(int argc, char** argv) {
    return run_unit(argc, argv, "val", [](Ctx& c) {
        size_t k = c.n(6, 120);
        pools<double>(c, k); pools<float>(c, k); pools<std::complex<double>>(c, k); pools<int>(c, k);
        solvers<double>(c, c.n(40, 1500)); solvers<float>(c, c.n(40, 1500));
    });
}
