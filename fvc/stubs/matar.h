// Host-only stand-in for MATAR/Kokkos (not shipped with the repository).
// Two uses: (1) the extractor sees these class and macro interfaces, and the
// verifier treats the array classes as total maps from index tuples to values
// (assumed contract, listed in every evidence file); (2) the replay harnesses
// run the real functions on it, with every index checked.
#pragma once
#include <algorithm>
#include <array>
#include <chrono>
#include <fstream>
#include <iomanip>
#include <map>
#include <set>
#include <sstream>
#include <cassert>
#include <cmath>
#include <math.h>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
#include <limits>
#include <type_traits>
#include <utility>

#define KOKKOS_FUNCTION
#define KOKKOS_INLINE_FUNCTION inline
#define KOKKOS_FORCEINLINE_FUNCTION inline
#define KOKKOS_LAMBDA [=]
#define KOKKOS_CLASS_LAMBDA [ =, *this ]
#define KOKKOS_IF_ON_HOST(x)
#define KOKKOS_IF_ON_DEVICE(x)

namespace mtr {
[[noreturn]] inline void oob(const char *w) { throw std::out_of_range(std::string("matar stub: index outside the array: ") + w); }

#ifdef FVC_THREADS
} // namespace mtr
#include <thread>
#include <mutex>
namespace mtr {
#endif
#ifdef FVC_SNAP
} // namespace mtr
// every iteration of a parallel loop starts from the memory as it was before the
// loop; all writes take effect together at the end: the schedule in which all
// iterations run at the same time
namespace fvc_par {
struct Buf { std::weak_ptr<void> own; char *p; size_t n, w; };
struct Snap {
    std::vector<Buf> all; struct At { char *p; size_t w; std::function<void(char *)> f; }; std::vector<At> at; bool on = false; unsigned k = 0;
    std::vector<std::shared_ptr<void>> keep; std::vector<std::vector<char>> s, fin; std::vector<Buf> live;
    void add(std::shared_ptr<void> o, char *p, size_t n, size_t w) { if (all.size() > 4096) purge(); all.push_back({o, p, n, w}); }
    void purge() { std::vector<Buf> a; for (auto &b : all) if (!b.own.expired()) a.push_back(b); all.swap(a); }
    void begin() {
        purge(); keep.clear(); live.clear(); s.clear(); at.clear();
        for (auto &b : all) { auto h = b.own.lock(); if (!h) continue; bool dup = false; for (auto &q : live) dup = dup || q.p == b.p; if (dup) continue; keep.push_back(h); live.push_back(b); s.emplace_back(b.p, b.p + b.n * b.w); }
        fin = s; on = true;
    }
    void step() { for (size_t i = 0; i < live.size(); i++) { Buf &b = live[i]; if (!memcmp(b.p, s[i].data(), b.n * b.w)) continue; for (size_t j = 0; j < b.n; j++) if (memcmp(b.p + j * b.w, &s[i][j * b.w], b.w)) { memcpy(&fin[i][j * b.w], b.p + j * b.w, b.w); memcpy(b.p + j * b.w, &s[i][j * b.w], b.w); } } }
    void end() { on = false; for (size_t i = 0; i < live.size(); i++) memcpy(live[i].p, fin[i].data(), fin[i].size()); for (auto &a : at) a.f(a.p); keep.clear(); live.clear(); }
};
inline Snap &snap() { static Snap s; return s; }
template <class I> void snapped(long n, const I &it) { Snap &s = snap(); if (s.on) { for (long i = 0; i < n; i++) it(i); return; } s.begin(); bool back = s.k++ & 1; try { for (long i = 0; i < n; i++) { it(back ? n - 1 - i : i); s.step(); } } catch (...) { s.end(); throw; } s.end(); }
}
namespace mtr {
#define FVC_REG(P, K, W) if (std::is_trivially_copyable<T>::value) fvc_par::snap().add(own, (char *)(P), K, W)
#else
#define FVC_REG(P, K, W)
#endif
template <class T> struct Store {
    std::shared_ptr<std::vector<T>> own;
    T *p = nullptr;
    size_t n = 0;
    void alloc(size_t k) { own = std::make_shared<std::vector<T>>(k ? k : 1); p = own->data(); n = k; FVC_REG(p, k, sizeof(T)); }
};
template <> struct Store<bool> {
    std::shared_ptr<std::vector<char>> own;
    bool *p = nullptr;
    size_t n = 0;
    void alloc(size_t k) { own = std::make_shared<std::vector<char>>(k ? k : 1); p = reinterpret_cast<bool *>(own->data()); n = k; typedef bool T; FVC_REG(p, k, 1); (void)sizeof(T); }
};

// ORD: 0 = C order (last index fastest), 1 = Fortran order.  BASE: first index.
template <class T, int ORD, int BASE> struct ArrayBase {
    Store<T> st;
    size_t d[7] = {0, 0, 0, 0, 0, 0, 0};
    size_t ord = 0;
    std::string nm;

    template <class... A> void shape(A... a) {
        size_t t[] = {(size_t)a...};
        ord = sizeof...(A);
        for (size_t i = 0; i < ord; i++) d[i] = t[i];
    }
    size_t total() const { if (!ord) return 0; size_t t = 1; for (size_t i = 0; i < ord; i++) t *= d[i]; return t; }
    template <class... A> size_t off(A... a) const {
        if (sizeof...(A) != ord) oob("wrong number of indices");
        long long t[] = {(long long)a...};
        size_t o = 0;
        for (size_t i = 0; i < sizeof...(A); i++) {
            long long k = t[i] - BASE;
            if (k < 0 || k >= (long long)d[i]) oob(nm.c_str());
        }
        if (ORD == 0) for (size_t i = 0; i < sizeof...(A); i++) o = o * d[i] + (size_t)(t[i] - BASE);
        else for (size_t i = sizeof...(A); i-- > 0;) o = o * d[i] + (size_t)(t[i] - BASE);
        return o;
    }
    template <class... A> T &operator()(A... a) const { return st.p[off(a...)]; }
    size_t size() const { return total(); }
    size_t extent() const { return total(); }
    size_t dims(size_t i) const { return d[i - BASE]; }
    size_t order() const { return ord; }
    T *pointer() const { return st.p; }
    T *device_pointer() const { return st.p; }
    T *host_pointer() const { return st.p; }
    void update_host() const {}
    void update_device() const {}
    void lock_update() const {}
    void unlock_update() const {}
    void set_values(T v) const { for (size_t i = 0; i < st.n; i++) st.p[i] = v; }
    const std::string &get_name() const { return nm; }
};

#define FVC_OWN(NAME, ORD, BASE)                                                             \
    template <class T> struct NAME : ArrayBase<T, ORD, BASE> {                               \
        using B = ArrayBase<T, ORD, BASE>;                                                   \
        struct HostRef { const NAME *a; template <class... A> T &operator()(A... x) const { return (*a)(x...); } \
            T *pointer() const { return a->st.p; } void set_values(T v) const { a->set_values(v); } size_t size() const { return a->total(); } \
            size_t dims(size_t i) const { return a->dims(i); } };                            \
        HostRef host;                                                                        \
        void mk(const char *s) { this->nm = s; this->st.alloc(this->total()); host.a = this; } \
        NAME() { host.a = this; }                                                            \
        NAME(const NAME &o) : B(o) { host.a = this; }                                        \
        NAME &operator=(const NAME &o) { B::operator=(o); host.a = this; return *this; }     \
        NAME(size_t a, const std::string &s = "array") { this->shape(a); mk(s.c_str()); }        \
        NAME(size_t a, size_t b, const std::string &s = "array") { this->shape(a, b); mk(s.c_str()); }    \
        NAME(size_t a, size_t b, size_t c, const std::string &s = "array") { this->shape(a, b, c); mk(s.c_str()); } \
        NAME(size_t a, size_t b, size_t c, size_t e, const std::string &s = "array") { this->shape(a, b, c, e); mk(s.c_str()); } \
        NAME(size_t a, size_t b, size_t c, size_t e, size_t f, const std::string &s = "array") { this->shape(a, b, c, e, f); mk(s.c_str()); } \
        NAME(size_t a, size_t b, size_t c, size_t e, size_t f, size_t g, const std::string &s = "array") { this->shape(a, b, c, e, f, g); mk(s.c_str()); } \
    };
FVC_OWN(CArray, 0, 0)
FVC_OWN(CArrayKokkos, 0, 0)
FVC_OWN(DCArrayKokkos, 0, 0)
FVC_OWN(CMatrix, 0, 1)
FVC_OWN(CMatrixKokkos, 0, 1)
FVC_OWN(DCMatrixKokkos, 0, 1)
FVC_OWN(FArray, 1, 0)
FVC_OWN(FArrayKokkos, 1, 0)
FVC_OWN(DFArrayKokkos, 1, 0)
FVC_OWN(FMatrix, 1, 1)
FVC_OWN(FMatrixKokkos, 1, 1)
FVC_OWN(DFMatrixKokkos, 1, 1)

#define FVC_VIEW(NAME, ORD, BASE)                                                            \
    template <class T> struct NAME : ArrayBase<T, ORD, BASE> {                               \
        NAME() {}                                                                            \
        struct HostRef { const NAME *a; template <class... A> T &operator()(A... x) const { return (*a)(x...); } }; \
        HostRef host;                                                                        \
        NAME(const NAME &o) : ArrayBase<T, ORD, BASE>(o) { host.a = this; }                  \
        NAME &operator=(const NAME &o) { ArrayBase<T, ORD, BASE>::operator=(o); host.a = this; return *this; } \
        void mk(T *p) { this->st.p = p; this->st.n = this->total(); host.a = this; this->nm = "view"; } \
        NAME(T *p, size_t a) { this->shape(a); mk(p); }                                      \
        NAME(T *p, size_t a, size_t b) { this->shape(a, b); mk(p); }                         \
        NAME(T *p, size_t a, size_t b, size_t c) { this->shape(a, b, c); mk(p); }            \
        NAME(T *p, size_t a, size_t b, size_t c, size_t e) { this->shape(a, b, c, e); mk(p); } \
        NAME(T *p, size_t a, size_t b, size_t c, size_t e, size_t f) { this->shape(a, b, c, e, f); mk(p); } \
    };
FVC_VIEW(ViewCArray, 0, 0)
FVC_VIEW(ViewCArrayKokkos, 0, 0)
FVC_VIEW(DViewCArrayKokkos, 0, 0)
FVC_VIEW(ViewCMatrix, 0, 1)
FVC_VIEW(ViewCMatrixKokkos, 0, 1)
FVC_VIEW(ViewFArray, 1, 0)
FVC_VIEW(ViewFArrayKokkos, 1, 0)
FVC_VIEW(ViewFMatrix, 1, 1)
FVC_VIEW(ViewFMatrixKokkos, 1, 1)
FVC_VIEW(DViewFMatrixKokkos, 1, 1)
FVC_VIEW(DViewFArrayKokkos, 1, 0)
FVC_VIEW(DViewCMatrixKokkos, 0, 1)

// ragged right: row i has stride(i) entries of shape (d1, d2)
template <class T> struct RaggedBase {
    std::shared_ptr<std::vector<size_t>> start, len;
    Store<T> st;
    size_t rows = 0, e1 = 1, e2 = 1, ord = 2;
    std::string nm = "ragged";
    RaggedBase() {}
    template <class S> void build(const S &strides, size_t a, size_t b, size_t o) {
        rows = strides.size(); e1 = a; e2 = b; ord = o;
        start = std::make_shared<std::vector<size_t>>(); len = std::make_shared<std::vector<size_t>>();
        size_t t = 0;
        for (size_t i = 0; i < rows; i++) { start->push_back(t); len->push_back(strides(i)); t += strides(i); }
        st.alloc(t * e1 * e2);
    }
    size_t off(size_t i, size_t j, size_t k, size_t l, size_t o) const {
        if (o != ord) oob("ragged: wrong number of indices");
        if (i >= rows || j >= (*len)[i] || k >= e1 || l >= e2) oob(nm.c_str());
        return (((*start)[i] + j) * e1 + k) * e2 + l;
    }
    T &operator()(size_t i, size_t j) const { return st.p[off(i, j, 0, 0, 2)]; }
    T &operator()(size_t i, size_t j, size_t k) const { return st.p[off(i, j, k, 0, 3)]; }
    T &operator()(size_t i, size_t j, size_t k, size_t l) const { return st.p[off(i, j, k, l, 4)]; }
    size_t stride(size_t i) const { return (*len)[i]; }
    size_t stride_host(size_t i) const { return (*len)[i]; }
    size_t size() const { return st.n; }
    size_t dims(size_t i) const { return i == 0 ? rows : (i == 1 ? e1 : e2); }
    T *pointer() const { return st.p; }
    T *device_pointer() const { return st.p; }
    T *host_pointer() const { return st.p; }
    void update_host() const {}
    void update_device() const {}
    void update_strides_host() const {}
    void update_strides_device() const {}
    void set_values(T v) const { for (size_t i = 0; i < st.n; i++) st.p[i] = v; }
    void set_values_sparse(T v) const { set_values(v); }
};
#define FVC_RAG(NAME)                                                                        \
    template <class T> struct NAME : RaggedBase<T> {                                         \
        struct HostRef { const NAME *a; template <class... A> T &operator()(A... x) const { return (*a)(x...); } \
             T *pointer() const { return a->st.p; } };                                       \
        HostRef host;                                                                        \
        NAME() { host.a = this; }                                                            \
        NAME(const NAME &o) : RaggedBase<T>(o) { host.a = this; }                            \
        NAME &operator=(const NAME &o) { RaggedBase<T>::operator=(o); host.a = this; return *this; } \
        template <class S, class = decltype(std::declval<const S &>()((size_t)0))>           \
        NAME(const S &s, const std::string &n = "ragged") { this->build(s, 1, 1, 2); this->nm = n; host.a = this; } \
        template <class S, class = decltype(std::declval<const S &>()((size_t)0))>           \
        NAME(const S &s, size_t a, const std::string &n = "ragged") { this->build(s, a, 1, 3); this->nm = n; host.a = this; } \
        template <class S, class = decltype(std::declval<const S &>()((size_t)0))>           \
        NAME(const S &s, size_t a, size_t b, const std::string &n = "ragged") { this->build(s, a, b, 4); this->nm = n; host.a = this; } \
    };
FVC_RAG(RaggedRightArray)
FVC_RAG(RaggedRightArrayKokkos)
FVC_RAG(DRaggedRightArrayKokkos)

template <class T> struct DynRagBase {
    std::shared_ptr<std::vector<size_t>> len;
    Store<T> st;
    size_t rows = 0, cap = 0;
    struct StrideRef { std::shared_ptr<std::vector<size_t>> v; };
    size_t &stride(size_t i) const { return (*len)[i]; }
    T &operator()(size_t i, size_t j) const { if (i >= rows || j >= cap) oob("dynamic ragged"); return st.p[i * cap + j]; }
    void set_values(T v) const { for (size_t i = 0; i < st.n; i++) st.p[i] = v; }
    void set_values_sparse(T v) const { set_values(v); }
    void update_host() const {}
    void update_device() const {}
    size_t size() const { return st.n; }
    size_t dims(size_t i) const { return i == 0 ? rows : cap; }
    void mk(size_t a, size_t b) {
        rows = a; cap = b; len = std::make_shared<std::vector<size_t>>(a, 0); st.alloc(a * b);
#ifdef FVC_SNAP
        fvc_par::snap().add(len, (char *)len->data(), a, sizeof(size_t));
#endif
    }
};
template <class T> struct DynamicRaggedRightArrayKokkos : DynRagBase<T> {
    DynamicRaggedRightArrayKokkos() {}
    DynamicRaggedRightArrayKokkos(size_t a, size_t b, const std::string & = "") { this->mk(a, b); }
};
template <class T> struct DDynamicRaggedRightArrayKokkos : DynRagBase<T> {
    struct HostRef { const DDynamicRaggedRightArrayKokkos *a; T &operator()(size_t i, size_t j) const { return (*a)(i, j); } } host;
    DDynamicRaggedRightArrayKokkos() { host.a = this; }
    DDynamicRaggedRightArrayKokkos(size_t a, size_t b, const std::string & = "") { this->mk(a, b); host.a = this; }
};
} // namespace mtr

// ------------------------------------------------------------- parallel loops
namespace fvc_par {
inline int &order() { static int o = 0; return o; } // 1: run iterations backwards
#ifdef FVC_THREADS
// iterations of the outermost loop run on four threads
template <class I> void many(long n, const I &it) {
    static thread_local bool in = false;
    if (in || n < 2) { for (long i = 0; i < n; i++) it(i); return; }
    long nt = n < 4 ? n : 4; std::vector<std::thread> th; std::exception_ptr ex; std::mutex mx;
    for (long t = 0; t < nt; t++) th.emplace_back([&, t]() { in = true; try { for (long i = t; i < n; i += nt) it(i); } catch (...) { std::lock_guard<std::mutex> g(mx); ex = std::current_exception(); } });
    for (auto &t : th) t.join();
    if (ex) std::rethrow_exception(ex);
}
#define FVC_SN(N, ...) if (order()) { many(N, [&](long q) { __VA_ARGS__; }); return; }
#else
template <class I> void many(long n, const I &it) { for (long i = 0; i < n; i++) it(i); }
#ifdef FVC_SNAP
#define FVC_SN(N, ...) if (order()) { snapped(N, [&](long q) { __VA_ARGS__; }); return; }
#else
#define FVC_SN(N, ...)
#endif
#endif
template <class F> void par_for1(long a, long b, const F &f) {
    FVC_SN(b > a ? b - a : 0, f((int)(a + q)))
    if (order()) for (long i = b - 1; i >= a; i--) f((int)i); else for (long i = a; i < b; i++) f((int)i);
}
template <class F> void par_for2(long a, long b, long c, long d, const F &f) {
    FVC_SN(b > a && d > c ? (b - a) * (d - c) : 0, f((int)(a + q / (d - c)), (int)(c + q % (d - c))))
    if (order()) { for (long i = b - 1; i >= a; i--) for (long j = d - 1; j >= c; j--) f((int)i, (int)j); }
    else for (long i = a; i < b; i++) for (long j = c; j < d; j++) f((int)i, (int)j);
}
template <class F> void par_for3(long a, long b, long c, long d, long e, long g, const F &f) {
    FVC_SN(b > a && d > c && g > e ? (b - a) * (d - c) * (g - e) : 0, f((int)(a + q / ((d - c) * (g - e))), (int)(c + q / (g - e) % (d - c)), (int)(e + q % (g - e))))
    if (order()) { for (long i = b - 1; i >= a; i--) for (long j = d - 1; j >= c; j--) for (long k = g - 1; k >= e; k--) f((int)i, (int)j, (int)k); }
    else for (long i = a; i < b; i++) for (long j = c; j < d; j++) for (long k = e; k < g; k++) f((int)i, (int)j, (int)k);
}
template <class F> void run_once(const F &f) { f(); }
// a reduction combines partial results; in the other order each half has its own
template <class V, class F, class O> void red_any(long n, V &r, V init, const F &f, const O &join) {
    if (!order() || n < 2) { V t = init; for (long i = 0; i < n; i++) f(i, t); r = t; return; }
    V t[2] = {init, init};
    many(2, [&](long h) { for (long i = 0; i < n; i++) if ((i & 1) == h) f(n - 1 - i, t[h]); });
    r = join(t[0], t[1]);
}
#define FVC_RED(OP, INIT, JOIN) \
template <class V, class F> void red_##OP##1(long a, long b, V &r, const F &f) { red_any(b > a ? b - a : 0, r, (V)(INIT), [&](long q, V &t) { f((int)(a + q), t); }, [](V x, V y) -> V { return JOIN; }); } \
template <class V, class F> void red_##OP##2(long a, long b, long c, long d, V &r, const F &f) { red_any(b > a && d > c ? (b - a) * (d - c) : 0, r, (V)(INIT), [&](long q, V &t) { f((int)(a + q / (d - c)), (int)(c + q % (d - c)), t); }, [](V x, V y) -> V { return JOIN; }); } \
template <class V, class F> void red_##OP##3(long a, long b, long c, long d, long e, long g, V &r, const F &f) { red_any(b > a && d > c && g > e ? (b - a) * (d - c) * (g - e) : 0, r, (V)(INIT), [&](long q, V &t) { f((int)(a + q / ((d - c) * (g - e))), (int)(c + q / (g - e) % (d - c)), (int)(e + q % (g - e)), t); }, [](V x, V y) -> V { return JOIN; }); }
FVC_RED(sum, 0, x + y)
FVC_RED(min, std::numeric_limits<V>::max(), y < x ? y : x)
FVC_RED(max, std::numeric_limits<V>::lowest(), x < y ? y : x)
} // namespace fvc_par

#define FVC_GET13(_1, _2, _3, _4, _5, _6, _7, _8, _9, _10, _11, _12, _13, NAME, ...) NAME
#define FVC_FA1(i, a, b, ...) fvc_par::par_for1((a), (b), [=](const int i) __VA_ARGS__)
#define FVC_FA2(i, a, b, j, c, d, ...) fvc_par::par_for2((a), (b), (c), (d), [=](const int i, const int j) __VA_ARGS__)
#define FVC_FA3(i, a, b, j, c, d, k, e, g, ...) fvc_par::par_for3((a), (b), (c), (d), (e), (g), [=](const int i, const int j, const int k) __VA_ARGS__)
#define FVC_FC1(i, a, b, ...) fvc_par::par_for1((a), (b), [ =, *this ](const int i) __VA_ARGS__)
#define FVC_FC2(i, a, b, j, c, d, ...) fvc_par::par_for2((a), (b), (c), (d), [ =, *this ](const int i, const int j) __VA_ARGS__)
#define FVC_FC3(i, a, b, j, c, d, k, e, g, ...) fvc_par::par_for3((a), (b), (c), (d), (e), (g), [ =, *this ](const int i, const int j, const int k) __VA_ARGS__)
#define FOR_ALL(...) FVC_GET13(__VA_ARGS__, _13, _12, FVC_FA3, FVC_FA3, FVC_FA3, FVC_FA3, FVC_FA2, FVC_FA2, FVC_FA1, FVC_FA1, _3, _2, _1)(__VA_ARGS__)
#define FOR_ALL_CLASS(...) FVC_GET13(__VA_ARGS__, _13, _12, FVC_FC3, FVC_FC3, FVC_FC3, FVC_FC3, FVC_FC2, FVC_FC2, FVC_FC1, FVC_FC1, _3, _2, _1)(__VA_ARGS__)
#define RUN(...) fvc_par::run_once([=]() __VA_ARGS__)
#define RUN_CLASS(...) fvc_par::run_once([ =, *this ]() __VA_ARGS__)

#define FVC_R1(OP, CAP, i, a, b, v, body, r) fvc_par::red_##OP##1((a), (b), r, [CAP](const int i, std::decay_t<decltype(v)> &v) body)
#define FVC_R2(OP, CAP, i, a, b, j, c, d, v, body, r) fvc_par::red_##OP##2((a), (b), (c), (d), r, [CAP](const int i, const int j, std::decay_t<decltype(v)> &v) body)
#define FVC_R3(OP, CAP, i, a, b, j, c, d, k, e, g, v, body, r) fvc_par::red_##OP##3((a), (b), (c), (d), (e), (g), r, [CAP](const int i, const int j, const int k, std::decay_t<decltype(v)> &v) body)
#define FVC_S1(i, a, b, v, body, r) FVC_R1(sum, =, i, a, b, v, body, r)
#define FVC_S2(i, a, b, j, c, d, v, body, r) FVC_R2(sum, =, i, a, b, j, c, d, v, body, r)
#define FVC_S3(i, a, b, j, c, d, k, e, g, v, body, r) FVC_R3(sum, =, i, a, b, j, c, d, k, e, g, v, body, r)
#define FVC_N1(i, a, b, v, body, r) FVC_R1(min, =, i, a, b, v, body, r)
#define FVC_N2(i, a, b, j, c, d, v, body, r) FVC_R2(min, =, i, a, b, j, c, d, v, body, r)
#define FVC_N3(i, a, b, j, c, d, k, e, g, v, body, r) FVC_R3(min, =, i, a, b, j, c, d, k, e, g, v, body, r)
#define FVC_X1(i, a, b, v, body, r) FVC_R1(max, =, i, a, b, v, body, r)
#define FVC_X2(i, a, b, j, c, d, v, body, r) FVC_R2(max, =, i, a, b, j, c, d, v, body, r)
#define FVC_X3(i, a, b, j, c, d, k, e, g, v, body, r) FVC_R3(max, =, i, a, b, j, c, d, k, e, g, v, body, r)
#define FOR_REDUCE_SUM(...) FVC_GET13(__VA_ARGS__, _13, FVC_S3, _11, _10, FVC_S2, _8, _7, FVC_S1, _5, _4, _3, _2, _1)(__VA_ARGS__)
#define FOR_REDUCE_MIN(...) FVC_GET13(__VA_ARGS__, _13, FVC_N3, _11, _10, FVC_N2, _8, _7, FVC_N1, _5, _4, _3, _2, _1)(__VA_ARGS__)
#define FOR_REDUCE_MAX(...) FVC_GET13(__VA_ARGS__, _13, FVC_X3, _11, _10, FVC_X2, _8, _7, FVC_X1, _5, _4, _3, _2, _1)(__VA_ARGS__)
#define FVC_COMMA_THIS =, *this
#define FVC_SC1(i, a, b, v, body, r) fvc_par::red_sum1((a), (b), r, [ =, *this ](const int i, std::decay_t<decltype(v)> &v) body)
#define FVC_NC1(i, a, b, v, body, r) fvc_par::red_min1((a), (b), r, [ =, *this ](const int i, std::decay_t<decltype(v)> &v) body)
#define FVC_XC1(i, a, b, v, body, r) fvc_par::red_max1((a), (b), r, [ =, *this ](const int i, std::decay_t<decltype(v)> &v) body)
#define FOR_REDUCE_SUM_CLASS(...) FVC_SC1(__VA_ARGS__)
#define FVC_NC2(i, a, b, j, c, d, v, body, r) fvc_par::red_min2((a), (b), (c), (d), r, [ =, *this ](const int i, const int j, std::decay_t<decltype(v)> &v) body)
#define FOR_REDUCE_MIN_CLASS(...) FVC_GET13(__VA_ARGS__, _13, _12, _11, _10, FVC_NC2, _8, _7, FVC_NC1, _5, _4, _3, _2, _1)(__VA_ARGS__)
#define FOR_REDUCE_MAX_CLASS(...) FVC_XC1(__VA_ARGS__)
#define MATAR_INITIALIZE(...)
#define MATAR_FINALIZE(...)
#define MATAR_FENCE(...)

#ifndef PI
#define PI 3.141592653589793
#endif
namespace Kokkos {
struct TeamMember { int rank = 0; int league_rank() const { return rank; } int team_rank() const { return 0; } int team_size() const { return 1; } void team_barrier() const {} };
template <class... R> struct TeamPolicy { typedef TeamMember member_type; long n; template <class... A> TeamPolicy(long a, A...) : n(a) {} };
struct TTR { long lo, hi; };
inline TTR TeamThreadRange(const TeamMember &, long a, long b) { return {a, b}; }
inline TTR TeamThreadRange(const TeamMember &, long b) { return {0, b}; }
template <class F> void parallel_for(const TTR &r, const F &f) { for (long i = r.lo; i < r.hi; i++) f((int)i); }
template <class F, class R> void parallel_reduce(const TTR &r, const F &f, R &o) { R t{}; for (long i = r.lo; i < r.hi; i++) f((int)i, t); o = t; }
struct AUTO_t { operator int() const { return 1; } };
static const AUTO_t AUTO;
template <class F> void parallel_for(const std::string &, const TeamPolicy<> &p, const F &f) { fvc_par::par_for1(0, p.n, [&](int k) { TeamMember t; t.rank = k; f(t); }); }
template <class F> void parallel_for(const TeamPolicy<> &p, const F &f) { parallel_for(std::string(), p, f); }

inline void fence() {}
inline void fence(const std::string &) {}
struct InitializationSettings {};
template <class... A> void initialize(A &&...) {}
inline void finalize() {}
[[noreturn]] inline void abort(const char *m) { throw std::runtime_error(std::string("Kokkos::abort: ") + m); }
#ifdef FVC_SNAP
template <class A, class B> A atomic_fetch_add(A *p, B v) {
    auto &s = fvc_par::snap(); if (!s.on) { A o = *p; *p += v; return o; }
    A o = *p; for (auto &a : s.at) if (a.p == (char *)p) a.f((char *)&o);
    s.at.push_back({(char *)p, sizeof(A), [v](char *q) { *(A *)q += v; }}); return o;
}
#elif defined(FVC_THREADS)
// (relaxed: orders nothing but the access itself)
template <class A, class B> A atomic_fetch_add(A *p, B v) { A o, w; __atomic_load(p, &o, __ATOMIC_RELAXED); do w = o + v; while (!__atomic_compare_exchange(p, &o, &w, true, __ATOMIC_RELAXED, __ATOMIC_RELAXED)); return o; }
#else
template <class A, class B> A atomic_fetch_add(A *p, B v) { A o = *p; *p += v; return o; }
#endif
template <class A, class B> void atomic_add(A *p, B v) { atomic_fetch_add(p, v); }
template <class A> void atomic_inc(A *p) { atomic_fetch_add(p, 1); }
template <class A> bool isfinite(A x) { return std::isfinite(x); }
template <class A> const A &min(const A &a, const A &b) { return b < a ? b : a; }
template <class A> const A &max(const A &a, const A &b) { return a < b ? b : a; }
enum class Iterate { Default, Left, Right };
template <int N, Iterate A = Iterate::Default, Iterate B = Iterate::Default> struct Rank {};
template <class... R> struct MDRangePolicy;
template <int N, Iterate A, Iterate B> struct MDRangePolicy<Rank<N, A, B>> {
    long lo[6], hi[6];
    template <class L, class H> MDRangePolicy(std::initializer_list<L> l, std::initializer_list<H> h) { int i = 0; for (auto x : l) lo[i++] = (long)x; i = 0; for (auto x : h) hi[i++] = (long)x; }
    MDRangePolicy(std::initializer_list<long> l, std::initializer_list<long> h) { int i = 0; for (auto x : l) lo[i++] = x; i = 0; for (auto x : h) hi[i++] = x; }
};
template <class... R> struct RangePolicy { long lo, hi; RangePolicy(long a, long b) : lo(a), hi(b) {} };
template <class Ar, int N, int D, class F, class R, class... I> void red_rec(const long *lo, const long *hi, const F &f, R &r, I... i) {
    if constexpr (D == N) f(i..., r); else for (long k = lo[D]; k < hi[D]; k++) red_rec<Ar, N, D + 1>(lo, hi, f, r, i..., (int)k);
}
template <int N, int D, class F, class... I> void for_rec(const long *lo, const long *hi, const F &f, I... i) {
    if constexpr (D == N) f(i...); else for (long k = lo[D]; k < hi[D]; k++) for_rec<N, D + 1>(lo, hi, f, i..., (int)k);
}
template <int N, Iterate A, Iterate B, class F, class R> void parallel_reduce(const MDRangePolicy<Rank<N, A, B>> &p, const F &f, R &r) { R t{}; red_rec<int, N, 0>(p.lo, p.hi, f, t); r = t; }
template <int N, Iterate A, Iterate B, class F, class R> void parallel_reduce(const std::string &, const MDRangePolicy<Rank<N, A, B>> &p, const F &f, R &r) { R t{}; red_rec<int, N, 0>(p.lo, p.hi, f, t); r = t; }
template <int N, Iterate A, Iterate B, class F> void parallel_for(const MDRangePolicy<Rank<N, A, B>> &p, const F &f) { for_rec<N, 0>(p.lo, p.hi, f); }
template <class F> void parallel_for(size_t n, const F &f) { for (size_t i = 0; i < n; i++) f((int)i); }
template <class F> void parallel_for(const std::string &, size_t n, const F &f) { for (size_t i = 0; i < n; i++) f((int)i); }
template <class F> void parallel_for(const RangePolicy<> &p, const F &f) { for (long i = p.lo; i < p.hi; i++) f((int)i); }
template <class T> struct reduction_identity { static T sum() { return T(0); } static T prod() { return T(1); } };
struct Timer { double seconds() { return 0; } void reset() {} };
struct DefaultExecutionSpace {};
struct HostSpace {};
template <class T> struct Max { T &r; Max(T &x) : r(x) {} };
template <class... T> struct View {};
} // namespace Kokkos
using namespace mtr;
