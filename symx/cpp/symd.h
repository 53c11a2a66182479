// A real number that is either a concrete double or a handle of a symbolic Term
// kept by the Python side.  The solver sources are compiled with `double`
// replaced by this type, so the repository's own C++ is what is executed.
#ifndef SYMD_H
#define SYMD_H
#include <cmath>
#include <cstdint>
#include <cstdlib>
#include <limits>
#include <ostream>
#include <type_traits>

typedef int64_t (*symd_op_t)(int code, double av, int64_t ah, double bv, int64_t bh, double* outv);
typedef int (*symd_cmp_t)(int code, double av, int64_t ah, double bv, int64_t bh);
extern symd_op_t g_symd_op;
extern symd_cmp_t g_symd_cmp;
struct SymAbort {};

struct SymD {
    double v;
    int64_t h;
    constexpr SymD() : v(0), h(0) {}
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
    constexpr SymD(T x) : v((double)x), h(0) {}
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type>
    explicit operator T() const {
        if (h) {
            double o;
            if (g_symd_op(20, v, h, 0, 0, &o) < 0) throw SymAbort();
            return (T)o;
        }
        return (T)v;
    }
    SymD& operator+=(const SymD& o) { return *this = bin(0, *this, o); }
    SymD& operator-=(const SymD& o) { return *this = bin(1, *this, o); }
    SymD& operator*=(const SymD& o) { return *this = bin(2, *this, o); }
    SymD& operator/=(const SymD& o) { return *this = bin(3, *this, o); }
    SymD operator-() const { return bin(1, SymD(0.0), *this); }
    SymD operator+() const { return *this; }
    SymD& operator++() { return *this += SymD(1); }
    static SymD bin(int c, const SymD& a, const SymD& b) {
        SymD r;
        if (!a.h && !b.h) {
            switch (c) {
            case 0: r.v = a.v + b.v; return r;
            case 1: r.v = a.v - b.v; return r;
            case 2: r.v = a.v * b.v; return r;
            case 3: r.v = a.v / b.v; return r;
            }
        }
        double o = 0;
        int64_t h = g_symd_op(c, a.v, a.h, b.v, b.h, &o);
        if (h < 0) throw SymAbort();
        r.v = o; r.h = h;
        return r;
    }
    static SymD un(int c, const SymD& a) {
        SymD r;
        double o = 0;
        int64_t h = g_symd_op(c, a.v, a.h, 0, 0, &o);
        if (h < 0) throw SymAbort();
        r.v = o; r.h = h;
        return r;
    }
    static bool cmp(int c, const SymD& a, const SymD& b) {
        if (!a.h && !b.h) {
            switch (c) {
            case 0: return a.v < b.v;
            case 1: return a.v <= b.v;
            case 2: return a.v > b.v;
            case 3: return a.v >= b.v;
            case 4: return a.v == b.v;
            case 5: return a.v != b.v;
            }
        }
        int r = g_symd_cmp(c, a.v, a.h, b.v, b.h);
        if (r < 0) throw SymAbort();
        return r != 0;
    }
};
#define SYMD_BIN(op, code)                                                                  \
    inline SymD operator op(const SymD& a, const SymD& b) { return SymD::bin(code, a, b); } \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
    inline SymD operator op(const SymD& a, T b) { return SymD::bin(code, a, SymD(b)); }     \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
    inline SymD operator op(T a, const SymD& b) { return SymD::bin(code, SymD(a), b); }
SYMD_BIN(+, 0)
SYMD_BIN(-, 1)
SYMD_BIN(*, 2)
SYMD_BIN(/, 3)
#define SYMD_CMP(op, code)                                                                  \
    inline bool operator op(const SymD& a, const SymD& b) { return SymD::cmp(code, a, b); } \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
    inline bool operator op(const SymD& a, T b) { return SymD::cmp(code, a, SymD(b)); }     \
    template <class T, class = typename std::enable_if<std::is_arithmetic<T>::value>::type> \
    inline bool operator op(T a, const SymD& b) { return SymD::cmp(code, SymD(a), b); }
SYMD_CMP(<, 0)
SYMD_CMP(<=, 1)
SYMD_CMP(>, 2)
SYMD_CMP(>=, 3)
SYMD_CMP(==, 4)
SYMD_CMP(!=, 5)
inline std::ostream& operator<<(std::ostream& o, const SymD& a) { return o << a.v; }

inline SymD symd_fabs(const SymD& a) { return a.h ? SymD::un(10, a) : SymD(std::fabs(a.v)); }
inline SymD symd_sqrt(const SymD& a) { return a.h ? SymD::un(11, a) : SymD(std::sqrt(a.v)); }
inline SymD symd_pow(const SymD& a, const SymD& b) {
    return a.h || b.h ? SymD::bin(12, a, b) : SymD(std::pow(a.v, b.v));
}
inline SymD symd_ceil(const SymD& a) { return a.h ? SymD::un(13, a) : SymD(std::ceil(a.v)); }
inline SymD symd_floor(const SymD& a) { return a.h ? SymD::un(14, a) : SymD(std::floor(a.v)); }
inline SymD symd_exp(const SymD& a) { return a.h ? SymD::un(15, a) : SymD(std::exp(a.v)); }
inline SymD symd_log(const SymD& a) { return a.h ? SymD::un(16, a) : SymD(std::log(a.v)); }
inline bool symd_isnan(const SymD& a) { return !a.h && std::isnan(a.v); }
inline bool symd_isinf(const SymD& a) { return !a.h && std::isinf(a.v); }
inline bool symd_isfinite(const SymD& a) { return a.h || std::isfinite(a.v); }
inline SymD fabs(const SymD& a) { return symd_fabs(a); }
inline SymD sqrt(const SymD& a) { return symd_sqrt(a); }
inline SymD abs(const SymD& a) { return symd_fabs(a); }
inline SymD pow(const SymD& a, const SymD& b) { return symd_pow(a, b); }
inline SymD ceil(const SymD& a) { return symd_ceil(a); }
inline SymD floor(const SymD& a) { return symd_floor(a); }
inline SymD exp(const SymD& a) { return symd_exp(a); }
inline SymD log(const SymD& a) { return symd_log(a); }
inline bool isnan(const SymD& a) { return symd_isnan(a); }
inline bool isinf(const SymD& a) { return symd_isinf(a); }
inline bool isfinite(const SymD& a) { return symd_isfinite(a); }
namespace std {
inline SymD fabs(const SymD& a) { return symd_fabs(a); }
inline SymD sqrt(const SymD& a) { return symd_sqrt(a); }
inline SymD abs(const SymD& a) { return symd_fabs(a); }
inline SymD pow(const SymD& a, const SymD& b) { return symd_pow(a, b); }
inline SymD ceil(const SymD& a) { return symd_ceil(a); }
inline SymD floor(const SymD& a) { return symd_floor(a); }
inline SymD exp(const SymD& a) { return symd_exp(a); }
inline SymD log(const SymD& a) { return symd_log(a); }
inline SymD fmax(const SymD& a, const SymD& b) { return a < b ? b : a; }
inline SymD fmin(const SymD& a, const SymD& b) { return b < a ? b : a; }
inline bool isnan(const SymD& a) { return symd_isnan(a); }
inline bool isinf(const SymD& a) { return symd_isinf(a); }
inline bool isfinite(const SymD& a) { return symd_isfinite(a); }
template <>
struct numeric_limits<SymD> {
    static constexpr bool is_specialized = true;
    static constexpr bool is_exact = false;
    static constexpr bool is_integer = false;
    static constexpr bool is_signed = true;
    static constexpr bool has_infinity = true;
    static constexpr bool has_quiet_NaN = true;
    static constexpr SymD max() { return SymD(numeric_limits<double>::max()); }
    static constexpr SymD min() { return SymD(numeric_limits<double>::min()); }
    static constexpr SymD lowest() { return SymD(numeric_limits<double>::lowest()); }
    static constexpr SymD epsilon() { return SymD(numeric_limits<double>::epsilon()); }
    static constexpr SymD infinity() { return SymD(numeric_limits<double>::infinity()); }
    static constexpr SymD quiet_NaN() { return SymD(numeric_limits<double>::quiet_NaN()); }
};
}  // namespace std
#endif
