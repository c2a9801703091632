// Element types the conformance driver instantiates the library with.
//
// Gf<0>  : integers modulo a prime chosen at run time.  Every library algorithm
//          that only needs +,-,*,/ and == runs on it without rounding, so the
//          specification decides its results exactly.
// Gf<1>  : the same, but every element operation is a scheduling point.
//
// A value that is not in 0..mod-1 is "poison": uninitialised memory (the build
// fills it with a pattern), or the result of dividing by zero.  Poison is
// sticky and never equal to anything the specification computes.
#ifndef VERIF_SCALARS_HPP_
#define VERIF_SCALARS_HPP_
#include <cstdint>
#include <cmath>
#include <complex>
#include <limits>
#include <type_traits>
#include <iosfwd>
#include <ostream>

extern int gf_mod;
void sched_point();              // called by Gf<1> operations

template<class N> using arith_t = typename std::enable_if<std::is_arithmetic<N>::value, int>::type;

template<int Tag> struct Gf;
template<int Tag> struct GfYield { static void y() {} };
template<> struct GfYield<1> { static void y() { sched_point(); } };

static const uint32_t GF_POISON = 0xFEFEFEFEu;

template<int Tag> struct GfBase { uint32_t v; };

// Gf<0> is trivially copyable, Gf<1> is not (copies are scheduling points)
template<int Tag> struct GfStore : GfBase<Tag> { };
template<> struct GfStore<1> : GfBase<1> {
  GfStore() = default;
  GfStore(const GfStore& o) : GfBase<1>() { sched_point(); v = o.v; }
  GfStore& operator=(const GfStore& o) { sched_point(); v = o.v; return *this; }
};

template<int Tag> struct Gf : GfStore<Tag>
{
  using GfStore<Tag>::v;
  Gf() = default;
  Gf(const Gf&) = default;
  Gf& operator=(const Gf&) = default;

  template<class N, arith_t<N> = 0> Gf(N n) { v = conv(n, std::is_floating_point<N>()); }
  template<class N> static uint32_t conv(N n, std::true_type)
  {
    if (!(n == std::floor(n)) || n > 1e15 || n < -1e15) return GF_POISON;
    return conv(static_cast<long long>(n), std::false_type());
  }
  template<class N> static uint32_t conv(N n, std::false_type)
  {
    // signed: reduce; unsigned: never sign-converted
    if (std::is_signed<N>::value) {
      long long x = static_cast<long long>(n) % gf_mod;
      return static_cast<uint32_t>(x < 0 ? x + gf_mod : x);
    }
    return static_cast<uint32_t>(static_cast<unsigned long long>(n) % static_cast<unsigned>(gf_mod));
  }
  static Gf raw(uint32_t x) { Gf g; g.v = x; return g; }
  bool ok() const { return v < static_cast<uint32_t>(gf_mod); }
  static void y() { GfYield<Tag>::y(); }

  static uint32_t add(uint32_t a, uint32_t b) { return (a + b) % static_cast<uint32_t>(gf_mod); }
  static uint32_t mul(uint32_t a, uint32_t b) { return static_cast<uint32_t>((static_cast<uint64_t>(a) * b) % static_cast<uint32_t>(gf_mod)); }
  static uint32_t inv(uint32_t a)
  {
    uint32_t r = 1 % gf_mod, e = static_cast<uint32_t>(gf_mod) - 2, b = a;
    while (e) { if (e & 1) r = mul(r, b); b = mul(b, b); e >>= 1; }
    return r;
  }
  friend Gf operator+(const Gf& a, const Gf& b) { y(); return a.ok() && b.ok() ? raw(add(a.v, b.v)) : raw(GF_POISON); }
  friend Gf operator-(const Gf& a, const Gf& b) { y(); return a.ok() && b.ok() ? raw(add(a.v, gf_mod - b.v)) : raw(GF_POISON); }
  friend Gf operator*(const Gf& a, const Gf& b) { y(); return a.ok() && b.ok() ? raw(mul(a.v, b.v)) : raw(GF_POISON); }
  friend Gf operator/(const Gf& a, const Gf& b) { y(); return a.ok() && b.ok() && b.v ? raw(mul(a.v, inv(b.v))) : raw(GF_POISON); }
#define VGF_MIXED(o) \
  template<class N, arith_t<N> = 0> friend Gf operator o(const Gf& a, N n) { return a o Gf(n); } \
  template<class N, arith_t<N> = 0> friend Gf operator o(N n, const Gf& a) { return Gf(n) o a; }
  VGF_MIXED(+) VGF_MIXED(-) VGF_MIXED(*) VGF_MIXED(/)
#undef VGF_MIXED
  friend Gf operator-(const Gf& a) { return Gf(0) - a; }
  friend Gf operator+(const Gf& a) { return a; }
  Gf& operator+=(const Gf& o) { return *this = *this + o; }
  Gf& operator-=(const Gf& o) { return *this = *this - o; }
  Gf& operator*=(const Gf& o) { return *this = *this * o; }
  Gf& operator/=(const Gf& o) { return *this = *this / o; }
  Gf& operator++() { return *this += Gf(1); }
  Gf& operator--() { return *this -= Gf(1); }
  Gf operator++(int) { Gf t(*this); ++*this; return t; }
  Gf operator--(int) { Gf t(*this); --*this; return t; }
#define VGF_CMP(o) \
  friend bool operator o(const Gf& a, const Gf& b) { y(); return a.v o b.v; } \
  template<class N, arith_t<N> = 0> friend bool operator o(const Gf& a, N n) { return a o Gf(n); } \
  template<class N, arith_t<N> = 0> friend bool operator o(N n, const Gf& a) { return Gf(n) o a; }
  VGF_CMP(==) VGF_CMP(!=) VGF_CMP(<) VGF_CMP(>) VGF_CMP(<=) VGF_CMP(>=)
#undef VGF_CMP
  template<class N, arith_t<N> = 0> explicit operator N() const { return static_cast<N>(v); }
  friend std::ostream& operator<<(std::ostream& os, const Gf& g) { return os << g.v; }
};

// the root in the lower half 0..(mod-1)/2 plays the non-negative root
template<int Tag> Gf<Tag> sqrt(const Gf<Tag>& a)
{
  if (!a.ok()) return Gf<Tag>::raw(GF_POISON);
  for (uint32_t r = 0; r <= static_cast<uint32_t>(gf_mod) / 2; ++r)
    if (Gf<Tag>::mul(r, r) == a.v) return Gf<Tag>::raw(r);
  return Gf<Tag>::raw(GF_POISON);
}
template<int Tag> Gf<Tag> abs(const Gf<Tag>& a) { return a; }
template<int Tag> Gf<Tag> fabs(const Gf<Tag>& a) { return a; }
template<int Tag, class N> Gf<Tag> pow(Gf<Tag> a, N n) { Gf<Tag> r(1); for (long long k = 0; k < static_cast<long long>(n); ++k) r = r * a; return r; }

// so that a library that says std::sqrt instead of sqrt still compiles
namespace std {
  using ::sqrt;
  using ::abs;
  using ::fabs;
  template<int Tag> class numeric_limits< ::Gf<Tag> > {
  public:
    static constexpr bool is_specialized = true, is_signed = false, is_integer = false, is_exact = true;
    static constexpr bool has_infinity = false, has_quiet_NaN = false;
    static ::Gf<Tag> epsilon() { return ::Gf<Tag>(0); }
    static ::Gf<Tag> min() { return ::Gf<Tag>(0); }
    static ::Gf<Tag> max() { return ::Gf<Tag>(-1); }
    static ::Gf<Tag> lowest() { return ::Gf<Tag>(0); }
  };
}

typedef uint8_t  u8;
typedef int8_t   i8;
typedef uint16_t u16;
typedef int16_t  i16;
typedef signed char schar;
typedef unsigned char uchar;
typedef unsigned short ushort_;
typedef unsigned long ulong_;
typedef long long llong;
typedef unsigned long long ullong;
typedef uint32_t u32;
typedef int32_t  i32;
typedef long long i64;
typedef unsigned long long u64;
typedef long     lng;
typedef float    f32;
typedef double   f64;
typedef long double ld;
typedef std::complex<float> c32;
typedef std::complex<double> c64;
typedef Gf<0>    gf;
typedef Gf<1>    coop;

#endif
