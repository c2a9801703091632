// One wrapper per public operation of the library.  A wrapper binds the operand
// slots to library matrices, makes exactly one library call between x.begin()
// and x.end(), and hands the result over.  Everything observable (result, error,
// operands afterwards, allocations, output) is logged by the dispatcher.
#ifndef VERIF_OPS_HPP_
#define VERIF_OPS_HPP_
#include <array>
#include <vector>
#include <map>
#include <string>
#include <cstring>
#include <cstdlib>
#include <cstdio>
#include <stdexcept>
#include <algorithm>
#include <iostream>
#include <sstream>
#include "scalars.hpp"
#include "matrix.hpp"

using namespace mlib;

struct Slot { unsigned char* p = nullptr; int r = 0, c = 0; size_t bytes = 0; };

struct Ctx {
  Slot *a = nullptr, *b = nullptr;
  size_t i = 0, j = 0;           // indices
  long long e = 0;               // exponent
  float eps = 0;                 // tolerance
  std::string s;                 // scalar operand, textual
  // results
  std::vector<unsigned char> m1, m2; int r1 = 0, c1 = 0, r2 = 0, c2 = 0;
  bool has1 = false, has2 = false;
  std::string json;              // non-matrix result, ready-made JSON
  long allocs = 0;
  bool measuring = false;
  void begin(); void end();
};

// ---- textual form of element values -------------------------------------
template<class T> struct Io;
template<class T> struct IoInt {
  static T parse(const std::string& s) { return static_cast<T>(std::stoll(s)); }
  static std::string fmt(const T& v) { return std::to_string(static_cast<long long>(v)); }
};
template<class T> struct IoUns {
  static T parse(const std::string& s) { return static_cast<T>(std::stoull(s)); }
  static std::string fmt(const T& v) { return std::to_string(static_cast<unsigned long long>(v)); }
};
template<> struct Io<u8> : IoInt<u8> {};
template<> struct Io<i8> : IoInt<i8> {};
template<> struct Io<u16> : IoInt<u16> {};
template<> struct Io<i16> : IoInt<i16> {};
template<> struct Io<i32> : IoInt<i32> {};
template<> struct Io<u32> : IoInt<u32> {};
template<> struct Io<i64> : IoInt<i64> {};
template<> struct Io<lng> : IoInt<lng> {};
template<> struct Io<u64> : IoUns<u64> {};
template<class T> std::string hexf(const T& v) { char b[64]; std::snprintf(b, sizeof b, "%La", static_cast<long double>(v)); return b; }
template<class T> struct IoF {
  static T parse(const std::string& s) { return static_cast<T>(std::strtold(s.c_str(), nullptr)); }
  static std::string fmt(const T& v) { return "\"" + hexf(v) + "\""; }
};
template<> struct Io<f32> : IoF<f32> {};
template<> struct Io<f64> : IoF<f64> {};
template<> struct Io<ld> : IoF<ld> {};
template<class F> struct Io<std::complex<F>> {
  static std::complex<F> parse(const std::string& s)
  { size_t k = s.find(';'); return k == std::string::npos ? std::complex<F>(IoF<F>::parse(s)) : std::complex<F>(IoF<F>::parse(s.substr(0, k)), IoF<F>::parse(s.substr(k + 1))); }
  static std::string fmt(const std::complex<F>& v) { return "\"" + hexf(v.real()) + ";" + hexf(v.imag()) + "\""; }
};
template<int Tag> struct Io<Gf<Tag>> {
  static Gf<Tag> parse(const std::string& s) { return Gf<Tag>::raw(static_cast<uint32_t>(std::stoul(s))); }
  static std::string fmt(const Gf<Tag>& v) { return v.ok() ? std::to_string(v.v) : std::string("-1"); }
};

template<class T> void parse_into(unsigned char* p, const char* const* w, size_t n)
{ for (size_t k = 0; k < n; ++k) { T t = Io<T>::parse(w[k]); std::memcpy(p + k * sizeof(T), static_cast<const void*>(&t), sizeof(T)); } }
template<class T> std::string fmt_from(const unsigned char* p, size_t k)
{ alignas(T) unsigned char b[sizeof(T)]; std::memcpy(b, p + k * sizeof(T), sizeof(T)); return Io<T>::fmt(*reinterpret_cast<T*>(b)); }

struct TypeOps {
  size_t size;
  void (*parse)(unsigned char*, const char* const*, size_t);
  std::string (*fmt)(const unsigned char*, size_t);
};
template<class T> TypeOps type_ops() { return { sizeof(T), &parse_into<T>, &fmt_from<T> }; }

// ---- helpers -------------------------------------------------------------
template<class T, size_t R, size_t C> Matrix<T, R, C>& mat(Slot* s)
{
  if (s->r != int(R) || s->c != int(C)) { std::fprintf(stderr, "harness: shape %dx%d is not %zux%zu\n", s->r, s->c, R, C); std::_Exit(3); }
  return *reinterpret_cast<Matrix<T, R, C>*>(s->p);
}
template<class T, size_t R, size_t C> void put(std::vector<unsigned char>& v, int& r, int& c, const Matrix<T, R, C>& z)
{ v.resize(sizeof z); std::memcpy(v.data(), static_cast<const void*>(&z), sizeof z); r = R; c = C; }
template<class T, size_t R, size_t C> void out(Ctx& x, const Matrix<T, R, C>& z) { put(x.m1, x.r1, x.c1, z); x.has1 = true; }
template<class T, size_t R, size_t C> void out2(Ctx& x, const Matrix<T, R, C>& z) { put(x.m2, x.r2, x.c2, z); x.has2 = true; }
template<class T> void out_s(Ctx& x, const T& v) { x.json = Io<T>::fmt(v); }
inline void out_b(Ctx& x, bool v) { x.json = v ? "1" : "0"; }
template<class T> void out_map(Ctx& x, const std::map<T, std::size_t>& m)
{
  x.json = "[";
  for (auto it = m.begin(); it != m.end(); ++it) {
    if (it != m.begin()) x.json += ",";
    x.json += "[" + Io<T>::fmt(it->first) + "," + std::to_string(it->second) + "]";
  }
  x.json += "]";
}

#define A_(R, C) const Matrix<T, R, C>& A = mat<T, R, C>(x.a)
#define B_(R, C) const Matrix<T, R, C>& B = mat<T, R, C>(x.b)
#define S_ const T s = Io<T>::parse(x.s)
#define RUN(expr) x.begin(); auto z = (expr); x.end()

#define TRC template<class T, size_t R, size_t C> void
#define TN  template<class T, size_t N> void

// element-wise
TRC op_sum(Ctx& x)   { A_(R, C); B_(R, C); RUN(mlib::sum(A, B)); out(x, z); }
TRC op_add(Ctx& x)   { A_(R, C); B_(R, C); RUN(A + B); out(x, z); }
TRC op_sub(Ctx& x)   { A_(R, C); B_(R, C); RUN(mlib::sub(A, B)); out(x, z); }
TRC op_minus(Ctx& x) { A_(R, C); B_(R, C); RUN(A - B); out(x, z); }
TRC op_sums(Ctx& x)  { A_(R, C); S_; RUN(mlib::sum(A, s)); out(x, z); }
TRC op_adds(Ctx& x)  { A_(R, C); S_; RUN(A + s); out(x, z); }
TRC op_sadd(Ctx& x)  { A_(R, C); S_; RUN(s + A); out(x, z); }
TRC op_subs(Ctx& x)  { A_(R, C); S_; RUN(mlib::sub(A, s)); out(x, z); }
TRC op_minuss(Ctx& x){ A_(R, C); S_; RUN(A - s); out(x, z); }
TRC op_mults(Ctx& x) { A_(R, C); S_; RUN(mlib::mult(A, s)); out(x, z); }
TRC op_muls(Ctx& x)  { A_(R, C); S_; RUN(A * s); out(x, z); }
TRC op_smul(Ctx& x)  { A_(R, C); S_; RUN(s * A); out(x, z); }
TRC op_div(Ctx& x)   { A_(R, C); S_; RUN(mlib::div(A, s)); out(x, z); }
TRC op_divop(Ctx& x) { A_(R, C); S_; RUN(A / s); out(x, z); }
TRC op_abs(Ctx& x)   { A_(R, C); RUN(mlib::abs(A)); out(x, z); }
TRC op_inc(Ctx& x)   { A_(R, C); RUN(A++); out(x, z); }
TRC op_dec(Ctx& x)   { A_(R, C); RUN(A--); out(x, z); }
// products
template<class T, size_t N, size_t M, size_t P> void op_mult(Ctx& x) { A_(N, M); B_(M, P); RUN(mlib::mult(A, B)); out(x, z); }
template<class T, size_t N, size_t M, size_t P> void op_mul(Ctx& x)  { A_(N, M); B_(M, P); RUN(A * B); out(x, z); }
template<class T> void op_strassen(Ctx& x) { A_(2, 2); B_(2, 2); RUN(mlib::strassen(A, B)); out(x, z); }
// linear algebra
TN op_det(Ctx& x)  { A_(N, N); RUN(mlib::det(A)); out_s<T>(x, z); }
TN op_inv(Ctx& x)  { A_(N, N); RUN(mlib::inv(A)); out(x, z); }
template<class T, size_t N, class P> void op_pow(Ctx& x) { A_(N, N); const P p = static_cast<P>(x.e); RUN(mlib::pow(A, p)); out(x, z); }
TN op_lu(Ctx& x)   { A_(N, N); RUN(mlib::lu(A)); out(x, z.first); out2(x, z.second); }
TN op_chol(Ctx& x) { A_(N, N); RUN(mlib::chol(A)); out(x, z); }
// data movement
TRC op_trans(Ctx& x) { A_(R, C); RUN(mlib::trans(A)); out(x, z); }
TRC op_swapr(Ctx& x) { Matrix<T, R, C>& A = mat<T, R, C>(x.a); x.begin(); mlib::swap_rows(A, x.i, x.j); x.end(); }
TRC op_swapc(Ctx& x) { Matrix<T, R, C>& A = mat<T, R, C>(x.a); x.begin(); mlib::swap_cols(A, x.i, x.j); x.end(); }
TN op_minor(Ctx& x)  { A_(N, N); RUN(mlib::getminor(A, x.i, x.j)); out(x, z); }
template<class T, size_t I1, size_t I2, size_t J> void op_catv(Ctx& x) { A_(I1, J); B_(I2, J); RUN(mlib::concatenate(A, B)); const Matrix<T, I1 + I2, J>& q = z; out(x, q); }
template<class T, size_t I, size_t J1, size_t J2> void op_cath(Ctx& x) { A_(I, J1); B_(I, J2); RUN(mlib::concatenate(A, B)); const Matrix<T, I, J1 + J2>& q = z; out(x, q); }
TN op_catV(Ctx& x)    { A_(N, N); B_(N, N); RUN(mlib::concatenateV(A, B)); out(x, z); }
TN op_catH(Ctx& x)    { A_(N, N); B_(N, N); RUN(mlib::concatenateH(A, B)); out(x, z); }
TN op_catpair(Ctx& x) { A_(N, N); B_(N, N); RUN(mlib::concatenate(A, B)); out(x, z.first); out2(x, z.second); }
// constructors
TRC op_fill(Ctx& x)  { S_; x.begin(); auto z = mlib::fill<T, R, C>(s); x.end(); out(x, z); }
TRC op_zeros(Ctx& x) { x.begin(); auto z = mlib::zeros<T, R, C>(); x.end(); out(x, z); }
TRC op_ones(Ctx& x)  { x.begin(); auto z = mlib::ones<T, R, C>(); x.end(); out(x, z); }
template<class T, size_t N> void op_onessq(Ctx& x) { x.begin(); auto z = mlib::ones<T, N>(); x.end(); out(x, z); }
TRC op_onesu(Ctx& x) { x.begin(); auto z = mlib::ones<R, C>(); x.end(); out(x, z); }
TN op_eye(Ctx& x)    { x.begin(); auto z = mlib::eye<T, N>(); x.end(); out(x, z); }
TN op_eyes(Ctx& x)   { S_; x.begin(); auto z = mlib::eye<T, N>(s); x.end(); out(x, z); }
// predicates
TRC op_cmp(Ctx& x)   { A_(R, C); B_(R, C); RUN(mlib::compare(A, B, x.eps)); out_b(x, z); }
TN op_isid(Ctx& x)   { A_(N, N); RUN(mlib::isIdentity(A)); out_b(x, z); }
TN op_issym(Ctx& x)  { A_(N, N); RUN(mlib::isSymetric(A)); out_b(x, z); }
// histograms and statistics
TRC op_hist(Ctx& x)    { A_(R, C); RUN(mlib::histogram(A)); out_map<T>(x, z); }
TRC op_cumhist(Ctx& x) { A_(R, C); RUN(mlib::cumulative_histogram(A)); out_map<T>(x, z); }
TRC op_mean(Ctx& x)    { A_(R, C); RUN(mlib::mean(A)); out_s<T>(x, z); }
TRC op_median(Ctx& x)  { A_(R, C); RUN(mlib::median(A)); out_s<T>(x, z); }
TRC op_var(Ctx& x)     { A_(R, C); RUN(mlib::var(A)); out_s<T>(x, z); }
TRC op_stddev(Ctx& x)  { A_(R, C); RUN(mlib::stddev(A)); out_s<T>(x, z); }
// convolution
TRC op_conv(Ctx& x)  { A_(R, C); B_(3, 3); RUN(mlib::conv2(A, B)); out(x, z); }
TRC op_convf(Ctx& x) { A_(R, C); B_(3, 3); RUN(mlib::conv2_full(A, B)); out(x, z); }
TRC op_convv(Ctx& x) { A_(R, C); B_(3, 3); RUN(mlib::conv2_valid(A, B)); out(x, z); }
// output
// how the caller has set up std::cout (print must neither ignore nor change it)
inline std::ios& caller_format() { static std::ios f(nullptr); return f; }
std::string capture_begin(); std::string capture_end();
std::string codes(const std::string& s);
TRC op_print(Ctx& x)
{
  A_(R, C);
  std::string tok = "[";
  for (size_t i = 0; i < R; ++i) {
    tok += i ? ",[" : "[";
    for (size_t j = 0; j < C; ++j) {
      std::ostringstream os; os.copyfmt(caller_format());
      if (i || j) os.width(0);              // a width is for the next element only
      os << A[i][j];
      tok += (j ? "," : "") + codes(os.str());
    }
    tok += "]";
  }
  capture_begin();
  std::cout.width(caller_format().width());
  x.begin(); mlib::print(A); x.end();
  const std::string text = capture_end();
  x.json = "{\"text\":" + codes(text) + ",\"tok\":" + tok + "]}";
}

struct Entry { const char* key; void (*fn)(Ctx&); };
void register_ops(const Entry* e, size_t n);
#endif
