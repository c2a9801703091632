// A translation unit that includes the umbrella header and nothing else, and uses every public operation.
#include "matrix.hpp"
#ifdef BARE_TWICE
#include "matrix.hpp"
#endif

namespace {
template<class T> double use_ring()
{
  using namespace mlib;
  Matrix<T, 2, 3> A = fill<T, 2, 3>(2);
  Matrix<T, 3, 2> B = trans(A);
  Matrix<T, 3, 3> K = eye<T, 3>();
  Matrix<T, 3, 3> O = ones<T, 3, 3>() + ones<T, 3>() - zeros<T, 3, 3>();
  Matrix<T, 2, 2> P = A * B, Q = mult(A, B);
  P = sum(P, Q); P = sub(P, Q); P = strassen(P, Q); P = mult(P, T(2)); P = T(2) * P * T(1); P = P + T(1); P = T(1) + P; P = P - T(1);
  P = sum(P, T(1)); P = sub(P, T(1));
  P = P++; P = P--; P = P / T(1); P = mlib::div(P, T(1));
  swap_rows(K, 0, 1); swap_cols(K, 0, 1);
  const Matrix<T, 5, 3> V = concatenate(A, O);
  const Matrix<T, 3, 5> H = concatenate(B, O);
  const Matrix<T, 6, 3> CV = concatenateV(K, O);
  const Matrix<T, 3, 6> CH = concatenateH(K, O);
  const std::pair<Matrix<T, 6, 3>, Matrix<T, 3, 6>> pair = concatenate(K, O);
  const Matrix<T, 3, 3> c1 = conv2(K, O), c3 = conv2_valid(fill<T, 5, 5>(1), O);
  const Matrix<T, 5, 5> c2 = conv2_full(K, O);
  const Matrix<T, 2, 2> minor = getminor(K, 0, 1);
  double r = double(V[0][0] + H[0][0] + CV[0][0] + CH[0][0] + pair.first[0][0] + c1[0][0] + c2[0][0] + c3[0][0] + minor[0][0]);
  r += double(mean(A)) + double(median(A)) + double(det(K)) + double(det(eye<T, 4>())) + double(mlib::pow(K, 3)[0][0]);
  r += double(histogram(A).size() + cumulative_histogram(A).size());
  r += double(isIdentity(K)) + double(isSymetric(K)) + double(compare(K, O, 0.5f)) + double(mlib::abs(K)[0][0]);
  return r;
}
template<class T> double use_field()
{
  using namespace mlib;
  const auto K = eye<T, 4>(T(4));
  const auto lu_ = lu(K);
  double r = double(inv(K)[0][0] + inv(eye<T, 1>())[0][0] + inv(eye<T, 2>())[0][0] + inv(eye<T, 3>())[0][0] + chol(K)[0][0] + lu_.first[0][0] + lu_.second[0][0]);
  return r + double(var(K)) + double(stddev(K)) + double(mlib::pow(K, -2)[0][0]);
}
}

double BARE()
{
  const double r = use_ring<int>() + use_ring<double>() + use_ring<float>() + use_field<float>() + use_field<double>();
  if (r < -1e300) { mlib::print(mlib::ones<2, 2>()); mlib::print(mlib::ones<double, 2, 3>()); }
  return r;
}
