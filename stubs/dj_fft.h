// Stand-in for the dj_fft library (not available offline): the same 1-D transform, scaled by 1/sqrt(N).
#pragma once
#include <cmath>
#include <complex>
#include <vector>
namespace dj {
enum class fft_dir { DIR_FWD = +1, DIR_BWD = -1 };
template <typename T> using fft_arg = std::vector<std::complex<T>>;
template <typename T> fft_arg<T> fft_raw(const fft_arg<T> &x, int dir) {
  const size_t n = x.size();
  if (n <= 1) return x;
  fft_arg<T> a;
  fft_arg<T> b;
  for (size_t i = 0; i < n; i += 2) {
    a.push_back(x[i]);
    b.push_back(x[i + 1]);
  }
  a = fft_raw(a, dir);
  b = fft_raw(b, dir);
  fft_arg<T> y(n);
  for (size_t k = 0; k < n / 2; k++) {
    const auto w = std::polar(T(1), T(-dir * 2 * 3.14159265358979323846 * static_cast<double>(k) / static_cast<double>(n))) * b[k];
    y[k] = a[k] + w;
    y[k + n / 2] = a[k] - w;
  }
  return y;
}
template <typename T> fft_arg<T> fft1d(const fft_arg<T> &x, const fft_dir &dir) {
  auto y = fft_raw(x, static_cast<int>(dir));
  for (auto &v : y) v /= std::sqrt(T(x.size()));
  return y;
}
} // namespace dj
