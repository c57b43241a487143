// Stand-in for the iir1 library (not available offline): Butterworth filters of even order as cascades of biquads.
#pragma once
#include <cmath>
#include <stdexcept>
#include <vector>
namespace Iir {
namespace Butterworth {
template <int N, bool High> class Filter {
  struct Section {
    double b0 = 1, b1 = 0, b2 = 0, a1 = 0, a2 = 0, z1 = 0, z2 = 0;
  };
  Section s[N / 2];

public:
  void setup(double rate, double f) {
    if (!(f > 0) || !(f < rate / 2)) throw std::invalid_argument("The cutoff frequency needs to be < Nyquist.");
    const double w = 2 * 3.14159265358979323846 * f / rate, c = std::cos(w);
    for (int k = 0; k < N / 2; k++) {
      const double q = 1 / (2 * std::cos(3.14159265358979323846 * (2 * k + 1) / (2 * N)));
      const double al = std::sin(w) / (2 * q), a0 = 1 + al;
      auto &x = s[k];
      x.b1 = (High ? -(1 + c) : 1 - c) / a0;
      x.b0 = x.b2 = (High ? 1 + c : 1 - c) / 2 / a0;
      x.a1 = -2 * c / a0;
      x.a2 = (1 - al) / a0;
    }
    reset();
  }
  void reset() {
    for (auto &x : s) x.z1 = x.z2 = 0;
  }
  template <class T> T filter(T v) {
    double in = v;
    for (auto &x : s) {
      const double out = x.b0 * in + x.z1;
      x.z1 = x.b1 * in - x.a1 * out + x.z2;
      x.z2 = x.b2 * in - x.a2 * out;
      in = out;
    }
    return static_cast<T>(in);
  }
};
template <int N> using LowPass = Filter<N, false>;
template <int N> using HighPass = Filter<N, true>;
} // namespace Butterworth
} // namespace Iir
