// C12: the wavelet transform reconstructs, is linear, and blocks are rendered where they belong.
#include "mc.h"
#include <FilterBank/include/Wavelet.h>
#include <Spiht/include/Spiht_Enc.h>
#include <Synthesizer/include/Helper.h>
#include <Tools/include/WavParser.h>
#include <WaveletDecoder/include/WaveletDecoder.h>
#include <array>
#include <map>
#include <sstream>

namespace ht = haptics::types;
using haptics::filterbank::Wavelet;
using haptics::waveletdecoder::WaveletDecoder;
using Sig = std::vector<double>;

static std::vector<Sig> written;
auto haptics::tools::WavParser::saveFile(const std::string &, const std::vector<std::vector<double>> &buff, int) -> bool {
  written = buff;
  return true;
}
auto haptics::tools::WavParser::saveFile(const std::string &, const std::vector<double> &, int) -> bool { return false; }

namespace {
// ------------------------------------------------ CDF 9/7, written down independently
double at(const Sig &x, long i) { // whole-sample symmetric extension
  const long n = static_cast<long>(x.size());
  const long period = 2 * n - 2;
  i = ((i % period) + period) % period;
  return x[static_cast<size_t>(i < n ? i : period - i)];
}
const std::array<double, 5> LOW = {0.852698679009404, 0.377402855612654, -0.110624404418423, -0.023849465019380, 0.037828455506995};
const std::array<double, 4> HIGH = {-0.788485616405665, 0.418092273222212, 0.040689417609559, -0.064538882628938};
Sig forward(Sig x, int levels) {
  size_t n = x.size();
  for (int l = 0; l < levels; l++, n /= 2) {
    const Sig in(x.begin(), x.begin() + static_cast<long>(n));
    for (size_t j = 0; j < n / 2; j++) {
      double lo = 0;
      double hi = 0;
      for (long k = -4; k <= 4; k++) lo += LOW[static_cast<size_t>(std::labs(k))] * at(in, static_cast<long>(2 * j) + k);
      for (long k = -3; k <= 3; k++) hi += HIGH[static_cast<size_t>(std::labs(k))] * at(in, static_cast<long>(2 * j) + 1 + k);
      x[j] = lo;
      x[n / 2 + j] = hi;
    }
  }
  return x;
}
// The inverse of one step: solve the analysis equations, by the inverted matrix.
const std::vector<Sig> &inverseOf(size_t n) {
  static std::map<size_t, std::vector<Sig>> known;
  auto &m = known[n];
  if (!m.empty()) return m;
  std::vector<Sig> a(n, Sig(n));
  for (size_t c = 0; c < n; c++) {
    Sig u(n, 0);
    u[c] = 1;
    u = forward(u, 1);
    for (size_t r = 0; r < n; r++) a[r][c] = u[r];
  }
  m.assign(n, Sig(n, 0));
  for (size_t i = 0; i < n; i++) m[i][i] = 1;
  for (size_t c = 0; c < n; c++) {
    size_t p = c;
    for (size_t r = c + 1; r < n; r++)
      if (std::fabs(a[r][c]) > std::fabs(a[p][c])) p = r;
    std::swap(a[c], a[p]);
    std::swap(m[c], m[p]);
    const double d = a[c][c];
    for (size_t k = 0; k < n; k++) {
      a[c][k] /= d;
      m[c][k] /= d;
    }
    for (size_t r = 0; r < n; r++)
      if (r != c && a[r][c] != 0) {
        const double f = a[r][c];
        for (size_t k = 0; k < n; k++) {
          a[r][k] -= f * a[c][k];
          m[r][k] -= f * m[c][k];
        }
      }
  }
  return m;
}
Sig backward(Sig x, int levels) {
  for (int l = levels - 1; l >= 0; l--) {
    const size_t n = x.size() >> l;
    auto &m = inverseOf(n);
    Sig y(n, 0);
    for (size_t c = 0; c < n; c++)
      if (x[c] != 0)
        for (size_t r = 0; r < n; r++) y[r] += m[r][c] * x[c];
    std::copy(y.begin(), y.end(), x.begin());
  }
  return x;
}
double biggest(const Sig &a) {
  double m = 0;
  for (double v : a) m = std::max(m, std::fabs(v));
  return m;
}
double distance(const Sig &a, const Sig &b) {
  if (a.size() != b.size()) return 1e300;
  double m = 0;
  for (size_t i = 0; i < a.size(); i++) {
    if (std::isnan(a[i]) || std::isnan(b[i])) return 1e300;
    m = std::max(m, std::fabs(a[i] - b[i]));
  }
  return m;
}
std::string show(const Sig &s) {
  std::ostringstream o;
  o << "(" << s.size() << " samples)";
  int n = 0;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] != 0 && n++ < 20) o << " " << i << ":" << s[i];
  return o.str();
}

void signal(mc::Run &r, const Sig &x, int levels, bool oracle) {
  Wavelet w;
  Sig in = x;
  Sig c(x.size(), 99);
  w.DWT(in, levels, c);
  REQUIRE(r, in == x, "changed", "the forward transform changed its input");
  const double eps = 1e-10 * std::max(1.0, biggest(x));
  if (oracle) REQUIRE(r, distance(c, forward(x, levels)) < eps, "forward", "depth " + std::to_string(levels) + ": not the 9/7 transform of " + show(x));
  Sig c2 = c;
  Sig y(x.size(), -77); // the inverse must not depend on what was there
  w.inv_DWT(c2, levels, y);
  REQUIRE(r, c2 == c, "changed", "the inverse transform changed its input");
  REQUIRE(r, distance(x, y) < 100 * eps, "reconstruct",
          "depth " + std::to_string(levels) + ": off by " + std::to_string(distance(x, y)) + " after transforming back " + show(x));
  // the coefficients, taken as a signal of their own
  Sig z(x.size(), 5);
  in = x;
  w.inv_DWT(in, levels, z);
  if (oracle) REQUIRE(r, distance(z, backward(x, levels)) < 100 * eps, "inverse", "depth " + std::to_string(levels) + ": not the inverse transform of the coefficients " + show(x));
  Sig back(x.size(), 1);
  w.DWT(z, levels, back);
  REQUIRE(r, distance(back, x) < 100 * eps, "reconstruct-coefficients", "depth " + std::to_string(levels) + ": coefficients not found again: " + show(x));
  r.step(4);
  r.state(mc::hashBytes(c.data(), c.size() * sizeof(double), x.size()));
}
const std::vector<size_t> LENGTHS = {8, 16, 24, 32, 40, 48, 56, 64, 80, 96, 128, 160, 256, 512};
int deepest(size_t n) {
  int l = 0;
  while (n % 2 == 0 && n >= 8) {
    l++;
    n /= 2;
  }
  return l;
}
void impulses(mc::Run &r) {
  const size_t n = LENGTHS[static_cast<size_t>(r.choose(static_cast<int>(LENGTHS.size()) ))];
  const int levels = 1 + r.choose(deepest(n));
  if (!r.go()) return;
  r.tag("length " + std::to_string(n));
  static const Sig mags = {1, -1, 1e-6, 32767, 0.3};
  const auto at = static_cast<size_t>(r.choose(static_cast<int>(n)));
  Sig x(n, 0);
  x[at] = r.pick(mags);
  r.describe([=] { return "depth " + std::to_string(levels) + " " + show(x); });
  signal(r, x, levels, true);
}
void pairs(mc::Run &r) { // linear in every pair of samples, and steady signals
  const size_t n = LENGTHS[static_cast<size_t>(r.choose(r.thorough() ? 14 : 11))];
  const int levels = 1 + r.choose(deepest(n));
  if (!r.go()) return;
  r.tag("length " + std::to_string(n));
  const auto a = static_cast<size_t>(r.choose(static_cast<int>(n)));
  const auto b = static_cast<size_t>(r.choose(static_cast<int>(n)));
  r.describe([=] { return "samples " + std::to_string(a) + "," + std::to_string(b) + " of " + std::to_string(n); });
  Wavelet w;
  for (bool inverse : {false, true}) {
    auto f = [&](Sig x) {
      Sig y(n, 0);
      inverse ? w.inv_DWT(x, levels, y) : w.DWT(x, levels, y);
      return y;
    };
    Sig x(n, 0);
    x[a] += 3;
    const Sig fx = f(x);
    Sig y(n, 0);
    y[b] -= 0.5;
    const Sig fy = f(y);
    Sig s(n, 0);
    for (size_t i = 0; i < n; i++) s[i] = 2 * x[i] + 5 * y[i];
    const Sig fs = f(s);
    Sig e(n, 0);
    for (size_t i = 0; i < n; i++) e[i] = 2 * fx[i] + 5 * fy[i];
    REQUIRE(r, distance(e, fs) < 1e-10, "linear", std::string(inverse ? "inverse" : "forward") + " depth " + std::to_string(levels) + ": the transform of a sum is not the sum of the transforms, samples " + std::to_string(a) + " and " + std::to_string(b) + " of " + std::to_string(n));
    r.step(3);
  }
  r.state(mc::hashStr(std::to_string(n) + "/" + std::to_string(levels) + "/" + std::to_string(a) + "/" + std::to_string(b)));
}
void small(mc::Run &r) { // all signals of few levels
  const bool wide = r.flip();
  const size_t n = wide ? 16 : 8;
  const int levels = 1 + r.choose(deepest(n));
  const int first = r.choose(9);
  if (!r.go()) return;
  Sig x(n, 0);
  x[0] = first / 3 - 1;
  x[1] = first % 3 - 1;
  if (wide && !r.thorough() && (x[0] == 0 || x[1] == 0)) return;
  for (size_t i = 2; i < n; i++) x[i] = wide ? r.flip() * 2.0 - 1 : r.choose(3) - 1.0;
  r.tag("length " + std::to_string(n));
  r.describe([=] { return "depth " + std::to_string(levels) + " " + show(x); });
  signal(r, x, levels, !wide);
}

// ------------------------------------------------ blocks of a band
struct Coded {
  std::vector<int> coef;
  double scalar = 1;
  int bits = 1;
};
Coded menu(int id, size_t n) {
  Coded c;
  c.coef.assign(n, 0);
  switch (id) {
  case 0: break; // silent
  case 1: c.bits = 3; c.scalar = 0.5; c.coef[0] = 5; c.coef[n - 1] = -7; break;
  case 2: c.bits = 8; c.scalar = 1.5; for (size_t i = 0; i < n; i++) c.coef[i] = static_cast<int>((i * 53) % 255) - 127; break;
  case 3: c.bits = 15; c.scalar = 0.25; for (size_t i = 0; i < n; i += 3) c.coef[i] = i % 2 ? -16384 : 12345; break;
  default: c.bits = 1; c.scalar = 0.0078125; c.coef[n / 2] = 1; break;
  }
  return c;
}
Sig rendered(const Coded &c) {
  Sig x;
  for (int v : c.coef) x.push_back(v * c.scalar / std::pow(2, c.bits));
  int levels = 0;
  for (size_t n = x.size(); n >= 8; n /= 2) levels++;
  return backward(x, levels);
}
ht::Effect coded(const Coded &c, int pos) {
  haptics::spiht::Spiht_Enc enc;
  auto block = c.coef;
  std::vector<unsigned char> bytes;
  enc.encodeEffect(block, c.bits, c.scalar, bytes);
  ht::Effect e;
  e.setEffectType(ht::EffectType::Basis);
  e.setPosition(pos);
  e.setWaveletBitstream(bytes);
  return e;
}
struct Rate {
  int ts, fs;
};
const std::vector<Rate> RATES = {{1000, 1000}, {1000, 8000}, {8000, 8000}, {48000, 8000}, {44100, 44100}, {500, 1000}, {1000, 2000}, {12000, 3000}};
struct Placed {
  Rate rate;
  size_t n = 0;
  int ticks = 0;
  std::vector<std::pair<int, int>> blocks; // slot, contents
};
ht::Band make(const Placed &p) {
  ht::Band b(ht::BandType::WaveletWave, 0, p.rate.fs);
  b.setBlockLength(p.ticks);
  for (auto &[slot, what] : p.blocks) {
    auto e = coded(menu(what, p.n), slot * p.ticks);
    b.addEffect(e);
  }
  return b;
}
Sig expected(const Placed &p, size_t slots) {
  Sig s(slots * p.n, 0);
  for (auto &[slot, what] : p.blocks) {
    const Sig x = rendered(menu(what, p.n));
    std::copy(x.begin(), x.end(), s.begin() + static_cast<long>(static_cast<size_t>(slot) * p.n));
  }
  return s;
}
std::string text(const Placed &p) {
  std::string s = "fs " + std::to_string(p.rate.fs) + " timescale " + std::to_string(p.rate.ts) + " block " + std::to_string(p.n) + " samples:";
  for (auto &b : p.blocks) s += " slot " + std::to_string(b.first) + " contents " + std::to_string(b.second);
  return s;
}
void bands(mc::Run &r) {
  static const std::vector<size_t> lens = {16, 32, 64, 128, 256, 512};
  const int how = r.choose(3);
  Placed p;
  p.rate = RATES[static_cast<size_t>(r.choose(static_cast<int>(RATES.size())))];
  p.n = lens[static_cast<size_t>(r.choose(r.thorough() ? 6 : 5))];
  if (!r.go()) return;
  const long t = static_cast<long>(p.n) * p.rate.ts;
  if (t % p.rate.fs != 0) return; // not a length in ticks
  p.ticks = static_cast<int>(t / p.rate.fs);
  const int slots = r.thorough() ? 5 : 4;
  for (int i = 0; i < slots; i++)
    if (int what = r.choose(6); what > 0) p.blocks.emplace_back(i, what - 1);
  r.tag("fs " + std::to_string(p.rate.fs));
  r.describe([=] { return text(p); });
  const auto S = static_cast<size_t>(slots);
  const Sig want = expected(p, S);
  auto band = make(p);
  r.step();
  if (how == 0) { // as samples, block by block, twice with the same decoder
    WaveletDecoder d;
    for (int again = 0; again < 2; again++) {
      auto b = band;
      d.transformBand(b, static_cast<unsigned>(p.rate.ts));
      REQUIRE(r, b.getEffectsSize() == p.blocks.size(), "blocks", "another number of blocks: " + text(p));
      for (size_t i = 0; i < p.blocks.size(); i++) {
        auto &e = b.getEffectAt(static_cast<int>(i));
        REQUIRE(r, e.getPosition() == p.blocks[i].first * p.ticks, "position", "a block moved to " + std::to_string(e.getPosition()) + ": " + text(p));
        const auto from = want.begin() + static_cast<long>(static_cast<size_t>(p.blocks[i].first) * p.n);
        const double off = distance(e.getWaveletSamples(), Sig(from, from + static_cast<long>(p.n)));
        REQUIRE(r, off < 1e-9, "samples", "block " + std::to_string(i) + " is off by " + std::to_string(off) + ": " + text(p));
      }
    }
  } else if (how == 1) { // as one signal
    WaveletDecoder d;
    for (int again = 0; again < 2; again++) {
      auto b = band;
      Sig got = d.decodeBand(b, p.rate.ts);
      const size_t need = p.blocks.empty() ? 0 : static_cast<size_t>(p.blocks.back().first + 1) * p.n;
      REQUIRE(r, got.size() >= need, "short", "the signal ends after " + std::to_string(got.size()) + " samples: " + text(p));
      const size_t n = std::max(got.size(), want.size());
      got.resize(n, 0);
      Sig w = want;
      w.resize(n, 0);
      REQUIRE(r, distance(got, w) < 1e-9, "signal", "the decoded signal is off by " + std::to_string(distance(got, w)) + ": " + text(p));
    }
  } else { // played, behind another band that was decoded before
    ht::Haptics h("2023", "2023-01-01", "d");
    h.setTimescale(static_cast<unsigned>(p.rate.ts));
    ht::Perception q(0, 0, "p", ht::PerceptionModality::Vibrotactile);
    Placed other = p;
    other.blocks = {{0, 3}, {1, 2}};
    for (int c = 0; c < 2; c++) {
      ht::Channel ch(c, "c", 1, 1, 0);
      auto b = c == 0 ? make(other) : band;
      ch.addBand(b);
      q.addChannel(ch);
    }
    h.addPerception(q);
    const double len = haptics::synthesizer::Helper::getTimeLength(h);
    const int last = std::max(2, p.blocks.empty() ? 0 : p.blocks.back().first + 1);
    REQUIRE(r, std::fabs(len - last * p.ticks) < 1e-6, "length", "the length is " + std::to_string(len) + " ticks, not " + std::to_string(last * p.ticks) + ": " + text(p));
    std::string name = mc::scratch() + "/x.wav";
    written.clear();
    const double all = static_cast<double>(p.ticks) * slots; // to the end of the last slot
    REQUIRE(r, haptics::synthesizer::Helper::playFile(h, all, p.rate.fs, 0, name), "play", "refused: " + text(p));
    REQUIRE(r, written.size() == 2, "play", "not two channels");
    const Sig first = expected(other, S);
    for (int c = 0; c < 2; c++) {
      auto &got = written[static_cast<size_t>(c)];
      Sig w = c == 0 ? first : want;
      REQUIRE(r, got.size() >= w.size() - 1 && got.size() <= w.size() + 1, "play-size", std::to_string(got.size()) + " samples, not " + std::to_string(w.size()) + ": " + text(p));
      w.resize(got.size(), 0);
      for (double &v : w) v = std::max(-1.0, std::min(1.0, v));
      REQUIRE(r, distance(got, w) < 1e-6, "played", "channel " + std::to_string(c) + " is off by " + std::to_string(distance(got, w)) + ": " + text(p));
    }
  }
  r.state(mc::hashStr(std::to_string(how) + text(p)));
}
void others(mc::Run &r) { // bands of other kinds are left alone
  const int type = r.choose(3);
  if (!r.go()) return;
  static const ht::BandType types[] = {ht::BandType::Transient, ht::BandType::Curve, ht::BandType::VectorialWave};
  ht::Band b(types[type], 0, 1000);
  ht::Effect e(5, 0.5F, ht::BaseSignal::Sine, ht::EffectType::Basis);
  ht::Keyframe k(3, 0.5F, 60);
  e.addKeyframe(k);
  b.addEffect(e);
  auto before = b;
  WaveletDecoder d;
  d.transformBand(b, 1000);
  REQUIRE(r, b.getEffectsSize() == 1 && b.getEffectAt(0).getPosition() == 5 && b.getEffectAt(0).getKeyframesSize() == 1 && b.getEffectAt(0).getKeyframeAt(0) == before.getEffectAt(0).getKeyframeAt(0) && b.getEffectAt(0).getWaveletSamples().empty(), "other-bands", "a band that is no wavelet band was changed");
  REQUIRE(r, d.decodeBand(b, 1000).empty(), "other-bands", "a band that is no wavelet band has a wavelet signal");
  r.step();
  r.state(static_cast<uint64_t>(type));
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  std::cout.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C12", {{"impulses", impulses}, {"pairs", pairs}, {"small", small}, {"bands", bands}, {"others", others}});
}
