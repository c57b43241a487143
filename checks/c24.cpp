// C24: the wavelet encoder is faithful to its signal.
#include "mc.h"
#include <Encoder/include/WaveletEncoder.h>
#include <Spiht/include/Spiht_Dec.h>
#include <WaveletDecoder/include/WaveletDecoder.h>
#include <array>
#include <set>
#include <sstream>
#include <sys/wait.h>
#include <unistd.h>

namespace ht = haptics::types;
using haptics::encoder::WaveletEncoder;
using Sig = std::vector<double>;

namespace {
// ------------------------------------------------ CDF 9/7 (as in C12)
double at(const Sig &x, long i) {
  const long n = static_cast<long>(x.size());
  const long period = 2 * n - 2;
  i = ((i % period) + period) % period;
  return x[static_cast<size_t>(i < n ? i : period - i)];
}
const std::array<double, 5> LOW = {0.852698679009404, 0.377402855612654, -0.110624404418423, -0.023849465019380, 0.037828455506995};
const std::array<double, 4> HIGH = {-0.788485616405665, 0.418092273222212, 0.040689417609559, -0.064538882628938};
Sig forward(Sig x, int levels) {
  size_t n = x.size();
  for (int l = 0; l < levels; l++, n /= 2) {
    const Sig in(x.begin(), x.begin() + static_cast<long>(n));
    for (size_t j = 0; j < n / 2; j++) {
      double lo = 0;
      double hi = 0;
      for (long k = -4; k <= 4; k++) lo += LOW[static_cast<size_t>(std::labs(k))] * at(in, static_cast<long>(2 * j) + k);
      for (long k = -3; k <= 3; k++) hi += HIGH[static_cast<size_t>(std::labs(k))] * at(in, static_cast<long>(2 * j) + 1 + k);
      x[j] = lo;
      x[n / 2 + j] = hi;
    }
  }
  return x;
}
int depth(size_t n) {
  int l = 0;
  for (; n >= 8; n /= 2) l++;
  return l;
}
// The scale factor: the code from the largest coefficient upwards, or the last one of its range.
double scaleOf(double m) {
  if (m < 1) return std::min(std::ceil(m * 128), 127.0) / 128;
  return 1 + std::min(std::ceil((m - 1) * 8), 127.0) / 8;
}
const int MAX = 15;
std::string show(const Sig &s) {
  std::ostringstream o;
  o << "(" << s.size() << " samples)";
  int n = 0;
  for (size_t i = 0; i < s.size(); i++)
    if (s[i] != 0 && n++ < 12) o << " " << i << ":" << s[i];
  return o.str();
}

// Which coefficients an allocation of b bits gives, up to rounding of exact ties.
bool isQuantised(double x, int got, double scale, int bits, int top) {
  const double delta = scale / (1 << bits);
  const int unit = 1 << (top - bits);
  if (got % unit != 0) return false;
  const int q = got / unit;
  const double v = std::fabs(x) / delta + 0.5;
  for (double f : {std::floor(v - 1e-7), std::floor(v + 1e-7)}) {
    const double c = std::min(f, (1 << bits) - 1.0);
    if (q == (x < 0 ? -c : c)) return true;
  }
  return false;
}
void coefficients(mc::Run &r, const Sig &x, int budget, std::vector<unsigned char> bytes, double scale, int top, const std::string &what) {
  const auto n = static_cast<int>(x.size());
  const int levels = depth(x.size());
  const Sig c = forward(x, levels);
  double most = 0;
  for (double v : c) most = std::max(most, std::fabs(v));
  haptics::spiht::Spiht_Dec dec;
  std::vector<int> got(x.size(), 0);
  double codedScale = 0;
  int codedTop = 0;
  dec.decodeEffect(bytes, got, n, codedScale, codedTop);
  r.step();
  REQUIRE(r, top >= 0 && top <= MAX, "bits", std::to_string(top) + " bits: " + what);
  REQUIRE(r, std::fabs(scale - scaleOf(most)) < 1e-9 || std::fabs(scale - scaleOf(most * (1 - 1e-12))) < 1e-9, "scale",
          "scale " + std::to_string(scale) + " for coefficients up to " + std::to_string(most) + ": " + what);
  const bool silent = std::all_of(got.begin(), got.end(), [](int v) { return v == 0; });
  if (!silent) REQUIRE(r, codedScale == scale && codedTop == top, "coded", "coded with other bits or scale: " + what);
  if (most == 0) {
    REQUIRE(r, silent, "silence", "silence became something: " + what);
    return;
  }
  // every subband is quantised with some number of bits; together they are the budget
  const int want = std::min(budget, MAX * (levels + 1));
  std::vector<std::set<int>> possible;
  for (int b = 0, from = 0, len = n >> levels; b <= levels; b++) {
    std::set<int> s;
    for (int bits = 0; bits <= top; bits++) {
      bool ok = true;
      for (int i = from; i < from + len && ok; i++) ok = isQuantised(c[static_cast<size_t>(i)], got[static_cast<size_t>(i)], scale, bits, top);
      if (ok) s.insert(bits);
    }
    if (s.empty()) {
      std::ostringstream o;
      for (int i = from; i < from + len; i++) o << " " << c[static_cast<size_t>(i)] / scale * (1 << top) << "->" << got[static_cast<size_t>(i)];
      r.fail("quantised", "subband " + std::to_string(b) + " is no quantisation of the signal with at most " + std::to_string(top) + " bits:" + o.str() + ": " + what);
    }
    possible.push_back(s);
    from += len;
    if (b > 0) len *= 2;
  }
  std::set<std::pair<int, bool>> sums = {{0, top == 0}};
  for (auto &s : possible) {
    std::set<std::pair<int, bool>> next;
    for (auto &[sum, hit] : sums)
      for (int bits : s) next.insert({sum + bits, hit || bits == top});
    sums = next;
  }
  REQUIRE(r, sums.count({want, true}) == 1, "budget", "no allocation of " + std::to_string(want) + " bits gives this: " + what);
  if (want == MAX * (levels + 1)) {
    const double step = scale / (1 << MAX);
    for (int i = 0; i < n; i++) {
      const double off = std::fabs(got[static_cast<size_t>(i)] * scale / (1 << top) - c[static_cast<size_t>(i)]);
      REQUIRE(r, off < step * 1.000001 + std::max(0.0, most - scale), "error", "coefficient " + std::to_string(i) + " is off by " + std::to_string(off / step) + " steps: " + what);
    }
  }
  r.state(mc::hashBytes(bytes.data(), bytes.size(), x.size()));
}

// ------------------------------------------------ signals
Sig make(int kind, size_t n, double amp, int where) {
  Sig x(n, 0);
  const double w = 3.14159265358979323846 / static_cast<double>(n);
  for (size_t i = 0; i < n; i++) {
    const auto d = static_cast<double>(i);
    switch (kind) {
    case 0: x[i] = i == static_cast<size_t>(where) % n ? amp : 0; break;
    case 1: x[i] = amp * std::sin(w * (where + 0.5) * d); break;
    case 2: x[i] = amp * std::cos(w * where * 2 * d); break;
    case 3: x[i] = amp * (i % static_cast<size_t>(2 + where) < static_cast<size_t>(1 + where / 2) ? 1 : -1); break;
    case 4: x[i] = amp * ((static_cast<int>((i * 2654435761U + static_cast<unsigned>(where) * 40503U) >> 8) & 1023) / 511.5 - 1); break;
    case 5: x[i] = i >= static_cast<size_t>(where) % n ? amp : 0; break; // a step; all at 0
    default: x[i] = amp * (d / static_cast<double>(n) - 0.5); break;
    }
  }
  return x;
}
const std::vector<double> AMPS = {1, -1, 0.25, 0.003, 0.9921875, 0.9999, 1e-7, 0.5};

Sig decodedOf(const std::vector<unsigned char> &bytes, size_t n) {
  ht::Band b(ht::BandType::WaveletWave, 0, 1000);
  b.setBlockLength(static_cast<int>(n));
  ht::Effect e;
  e.setPosition(0);
  e.setWaveletBitstream(bytes);
  b.addEffect(e);
  haptics::waveletdecoder::WaveletDecoder d;
  d.transformBand(b, 1000);
  return b.getEffectAt(0).getWaveletSamples();
}

void one(mc::Run &r, const Sig &x, int budget, int fs) {
  std::string what = "budget " + std::to_string(budget) + " fs " + std::to_string(fs) + " " + show(x);
  r.describe([=] { return what; });
  WaveletEncoder enc(static_cast<int>(x.size()), fs);
  Sig in = x;
  double scale = -1;
  int top = -1;
  std::vector<unsigned char> bytes;
  enc.encodeBlock(in, budget, scale, top, bytes);
  r.step();
  REQUIRE(r, in == x, "input", "encoding changed the signal: " + what);
  coefficients(r, x, budget, bytes, scale, top, what);
  if (budget >= MAX * (depth(x.size()) + 1)) { // all bits: the signal itself, but for the last bit
    const Sig y = decodedOf(bytes, x.size());
    double most = 0;
    for (double v : forward(x, depth(x.size()))) most = std::max(most, std::fabs(v));
    const double allowed = 8 * (scale / (1 << MAX) + std::max(0.0, most - scale)) + 1e-12;
    for (size_t i = 0; i < x.size(); i++)
      REQUIRE(r, y.size() == x.size() && std::fabs(y[i] - x[i]) < allowed, "reproduced", "sample " + std::to_string(i) + " comes back as " + std::to_string(y[i]) + ": " + what);
  }
}
const std::vector<int> SIZES = {16, 32, 64, 128, 256, 512};
void blocks(mc::Run &r) {
  const int size = SIZES[static_cast<size_t>(r.choose(r.thorough() ? 5 : 4))];
  const int bands = depth(static_cast<size_t>(size)) + 1;
  const int kind = r.choose(7);
  const int amp = r.choose(static_cast<int>(AMPS.size()));
  if (!r.go()) return;
  r.tag("size " + std::to_string(size));
  const int most = r.thorough() ? std::min(size, 64) : 16;
  const int where = r.choose(kind == 6 ? 1 : most) * (kind == 0 || kind == 5 ? std::max(1, size / most) : 1);
  const int fs = r.flip() ? 8000 : 1000;
  // all budgets, or with the larger blocks every one of the first and then some
  std::vector<int> budgets;
  for (int b = 0; b <= MAX * bands + 2; b += (size <= 32 || r.thorough() || b < 10 || b > MAX * bands - 4) ? 1 : 7) budgets.push_back(b);
  one(r, make(kind, static_cast<size_t>(size), AMPS[static_cast<size_t>(amp)], where), budgets[static_cast<size_t>(r.choose(static_cast<int>(budgets.size())))], fs);
}
void small(mc::Run &r) { // all signals of three levels on eight of the samples
  const int first = r.choose(27);
  const int budget = r.choose(4);
  if (!r.go()) return;
  Sig x(16, 0);
  int f = first;
  for (size_t i = 0; i < 3; i++, f /= 3) x[i * 2] = f % 3 - 1;
  for (size_t i = 3; i < 8; i++) x[i * 2] = r.choose(3) - 1;
  if (r.flip())
    for (size_t i = 0; i < 8; i++) x[2 * i + 1] = -x[2 * i] / 4;
  static const std::vector<int> budgets = {3, 17, 44, 45};
  one(r, x, budgets[static_cast<size_t>(budget)], 8000);
}
void silence(mc::Run &r) {
  const int size = r.pick(SIZES);
  const int zero = r.choose(2);
  if (!r.go()) return;
  r.tag("size " + std::to_string(size));
  const int budget = r.choose(MAX * (depth(static_cast<size_t>(size)) + 1) + 3);
  Sig x(static_cast<size_t>(size), zero ? -0.0 : 0.0);
  one(r, x, budget, 8000);
  WaveletEncoder enc(size, 8000);
  double scale = 0;
  int top = 0;
  std::vector<unsigned char> bytes;
  enc.encodeBlock(x, budget, scale, top, bytes);
  for (double v : decodedOf(bytes, x.size())) REQUIRE(r, v == 0, "silence", "silence is decoded as " + std::to_string(v));
}
struct Rate {
  int ts, fs;
};
void signals(mc::Run &r) { // whole signals: blocks, times, independence
  static const std::vector<Rate> rates = {{1000, 1000}, {1000, 8000}, {8000, 8000}, {44100, 44100}, {500, 1000}, {2000, 1000}};
  static const std::vector<int> sizes = {16, 32, 64};
  const Rate rate = rates[static_cast<size_t>(r.choose(static_cast<int>(rates.size())))];
  const int size = r.pick(sizes);
  const int blocks = r.choose(r.thorough() ? 5 : 4);
  if (!r.go()) return;
  if (size * rate.ts % rate.fs != 0) return; // no whole number of ticks
  const int ticks = size * rate.ts / rate.fs;
  Sig x;
  for (int b = 0; b < blocks; b++) {
    const int kind = r.choose(5);
    const Sig y = kind == 4 ? Sig(static_cast<size_t>(size), 0) : make(kind, static_cast<size_t>(size), kind == 1 ? 0.5 : 1, 3 * b + kind);
    x.insert(x.end(), y.begin(), y.end());
  }
  if (blocks > 0) { // the last one may be shorter
    static const std::vector<int> cut = {0, 1, 15};
    x.resize(x.size() - static_cast<size_t>(r.pick(cut)));
  }
  static const std::vector<int> budgets = {0, 7, 31, 200};
  const int budget = r.pick(budgets);
  const std::string what = "timescale " + std::to_string(rate.ts) + " fs " + std::to_string(rate.fs) + " block " + std::to_string(size) + " budget " + std::to_string(budget) + " " + show(x);
  r.describe([=] { return what; });
  r.tag("blocks " + std::to_string(blocks));
  WaveletEncoder other(512, 8000); // an encoder made before must not matter
  Sig noise = make(4, 512, 1, 1);
  std::vector<unsigned char> ignore;
  double s = 0;
  int t = 0;
  if (r.flip()) other.encodeBlock(noise, 20, s, t, ignore);
  WaveletEncoder enc(size, rate.fs);
  ht::Band band;
  Sig in = x;
  REQUIRE(r, enc.encodeSignal(in, budget, 72, band, static_cast<unsigned>(rate.ts)), "refused", what);
  r.step();
  REQUIRE(r, in == x, "input", "encoding changed the signal: " + what);
  REQUIRE(r, band.getBandType() == ht::BandType::WaveletWave && band.getBlockLength().value_or(-1) == ticks && band.getUpperFrequencyLimit() == rate.fs && band.getLowerFrequencyLimit() == 72, "band",
          "band properties: block length " + std::to_string(band.getBlockLength().value_or(-1)) + ": " + what);
  REQUIRE(r, band.getEffectsSize() == static_cast<size_t>(blocks), "blocks", std::to_string(band.getEffectsSize()) + " blocks: " + what);
  for (int b = 0; b < blocks; b++) {
    auto &e = band.getEffectAt(b);
    REQUIRE(r, e.getPosition() == b * ticks, "time", "block " + std::to_string(b) + " is at " + std::to_string(e.getPosition()) + ": " + what);
    Sig part(static_cast<size_t>(size), 0);
    for (size_t i = 0; i < part.size() && static_cast<size_t>(b * size) + i < x.size(); i++) part[i] = x[static_cast<size_t>(b * size) + i];
    WaveletEncoder alone(size, rate.fs);
    double scale = 0;
    int top = 0;
    std::vector<unsigned char> bytes;
    Sig copy = part;
    alone.encodeBlock(copy, budget, scale, top, bytes);
    REQUIRE(r, bytes == e.getWaveletBitstream(), "independent", "block " + std::to_string(b) + " differs from the same block encoded alone: " + what);
    coefficients(r, part, budget, e.getWaveletBitstream(), scale, top, what);
  }
}
// A process that encoded other things before gives the same bytes as a new one.
std::vector<unsigned char> inNewProcess(const std::vector<int> &earlier, int size, int budget, int kind, int where) {
  int fd[2];
  if (pipe(fd) != 0) std::abort();
  const pid_t pid = fork();
  if (pid == 0) {
    double s = 0;
    int t = 0;
    for (int n : earlier) {
      Sig x = make(4, static_cast<size_t>(n), 1, n);
      std::vector<unsigned char> ignore;
      WaveletEncoder e(n, 8000);
      e.encodeBlock(x, 20, s, t, ignore);
    }
    Sig x = make(kind, static_cast<size_t>(size), 1, where);
    std::vector<unsigned char> bytes;
    WaveletEncoder e(size, 8000);
    e.encodeBlock(x, budget, s, t, bytes);
    if (write(fd[1], bytes.data(), bytes.size()) < 0) _exit(1);
    _exit(0);
  }
  close(fd[1]);
  std::vector<unsigned char> got;
  unsigned char buf[4096];
  for (ssize_t n = 0; (n = read(fd[0], buf, sizeof buf)) > 0;) got.insert(got.end(), buf, buf + n);
  close(fd[0]);
  int status = 0;
  waitpid(pid, &status, 0);
  got.push_back(status == 0 ? 0 : 1);
  return got;
}
void history(mc::Run &r) {
  static const std::vector<int> sizes = {16, 64, 256};
  const int size = r.pick(sizes);
  const int before = r.choose(4); // none, or one of the sizes
  const int kind = 1 + r.choose(4);
  if (!r.go()) return;
  if (before == 0) return;
  static const std::vector<int> budgets = {10, 25, 40};
  const int budget = r.pick(budgets);
  const int where = r.choose(3) * 3;
  const auto fresh = inNewProcess({}, size, budget, kind, where);
  const auto later = inNewProcess({sizes[static_cast<size_t>(before - 1)]}, size, budget, kind, where);
  r.step(2);
  REQUIRE(r, fresh.back() == 0 && later.back() == 0, "history", "the encoder failed");
  REQUIRE(r, fresh == later, "history", "block of " + std::to_string(size) + " samples, budget " + std::to_string(budget) + ", signal " + std::to_string(kind) + "/" + std::to_string(where) +
          ": encoded differently after a block of " + std::to_string(sizes[static_cast<size_t>(before - 1)]));
  r.state(mc::hashBytes(later.data(), later.size(), static_cast<uint64_t>(before)));
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  std::cout.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C24", {{"blocks", blocks}, {"small", small}, {"silence", silence}, {"signals", signals}, {"history", history}});
}
