// C17: rendering. What channels and bands evaluate to, against the description in the document.
#include "gen.h"
#include <Synthesizer/include/Helper.h>
#include <Tools/include/Tools.h>
#include <Tools/include/WavParser.h>
#include <algorithm>
namespace ht = haptics::types;

// The WAV writer needs a header that is not here; what it would have been given is all that counts.
static std::vector<std::vector<double>> written;
static int writtenRate = 0;
auto haptics::tools::WavParser::saveFile(const std::string &, const std::vector<std::vector<double>> &buff, int rate) -> bool {
  written = buff;
  writtenRate = rate;
  return true;
}
auto haptics::tools::WavParser::saveFile(const std::string &, const std::vector<double> &, int) -> bool { return false; }

namespace {
using doc::BandD;
using doc::Chan;
using doc::Doc;
using doc::Eff;
using doc::KF;
using gen::kf;
const double PI = 3.14159265358979323846;

// ------------------------------------------------ what the document describes
double wave(int base, double cycles) {
  const double f = cycles - std::floor(cycles);
  switch (base) {
  case 0: return std::sin(2 * PI * f);
  case 1: return f < 0.5 ? 1 : -1;
  case 2: return f < 0.25 ? 4 * f : f < 0.75 ? 2 - 4 * f : 4 * f - 4;
  case 3: return f < 0.5 ? 2 * f : 2 * f - 2;
  default: return f < 0.5 ? -2 * f : 2 - 2 * f;
  }
}
// left: the limit from below at a jump
double amplitude(const Eff &e, double rel) {
  double v = 1, pt = 0;
  bool any = false;
  for (auto &k : e.kfs) {
    if (!k.amp) continue;
    if (rel < *k.pos) return any ? v + (*k.amp - v) * (rel - pt) / (*k.pos - pt) : *k.amp;
    v = *k.amp;
    pt = *k.pos;
    any = true;
  }
  return v;
}
double cyclesAt(const Eff &e, double rel, double ts) {
  double c = e.phase.value_or(0) / (2 * PI), f = 0, pt = 0;
  bool any = false;
  for (auto &k : e.kfs) {
    if (!k.freq) continue;
    const double p = *k.pos, g = *k.freq;
    if (!any) f = g; // constant up to the first one
    if (rel <= p) return c + (any ? (f * (rel - pt) + (p > pt ? (g - f) * (rel - pt) * (rel - pt) / (2 * (p - pt)) : 0)) / ts : g * rel / ts);
    c += (p - pt) * (f + g) / 2 / ts;
    f = g;
    pt = p;
    any = true;
  }
  return any ? c + f * (rel - pt) / ts : c;
}
std::vector<double> samplesOf(const BandD &b, std::vector<std::pair<int, double>> p) {
  using namespace haptics::tools; // what these give is another property's subject
  if (p.size() == 1) return {p[0].second};
  if (p.size() == 2) return linearInterpolation2(p);
  return *b.curve == 3 ? akimaInterpolation(p) : *b.curve == 4 ? bezierInterpolation(p) : bsplineInterpolation(p);
}
double curve(const BandD &b, const Eff &e, double rel) {
  std::vector<KF> k;
  for (auto &x : e.kfs)
    if (x.amp) k.push_back(x);
  if (k.empty() || rel > *k.back().pos || rel < 0) return 0;
  if (rel <= *k[0].pos) return *k[0].amp;
  size_t i = 0;
  while (rel > *k[i + 1].pos) i++;
  const double t0 = *k[i].pos, t1 = *k[i + 1].pos, f0 = *k[i].amp, f1 = *k[i + 1].amp, x = (rel - t0) / (t1 - t0);
  const int type = b.curve.value_or(0);
  if (rel == t1 && type != 4 && type != 5) return f1;
  if (type < 2) return f0 + (f1 - f0) * x * x * (3 - 2 * x);
  if (type == 2) return f0 + (f1 - f0) * x;
  std::vector<std::pair<int, double>> p;
  for (auto &y : k) p.emplace_back(*y.pos - *k[0].pos, *y.amp);
  auto v = samplesOf(b, p);
  const double at = rel - *k[0].pos;
  const auto n = static_cast<size_t>(std::floor(at));
  if (n + 1 >= v.size()) return v.back();
  return v[n] + (v[n + 1] - v[n]) * (at - std::floor(at));
}
double described(const BandD &b, const Eff &e, double t, double ts) {
  const double rel = t - e.pos;
  if (rel < 0) return 0;
  double res = 0;
  switch (b.type) {
  case 0: {
    const double d = 22 * ts / 1000;
    for (auto &k : e.kfs)
      if (k.amp && rel >= *k.pos && rel - *k.pos <= d) res += std::sin(4 * PI * (rel - *k.pos) / d) * *k.amp;
    return res;
  }
  case 1: return curve(b, e, rel);
  case 2:
    if (e.kfs.empty() || rel > *e.kfs.back().pos) return 0;
    return amplitude(e, rel) * wave(e.base.value_or(0), cyclesAt(e, rel, ts));
  default: {
    // the samples of a block: tests give them as bytes
    const double n = std::floor(rel * b.hi / ts + 1e-5);
    return n < static_cast<double>(e.wave.size()) ? e.wave[static_cast<size_t>(n)] / 128.0 - 1 : 0;
  }
  }
}
double described(const BandD &b, double t, double ts) {
  double s = 0;
  for (auto &e : b.effects) s += described(b, e, t, ts);
  return s;
}
double described(const Chan &c, double t, double ts) {
  double s = 0;
  for (auto &b : c.bands) s += described(b, t, ts);
  return std::max(-1.0, std::min(1.0, s));
}
// At a jump of the signal itself, rounding may decide for either side.
bool nearJump(const Chan &c, double t, double ts) {
  for (auto &b : c.bands)
    if (b.type == 2)
      for (auto &e : b.effects) {
        const int base = e.base.value_or(0);
        if (base != 1 && base != 3 && base != 4) continue;
        const double h = 2 * cyclesAt(e, t - e.pos, ts);
        if (std::fabs(h - std::round(h)) < 1e-6) return true;
      }
  return false;
}
bool sameKf(const Chan &c) { // two keyframes at the same instant: both values are right
  for (auto &b : c.bands)
    for (auto &e : b.effects)
      for (size_t i = 1; i < e.kfs.size(); i++)
        if (*e.kfs[i].pos == *e.kfs[i - 1].pos) return true;
  return false;
}
bool close(double a, double b) { return std::fabs(a - b) < 2e-6; }
bool right(const Chan &c, double t, double ts, double got, bool loose) {
  if (close(got, described(c, t, ts))) return true;
  const bool jump = nearJump(c, t, ts);
  if (!jump && !loose && !sameKf(c)) return false;
  for (double d : {-1e-6, 0.0, 1e-6})
    if (std::fabs(got - described(c, t + d, ts)) < (jump ? 1e-3 : 2e-6)) return true;
  if (!jump) return false;
  const double e = 1e-5; // either side of the jump: shift the phase a little
  Chan x = c;
  for (double p : {-e, e}) {
    for (size_t i = 0; i < c.bands.size(); i++)
      for (size_t k = 0; k < c.bands[i].effects.size(); k++) x.bands[i].effects[k].phase = static_cast<float>(c.bands[i].effects[k].phase.value_or(0) + p);
    for (double d : {-1e-6, 0.0, 1e-6})
      if (std::fabs(got - described(x, t + d, ts)) < 1e-3) return true;
  }
  return false;
}

ht::Channel real(const Chan &c) {
  auto x = doc::toChannel(c);
  for (size_t b = 0; b < x.getBandsSize(); b++) {
    auto &band = x.getBandAt(static_cast<int>(b));
    if (c.bands[b].type == 3)
      for (size_t e = 0; e < band.getEffectsSize(); e++) {
        std::vector<double> s;
        for (auto v : c.bands[b].effects[e].wave) s.push_back(v / 128.0 - 1);
        band.getEffectAt(static_cast<int>(e)).setWaveletSamples(s);
      }
  }
  return x;
}
std::string show(const Chan &c) {
  Doc d;
  d.percs.emplace_back();
  d.percs[0].channels.push_back(c);
  return doc::dump(d);
}
double lengthOf(const Chan &c, double ts) {
  double m = 0;
  for (auto &b : c.bands)
    for (auto &e : b.effects) {
      m = std::max(m, e.pos + (e.kfs.empty() ? 0.0 : *e.kfs.back().pos) + (b.type == 0 ? 22 * ts / 1000 : 0));
      if (b.type == 3) m = std::max(m, e.pos + static_cast<double>(e.wave.size()) * ts / b.hi);
    }
  return m;
}

void instants(mc::Run &r, const Chan &c, int ts, double step) {
  r.describe([c, ts] { return "timescale " + std::to_string(ts) + ": " + show(c); });
  auto x = real(c);
  const double len = lengthOf(c, ts);
  uint64_t h = 0;
  for (double t = -3; t <= len + 5 * step + 3; t += step) {
    const double got = x.Evaluate(t, static_cast<unsigned>(ts));
    if (!right(c, t, ts, got, false)) {
      std::ostringstream o;
      o.precision(10);
      o << "instant " << t << " of timescale " << ts << ": expected " << described(c, t, ts) << ", got " << got << " in " << show(c);
      r.fail("instant", o.str());
    }
    h = h * 31 + static_cast<uint64_t>(std::llround(got * 1e6));
  }
  r.step();
  r.state(h);
}
void blockOf(mc::Run &r, const Chan &c, int ts, int fs, int pad) {
  r.describe([=] { return "timescale " + std::to_string(ts) + " fs " + std::to_string(fs) + " pad " + std::to_string(pad) + ": " + show(c); });
  auto x = real(c);
  const auto n = static_cast<uint32_t>(std::max(0.0, (lengthOf(c, ts) / ts + pad / 1000.0) * fs + 7));
  for (uint32_t size : {n, n / 2}) {
    auto got = x.EvaluateChannel(size, fs, pad, static_cast<unsigned>(ts));
    REQUIRE(r, got.size() == size, "block-size", "a block of " + std::to_string(size) + " samples has " + std::to_string(got.size()) + " in " + show(c));
    uint64_t h = 0;
    for (uint32_t i = 0; i < size; i++) {
      const double t = static_cast<double>(i) * ts / fs - pad * ts / 1000.0;
      if (!right(c, t, ts, got[i], true)) {
        std::ostringstream o;
        o.precision(10);
        o << "sample " << i << " at " << fs << " Hz, padding " << pad << " ms, timescale " << ts << ": expected " << described(c, t, ts) << ", got " << got[i] << " in " << show(c);
        r.fail("sample", o.str());
      }
      h = h * 31 + static_cast<uint64_t>(std::llround(got[i] * 1e6));
    }
    r.state(h);
    r.step();
  }
}
struct Rate {
  int ts, fs;
};
const std::vector<Rate> RATES = {{1000, 1000}, {1000, 4000}, {8000, 8000}, {500, 1000}, {48000, 48000}};
const std::vector<int> PADS = {0, 10, -5};

Chan channel(std::vector<BandD> b) {
  Chan c;
  c.bands = std::move(b);
  return c;
}
void both(mc::Run &r, const Chan &c, int ts, double step, bool fullRates) {
  const int how = r.choose(fullRates ? 4 : 2);
  if (how == 0) return instants(r, c, ts, step);
  if (how == 1) return blockOf(r, c, ts, ts, 0);
  if (how == 2) return blockOf(r, c, ts, ts * 4, r.pick(PADS));
  blockOf(r, c, ts, ts, r.pick(std::vector<int>{10, -5}));
}

// ------------------------------------------------ scenarios
void vectorial(mc::Run &r) {
  static const std::vector<int> tss = {1000, 8000, 500};
  static const std::vector<std::vector<int>> places = {{0, 10, 25}, {0, 1, 40}, {5, 12, 30}, {0, 20, 20}};
  const int base = r.choose(5);
  const int ts = r.pick(tss);
  const int n = r.choose(4);
  if (!r.go()) return;
  r.tag("vectorial base " + std::to_string(base) + " ts " + std::to_string(ts));
  auto &p = r.pick(places);
  const int scale = ts == 8000 ? 8 : 1;
  Eff e;
  e.pos = r.flip() ? 13 : 0;
  if (base) e.base = base;
  for (int i = 0; i < n; i++) {
    KF k;
    k.pos = p[static_cast<size_t>(i)] * scale;
    const int a = r.choose(r.thorough() ? 4 : 3);
    if (a) k.amp = a == 1 ? 0.5F : a == 2 ? -0.25F : 1.0F;
    const int f = r.choose(r.thorough() ? 4 : 3);
    if (f) k.freq = f == 1 ? 60 : f == 2 ? 100 : 0;
    e.kfs.push_back(k);
  }
  if (int ph = r.choose(r.thorough() ? 3 : 2); ph > 0) e.phase = ph == 1 ? 0.7F : 4.0F;
  both(r, channel({gen::band(2, 0, 1000, {e})}), ts, ts == 8000 ? 1 : 0.5, r.thorough());
}
void transients(mc::Run &r) {
  static const std::vector<int> tss = {1000, 8000, 500, 2000};
  const int ts = r.pick(tss);
  const int shift = r.choose(5);
  if (!r.go()) return;
  r.tag("transient ts " + std::to_string(ts));
  auto tick = [&](int ms) { return ms * ts / 1000; };
  auto effect = [&](int atMs, int most) {
    Eff e;
    e.pos = tick(atMs);
    int at = 0;
    for (int i = 0, n = r.choose(most + 1); i < n; i++) {
      static const std::vector<int> gaps = {0, 4, 22, 30};
      at += r.pick(gaps);
      KF k;
      k.pos = tick(at);
      if (int a = r.choose(3); a > 0) k.amp = a == 1 ? 1.0F : -0.5F;
      k.freq = 65;
      e.kfs.push_back(k);
    }
    return e;
  };
  std::vector<Eff> es = {effect(r.flip() ? 6 : 0, r.thorough() ? 3 : 2)};
  if (shift) {
    static const std::vector<int> second = {10, 22, 40, 90};
    es.push_back(effect(6 + second[static_cast<size_t>(shift - 1)], r.thorough() ? 2 : 1));
  }
  both(r, channel({gen::band(0, 0, 1000, es)}), ts, 0.5, r.thorough());
}
void curves(mc::Run &r) {
  static const std::vector<int> gaps = {1, 4, 10};
  const int type = r.choose(7) - 1; // none, then all
  const int n = r.choose(r.thorough() ? 6 : 5);
  const int rate = r.choose(static_cast<int>(RATES.size()));
  if (!r.go()) return;
  const auto [ts, fs] = std::pair(RATES[static_cast<size_t>(rate)].ts, RATES[static_cast<size_t>(rate)].fs);
  r.tag("curve type " + std::to_string(type));
  if (type == 4 && n > 0 && n % 2 == 0 && n != 2) return; // these curves are made of three points each
  Eff e;
  e.pos = r.flip() ? 20 : 0;
  int at = r.flip() ? 6 : 0;
  for (int i = 0; i < n; i++) {
    KF k;
    if (i) at += r.pick(gaps);
    k.pos = at;
    const int a = r.choose(type > 2 || i + 1 == n ? 2 : 3);
    if (a < 2) k.amp = a == 0 ? 0.75F : -0.5F + 0.125F * static_cast<float>(i);
    e.kfs.push_back(k);
  }
  BandD b = gen::band(1, 0, 1000, {e});
  if (type >= 0) b.curve = type;
  if (r.choose(2) && n) { // a second one
    Eff f = e;
    f.pos = e.pos + at + 3;
    b.effects.push_back(f);
  }
  const Chan c = channel({b});
  const int how = r.choose(3);
  if (how == 0) return instants(r, c, ts, type > 2 ? 1 : 0.5);
  if (type > 2 && fs != ts) return; // other samples, other curve
  blockOf(r, c, ts, fs, how == 1 ? 0 : r.pick(PADS));
}
void wavelets(mc::Run &r) {
  static const std::vector<Rate> rates = {{1000, 1000}, {1000, 8000}, {8000, 8000}, {44100, 44100}, {1000, 16000}, {500, 2000}, {96000, 48000}, {3000, 1000}};
  const int i = r.choose(static_cast<int>(rates.size()));
  const int len = r.choose(3);
  if (!r.go()) return;
  const auto rate = rates[static_cast<size_t>(i)];
  r.tag("wavelet");
  const int n = 16 << len; // samples of a block
  const int ticks = n * rate.ts / rate.fs;
  if (ticks * rate.fs != n * rate.ts) return;
  std::vector<Eff> es;
  const int which = r.choose(16); // which of four blocks there are
  for (int k = 0; k < 4; k++)
    if (which >> k & 1) {
      std::vector<unsigned char> w;
      for (int s = 0; s < n; s++) w.push_back(static_cast<unsigned char>((s * 37 + k * 11) & 255));
      es.push_back(gen::wave(k * ticks, w));
    }
  BandD b = gen::band(3, 0, rate.fs, es);
  b.block = ticks;
  const Chan c = channel({b});
  const int how = r.choose(5);
  if (how == 0) return instants(r, c, rate.ts, 1);
  if (how == 1) return blockOf(r, c, rate.ts, rate.fs, 0);
  if (how == 2) return blockOf(r, c, rate.ts, rate.fs * 3, 0);
  if (how == 3) return blockOf(r, c, rate.ts, rate.fs, 1000);
  blockOf(r, c, rate.ts, rate.fs / 2, r.pick(PADS) * 100);
}
// Several bands: sums, limits, silence.
std::vector<BandD> palette() {
  std::vector<BandD> v;
  BandD b = gen::band(1, 0, 100, {gen::basis(0, {kf(0, 1.0F, {}), kf(20, 0.75F, {}), kf(40, 1.0F, {})})});
  b.curve = 1;
  v.push_back(b);
  b.effects[0].kfs = {kf(0, -1.0F, {}), kf(30, -0.75F, {})};
  b.curve = 2;
  v.push_back(b);
  v.push_back(gen::band(2, 0, 1000, {gen::vect(5, {kf(0, 1.0F, 50), kf(30, 1.0F, 50)}, 0, 1)}));
  v.push_back(gen::band(2, 0, 1000, {gen::vect(0, {kf(0, 1.0F, 100), kf(45, 0.5F, 60)}, 1, 0), gen::vect(60, {kf(0, 0.5F, 100), kf(10, 0.5F, 100)}, 0, 2)}));
  v.push_back(gen::band(0, 0, 1000, {gen::basis(3, {kf(0, 1.0F, 60), kf(10, -1.0F, 60)}), gen::basis(50, {kf(0, 0.5F, 60)})}));
  b = gen::band(3, 0, 1000, {gen::wave(0, {255, 200, 100, 0, 10, 20, 30, 40, 250, 128, 0, 0, 255, 255, 0, 0}), gen::wave(32, {255, 255, 0, 0, 10, 20, 30, 40, 250, 128, 0, 0, 255, 255, 0, 0})});
  b.block = 16;
  v.push_back(b);
  v.push_back(gen::band(2, 0, 1000, {})); // nothing in it
  v.push_back(gen::band(0, 0, 1000, {}));
  v.push_back(gen::band(1, 0, 1000, {}));
  v.push_back(gen::band(3, 0, 1000, {}));
  v.push_back(gen::band(2, 0, 1000, {gen::ref(0, 3)}));
  return v;
}
void mix(mc::Run &r) {
  static const auto all = palette();
  const int n = r.choose(4);
  std::vector<BandD> bs;
  for (int i = 0; i < n; i++) bs.push_back(all[static_cast<size_t>(r.choose(static_cast<int>(all.size())))]);
  if (!r.go()) return;
  r.tag("mix");
  const Chan c = channel(bs);
  const int how = r.choose(5);
  if (how == 0) return instants(r, c, 1000, 0.5);
  if (how == 1) return blockOf(r, c, 1000, 1000, 0);
  if (how == 2) return blockOf(r, c, 1000, 2000, r.pick(PADS));
  if (how == 3) return blockOf(r, c, 1000, 1000, r.pick(PADS));
  // one band at a time: a channel is the sum of its bands
  auto x = real(c);
  std::vector<double> sum(80, 0);
  for (size_t b = 0; b < c.bands.size(); b++) {
    auto v = x.getBandAt(static_cast<int>(b)).EvaluationBand(80, 1000, 0, 1000);
    REQUIRE(r, v.size() == 80, "band-size", "a band of 80 samples has " + std::to_string(v.size()));
    for (size_t i = 0; i < 80; i++) sum[i] += v[i];
  }
  auto got = x.EvaluateChannel(80, 1000, 0, 1000);
  for (size_t i = 0; i < 80; i++)
    REQUIRE(r, close(got[i], std::max(-1.0, std::min(1.0, sum[i]))), "band-sum", "sample " + std::to_string(i) + " is not the limited sum of the bands in " + show(c));
}
// The synthesiser: every channel, with its gain and the unit of its perception.
void file(mc::Run &r) {
  static const auto all = palette();
  const int a = r.choose(6);
  const int b = r.choose(6);
  if (!r.go()) return;
  r.tag("file");
  Doc d;
  static const std::vector<int> tss = {1000, 500, 2000};
  const int which = r.choose(4);
  if (which == 3) d.timescale.reset();
  else d.timescale = static_cast<unsigned>(tss[static_cast<size_t>(which)]);
  const int ts = static_cast<int>(d.timescale.value_or(1000));
  const int nPercs = 1 + r.choose(2);
  for (int p = 0; p < nPercs; p++) {
    doc::Perc x;
    x.id = p;
    if (r.flip()) x.percUnitExp = -1;
    Chan c = channel({all[static_cast<size_t>(p ? b : a)]});
    c.gain = r.flip() ? 0.5F : 1.0F;
    x.channels = {c, channel({all[static_cast<size_t>(p ? a : b)], all[2]})};
    for (auto &q : x.channels)
      for (auto it = q.bands.begin(); it != q.bands.end();) it = it->type == 3 ? q.bands.erase(it) : it + 1;
    d.percs.push_back(x);
  }
  const int fs = ts * (1 + r.choose(2));
  static const std::vector<int> pads = {0, 20};
  const int pad = r.pick(pads);
  r.describe([=] { return "fs " + std::to_string(fs) + " pad " + std::to_string(pad) + " " + doc::dump(d); });
  auto h = doc::toHaptics(d);
  double len = 0;
  for (auto &p : d.percs)
    for (auto &c : p.channels) len = std::max(len, lengthOf(c, ts));
  const double got = haptics::synthesizer::Helper::getTimeLength(h);
  REQUIRE(r, close(got, len), "length", "length " + std::to_string(got) + ", expected " + std::to_string(len) + " in " + doc::dump(d));
  std::string name = mc::scratch() + "/c17.wav";
  written.clear();
  REQUIRE(r, haptics::synthesizer::Helper::playFile(h, len, fs, pad, name), "play", "refused: " + doc::dump(d));
  r.step(2);
  REQUIRE(r, writtenRate == fs, "rate", "written with another sampling frequency");
  size_t i = 0;
  for (auto &p : d.percs)
    for (auto &c : p.channels) {
      REQUIRE(r, i < written.size(), "channels", "a channel is missing");
      auto &v = written[i++];
      const auto n = static_cast<size_t>(std::lround(fs * (len / ts + 2 * pad / 1000.0)));
      REQUIRE(r, v.size() + 1 >= n && v.size() <= n + 1, "samples", "rendered " + std::to_string(v.size()) + " samples instead of " + std::to_string(n) + ": " + doc::dump(d));
      const double scale = c.gain * std::pow(10.0, p.percUnitExp.value_or(0));
      for (size_t k = 0; k < v.size(); k++)
        REQUIRE(r, right(c, static_cast<double>(k) * ts / fs - pad * ts / 1000.0, ts, v[k] / scale, true), "file-sample",
                "sample " + std::to_string(k) + " of channel " + std::to_string(i - 1) + " is " + std::to_string(v[k]) + " at fs " + std::to_string(fs) + " pad " + std::to_string(pad) + ": " + doc::dump(d));
    }
  REQUIRE(r, i == written.size(), "channels", "a channel too many");
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  std::cout.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C17", {{"vectorial", vectorial}, {"transients", transients}, {"curves", curves}, {"wavelets", wavelets}, {"mix", mix}, {"file", file}});
}
