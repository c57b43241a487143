// C25: whatever a loader accepts can be decoded and rendered.
#include "gen.h"
#include <Spiht/include/Spiht_Enc.h>
#include <Synthesizer/include/Helper.h>
#include <Tools/include/WavParser.h>
#include <WaveletDecoder/include/WaveletDecoder.h>
#include <iostream>
using namespace doc;
using namespace gen;
using haptics::synthesizer::Helper;
using haptics::waveletdecoder::WaveletDecoder;
using Bytes = std::vector<unsigned char>;

static std::vector<std::vector<double>> written;
auto haptics::tools::WavParser::saveFile(const std::string &, const std::vector<std::vector<double>> &buff, int) -> bool {
  written = buff;
  return true;
}
auto haptics::tools::WavParser::saveFile(const std::string &, const std::vector<double> &, int) -> bool { return false; }

namespace {
std::string hex(const Bytes &b) {
  std::string s;
  char t[4];
  for (auto x : b) {
    std::snprintf(t, sizeof t, "%02x", x);
    s += t;
  }
  return s;
}
ht::Band waveBand(int ticks, int upper, const std::vector<Bytes> &payloads) {
  ht::Band b(ht::BandType::WaveletWave, 0, upper);
  b.setBlockLength(ticks);
  int at = 0;
  for (auto &p : payloads) {
    ht::Effect e;
    e.setPosition(at);
    e.setWaveletBitstream(p);
    b.addEffect(e);
    at += ticks;
  }
  return b;
}
// Decodes a band both ways; the blocks have the samples their length in ticks says, all of them numbers.
void decode(mc::Run &r, int ticks, int upper, unsigned ts, const std::vector<Bytes> &payloads) {
  r.describe([&] {
    std::string s = "blocks of " + std::to_string(ticks) + " ticks, " + std::to_string(ts) + " a second, upper frequency " + std::to_string(upper) + ":";
    for (auto &p : payloads) s += " [" + hex(p) + "]";
    return s;
  });
  const auto in = [&] { return ", blocks of " + std::to_string(ticks) + " ticks, " + std::to_string(ts) + " a second, upper frequency " + std::to_string(upper) + ", first payload " + hex(payloads[0]); };
  const auto samples = static_cast<size_t>(std::lround(static_cast<double>(ticks) * upper / ts));
  WaveletDecoder w;
  auto b = waveBand(ticks, upper, payloads);
  auto whole = w.decodeBand(b, static_cast<int>(ts));
  r.step();
  REQUIRE(r, whole.size() >= samples * payloads.size(), "samples", "the band has " + std::to_string(whole.size()) + " samples" + in());
  for (double v : whole) REQUIRE(r, std::isfinite(v), "number", "a sample is not a number" + in());
  w.transformBand(b, ts);
  r.step();
  REQUIRE(r, b.getEffectsSize() == payloads.size(), "effects", "the band has " + std::to_string(b.getEffectsSize()) + " effects" + in());
  std::string seen;
  for (size_t i = 0; i < payloads.size(); i++) {
    auto &s = b.getEffectAt(static_cast<int>(i)).getWaveletSamples();
    REQUIRE(r, s.size() == samples, "samples", "a block has " + std::to_string(s.size()) + " samples" + in());
    for (double v : s) REQUIRE(r, std::isfinite(v), "number", "a sample is not a number" + in());
    seen.append(reinterpret_cast<const char *>(s.data()), s.size() * sizeof(double));
  }
  r.state(mc::hashStr(seen));
  for (auto &p : payloads) (void)p;
  ht::Channel c(0, "", 1, 1, 0);
  c.addBand(b);
  for (double t : {-1.0, 0.0, 0.5, ticks - 0.5, static_cast<double>(ticks), ticks * 2.0 + 1}) {
    const double v = c.Evaluate(t, ts);
    REQUIRE(r, v >= -1 && v <= 1, "range", "the channel has the value " + std::to_string(v) + in());
  }
}
// Every payload of up to two bytes.
void payloads(mc::Run &r) {
  static const std::vector<int> lens = {16, 8, 4, 2, 1, 32, 64};
  const int len = r.pick(lens);
  const int first = r.choose(257); // 256: none
  if (!r.go()) return;
  r.tag("payload");
  if (first == 256) {
    decode(r, len, 1000, 1000, {{}});
    decode(r, len, 1000, 1000, {{}, {1, 2}, {}});
    return;
  }
  const auto a = static_cast<unsigned char>(first);
  decode(r, len, 1000, 1000, {{a}});
  const int step = r.thorough() || len == 16 ? 1 : 3;
  for (int i = 0; i < 256; i += step) decode(r, len, 1000, 1000, {{a, static_cast<unsigned char>(i)}});
}
Bytes encoded(int len, int kind, int bits) {
  haptics::spiht::Spiht_Enc e;
  std::vector<int> c(static_cast<size_t>(len));
  for (int i = 0; i < len; i++) {
    const int m = (1 << bits) - 1;
    if (kind == 0) c[static_cast<size_t>(i)] = i == 0 ? m : 0;
    if (kind == 1) c[static_cast<size_t>(i)] = (i * 7 + 3) % (m + 1) * (i % 3 == 1 ? -1 : 1);
    if (kind == 2) c[static_cast<size_t>(i)] = i % 5 == 0 ? -m / (1 + i / 5) : 0;
  }
  Bytes out;
  e.encodeEffect(c, bits, 0.7, out);
  return out;
}
// Real payloads, cut off anywhere and with every byte changed; between intact blocks.
void damaged(mc::Run &r) {
  static const std::vector<int> lens = {16, 8, 32, 64, 128};
  static const std::vector<int> depths = {3, 7, 15, 1};
  const int len = r.pick(lens);
  const int bits = r.pick(depths);
  const int kind = r.choose(3);
  const auto p = encoded(len, kind, bits);
  const int at = r.choose(static_cast<int>(p.size()) + 1);
  if (!r.go()) return;
  r.tag("damage");
  const Bytes head(p.begin(), p.begin() + at);
  const auto ok = encoded(len, 1, 3);
  decode(r, len, 1000, 1000, {ok, head, ok});
  for (int fill : {0, 0xff, 0x55}) {
    auto q = head;
    q.resize(p.size() + 3, static_cast<unsigned char>(fill));
    decode(r, len, 1000, 1000, {q});
  }
  if (at == static_cast<int>(p.size())) return;
  for (int x = 1; x < 256; x += r.thorough() ? 1 : 5) {
    auto q = p;
    q[static_cast<size_t>(at)] = static_cast<unsigned char>(q[static_cast<size_t>(at)] ^ x);
    decode(r, len, 1000, 1000, {q, ok});
  }
}
// Payloads of one block length in bands of another.
void geometry(mc::Run &r) {
  static const std::vector<int> uppers = {1000, 0, 1, 7, 100, 333, 4000, 65535};
  static const std::vector<unsigned> scales = {1000, 1, 3, 8000, 48000};
  const int ticks = r.choose(r.thorough() ? 256 : 130) + 1;
  const int upper = r.pick(uppers);
  const unsigned ts = r.pick(scales);
  if (!r.go()) return;
  r.tag("geometry");
  if (static_cast<double>(ticks) * upper / ts > 20000) return;
  decode(r, ticks, upper, ts, {encoded(16, 1, 5), encoded(64, 2, 7), {}});
  decode(r, ticks, upper, ts, {encoded(128, 1, 15)});
}

void render(mc::Run &r, ht::Channel &c, int length, unsigned ts, const std::string &in) {
  std::string seen;
  for (int t = -4; t <= length + 4; t++)
    for (double part : {0.0, 0.5}) {
      const double v = c.Evaluate(t + part, ts);
      r.step();
      REQUIRE(r, v >= -1 && v <= 1, "range", "the channel has the value " + std::to_string(v) + " at " + std::to_string(t + part) + in);
      seen += std::to_string(v) + " ";
    }
  for (int fs : {1000, 3000, 250, 7})
    for (int pad : {0, 3}) {
      const auto n = static_cast<uint32_t>(length * fs / static_cast<int>(ts) + 5);
      auto s = c.EvaluateChannel(n, fs, pad, ts);
      r.step();
      REQUIRE(r, s.size() == n, "count", std::to_string(s.size()) + " samples instead of " + std::to_string(n) + in);
      for (double v : s) REQUIRE(r, v >= -1 && v <= 1, "range", "a sample is " + std::to_string(v) + " at a rate of " + std::to_string(fs) + in);
    }
  r.state(mc::hashStr(seen));
}
// Every list of up to three keyframes, complete or not, in order or not, in every kind of band.
void envelopes(mc::Run &r) {
  static const std::vector<int> at = {0, 5, 6, 20, -3};
  const int kind = r.choose(9); // transient, vectorial, curves
  const int n = r.choose(r.thorough() ? 5 : 4);
  const int first = n > 0 ? r.choose(static_cast<int>(at.size()) + 1) : 0;
  const int base = kind == 1 ? r.choose(5) : 0;
  if (!r.go()) return;
  r.tag("envelope-" + std::to_string(kind));
  Eff e = kind == 1 ? vect(2, {}, 1.5F, base) : basis(2, {});
  for (int i = 0; i < n; i++) {
    KF k;
    const int p = i == 0 ? first : r.choose(static_cast<int>(at.size()) + 1);
    if (p < static_cast<int>(at.size())) k.pos = at[static_cast<size_t>(p)];
    const int what = r.choose(3);
    if (what != 0) k.amp = what == 1 ? 1.0F : -0.75F;
    if (kind == 1) {
      const int f = r.choose(3);
      if (f != 0) k.freq = f == 1 ? 90 : 0;
    }
    e.kfs.push_back(k);
  }
  Doc d = lean();
  BandD b = band(kind == 0 ? 0 : kind == 1 ? 2 : 1, 0, 1000, {e});
  if (kind > 1) b.curve = kind - 2;
  C(d).bands = {b};
  r.describe([&] { return dump(d); });
  auto h = toHaptics(d);
  render(r, h.getPerceptionAt(0).getChannelAt(0), 30, 1000, " in " + dump(d));
}
// Longer curves, dense and sparse.
void curves(mc::Run &r) {
  const int type = r.choose(8);
  const int n = 1 + r.choose(r.thorough() ? 14 : 10);
  static const std::vector<int> gaps = {1, 2, 7, 50};
  const int g1 = r.pick(gaps);
  const int g2 = r.pick(gaps);
  const int start = r.choose(2) * 4;
  static const std::vector<unsigned> scales = {1000, 8000, 100};
  const unsigned ts = r.pick(scales);
  if (!r.go()) return;
  r.tag("curve-" + std::to_string(type));
  Eff e = basis(3, {});
  int t = start;
  for (int i = 0; i < n; i++) {
    KF k;
    k.pos = t;
    k.amp = i % 3 == 0 ? 1.0F : i % 3 == 1 ? -1.0F : 0.25F;
    e.kfs.push_back(k);
    t += i % 2 ? g1 : g2;
  }
  Doc d = lean();
  BandD b = band(1, 0, 1000, {e});
  b.curve = type;
  C(d).bands = {b};
  r.describe([&] { return dump(d); });
  auto h = toHaptics(d);
  render(r, h.getPerceptionAt(0).getChannelAt(0), t + 5, ts, " at " + std::to_string(ts) + " ticks a second in " + dump(d));
}
// Whole documents through the player.
void play(mc::Run &r, const Doc &d) {
  r.describe([&] { return dump(d); });
  for (int fs : {2000, 441})
    for (int pad : {0, 20}) {
      auto h = toHaptics(d);
      const double length = Helper::getTimeLength(h);
      REQUIRE(r, std::isfinite(length) && length >= 0, "length", "the experience lasts " + std::to_string(length) + " in " + dump(d));
      const auto ts = d.timescale.value_or(1000);
      const double play = std::min(length, 20.0 * ts); // the first twenty seconds
      std::string file = mc::scratch() + "/c25.wav";
      written.clear();
      REQUIRE(r, Helper::playFile(h, play, fs, pad, file), "play", "the document cannot be played: " + dump(d));
      r.step();
      size_t channels = 0, at = 0;
      for (auto &p : d.percs) channels += p.channels.size();
      REQUIRE(r, written.size() == channels, "channels", std::to_string(written.size()) + " channels are played of " + dump(d));
      for (auto &p : d.percs)
        for (auto &c : p.channels) {
          const double most = std::fabs(c.gain) * std::pow(10.0, p.unitExp.value_or(0) == 0 && !p.percUnitExp ? 0 : p.percUnitExp.value_or(0)) * 1.0001 + 1e-9;
          for (double v : written[at]) REQUIRE(r, std::isfinite(v) && std::fabs(v) <= most, "range", "a sample is " + std::to_string(v) + " in channel " + std::to_string(at) + " of " + dump(d));
          at++;
        }
      r.state(mc::hashBytes(written.empty() || written[0].empty() ? nullptr : written[0].data(), written.empty() ? 0 : written[0].size() * sizeof(double)));
    }
}
void documents(mc::Run &r) {
  static const auto ts = tweaksFor(J);
  const bool isRich = r.flip();
  const int i = r.choose(static_cast<int>(ts.size()));
  if (!r.go()) return;
  r.tag(ts[static_cast<size_t>(i)].name);
  Doc d = isRich ? rich() : lean();
  apply(d, {&ts[static_cast<size_t>(i)]});
  play(r, d);
}
void pairs(mc::Run &r) {
  static const auto ts = families(tweaksFor(J));
  const int i = r.choose(static_cast<int>(ts.size()));
  if (!r.go()) return;
  const int j = r.choose(static_cast<int>(ts.size()));
  r.tag(ts[static_cast<size_t>(i)].name + "+" + ts[static_cast<size_t>(j)].name);
  Doc d = rich();
  apply(d, {&ts[static_cast<size_t>(i)], &ts[static_cast<size_t>(j)]});
  play(r, d);
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C25", {{"payloads", payloads}, {"damaged", damaged}, {"geometry", geometry}, {"envelopes", envelopes}, {"curves", curves}, {"documents", documents}, {"pairs", pairs, true}});
}
