// C27: WAV files in and out, and the import of sampled signals.
#include "mc.h"
#include <Encoder/include/PcmEncoder.h>
#include <FilterBank/include/Filterbank.h>
#include <Tools/include/WavParser.h>
#include <WaveletDecoder/include/WaveletDecoder.h>
#include <algorithm>
#include <cmath>
#include <cstring>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <set>
#include <sstream>

namespace ht = haptics::types;
using haptics::encoder::EncodingConfig;
using haptics::encoder::PcmEncoder;
using haptics::tools::WavParser;
using Sig = std::vector<double>;
using Sigs = std::vector<Sig>;
using Points = std::vector<std::pair<int, double>>;

namespace {
std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  return {std::istreambuf_iterator<char>(f), {}};
}
void spew(const std::string &p, const std::string &s) { std::ofstream(p, std::ios::binary) << s; }
std::string file(const char *name) { return mc::scratch() + "/" + name; }
void le(std::string &s, uint32_t v, int n) {
  for (int i = 0; i < n; i++) s += static_cast<char>(v >> (8 * i));
}
std::string riff(const std::vector<std::vector<int>> &channels, uint32_t rate) {
  const auto n = static_cast<uint32_t>(channels.size()), m = static_cast<uint32_t>(channels[0].size());
  std::string s = "RIFF";
  le(s, 36 + 2 * n * m, 4);
  s += "WAVEfmt ";
  le(s, 16, 4), le(s, 1, 2), le(s, n, 2), le(s, rate, 4), le(s, rate * 2 * n, 4), le(s, 2 * n, 2), le(s, 16, 2);
  s += "data";
  le(s, 2 * n * m, 4);
  for (uint32_t i = 0; i < m; i++)
    for (auto &c : channels) le(s, static_cast<uint32_t>(c[i]), 2);
  return s;
}
std::string show(const Sig &s) {
  std::ostringstream o;
  o << "(";
  for (size_t i = 0; i < s.size() && i < 40; i++) o << (i ? " " : "") << s[i];
  o << (s.size() > 40 ? " ...)" : ")");
  return o.str();
}
std::string show(const Points &s) {
  std::ostringstream o;
  for (auto &[i, v] : s) o << " " << i << ":" << v;
  return o.str();
}

// ---------------------------------------------------------------- files
void save(mc::Run &r) { // every short signal of one to three channels
  static const Sig VALUES = {0, 1, -1, 0.5, -0.25, 1.0 / 32768, 0.4 / 32768, -0.6 / 32768, 32767.4 / 32768, 32767.6 / 32768, -32768.4 / 32768, 2.5, -7, 1e9, -1e9};
  static const std::vector<int> RATES = {8000, 1, 44100, 1000000};
  const int channels = 1 + r.choose(3), samples = r.choose(channels > 1 ? 3 : 4);
  const int rate = r.pick(RATES);
  if (!r.go()) return;
  const bool mono = channels == 1 && r.flip();
  Sigs s(static_cast<size_t>(channels), Sig(static_cast<size_t>(samples)));
  for (auto &c : s)
    for (auto &v : c) v = VALUES[static_cast<size_t>(r.choose(channels * samples > 4 && !r.thorough() ? 5 : channels * samples > 4 ? 8 : static_cast<int>(VALUES.size())))];
  r.describe([&] {
    std::string t = std::to_string(rate) + " Hz:";
    for (auto &c : s) t += " " + show(c);
    return t;
  });
  const auto path = file("c27.wav");
  spew(path, std::string(500, '?'));
  const bool ok = mono ? WavParser::saveFile(path, s[0], rate) : WavParser::saveFile(path, s, rate);
  REQUIRE(r, ok, "save", "the file is not written");
  std::vector<std::vector<int>> exp;
  for (auto &c : s) {
    exp.emplace_back();
    for (double v : c) exp.back().push_back(static_cast<int>(std::min(32767.0, std::max(-32768.0, std::round(v * 32768)))));
  }
  REQUIRE(r, slurp(path) == riff(exp, static_cast<uint32_t>(rate)), "bytes", "the file is not the signal in 16 bits");
  WavParser p;
  REQUIRE(r, p.loadFile(path), "load", "the file is not read back");
  REQUIRE(r, p.getSamplerate() == static_cast<uint32_t>(rate) && p.getNumChannels() == s.size() && p.getNumSamples() == s.size() * static_cast<size_t>(samples), "numbers", "rate, channels or samples: " + std::to_string(p.getSamplerate()) + " " + std::to_string(p.getNumChannels()) + " " + std::to_string(p.getNumSamples()));
  const auto all = p.getAllSamples();
  REQUIRE(r, all.size() == s.size(), "all", std::to_string(all.size()) + " signals");
  for (size_t c = 0; c < s.size(); c++) {
    Sig want;
    for (int v : exp[c]) want.push_back(v / 32768.0);
    REQUIRE(r, p.getSamplesChannel(c) == want && all[c] == want, "samples", "channel " + std::to_string(c) + " is " + show(p.getSamplesChannel(c)) + " instead of " + show(want));
  }
  r.step();
  r.state(slurp(path));
}
void levels(mc::Run &r) { // every 16 bit value
  const int top = r.choose(256);
  if (!r.go()) return;
  std::vector<int> in;
  for (int low = 0; low < 256; low++) in.push_back(static_cast<int16_t>(top * 256 + low));
  const auto path = file("c27.wav");
  spew(path, riff({in, in}, 8000));
  WavParser p;
  REQUIRE(r, p.loadFile(path), "load", "the file is not read");
  for (size_t i = 0; i < 256; i++) REQUIRE(r, p.getSamplesChannel(0)[i] * 32768 == in[i], "level", "value " + std::to_string(in[i]) + " is read as " + std::to_string(p.getSamplesChannel(0)[i] * 32768));
  const auto again = file("c27-again.wav");
  REQUIRE(r, WavParser::saveFile(again, p.getAllSamples(), 8000) && slurp(again) == slurp(path), "again", "a file read and written again is another one");
  r.step(256);
  r.state(static_cast<uint64_t>(top));
}
void refused(mc::Run &r) { // what is not a WAV file, what cannot be one
  const int what = r.choose(2);
  if (!r.go()) return;
  if (what == 0) {
    const std::string good = riff({{1, 2, 3}, {4, 5, 6}}, 8000);
    const auto n = static_cast<size_t>(r.choose(static_cast<int>(good.size()) + 1));
    const auto path = file("c27.wav");
    spew(path, good.substr(0, n));
    r.describe([&] { return "the first " + std::to_string(n) + " bytes of a file"; });
    WavParser p;
    const bool before = r.flip(); // something was read before
    if (before) {
      spew(file("c27-before.wav"), riff({{9, 9, 9, 9}}, 16000));
      p.loadFile(file("c27-before.wav"));
    }
    const bool ok = p.loadFile(path);
    REQUIRE(r, n == good.size() ? ok : n < 44 ? !ok : true, "load", ok ? "a file without a header is read" : "the file is not read");
    if (ok) {
      REQUIRE(r, p.getNumChannels() == 2 && p.getAllSamples().size() == 2 && p.getSamplerate() == 8000, "channels", "the file has " + std::to_string(p.getNumChannels()) + " channels");
      for (size_t i = 0; i < p.getSamplesChannel(1).size(); i++) REQUIRE(r, p.getSamplesChannel(0)[i] * 32768 == 1 + static_cast<double>(i) && p.getSamplesChannel(1)[i] * 32768 == 4 + static_cast<double>(i), "samples", "the samples are others");
      REQUIRE(r, p.getSamplesChannel(0).size() == (n - 44) / 4, "length", "there are " + std::to_string(p.getSamplesChannel(0).size()) + " samples");
    }
  } else {
    const int k = r.choose(6);
    const auto path = k < 3 ? file("c27-none.wav") : file("c27-nowhere/x.wav");
    std::filesystem::remove(path);
    const Sigs s = k == 0 ? Sigs{} : k == 1 ? Sigs{{1, 2}, {1}} : k == 2 ? Sigs{{1}, {}, {1}} : Sigs{{0.5, 0.25}};
    r.describe([&] { return std::to_string(s.size()) + " signals to " + path; });
    bool ok;
    if (k == 4) ok = WavParser::saveFile(path, s[0], 8000);
    else if (k == 5) ok = WavParser::saveFile("/dev/full", s, 8000);
    else ok = WavParser::saveFile(path, s, 8000);
    REQUIRE(r, !ok, "save", "success for what cannot be written");
    REQUIRE(r, !std::filesystem::exists(path), "left", "a file is left");
  }
  r.step();
}

// ---------------------------------------------------------------- extrema and the curve
Points turning(const Sig &s, bool border) { // the definition
  Points p;
  const auto n = static_cast<int>(s.size());
  for (int i = 0; i < n; i++) {
    if (i == 0 || i == n - 1) {
      if (border) p.emplace_back(i, s[static_cast<size_t>(i)]);
      if (border && n == 1) p.emplace_back(i, s[0]); // a curve has two ends
      continue;
    }
    const double a = s[static_cast<size_t>(i) - 1], b = s[static_cast<size_t>(i)], c = s[static_cast<size_t>(i) + 1];
    if (a == b && b == c) continue;
    if ((b >= a && b >= c) || (b <= a && b <= c)) p.emplace_back(i, b);
  }
  return p;
}
void extrema(mc::Run &r) { // of every short signal
  static const Sig VALUES = {0, 0.5, -0.5, 1, -1};
  const int values = r.thorough() ? 5 : 4, most = r.thorough() ? 9 : 8;
  Sig s;
  for (int i = 0; i < most; i++) {
    const int k = r.choose(values + 1);
    if (i == 1 || (i == 0 && !k))
      if (!r.go()) return;
    if (!k) break;
    s.push_back(VALUES[static_cast<size_t>(k) - 1]);
  }
  r.describe([&] { return show(s); });
  for (bool border : {true, false}) {
    const auto got = PcmEncoder::localExtrema(s, border);
    REQUIRE(r, got == turning(s, border), border ? "extrema" : "inner", "the points are" + show(got) + " instead of" + show(turning(s, border)));
    r.state(show(got));
  }
  r.step();
}
void curve(mc::Run &r) { // points to keyframes, at the ticks next to them
  static const std::vector<std::pair<double, unsigned>> SCALES = {{8000, 1000}, {1000, 1000}, {8000, 8000}, {44100, 1000}, {3, 1000}, {8000, 1}, {1, 1}, {1000, 500}};
  const auto [rate, ts] = r.pick(SCALES);
  const int n = r.choose(5), limit = r.choose(4);
  if (!r.go()) return;
  static const std::vector<int> STEPS = {0, 1, 3, 4, 5, 12, 8000};
  Points p;
  int at = 0;
  for (int i = 0; i < n; i++) {
    at += r.pick(STEPS);
    p.emplace_back(at, 0.125 * (i + 1) * (i & 1 ? -1 : 1));
  }
  const double cut = std::vector<double>{72.5, 1, 0, -3}[static_cast<size_t>(limit)];
  r.describe([&] { return "points" + show(p) + " at " + std::to_string(rate) + " Hz, timescale " + std::to_string(ts) + ", limit " + std::to_string(cut); });
  ht::Band b;
  Points copy = p;
  const bool ok = PcmEncoder::convertToCurveBand(copy, rate, cut, ts, &b);
  REQUIRE(r, ok == (cut > 0), "result", "the result is " + std::to_string(ok));
  REQUIRE(r, !PcmEncoder::convertToCurveBand(copy, rate, cut, ts, nullptr), "nowhere", "success without a band");
  REQUIRE(r, copy == p, "points-changed", "the points changed");
  r.step();
  if (!ok) {
    REQUIRE(r, b.getEffectsSize() == 0, "refused", "the band has effects");
    return;
  }
  REQUIRE(r, b.getBandType() == ht::BandType::Curve && b.getLowerFrequencyLimit() == 0 && b.getUpperFrequencyLimit() == static_cast<int>(cut), "band", "type or limits of the band");
  REQUIRE(r, b.getEffectsSize() == 1 && b.getEffectAt(0).getPosition() == 0 && b.getEffectAt(0).getEffectType() == ht::EffectType::Basis, "effect", "the band's effects");
  Points want; // the last point of a tick counts
  for (auto &[i, v] : p) {
    const int t = static_cast<int>(std::round(ts * static_cast<double>(i) / rate));
    if (!want.empty() && want.back().first == t) want.pop_back();
    want.emplace_back(t, v);
  }
  auto &e = b.getEffectAt(0);
  Points got;
  for (int i = 0; i < static_cast<int>(e.getKeyframesSize()); i++) {
    auto &k = e.getKeyframeAt(i);
    REQUIRE(r, k.getRelativePosition().has_value() && k.getAmplitudeModulation().has_value() && !k.getFrequencyModulation().has_value(), "keyframe", "keyframe " + std::to_string(i) + " is not complete");
    got.emplace_back(*k.getRelativePosition(), *k.getAmplitudeModulation());
  }
  REQUIRE(r, got == want, "keyframes", "the keyframes are" + show(got) + " instead of" + show(want));
  r.state(show(got));
}

// ---------------------------------------------------------------- import
Sig signal(int kind, int n) {
  Sig s;
  unsigned seed = 12345U + static_cast<unsigned>(kind);
  for (int i = 0; i < n; i++) {
    double v = 0;
    seed = seed * 1664525U + 1013904223U;
    switch (kind) {
    case 0: break;
    case 1: v = 0.7; break;
    case 2: v = 0.6 * std::sin(i * 0.02); break;
    case 3: v = 0.6 * std::sin(i * 1.1); break;
    case 4: v = 0.4 * std::sin(i * 0.03) + 0.3 * std::sin(i * 0.8); break;
    case 5: v = i == n / 2 ? 0.9 : 0; break;
    case 6: v = i < n / 2 ? -0.5 : 0.5; break;
    case 7: v = (seed >> 8) / 16777216.0 - 0.5; break;
    default: v = i % 2 ? 1 : -1; break;
    }
    s.push_back(std::round(v * 32767) / 32768.0);
  }
  return s;
}
std::vector<int> ints(const Sig &s) {
  std::vector<int> v;
  for (double x : s) v.push_back(static_cast<int>(std::lround(x * 32768)));
  return v;
}
void import(mc::Run &r) { // a channel for every channel, with the bands that were asked for
  static const std::vector<int> SIZES = {64, 63, 200, 1, 5};
  static const std::vector<double> CUTS = {72.5, 0, 300};
  const int kind = r.choose(9), n = r.pick(SIZES), channels = 1 + r.choose(3);
  const double cut = r.pick(CUTS);
  if (!r.go()) return;
  const bool wavelet = r.flip(), vectorial = r.flip();
  const int modality = r.choose(14), there = r.choose(wavelet && !r.thorough() ? 2 : 4), length = wavelet ? r.pick(std::vector<int>{64, 16}) : 64;
  if (wavelet && modality % 5 && !r.thorough()) return;
  const unsigned ts = r.flip() ? 8000 : 1000;
  Sigs s;
  for (int c = 0; c < channels; c++) s.push_back(signal((kind + c) % 9, n));
  std::vector<std::vector<int>> raw;
  for (auto &x : s) raw.push_back(ints(x));
  std::string path = file("c27.wav");
  spew(path, riff(raw, 8000));
  ht::Perception p(3, 1, "kept", static_cast<ht::PerceptionModality>(modality));
  for (int c = 0; c < there; c++) { // described before, as from an OHM file
    ht::Channel ch(10 + c, "c" + std::to_string(c), 0.5F + static_cast<float>(c), 0.75F, 4);
    p.addChannel(ch);
  }
  EncodingConfig config(cut, length, 12, wavelet, vectorial);
  r.describe([&] { return std::to_string(channels) + " channels of kind " + std::to_string(kind) + ", " + std::to_string(n) + " samples, cutoff " + std::to_string(cut) + (wavelet ? " wavelet" : "") + (vectorial ? " vectorial" : "") + ", modality " + std::to_string(modality) + ", " + std::to_string(there) + " channels there, blocks of " + std::to_string(length) + ", timescale " + std::to_string(ts); });
  const int code = PcmEncoder::encode(path, config, ts, p);
  r.step();
  REQUIRE(r, (code == 0) == (there <= channels), "status", "status " + std::to_string(code));
  REQUIRE(r, p.getId() == 3 && p.getAvatarId() == 1 && p.getDescription() == "kept", "perception", "the perception changed");
  if (code != 0) {
    REQUIRE(r, static_cast<int>(p.getChannelsSize()) == there, "refused", "channels were added");
    return;
  }
  REQUIRE(r, static_cast<int>(p.getChannelsSize()) == channels, "channels", std::to_string(p.getChannelsSize()) + " channels");
  std::set<int> ids;
  haptics::filterbank::Filterbank bank(8000);
  for (int c = 0; c < channels; c++) {
    auto &ch = p.getChannelAt(c);
    const std::string which = "channel " + std::to_string(c) + ": ";
    REQUIRE(r, ids.insert(ch.getId()).second, "ids", "two channels have one id");
    if (c < there) REQUIRE(r, ch.getId() == 10 + c && ch.getDescription() == "c" + std::to_string(c) && ch.getGain() == 0.5F + static_cast<float>(c) && ch.getMixingWeight() == 0.75F && ch.getBodyPartMask() == 4, "metadata", which + "what was known of it changed");
    else REQUIRE(r, ch.getGain() == 1, "gain", which + "gain " + std::to_string(ch.getGain()));
    REQUIRE(r, ch.getFrequencySampling() == 8000U && ch.getSampleCount() == static_cast<uint32_t>(n), "sampling", which + "sampling frequency or number of samples");
    const bool curveWanted = vectorial && (cut > 0 || !wavelet);
    REQUIRE(r, ch.getBandsSize() == static_cast<size_t>(curveWanted) + static_cast<size_t>(wavelet), "bands", which + std::to_string(ch.getBandsSize()) + " bands");
    Sig rest = s[static_cast<size_t>(c)];
    if (curveWanted) {
      auto &b = ch.getBandAt(0);
      const auto m = static_cast<ht::PerceptionModality>(modality);
      const bool linear = m == ht::PerceptionModality::Force || m == ht::PerceptionModality::Stiffness, cubic = m == ht::PerceptionModality::Vibrotactile || m == ht::PerceptionModality::VibrotactileTexture;
      REQUIRE(r, b.getBandType() == ht::BandType::Curve && b.getCurveType() == (linear ? ht::CurveType::Linear : cubic ? ht::CurveType::Cubic : ht::CurveType::Unknown), "curve-type", which + "the type of the curve");
      REQUIRE(r, b.getUpperFrequencyLimit() == (cut > 0 ? static_cast<int>(cut) : 8000) && b.getLowerFrequencyLimit() == 0, "curve-limits", which + "the limits of the curve are " + std::to_string(b.getUpperFrequencyLimit()));
      Sig low = cut > 0 ? bank.LP(s[static_cast<size_t>(c)], cut) : s[static_cast<size_t>(c)];
      Points want;
      for (auto &[i, v] : PcmEncoder::localExtrema(low, true)) { // C27 extrema has these
        const int t = static_cast<int>(std::round(ts * static_cast<double>(i) / 8000));
        if (!want.empty() && want.back().first == t) want.pop_back();
        want.emplace_back(t, v);
      }
      REQUIRE(r, b.getEffectsSize() == 1 && b.getEffectAt(0).getKeyframesSize() == want.size(), "curve-points", which + std::to_string(b.getEffectsSize() ? b.getEffectAt(0).getKeyframesSize() : 0) + " points instead of " + std::to_string(want.size()));
      for (size_t i = 0; i < want.size(); i++) {
        auto &k = b.getEffectAt(0).getKeyframeAt(static_cast<int>(i));
        REQUIRE(r, *k.getRelativePosition() == want[i].first && std::fabs(*k.getAmplitudeModulation() - want[i].second) < 1e-6, "curve-point", which + "point " + std::to_string(i) + " is " + std::to_string(*k.getAmplitudeModulation()) + " at " + std::to_string(*k.getRelativePosition()));
      }
      if (cut > 0) {
        const auto c2 = b.EvaluationBand(static_cast<uint32_t>(n), 8000, 0, ts);
        for (size_t i = 0; i < rest.size(); i++) rest[i] -= c2[i];
      }
    } else if (cut > 0) {
      Sig low = bank.LP(s[static_cast<size_t>(c)], cut);
      for (size_t i = 0; i < rest.size(); i++) rest[i] -= low[i];
    }
    if (!wavelet) continue;
    auto &b = ch.getBandAt(static_cast<int>(curveWanted));
    REQUIRE(r, b.getBandType() == ht::BandType::WaveletWave && b.getLowerFrequencyLimit() == static_cast<int>(cut) && b.getUpperFrequencyLimit() == 8000, "wavelet-band", which + "type or limits of the wavelet band");
    // the same as the wavelet encoder makes of what the curve leaves (its faithfulness is C24's)
    haptics::encoder::WaveletEncoder enc(length, 8000);
    ht::Band exp;
    enc.encodeSignal(rest, 12, cut, exp, ts);
    REQUIRE(r, exp.getEffectsSize() == b.getEffectsSize() && exp.getBlockLength() == b.getBlockLength(), "wavelet-blocks", which + std::to_string(b.getEffectsSize()) + " blocks");
    for (int i = 0; i < static_cast<int>(b.getEffectsSize()); i++) {
      REQUIRE(r, b.getEffectAt(i).getWaveletBitstream() == exp.getEffectAt(i).getWaveletBitstream() && b.getEffectAt(i).getPosition() == exp.getEffectAt(i).getPosition(), "wavelet", which + "block " + std::to_string(i) + " is not what the curve leaves");
      r.state(std::string(b.getEffectAt(i).getWaveletBitstream().begin(), b.getEffectAt(i).getWaveletBitstream().end()));
    }
  }
}
void faithful(mc::Run &r) { // with bits to spare and blocks of whole ticks, what is rendered is what was imported (up to the steps of the scale factor)
  const int kind = r.choose(9);
  const int n = r.pick(std::vector<int>{64, 192, 128});
  const double cut = r.pick(std::vector<double>{0, 72.5, 300});
  if (!r.go()) return;
  const bool vectorial = r.flip();
  const unsigned ts = r.pick(std::vector<unsigned>{8000, 1000, 16000});
  const int length = r.pick(std::vector<int>{64, 32, 16});
  const int modality = r.pick(std::vector<int>{0, 6, 9});
  if (!vectorial && cut > 0) return; // leaves out the low frequencies
  const Sig s = signal(kind, n);
  std::string path = file("c27.wav");
  spew(path, riff({ints(s)}, 8000));
  ht::Perception p(0, 0, "", static_cast<ht::PerceptionModality>(modality));
  EncodingConfig config(cut, length, 15 * 10, true, vectorial);
  r.describe([&] { return "kind " + std::to_string(kind) + ", " + std::to_string(n) + " samples, cutoff " + std::to_string(cut) + (vectorial ? " vectorial" : "") + ", blocks of " + std::to_string(length) + ", timescale " + std::to_string(ts) + ", modality " + std::to_string(modality); });
  REQUIRE(r, PcmEncoder::encode(path, config, ts, p) == 0, "status", "the file is not imported");
  auto ch = p.getChannelAt(0);
  haptics::waveletdecoder::WaveletDecoder dec;
  for (int i = 0; i < static_cast<int>(ch.getBandsSize()); i++) {
    auto b = ch.getBandAt(i);
    if (b.getBandType() == ht::BandType::WaveletWave) {
      dec.transformBand(b, ts);
      ch.replaceBandAt(i, b);
    }
  }
  const auto got = ch.EvaluateChannel(static_cast<uint32_t>(n), 8000, 0, ts);
  double most = 0, worst = 0;
  size_t where = 0;
  for (double v : s) most = std::max(most, std::fabs(v));
  for (size_t i = 0; i < s.size(); i++)
    if (std::fabs(got[i] - s[i]) > worst) worst = std::fabs(got[i] - s[i]), where = i;
  r.step();
  r.state(static_cast<uint64_t>(worst * 1e9));
  REQUIRE(r, worst < 0.02 * std::max(1.0, most), "faithful", "sample " + std::to_string(where) + " is rendered as " + std::to_string(got[where]) + " instead of " + std::to_string(s[where]));
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C27", {{"save", save}, {"levels", levels}, {"refused", refused}, {"extrema", extrema}, {"curve", curve}, {"import", import}, {"faithful", faithful}});
}
