// C20: AHAP import: every event at its time, with the values its parameters and the curves around it give.
#include "mc.h"
#include <Encoder/include/AhapEncoder.h>
#include <Types/include/Perception.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <iostream>
#include <memory>
#include <optional>
#include <sstream>

namespace ht = haptics::types;
using haptics::encoder::AhapEncoder;

namespace {
struct Pt {
  double t, v;
};
struct Curve {
  bool sharp = false;
  double at = 0;
  std::vector<Pt> pts;
};
struct Ev {
  bool continuous = true;
  double t = 0, d = 1;
  std::optional<double> intensity, sharpness;
};
struct Pat {
  std::vector<Ev> events;
  std::vector<Curve> curves;
  int order = 0; // curves behind, before, between the events
  double ts = 1000;
};
std::string num(double d) {
  char b[40];
  std::snprintf(b, sizeof b, "%.17g", d);
  return b;
}
std::string json(const Ev &e) {
  std::string s = "{\"Event\":{\"Time\":" + num(e.t) + ",\"EventType\":\"" + (e.continuous ? "HapticContinuous" : "HapticTransient") + "\"";
  if (e.continuous) s += ",\"EventDuration\":" + num(e.d);
  s += ",\"EventParameters\":[";
  if (e.intensity) s += "{\"ParameterID\":\"HapticIntensity\",\"ParameterValue\":" + num(*e.intensity) + "}";
  if (e.intensity && e.sharpness) s += ",";
  if (e.sharpness) s += "{\"ParameterID\":\"HapticSharpness\",\"ParameterValue\":" + num(*e.sharpness) + "}";
  return s + "]}}";
}
std::string json(const Curve &c) {
  std::string s = std::string("{\"ParameterCurve\":{\"ParameterID\":\"") + (c.sharp ? "HapticSharpnessControl" : "HapticIntensityControl") + "\",\"Time\":" + num(c.at) + ",\"ParameterCurveControlPoints\":[";
  for (size_t i = 0; i < c.pts.size(); i++) s += (i ? "," : "") + ("{\"Time\":" + num(c.pts[i].t)) + ",\"ParameterValue\":" + num(c.pts[i].v) + "}";
  return s + "]}}";
}
std::string json(const Pat &p) {
  std::vector<std::string> l;
  for (auto &e : p.events) l.push_back(json(e));
  for (size_t i = 0; i < p.curves.size(); i++) {
    auto at = p.order == 0 ? l.end() : p.order == 1 ? l.begin() : l.begin() + static_cast<long>(p.events.size() / 2);
    l.insert(at, json(p.curves[i]));
  }
  std::string s = "{\"Version\":1.0,\"Pattern\":[";
  for (size_t i = 0; i < l.size(); i++) s += (i ? "," : "") + l[i];
  return s + "]}";
}
int import(const std::string &text, ht::Perception &p, unsigned ts, bool write = true) {
  std::string name = mc::scratch() + (write ? "/a.ahap" : "/none.ahap");
  if (write) std::ofstream(name, std::ios::binary) << text;
  return AhapEncoder::encode(name, p, ts);
}

// -- what is required
long tick(double t, double ts) { return static_cast<long>(std::lround(t * ts)); }
struct Val {
  std::vector<double> any; // one of these; none: only the range
};
struct Points {
  std::vector<std::pair<long, double>> p; // ascending
  bool twice = false;                     // two points at one time
  explicit Points(const Pat &pat, bool sharp) {
    for (auto &c : pat.curves)
      if (c.sharp == sharp)
        for (auto &q : c.pts) p.emplace_back(tick(q.t + c.at, pat.ts), q.v);
    std::stable_sort(p.begin(), p.end(), [](auto &a, auto &b) { return a.first < b.first; });
    for (size_t i = 1; i < p.size(); i++) twice |= p[i].first == p[i - 1].first;
  }
  bool empty() const { return p.empty(); }
  // index of the point at t, or -1
  int at(long t) const {
    for (size_t i = 0; i < p.size(); i++)
      if (p[i].first == t) return static_cast<int>(i);
    return -1;
  }
  // the line around t: the two points strictly around it
  bool around(long t, std::pair<long, double> &a, std::pair<long, double> &b) const {
    for (size_t i = 1; i < p.size(); i++)
      if (p[i - 1].first < t && t < p[i].first) {
        a = p[i - 1];
        b = p[i];
        return true;
      }
    return false;
  }
  bool last(int i) const { return i + 1 == static_cast<int>(p.size()); }
};
double lerp(std::pair<long, double> a, std::pair<long, double> b, long t) { return a.second + (b.second - a.second) * static_cast<double>(t - a.first) / static_cast<double>(b.first - a.first); }
double chirp(std::pair<long, double> a, std::pair<long, double> b, long t) { return a.second + (b.second - a.second) * static_cast<double>(t - a.first) / static_cast<double>(b.first - a.first) / 2; }
double hertz(double x) { return 65 + 235 * std::clamp(x, 0.0, 1.0); }

struct Want {
  long pos = 0, dur = 0;
  Val amp0, amp1, freq0, freq1; // transients: amp0, freq0
  std::vector<std::pair<long, Val>> amps, freqs; // inside
};
Want want(const Pat &pat, const Ev &e) {
  const Points A(pat, false), F(pat, true);
  Want w;
  w.pos = tick(e.t, pat.ts);
  w.dur = e.continuous ? tick(e.d, pat.ts) : 0;
  const double base = e.intensity ? *e.intensity * (e.continuous ? 0.6138 : 0.792) : 0.5;
  std::pair<long, double> a, b;
  if (!e.continuous) {
    if (A.empty()) w.amp0 = {{base}};
    else if (A.twice) ;
    else if (A.at(w.pos) >= 0) w.amp0 = {{base * A.p[A.at(w.pos)].second}};
    else if (A.around(w.pos, a, b)) w.amp0 = {{base * lerp(a, b, w.pos)}};
    if (F.empty()) w.freq0 = {{90}};
    else if (F.twice) ;
    else if (F.at(w.pos) > 0) w.freq0 = {{std::clamp(65 + 235 * F.p[F.at(w.pos)].second + 90, 65.0, 300.0)}};
    else if (F.around(w.pos, a, b)) w.freq0 = {{std::clamp(65 + 235 * lerp(a, b, w.pos) + 90, 65.0, 300.0)}};
    return w;
  }
  const long S = w.pos, E = w.pos + w.dur;
  if (A.empty()) w.amp0 = w.amp1 = {{base}};
  else if (!A.twice) {
    if (S < A.p.front().first || S > A.p.back().first) w.amp0 = {{base}};
    else if (A.around(S, a, b)) w.amp0 = {{base * lerp(a, b, S)}};
    else if (A.last(A.at(S))) w.amp0 = {{base, base * A.p[A.at(S)].second}};
    else w.amp0 = {{base * A.p[A.at(S)].second}};
    if (E < A.p.front().first || E > A.p.back().first) w.amp1 = {{base}};
    else if (A.around(E, a, b)) w.amp1 = {{base * lerp(a, b, E)}};
    else w.amp1 = A.at(E) > 0 ? Val{{base * A.p[A.at(E)].second}} : Val{{base, base * A.p[0].second}};
    for (size_t i = 0; i < A.p.size(); i++)
      if (S < A.p[i].first && A.p[i].first < E) {
        const double v = base * A.p[i].second;
        w.amps.push_back({A.p[i].first - S, A.last(static_cast<int>(i)) ? Val{{base, v}} : Val{{v}}});
      }
  }
  if (F.empty()) w.freq0 = w.freq1 = {{e.sharpness ? hertz(*e.sharpness) : 90}};
  else if (!F.twice) {
    for (size_t i = 0; i < F.p.size(); i++)
      if (S < F.p[i].first && F.p[i].first < E) {
        const double v = e.sharpness ? hertz(*e.sharpness + F.p[i].second) : 0;
        w.freqs.push_back({F.p[i].first - S, !e.sharpness ? Val{} : F.last(static_cast<int>(i)) ? Val{{hertz(*e.sharpness), v}} : Val{{v}}});
      }
    if (e.sharpness) {
      const double s = *e.sharpness;
      if (S < F.p.front().first || S > F.p.back().first) w.freq0 = {{hertz(s)}};
      else if (F.around(S, a, b)) w.freq0 = {{hertz(s + chirp(a, b, S))}};
      else if (F.last(F.at(S))) w.freq0 = {{hertz(s), hertz(s + F.p[F.at(S)].second)}};
      else w.freq0 = {{hertz(s + F.p[F.at(S)].second)}};
      if (E < F.p.front().first || E > F.p.back().first) w.freq1 = {{hertz(s)}};
      else if (F.around(E, a, b)) w.freq1 = {{hertz(s + chirp(a, b, E))}};
    }
  }
  return w;
}
bool is(const Val &v, double x, double tol) {
  if (v.any.empty()) return true;
  for (double y : v.any)
    if (std::fabs(x - y) <= tol) return true;
  return false;
}
std::string show(const Val &v) {
  std::string s;
  for (double y : v.any) s += (s.empty() ? "" : " or ") + std::to_string(y);
  return s;
}
std::string matches(const Want &w, ht::Effect &e) { // empty: yes
  std::ostringstream o;
  const int n = static_cast<int>(e.getKeyframesSize());
  if (e.getPosition() != w.pos) return "position " + std::to_string(e.getPosition()) + " instead of " + std::to_string(w.pos);
  if (n < 2) return "no keyframes";
  if (e.getKeyframeAt(0).getRelativePosition().value_or(0) != 0) return "does not start at 0";
  if (e.getKeyframeAt(n - 1).getRelativePosition().value_or(-1) != w.dur) return "does not last " + std::to_string(w.dur);
  auto amp = [&](int i) { return e.getKeyframeAt(i).getAmplitudeModulation(); };
  auto freq = [&](int i) { return e.getKeyframeAt(i).getFrequencyModulation(); };
  if (!amp(0) || !is(w.amp0, *amp(0), 1e-5)) return "starts with amplitude " + std::to_string(amp(0).value_or(-9)) + " instead of " + show(w.amp0);
  if (!amp(n - 1) || !is(w.amp1, *amp(n - 1), 1e-5)) return "ends with amplitude " + std::to_string(amp(n - 1).value_or(-9)) + " instead of " + show(w.amp1);
  if (!freq(0) || !is(w.freq0, *freq(0), 1.001)) return "starts with frequency " + std::to_string(freq(0).value_or(-9)) + " instead of " + show(w.freq0);
  if (!freq(n - 1) || !is(w.freq1, *freq(n - 1), 1.001)) return "ends with frequency " + std::to_string(freq(n - 1).value_or(-9)) + " instead of " + show(w.freq1);
  for (int which = 0; which < 2; which++)
    for (auto &[at, v] : which ? w.freqs : w.amps) {
      int found = 0;
      std::string got;
      for (int i = 1; i + 1 < n; i++)
        if (e.getKeyframeAt(i).getRelativePosition().value_or(-1) == at && (which ? freq(i).has_value() : amp(i).has_value())) {
          const double x = which ? *freq(i) : *amp(i);
          got += " " + std::to_string(x);
          if (is(v, x, which ? 1.001 : 1e-5)) found++;
        }
      if (!found) return std::string(which ? "frequency" : "amplitude") + " of the point at +" + std::to_string(at) + ":" + got + " instead of " + show(v);
    }
  return "";
}
std::string dump(ht::Perception &p) {
  std::ostringstream o;
  for (size_t c = 0; c < p.getChannelsSize(); c++) {
    auto &ch = p.getChannelAt(static_cast<int>(c));
    for (size_t b = 0; b < ch.getBandsSize(); b++) {
      auto &bd = ch.getBandAt(static_cast<int>(b));
      o << " band " << static_cast<int>(bd.getBandType()) << " " << bd.getLowerFrequencyLimit() << "-" << bd.getUpperFrequencyLimit() << ":";
      for (size_t i = 0; i < bd.getEffectsSize(); i++) {
        auto &e = bd.getEffectAt(static_cast<int>(i));
        o << " @" << e.getPosition() << "[";
        for (size_t k = 0; k < e.getKeyframesSize(); k++) {
          auto &kf = e.getKeyframeAt(static_cast<int>(k));
          o << (k ? " " : "") << kf.getRelativePosition().value_or(-1) << "/" << kf.getAmplitudeModulation().value_or(-1) << "/" << kf.getFrequencyModulation().value_or(-1);
        }
        o << "]";
      }
    }
  }
  return o.str();
}
ht::Perception perception() { return ht::Perception(0, 0, "p", ht::PerceptionModality::Vibrotactile); }

void judge(mc::Run &r, const Pat &pat, ht::Perception p, bool had = false) {
  r.describe([&] { return json(pat) + " at " + num(pat.ts); });
  const int rc = import(json(pat), p, static_cast<unsigned>(pat.ts));
  r.step();
  REQUIRE(r, rc == 0, "refused", "a well-formed pattern was refused");
  REQUIRE(r, p.getChannelsSize() == 1, "channels", "there are " + std::to_string(p.getChannelsSize()) + " channels");
  const std::string all = dump(p);
  auto &ch = p.getChannelAt(0);
  std::vector<Want> T, C;
  for (auto &e : pat.events) (e.continuous ? C : T).push_back(want(pat, e));
  size_t first = 0;
  if (had) { // what was there before stays
    REQUIRE(r, ch.getBandsSize() >= 2, "existing-band", "the bands of the channel are lost:" + all);
    auto &w = ch.getBandAt(0);
    REQUIRE(r, w.getBandType() == ht::BandType::WaveletWave && w.getEffectsSize() == 1 && w.getEffectAt(0).getPosition() == 7, "existing-band", "an existing band changed:" + all);
    auto &v = ch.getBandAt(1);
    REQUIRE(r, v.getBandType() == ht::BandType::VectorialWave && v.getEffectsSize() >= 1, "existing-band", "an existing band changed:" + all);
    first = 1;
  }
  int transientBands = 0;
  std::vector<bool> done(C.size(), false);
  size_t found = 0;
  bool old = false;
  for (size_t b = first; b < ch.getBandsSize(); b++) {
    auto &bd = ch.getBandAt(static_cast<int>(b));
    const bool mine = !(had && b == 1);
    if (mine) REQUIRE(r, bd.getLowerFrequencyLimit() == 65 && bd.getUpperFrequencyLimit() == 300, "band-range", "a band has another range:" + all);
    if (bd.getBandType() == ht::BandType::Transient) {
      transientBands++;
      REQUIRE(r, bd.getEffectsSize() == 1 && bd.getEffectAt(0).getPosition() == 0, "transients", "the transients are not in one effect at 0:" + all);
      auto &e = bd.getEffectAt(0);
      REQUIRE(r, e.getKeyframesSize() == T.size(), "transients", std::to_string(e.getKeyframesSize()) + " transients for " + std::to_string(T.size()) + " events:" + all);
      std::vector<bool> used(T.size(), false);
      long before = 0;
      for (size_t i = 0; i < e.getKeyframesSize(); i++) {
        auto &k = e.getKeyframeAt(static_cast<int>(i));
        REQUIRE(r, k.getRelativePosition() && k.getAmplitudeModulation() && k.getFrequencyModulation(), "transient-incomplete", "a transient lacks a value:" + all);
        const long at = *k.getRelativePosition();
        REQUIRE(r, at >= before, "order", "the transients are not in time order:" + all);
        before = at;
        REQUIRE(r, *k.getAmplitudeModulation() >= 0 && *k.getAmplitudeModulation() <= 1, "amplitude-range", "a transient is out of range:" + all);
        REQUIRE(r, *k.getFrequencyModulation() >= 65 && *k.getFrequencyModulation() <= 300, "frequency-range", "a transient is out of range:" + all);
        bool ok = false;
        bool timed = false;
        for (size_t j = 0; j < T.size() && !ok; j++)
          if (!used[j] && T[j].pos == at) {
            timed = true;
            if (is(T[j].amp0, *k.getAmplitudeModulation(), 1e-5) && is(T[j].freq0, *k.getFrequencyModulation(), 1.001)) ok = used[j] = true;
          }
        REQUIRE(r, timed, "transient-time", "a transient at " + std::to_string(at) + " is no event:" + all);
        REQUIRE(r, ok, "transient-value", "the transient at " + std::to_string(at) + " has other values than its event:" + all);
      }
      continue;
    }
    REQUIRE(r, bd.getBandType() == ht::BandType::VectorialWave, "band-type", "a band of another type:" + all);
    std::vector<std::pair<long, long>> spans;
    for (size_t i = 0; i < bd.getEffectsSize(); i++) {
      auto &e = bd.getEffectAt(static_cast<int>(i));
      const int n = static_cast<int>(e.getKeyframesSize());
      REQUIRE(r, n > 0 && e.getKeyframeAt(n - 1).getRelativePosition(), "keyframes", "an effect without an end:" + all);
      spans.emplace_back(e.getPosition(), e.getPosition() + *e.getKeyframeAt(n - 1).getRelativePosition());
      if (had && !old && b == 1 && e.getPosition() == 20 && n == 2 && e.getKeyframeAt(1).getRelativePosition() == 10 && e.getKeyframeAt(1).getFrequencyModulation() == 111) {
        old = true;
        continue;
      }
      long before = 0;
      for (int k = 0; k < n; k++) {
        auto &kf = e.getKeyframeAt(k);
        const long at = kf.getRelativePosition().value_or(k ? -1 : 0);
        REQUIRE(r, at >= before && at <= spans.back().second - spans.back().first, "order", "keyframes of an effect are not in time order:" + all);
        before = at;
        if (kf.getAmplitudeModulation()) REQUIRE(r, *kf.getAmplitudeModulation() >= 0 && *kf.getAmplitudeModulation() <= 1, "amplitude-range", "a keyframe is out of range:" + all);
        if (kf.getFrequencyModulation()) REQUIRE(r, *kf.getFrequencyModulation() >= 65 && *kf.getFrequencyModulation() <= 300, "frequency-range", "a keyframe is out of range:" + all);
      }
      std::string why = "there is no such event";
      bool ok = false;
      for (size_t j = 0; j < C.size() && !ok; j++)
        if (!done[j]) {
          std::string m = matches(C[j], e);
          if (m.empty()) ok = done[j] = true, found++;
          else if (C[j].pos == e.getPosition() || C.size() == 1) why = m;
        }
      REQUIRE(r, ok, "continuous-value", "the effect at " + std::to_string(e.getPosition()) + ": " + why + ":" + all);
    }
    for (size_t i = 0; i < spans.size(); i++)
      for (size_t j = i + 1; j < spans.size(); j++)
        REQUIRE(r, !(spans[i].first < spans[j].second && spans[j].first < spans[i].second), "overlap", "effects of a band overlap:" + all);
  }
  REQUIRE(r, found == C.size(), "continuous-lost", std::to_string(found) + " effects for " + std::to_string(C.size()) + " events:" + all);
  REQUIRE(r, transientBands == (T.empty() ? 0 : 1), "transient-band", std::to_string(transientBands) + " transient bands for " + std::to_string(T.size()) + " transients:" + all);
  REQUIRE(r, old == had, "existing-band", "an existing effect is lost:" + all);
  r.state(all);
}
void judge(mc::Run &r, const Pat &pat) { judge(r, pat, perception()); }

// -- scenarios
const double G = 0.01;
std::vector<std::vector<double>> ascending(int grid, int most) { // all increasing lists of grid times
  std::vector<std::vector<double>> l;
  for (int m = 1; m < (1 << grid); m++) {
    std::vector<double> v;
    for (int i = 0; i < grid; i++)
      if (m >> i & 1) v.push_back(i * G);
    if (static_cast<int>(v.size()) <= most) l.push_back(v);
  }
  return l;
}
void one(mc::Run &r, bool sharp) { // one event and one curve
  const int grid = r.thorough() ? 6 : 5;
  static const auto lists = ascending(grid, 3);
  const int start = r.choose(grid);
  const int len = r.choose(grid); // 0: transient
  if (!r.go()) return;
  const auto &times = r.pick(lists);
  Pat p;
  Ev e;
  e.continuous = len > 0;
  e.t = start * G;
  e.d = len * G;
  const std::vector<double> values = sharp ? std::vector<double>{-1, 0.25, 1} : std::vector<double>{0, 0.5, 1};
  Curve c;
  c.sharp = sharp;
  for (double t : times) c.pts.push_back({t, r.pick(values)});
  const int form = r.choose(4);
  auto &own = sharp ? e.sharpness : e.intensity;
  if (form) own = form == 1 ? 0.0 : form == 2 ? 0.5 : 1.0;
  if (r.flip()) c.at = G; // the curve is later by a step
  p.order = r.choose(2);
  r.tag(sharp ? "sharpness" : "intensity");
  p.events = {e};
  p.curves = {c};
  judge(r, p);
}
void intensity(mc::Run &r) { one(r, false); }
void sharpness(mc::Run &r) { one(r, true); }
void curves(mc::Run &r) { // two curves, of one kind or of both, in either order; their points in any order
  const bool s1 = r.flip(), s2 = r.flip();
  const int start = r.choose(5);
  const int len = r.choose(5);
  if (!r.go()) return;
  Pat p;
  Ev e;
  e.continuous = len > 0;
  e.t = start * G;
  e.d = len * G;
  e.intensity = 0.75;
  e.sharpness = 0.25;
  p.events = {e};
  for (int i = 0; i < 2; i++) {
    Curve c;
    c.sharp = i ? s2 : s1;
    const int a = r.choose(6);
    const int b = r.choose(5);
    c.pts = {{a * G, i ? 0.25 : 0.75}, {(b + (b >= a)) * G, i ? 0.5 : 0.375}}; // in either order
    p.curves.push_back(c);
  }
  p.order = r.choose(3);
  r.tag("two curves");
  judge(r, p);
}
void events(mc::Run &r) { // events of both kinds in any order of times
  const int n = 1 + r.choose(r.thorough() ? 5 : 4);
  const int one = r.choose(5 * 4);
  if (!r.go()) return;
  Pat p;
  for (int i = 0; i < n; i++) {
    const int which = i ? r.choose(n > 3 ? 12 : 20) : one;
    Ev e;
    e.t = (which % 4 + (n > 3 ? which % 4 % 2 : 0)) * 0.1;
    e.continuous = which / 4 > 0;
    e.d = which / 4 * 0.1;
    e.intensity = 0.2 * (i + 1);
    e.sharpness = 0.15 * (i + 1);
    p.events.push_back(e);
  }
  r.tag("events");
  if (n <= 3) {
    const int with = r.choose(3);
    if (with) {
      Curve c;
      c.sharp = with == 2;
      c.pts = {{0.05, 0.5}, {0.1, 0.25}, {0.3, 1}};
      p.curves = {c};
      p.order = r.choose(3);
    }
  }
  judge(r, p);
}
void times(mc::Run &r) { // times of all kinds and timescales
  const double ts = r.pick(std::vector<double>{1000, 8000, 600, 1, 44100});
  const int what = r.choose(3);
  if (!r.go()) return;
  const int a = r.choose(r.thorough() ? 1000 : 250); // milliseconds, every one
  const int b = 1 + r.choose(7);
  Pat p;
  p.ts = ts;
  Ev e;
  e.continuous = what != 0;
  e.intensity = 1;
  e.sharpness = 0.5;
  e.t = what == 1 ? b / 10.0 : a / 1000.0;
  e.d = what == 1 ? (a + 1) / 1000.0 : b / 7.0;
  r.tag("times");
  if (r.flip()) {
    Curve c;
    c.at = b / 100.0;
    c.pts = {{a / 1000.0 - (a > 3 ? 0.003 : 0), 0.5}, {a / 1000.0 + b / 9.0 + 0.003, 1}, {a / 1000.0 + 3, 0}};
    p.curves = {c};
  }
  p.events = {e};
  if (what != 0 && tick(e.d, ts) < 1) return; // shorter than a tick
  auto between = [&](double t) { return std::fabs(t * ts - std::floor(t * ts) - 0.5) < 1e-6; }; // two ticks: either
  if (between(e.t) || between(e.d)) return;
  for (auto &c : p.curves)
    for (auto &q : c.pts)
      if (between(q.t + c.at)) return;
  judge(r, p);
}
ht::Perception full() { // a perception that has a channel with bands
  auto p = perception();
  ht::Channel c(3, "there", 0.5, 1, 2);
  ht::Band w(ht::BandType::WaveletWave, 0, 1000);
  ht::Effect we(7, 0, ht::BaseSignal::Sine, ht::EffectType::Basis);
  w.addEffect(we);
  c.addBand(w);
  ht::Band v(ht::BandType::VectorialWave, 10, 400);
  ht::Effect e(20, 0, ht::BaseSignal::Sine, ht::EffectType::Basis);
  ht::Keyframe k0(0, 0.5F, 100), k1(10, 0.5F, 111);
  e.addKeyframe(k0);
  e.addKeyframe(k1);
  v.addEffect(e);
  c.addBand(v);
  p.addChannel(c);
  return p;
}
void existing(mc::Run &r) { // into a channel that exists, or into more than one
  const bool more = r.flip();
  const int n = r.choose(3);
  if (!r.go()) return;
  Pat p;
  for (int i = 0; i <= n; i++) {
    Ev e;
    const int which = r.choose(10);
    e.continuous = which > 1;
    e.t = which % 5 * 0.005 + 0.005;
    e.d = (which / 5 + 1) * 0.01;
    e.intensity = 0.5;
    p.events.push_back(e);
  }
  r.tag("existing");
  auto q = full();
  if (!more) {
    judge(r, p, q, true);
    return;
  }
  ht::Channel c(4, "second", 1, 1, 0);
  q.addChannel(c);
  const std::string before = dump(q);
  REQUIRE(r, import(json(p), q, 1000) != 0, "two-channels", "imported into two channels");
  REQUIRE(r, dump(q) == before && q.getChannelsSize() == 2, "two-channels", "a refused import changed the document");
  r.step();
}
const char *VALUES[] = {"null", "true", "1", "-1.5", "\"x\"", "[]", "{}", "[1]", "{\"Time\":0}", "[null]", "[[]]", "[{}]", ""};
struct Spot { // a value of a JSON text: of a member, or an element
  size_t from, to, key;
};
std::vector<Spot> spots(const std::string &s) {
  std::vector<Spot> l;
  size_t i = 0;
  std::function<void(size_t)> value = [&](size_t key) {
    const size_t from = i;
    if (s[i] == '{' || s[i] == '[') {
      const bool obj = s[i] == '{';
      i++;
      while (s[i] != '}' && s[i] != ']') {
        const size_t k = i;
        if (obj) {
          i = s.find('"', i + 1) + 2; // the name and the colon
        }
        value(obj ? k : std::string::npos);
        if (s[i] == ',') i++;
      }
      i++;
    } else if (s[i] == '"') i = s.find('"', i + 1) + 1;
    else
      while (s[i] != ',' && s[i] != '}' && s[i] != ']') i++;
    l.push_back({from, i, key});
  };
  value(std::string::npos);
  return l;
}
Pat sample() {
  Pat p;
  Ev t;
  t.continuous = false;
  t.t = 0.5;
  t.intensity = 0.5;
  t.sharpness = 0.5;
  Ev c = t;
  c.continuous = true;
  c.d = 0.5;
  Curve a;
  a.pts = {{0.25, 0.5}, {0.75, 1}};
  Curve f = a;
  f.sharp = true;
  p.events = {t, c};
  p.curves = {a, f};
  return p;
}
void malformed(mc::Run &r) {
  const int how = r.choose(4);
  if (!r.go()) return;
  const std::string good = json(sample());
  static const auto at = spots(good);
  std::string bad;
  bool mustFail = false;
  r.tag("malformed");
  if (how == 0) { // cut off
    bad = good.substr(0, static_cast<size_t>(r.choose(static_cast<int>(good.size()))));
    mustFail = true;
  } else if (how == 1) { // another kind of value
    const auto &s = r.pick(at);
    const std::string v = VALUES[r.choose(static_cast<int>(std::size(VALUES)))];
    bad = good.substr(0, s.from) + v + good.substr(s.to);
    mustFail = v.empty() && s.key != std::string::npos;
  } else if (how == 2) { // a member or an element is missing
    const auto &s = r.pick(at);
    size_t from = s.key == std::string::npos ? s.from : s.key, to = s.to;
    if (good[to] == ',') to++;
    else if (from && good[from - 1] == ',') from--;
    bad = good.substr(0, from) + good.substr(to);
  } else { // a character changed
    const int k = r.choose(static_cast<int>(good.size()));
    bad = good;
    bad[static_cast<size_t>(k)] = r.pick(std::vector<char>{' ', '"', '{', '}', '[', ']', ',', ':', '0', '-', 'e', '\0', '\xff'});
  }
  const bool has = r.flip();
  r.describe([=] { return bad; });
  auto p = has ? full() : perception();
  const std::string before = dump(p);
  const int rc = import(bad, p, 1000);
  r.step();
  if (mustFail) REQUIRE(r, rc != 0, "accepted", "a malformed file was imported: " + bad.substr(0, 300));
  if (rc != 0) REQUIRE(r, dump(p) == before && p.getChannelsSize() == (has ? 1U : 0U), "changed", "a refused import changed the document");
  r.state(static_cast<uint64_t>(rc));
}
void refused(mc::Run &r) { // what has to be refused
  const int what = r.choose(28);
  if (!r.go()) return;
  auto wrap = [](const std::string &e) { return "{\"Pattern\":[" + e + "]}"; };
  auto ev = [&](const std::string &body) { return wrap("{\"Event\":{" + body + "}}"); };
  auto pc = [&](const std::string &body) { return wrap("{\"ParameterCurve\":{" + body + "}}"); };
  const std::string T = "\"Time\":0,", K = "\"EventType\":\"HapticContinuous\",", N = "\"EventType\":\"HapticTransient\",", D = "\"EventDuration\":1,", P = "\"EventParameters\":[]", I = "\"ParameterID\":\"HapticIntensityControl\",";
  const std::vector<std::string> bad = {"", "x", "[]", "1", "null", "\"Pattern\"", "{}", "{\"Pattern\":1}", "{\"Pattern\":{}}", "{\"Pattern\":null}", wrap("1"), wrap("[]"), wrap("{\"Event\":1}"), ev(T + P), ev(K + D + P), ev(N + P), ev(T + K + P), ev(T + K + "\"EventDuration\":1"), ev(T + N + "\"EventParameters\":{}"), ev(T + N + "\"EventParameters\":[1]"), ev(T + N + "\"EventParameters\":[{\"ParameterID\":\"HapticIntensity\"}]"), ev("\"Time\":\"0\"," + N + P), ev(T + K + "\"EventDuration\":\"1\"," + P), pc(T + "\"ParameterCurveControlPoints\":[]"), pc(I + "\"ParameterCurveControlPoints\":[]"), pc(I + "\"Time\":0"), pc(I + T + "\"ParameterCurveControlPoints\":1"), "a file that is missing"};
  r.tag("refused");
  const std::string s = bad[static_cast<size_t>(what)];
  r.describe([=] { return s; });
  auto p = perception();
  REQUIRE(r, import(s, p, 1000, what != 27) != 0, "accepted", "imported: " + s);
  REQUIRE(r, p.getChannelsSize() == 0, "changed", "a refused import changed the document");
  r.step();
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  std::cout.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C20", {{"intensity", intensity}, {"sharpness", sharpness}, {"curves", curves}, {"events", events}, {"times", times}, {"existing", existing}, {"malformed", malformed}, {"refused", refused}});
}
