// C21: IVS import: launches and repeats against a player of our own, envelopes against their definition.
#include "mc.h"
#include <Encoder/include/IvsEncoder.h>
#include <algorithm>
#include <cmath>
#include <fstream>
#include <iostream>
#include <optional>
#include <sstream>

namespace ht = haptics::types;
using haptics::encoder::IvsEncoder;

namespace {
using OI = std::optional<int>;
struct Basis {
  std::string name = "a", type = "periodic", wave = "sine";
  OI duration = 10, magnitude = 5000, period = 10, attackTime, attackLevel, fadeTime, fadeLevel;
};
struct Launch {
  std::string effect = "a";
  int time = 0;
  OI duration, magnitude, period;
};
struct Repeat {
  int time, duration, count;
};
struct Line {
  std::string name = "line";
  std::vector<Launch> launches;
  std::vector<Repeat> repeats;
  bool repeatsFirst = false;
};
struct Ivs {
  std::vector<Basis> effects;
  std::vector<Line> lines;
  unsigned ts = 1000;
};
std::string at(const char *k, const OI &v) { return v ? std::string(" ") + k + "=\"" + std::to_string(*v) + "\"" : ""; }
std::string xml(const Ivs &v) {
  std::string s = "<?xml version=\"1.0\"?>\n<ivs-file last-modified=\"today\"><effects>";
  for (auto &b : v.effects)
    s += "<basis-effect name=\"" + b.name + "\" type=\"" + b.type + "\" waveform=\"" + b.wave + "\"" + at("duration", b.duration) + at("magnitude", b.magnitude) + at("period", b.period) + at("attack-time", b.attackTime) + at("attack-level", b.attackLevel) + at("fade-time", b.fadeTime) + at("fade-level", b.fadeLevel) + "/>";
  for (auto &l : v.lines) {
    s += "<timeline-effect name=\"" + l.name + "\">";
    std::string a, b;
    for (auto &k : l.launches) a += "<launch-event effect=\"" + k.effect + "\" time=\"" + std::to_string(k.time) + "\"" + at("duration-override", k.duration) + at("magnitude-override", k.magnitude) + at("period-override", k.period) + "/>";
    for (auto &k : l.repeats) b += "<repeat-event time=\"" + std::to_string(k.time) + "\" duration=\"" + std::to_string(k.duration) + "\" count=\"" + std::to_string(k.count) + "\"/>";
    s += (l.repeatsFirst ? b + a : a + b) + "</timeline-effect>";
  }
  return s + "</effects></ivs-file>";
}
int import(const std::string &text, ht::Perception &p, unsigned ts) {
  const std::string name = mc::scratch() + "/a.ivs";
  std::ofstream(name, std::ios::binary) << text;
  return IvsEncoder::encode(name, p, ts);
}
ht::Perception perception() { return ht::Perception(0, 0, "p", ht::PerceptionModality::Vibrotactile); }

// plays a timeline: a head that moves over it and jumps back at the end of a repeat that is not done
std::vector<std::pair<long, int>> played(const Line &l) { // when (ms), which launch
  std::vector<std::pair<long, int>> out;
  std::vector<Repeat> reps = l.repeats;
  std::sort(reps.begin(), reps.end(), [](auto &a, auto &b) { return a.duration < b.duration; }); // inner ones first
  std::vector<int> left;
  for (auto &r : reps) left.push_back(r.count);
  int end = 0;
  for (auto &k : l.launches) end = std::max(end, k.time);
  for (auto &r : reps) end = std::max(end, r.time + r.duration);
  long clock = 0;
  for (int head = 0; head <= end; head++, clock++) {
    for (size_t i = 0; i < reps.size(); i++)
      if (reps[i].duration > 0 && reps[i].time + reps[i].duration == head && left[i] > 0) {
        left[i]--;
        head = reps[i].time;
        for (size_t j = 0; j < i; j++) // what is inside starts again
          if (reps[j].time >= reps[i].time && reps[j].time + reps[j].duration <= reps[i].time + reps[i].duration) left[j] = reps[j].count;
        i = static_cast<size_t>(-1);
      }
    for (size_t k = 0; k < l.launches.size(); k++)
      if (l.launches[k].time == head) out.emplace_back(clock, static_cast<int>(k));
  }
  std::sort(out.begin(), out.end());
  return out;
}
bool laminar(const std::vector<Repeat> &l) { // nested or apart
  for (size_t i = 0; i < l.size(); i++)
    for (size_t j = i + 1; j < l.size(); j++) {
      const int a = l[i].time, b = a + l[i].duration, c = l[j].time, d = c + l[j].duration;
      if (!(b <= c || d <= a || (a <= c && d <= b) || (c <= a && b <= d))) return false;
    }
  return true;
}
std::string dump(ht::Perception &p) {
  std::ostringstream o;
  for (size_t c = 0; c < p.getChannelsSize(); c++) {
    auto &ch = p.getChannelAt(static_cast<int>(c));
    o << (c ? " | " : "") << "channel " << ch.getId() << " '" << ch.getDescription() << "'";
    for (size_t b = 0; b < ch.getBandsSize(); b++) {
      auto &bd = ch.getBandAt(static_cast<int>(b));
      o << " band" << b << ":";
      for (size_t i = 0; i < bd.getEffectsSize(); i++) {
        auto &e = bd.getEffectAt(static_cast<int>(i));
        o << " @" << e.getPosition() << "[";
        for (size_t k = 0; k < e.getKeyframesSize(); k++) {
          auto &kf = e.getKeyframeAt(static_cast<int>(k));
          o << (k ? " " : "") << kf.getRelativePosition().value_or(-1) << "/" << kf.getAmplitudeModulation().value_or(-1) << "/" << kf.getFrequencyModulation().value_or(-1);
        }
        o << "]";
      }
    }
  }
  return o.str();
}
const Basis *find(const Ivs &v, const std::string &n) {
  for (auto &b : v.effects)
    if (b.name == n) return &b;
  return nullptr;
}
int wave(const std::string &w) {
  const char *n[] = {"sine", "square", "triangle", "sawtooth-up", "sawtooth-down"};
  const ht::BaseSignal s[] = {ht::BaseSignal::Sine, ht::BaseSignal::Square, ht::BaseSignal::Triangle, ht::BaseSignal::SawToothUp, ht::BaseSignal::SawToothDown};
  for (int i = 0; i < 5; i++)
    if (w == n[i]) return static_cast<int>(s[i]);
  return -1;
}
bool known(const Basis *b) { return b && (b->type == "magsweep" || (b->type == "periodic" && wave(b->wave) >= 0)); }
long ticks(long ms, unsigned ts) { return std::lround(static_cast<double>(ms) * ts / 1000.0); }
// the amplitude x ticks into an effect (x is no keyframe position)
double envelope(const Basis &b, const Launch &l, double x, unsigned ts) {
  const double mag = l.magnitude.value_or(b.magnitude.value_or(0)) / 10000.0;
  const double d = static_cast<double>(ticks(l.duration.value_or(b.duration.value_or(0)), ts));
  const double a = b.attackTime ? static_cast<double>(ticks(*b.attackTime, ts)) : 0;
  const double f = b.fadeTime ? static_cast<double>(ticks(*b.fadeTime, ts)) : 0;
  const double al = b.attackLevel.value_or(0) / 10000.0, fl = b.fadeLevel.value_or(0) / 10000.0;
  if (b.attackTime && x < a) return al + (mag - al) * x / a;
  if (b.fadeTime && x > d - f) return mag + (fl - mag) * (x - (d - f)) / f;
  return mag;
}
std::string matches(const Basis &b, const Launch &l, ht::Effect &e, unsigned ts) { // empty: yes
  const long d = ticks(l.duration.value_or(b.duration.value_or(0)), ts);
  const int n = static_cast<int>(e.getKeyframesSize());
  if (n < 2) return "no keyframes";
  if (e.getKeyframeAt(0).getRelativePosition().value_or(-1) != 0) return "does not start at 0";
  if (e.getKeyframeAt(n - 1).getRelativePosition().value_or(-1) != d) return "does not last " + std::to_string(d);
  if (static_cast<int>(e.getBaseSignal().value_or(ht::BaseSignal(-2))) != (b.type == "magsweep" ? static_cast<int>(ht::BaseSignal::Sine) : wave(b.wave))) return "wave " + std::to_string(static_cast<int>(e.getBaseSignal().value_or(ht::BaseSignal(-2))));
  if (e.getPhase() != 0) return "phase";
  std::vector<std::pair<double, double>> amps;
  double freq = 170;
  if (b.type == "periodic") {
    const int p = l.period.value_or(b.period.value_or(1));
    // a negative one has its highest bit set and is in microseconds
    freq = 1000.0 / (p < 0 ? std::floor((static_cast<double>(p) + 2147483648.0) / 1000.0) : p);
  }
  bool hasFreq = false;
  for (int i = 0; i < n; i++) {
    auto &k = e.getKeyframeAt(i);
    if (!k.getRelativePosition()) return "a keyframe without a time";
    if (k.getAmplitudeModulation()) amps.emplace_back(*k.getRelativePosition(), *k.getAmplitudeModulation());
    if (i && *k.getRelativePosition() < *e.getKeyframeAt(i - 1).getRelativePosition()) return "keyframes out of order";
    if (k.getFrequencyModulation()) {
      hasFreq = true;
      if (std::fabs(*k.getFrequencyModulation() - freq) > 1) return "frequency " + std::to_string(*k.getFrequencyModulation()) + " instead of " + std::to_string(freq);
    }
  }
  if (!hasFreq) return "no frequency";
  if (amps.size() < 2 || amps.front().first != 0 || amps.back().first != static_cast<double>(d)) return "no amplitude at the ends";
  const long stride = std::max(1L, d / 400);
  for (long t = 0; t < d; t += stride)
    for (double part : {0.25, 0.75}) {
      const double x = static_cast<double>(t) + part;
      double got = -9;
      for (size_t i = 1; i < amps.size(); i++)
        if (amps[i - 1].first <= x && x < amps[i].first) got = amps[i - 1].second + (amps[i].second - amps[i - 1].second) * (x - amps[i - 1].first) / (amps[i].first - amps[i - 1].first);
      const double w = envelope(b, l, x, ts);
      if (std::fabs(got - w) > 1e-5) return "amplitude " + std::to_string(got) + " instead of " + std::to_string(w) + " at +" + std::to_string(x);
    }
  return "";
}
// imports and checks everything; had: the channels that were there
void judge(mc::Run &r, const Ivs &v, ht::Perception p = perception()) {
  r.describe([&] { return xml(v) + " at " + std::to_string(v.ts); });
  struct Old {
    int id;
    std::string desc;
    size_t effects;
  };
  std::vector<Old> old;
  for (size_t c = 0; c < p.getChannelsSize(); c++) {
    auto &ch = p.getChannelAt(static_cast<int>(c));
    size_t n = 0;
    for (size_t b = 0; b < ch.getBandsSize(); b++) n += ch.getBandAt(static_cast<int>(b)).getEffectsSize();
    old.push_back({ch.getId(), ch.getDescription(), n});
  }
  const int rc = import(xml(v), p, v.ts);
  r.step();
  REQUIRE(r, rc == 0, "refused", "a well-formed file was refused");
  const std::string all = dump(p);
  REQUIRE(r, p.getChannelsSize() == std::max(old.size(), v.lines.size()), "channels", std::to_string(p.getChannelsSize()) + " channels for " + std::to_string(v.lines.size()) + " timelines: " + all);
  for (size_t c = 0; c < p.getChannelsSize(); c++) {
    auto &ch = p.getChannelAt(static_cast<int>(c));
    for (size_t d = 0; d < c; d++) REQUIRE(r, !(c >= old.size() && ch.getId() == p.getChannelAt(static_cast<int>(d)).getId()), "channel-id", "two channels have one id: " + all);
    if (c < old.size()) REQUIRE(r, ch.getId() == old[c].id && ch.getDescription() == old[c].desc, "existing", "an existing channel changed: " + all);
    else REQUIRE(r, ch.getDescription() == v.lines[c].name + " - today", "name", "the channel has another name: " + all);
    std::vector<std::pair<long, int>> want;
    if (c < v.lines.size()) {
      Line l = v.lines[c];
      for (auto &w : played(l))
        if (known(find(v, l.launches[static_cast<size_t>(w.second)].effect))) want.push_back({ticks(w.first, v.ts), w.second});
    }
    size_t count = 0;
    std::vector<bool> done(want.size(), false);
    for (size_t b = 0; b < ch.getBandsSize(); b++) {
      auto &bd = ch.getBandAt(static_cast<int>(b));
      std::vector<std::pair<long, long>> spans;
      for (size_t i = 0; i < bd.getEffectsSize(); i++) {
        auto &e = bd.getEffectAt(static_cast<int>(i));
        const int n = static_cast<int>(e.getKeyframesSize());
        if (e.getPhase() == 0.75F) continue; // was there before
        REQUIRE(r, bd.getBandType() == ht::BandType::VectorialWave, "band-type", "a band of another type: " + all);
        count++;
        REQUIRE(r, n > 0 && e.getKeyframeAt(n - 1).getRelativePosition(), "keyframes", "an effect without an end: " + all);
        spans.emplace_back(e.getPosition(), e.getPosition() + *e.getKeyframeAt(n - 1).getRelativePosition());
        bool ok = false;
        std::string why = "nothing is launched then";
        for (size_t j = 0; j < want.size() && !ok; j++)
          if (!done[j] && want[j].first == e.getPosition()) {
            auto &l = v.lines[c].launches[static_cast<size_t>(want[j].second)];
            const std::string m = matches(*find(v, l.effect), l, e, v.ts);
            if (m.empty()) ok = done[j] = true;
            else why = m;
          }
        REQUIRE(r, ok, why == "nothing is launched then" ? "launch-time" : "launch-value", "the effect at " + std::to_string(e.getPosition()) + ": " + why + ": " + all);
      }
      for (size_t i = 0; i < spans.size(); i++)
        for (size_t j = i + 1; j < spans.size(); j++)
          REQUIRE(r, !(spans[i].first < spans[j].second && spans[j].first < spans[i].second), "overlap", "effects of a band overlap: " + all);
    }
    for (size_t j = 0; j < want.size(); j++) REQUIRE(r, done[j], "launch-lost", "the launch at " + std::to_string(want[j].first) + " is lost: " + all);
    if (c < old.size()) {
      size_t n = 0;
      for (size_t b = 0; b < ch.getBandsSize(); b++) n += ch.getBandAt(static_cast<int>(b)).getEffectsSize();
      REQUIRE(r, n == old[c].effects + count, "existing", "existing effects are lost: " + all);
    }
  }
  r.state(all);
}

// -- scenarios
std::vector<Repeat> spansOn(int grid, int unit) {
  std::vector<Repeat> l;
  for (int a = 0; a < grid; a++)
    for (int b = a + 1; b <= grid; b++) l.push_back({a * unit, (b - a) * unit, 0});
  return l;
}
Basis tiny(const std::string &n, int magnitude) {
  Basis b;
  b.name = n;
  b.magnitude = magnitude;
  b.duration = 2;
  return b;
}
void repeats(mc::Run &r) { // every laminar set of up to three repeats, every two launches, in any order
  const int grid = 4;
  static const auto spans = spansOn(grid, 3);
  const int n = r.choose(4);
  std::vector<Repeat> reps;
  for (int i = 0; i < n; i++) {
    Repeat k = r.pick(spans);
    reps.push_back(k);
  }
  if (!laminar(reps)) return;
  if (!r.go()) return;
  for (auto &k : reps) k.count = n == 3 && !r.thorough() ? (&k == &reps[0] ? r.choose(3) : 1 + r.choose(2)) : r.choose(3);
  Ivs v;
  v.effects = {tiny("a", 1000), tiny("b", 2000), tiny("c", 3000)};
  Line l;
  l.repeats = reps;
  const int m = n == 3 || (n == 2 && !r.thorough()) ? 2 : 3;
  // on the edges of the repeats, and inside
  const std::vector<int> when = n == 3 ? std::vector<int>{0, 3, 7, 9, 12} : std::vector<int>{0, 2, 3, 4, 6, 8, 9, 12};
  for (int i = 0; i < m; i++) {
    Launch k;
    k.effect = std::string(1, static_cast<char>('a' + i));
    k.time = r.pick(when);
    l.launches.push_back(k);
  }
  l.repeatsFirst = n != 3 && r.flip();
  v.lines = {l};
  r.tag("repeats");
  judge(r, v);
}
void lengthy(mc::Run &r) { // the same, on seconds, minutes and half hours
  static const auto spans = spansOn(4, 3);
  static const std::vector<int> factors = {11, 1000, 40000};
  const int factor = r.pick(factors);
  const int n = 1 + r.choose(2);
  Line l;
  for (int i = 0; i < n; i++) l.repeats.push_back(r.pick(spans));
  if (!laminar(l.repeats)) return;
  if (!r.go()) return;
  for (auto &k : l.repeats) {
    k.count = 1 + r.choose(2);
    k.time *= factor;
    k.duration *= factor;
  }
  Ivs v;
  v.effects = {tiny("a", 1000), tiny("b", 2000)};
  const std::vector<int> when = r.thorough() ? std::vector<int>{0, 3, 4, 7, 9} : std::vector<int>{0, 4, 9};
  for (int i = 0; i < 2; i++) {
    Launch k;
    k.effect = std::string(1, static_cast<char>('a' + i));
    k.time = r.pick(when) * factor;
    if (i && (r.thorough() ? r.flip() : n == 1)) k.time++;
    l.launches.push_back(k);
  }
  v.lines = {l};
  r.tag("lengthy");
  judge(r, v);
}
void depth(mc::Run &r) { // repeats nested up to five deep, with content before, inside and behind each of them
  const int n = 1 + r.choose(5);
  const int shape = r.choose(4);
  if (!r.go()) return;
  Ivs v;
  v.effects = {tiny("a", 1000)};
  Line l;
  std::vector<Repeat> reps;
  for (int i = 0; i < n; i++) {
    const int a = shape == 1 ? 0 : i * 2, b = shape == 2 ? 20 : 20 - i * 2;
    reps.push_back({a, b - a, r.choose(3)});
  }
  std::vector<int> order;
  for (int i = 0; i < n; i++) order.push_back(shape == 3 ? n - 1 - i : i);
  const int rot = r.choose(n);
  for (int i = 0; i < n; i++) l.repeats.push_back(reps[static_cast<size_t>(order[static_cast<size_t>((i + rot) % n)])]);
  const int mask = r.choose(8);
  for (int t = 0; t <= 22; t++)
    if ((mask & 1 && t == 10) || (mask & 2 && t < 10 && t % 2) || (mask & 4 && t > 10 && t % 2)) {
      Launch k;
      k.time = t;
      l.launches.insert(mask & 1 ? l.launches.begin() : l.launches.end(), k);
    }
  v.lines = {l};
  r.tag("depth");
  uint64_t plays = played(l).size();
  if (plays > 600) return;
  judge(r, v);
}
void siblings(mc::Run &r) { // repeats one behind the other inside repeats, of any counts
  const int outer = r.choose(3);
  const int c1 = r.choose(3);
  if (!r.go()) return;
  Line l;
  const int c2 = r.choose(3), c3 = r.choose(3), inner = r.choose(3);
  std::vector<Repeat> reps = {{2, 16, outer}, {4, 4, c1}, {10, 6, c2}, {12, 2, inner}, {20, 3, c3}};
  const int rot = r.choose(5);
  for (int i = 0; i < 5; i++) l.repeats.push_back(reps[static_cast<size_t>((i * 2 + rot) % 5)]);
  const int mask = r.thorough() ? r.choose(1 << 10) : r.choose(1 << 6) * 16 + 9;
  const int when[] = {0, 3, 4, 9, 11, 13, 15, 17, 19, 21};
  Ivs v;
  for (int i = 0; i < 10; i++)
    if (mask >> i & 1) {
      Launch k;
      k.effect = std::string(1, static_cast<char>('a' + i));
      v.effects.push_back(tiny(k.effect, 500 * (i + 1)));
      k.time = when[i];
      l.launches.insert(i % 2 ? l.launches.begin() : l.launches.end(), k);
    }
  v.lines = {l};
  r.tag("siblings");
  judge(r, v);
}
OI opt(mc::Run &r, const std::vector<int> &l) {
  const int i = r.choose(static_cast<int>(l.size()) + 1);
  return i ? OI(l[static_cast<size_t>(i) - 1]) : OI();
}
void envelopes(mc::Run &r) { // attack and fade of every length against the duration
  const int d = 1 + r.choose(r.thorough() ? 10 : 7);
  const int ts = r.choose(3);
  if (!r.go()) return;
  Basis b;
  b.duration = d;
  std::vector<int> lens;
  for (int i = 0; i <= d + 2; i++) lens.push_back(i);
  b.attackTime = opt(r, lens);
  if (b.attackTime || r.thorough()) b.attackLevel = opt(r, {0, 2500, 10000});
  b.fadeTime = opt(r, lens);
  if (b.fadeTime || r.thorough()) b.fadeLevel = opt(r, {0, 2500, 10000});
  const int form = r.choose(4);
  Launch l;
  if (form & 1) l.magnitude = 7500;
  if (form & 2) {
    l.duration = d;
    b.duration = d * 3 + 5;
  }
  Ivs v;
  v.ts = ts == 0 ? 1000 : ts == 1 ? 8000 : 500;
  if (ts == 2) { // half a tick
    for (OI *x : {&b.duration, &b.attackTime, &b.fadeTime, &l.duration})
      if (*x) *x = **x * 2;
  }
  v.effects = {b};
  Line k;
  k.launches = {l};
  v.lines = {k};
  r.tag("envelope");
  judge(r, v);
}
void values(mc::Run &r) { // periods, magnitudes, waveforms, types; what is overridden and what is not
  const int what = r.choose(3);
  const int how = r.choose(3); // own, override, both
  if (!r.go()) return;
  Basis b;
  Launch l;
  r.tag("values");
  static const std::vector<int> periods = [] {
    std::vector<int> p;
    for (int i = 1; i <= 500; i++) p.push_back(i);
    for (int i : {1000, 1500, 2000}) p.push_back(i);
    for (int us : {1000, 1999, 2000, 2500, 3333, 5000, 10000, 12345, 100000}) p.push_back(us - 2147483647 - 1);
    return p;
  }();
  auto put = [&](OI &own, OI &over, int x) {
    if (how != 1) own = how == 2 ? 77 : x;
    else own.reset();
    if (how != 0) over = x;
  };
  if (what == 0) put(b.period, l.period, r.pick(periods));
  else if (what == 1) put(b.magnitude, l.magnitude, r.choose(101) * 100);
  else {
    put(b.duration, l.duration, 1 + r.choose(300));
    b.wave = r.pick(std::vector<std::string>{"sine", "square", "triangle", "sawtooth-up", "sawtooth-down", "other", ""});
    b.type = r.pick(std::vector<std::string>{"periodic", "magsweep", "other", ""});
  }
  Ivs v;
  v.effects = {tiny("z", 100), b};
  Line k;
  Launch m;
  m.effect = "z";
  m.time = 5;
  k.launches = {m, l};
  v.lines = {k};
  judge(r, v);
}
void times(mc::Run &r) { // every millisecond at several timescales
  const unsigned ts = r.pick(std::vector<unsigned>{1000, 8000, 500, 44100, 48000, 1});
  const int part = r.choose(10);
  if (!r.go()) return;
  const int t = part * 500 + r.choose(500);
  Ivs v;
  v.ts = ts;
  Basis b;
  b.duration = ts == 1 ? 3000 : 200 + t % 97;
  b.magnitude = 2500;
  v.effects = {b};
  Line l;
  Launch k;
  k.time = t;
  l.launches = {k};
  if (t % 2) {
    l.repeats = {{t / 2, t + 1 - t / 2, 1}};
  }
  auto between = [&](long ms) { return std::fabs(ms * (ts / 1000.0) - std::floor(ms * (ts / 1000.0)) - 0.5) < 1e-6; };
  if (between(*b.duration)) return;
  for (auto &w : played(l))
    if (between(w.first)) return;
  v.lines = {l};
  r.tag("times");
  judge(r, v);
}
void launches(mc::Run &r) { // up to five launches, known and unknown, of several lengths, on several timelines
  const int n = r.choose(r.thorough() ? 6 : 5);
  const int lines = 1 + r.choose(3);
  if (!r.go()) return;
  Ivs v;
  v.effects = {tiny("a", 1000), tiny("b", 2000), tiny("c", 3000), tiny("bad", 10)};
  v.effects[1].duration = 5;
  v.effects[2].duration = 9;
  v.effects[2].type = "magsweep";
  v.effects[3].type = "other";
  v.lines.resize(static_cast<size_t>(lines));
  for (int i = 0; i < lines; i++) v.lines[static_cast<size_t>(i)].name = "line " + std::to_string(i);
  for (int i = 0; i < n; i++) {
    Launch k;
    k.effect = r.pick(n >= 4 ? std::vector<std::string>{"b", "c", "none"} : std::vector<std::string>{"a", "b", "c", "none", "bad"});
    k.time = r.choose(n >= 4 ? 2 : 5) * (n >= 4 ? 5 : 3);
    v.lines[static_cast<size_t>(lines == 1 ? 0 : i % lines)].launches.push_back(k);
  }
  r.tag("launches");
  const int have = r.choose(3);
  auto p = perception();
  for (int i = 0; i < have; i++) { // channels that exist
    ht::Channel c(10 + i, "there", 1, 1, 0);
    ht::Band b(i ? ht::BandType::VectorialWave : ht::BandType::WaveletWave, 0, 1000);
    ht::Effect e(i ? 500 : 0, 0.75F, ht::BaseSignal::Sine, ht::EffectType::Basis);
    ht::Keyframe k0(0, 0.5F, 100), k1(3, 0.5F, 100);
    e.addKeyframe(k0);
    e.addKeyframe(k1);
    b.addEffect(e);
    c.addBand(b);
    p.addChannel(c);
  }
  judge(r, v, p);
}
void malformed(mc::Run &r) {
  const int how = r.choose(3);
  if (!r.go()) return;
  Ivs v;
  Basis b = tiny("a", 1000);
  b.attackTime = 1;
  b.fadeTime = 1;
  v.effects = {b};
  Line l;
  Launch k;
  k.period = 5;
  l.launches = {k};
  l.repeats = {{0, 9, 2}};
  v.lines = {l};
  const std::string good = xml(v);
  r.tag("malformed");
  std::string bad;
  bool mustFail = false;
  if (how == 0) {
    bad = good.substr(0, static_cast<size_t>(r.choose(static_cast<int>(good.size()))));
    mustFail = true;
  } else if (how == 1) { // a character changed
    bad = good;
    bad[static_cast<size_t>(r.choose(static_cast<int>(good.size())))] = r.pick(std::vector<char>{' ', '<', '>', '"', '/', '=', '-', '9', '&', '\0', '\xff'});
  } else { // an attribute or a tag is missing
    std::vector<std::pair<size_t, size_t>> parts;
    for (size_t i = 0; i < good.size(); i++) {
      if (good[i] == ' ' && good.find("=\"", i) != std::string::npos) parts.push_back({i, good.find('"', good.find("=\"", i) + 2) + 1});
      if (good[i] == '<') parts.push_back({i, good.find('>', i) + 1});
    }
    const auto &q = r.pick(parts);
    bad = good.substr(0, q.first) + good.substr(q.second);
  }
  r.describe([=] { return bad; });
  auto p = perception();
  const int rc = import(bad, p, 1000);
  if (mustFail) REQUIRE(r, rc != 0, "accepted", "a malformed file was imported: " + bad.substr(0, 300));
  if (rc != 0) REQUIRE(r, p.getChannelsSize() == 0, "changed", "a refused import changed the document");
  auto q = perception();
  REQUIRE(r, IvsEncoder::encode(mc::scratch() + "/none.ivs", q, 1000) != 0 && IvsEncoder::encode("", q, 1000) != 0, "accepted", "a missing file was imported");
  r.step(3);
  r.state(dump(p));
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  std::cout.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C21", {{"repeats", repeats}, {"lengthy", lengthy}, {"depth", depth}, {"siblings", siblings}, {"envelopes", envelopes}, {"values", values}, {"times", times}, {"launches", launches}, {"malformed", malformed}});
}
