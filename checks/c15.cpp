// C15: band allocation never overlaps effects and reuses free bands.
#include "doc.h"
#include "mc.h"

namespace {
using doc::BandD;
using doc::Chan;
using doc::Eff;
namespace ht = haptics::types;
constexpr double kTransient = 22; // milliseconds

struct Span {
  double from, to;
};
double length(const Eff &e, int type) {
  double last = 0;
  bool any = false;
  for (auto &k : e.kfs)
    if (k.pos) last = *k.pos, any = true;
  if (!any) return 0;
  return type == 0 ? last + kTransient : last;
}
bool touches(const Eff &e, int type, int start, int stop) {
  return e.pos <= stop && e.pos + length(e, type) >= start;
}
std::string text(const Chan &c) {
  doc::Dump d;
  d.chan(c);
  return d.o.str();
}

Eff effectOf(int type, int pos, int duration) {
  Eff e;
  e.pos = pos;
  e.kfs = {{0, 0.5F, 60}};
  if (type != 0 && duration > 0) e.kfs.push_back({duration, 0.5F, 60});
  return e;
}

const std::vector<int> kAt = {0, 10, 21, 22, 23, 30, 45};
const std::vector<int> kLong = {0, 1, 10, 22, 40};

void ask(mc::Run &r, const Chan &model, ht::Channel &c, int type, int at, int duration) {
  r.step();
  ht::Band *b = c.findBandAvailable(at, duration, static_cast<ht::BandType>(type));
  struct Q { // rendered only when needed
    const Chan &m;
    int t, a, d;
    operator std::string() const { return "span " + std::to_string(a) + "+" + std::to_string(d) + " of kind " + std::to_string(t) + " in" + text(m); }
  } query{model, type, at, duration};
#define q std::string(query)
  bool exists = false;
  for (auto &m : model.bands) {
    bool free = m.type == type;
    for (auto &e : m.effects) free = free && !touches(e, m.type, at, at + duration);
    exists = exists || free;
  }
  if (b == nullptr) {
    REQUIRE(r, !exists, "missed", "a free band is not found: " + q);
    return;
  }
  int which = -1;
  for (size_t i = 0; i < c.getBandsSize(); i++)
    if (&c.getBandAt(static_cast<int>(i)) == b) which = static_cast<int>(i);
  REQUIRE(r, which >= 0, "stranger", "the band returned is not in the channel: " + q);
  auto &m = model.bands[static_cast<size_t>(which)];
  REQUIRE(r, m.type == type, "kind", "band " + std::to_string(which) + " is of another kind: " + q);
  for (auto &e : m.effects)
    REQUIRE(r, !touches(e, m.type, at, at + duration), "overlap", "band " + std::to_string(which) + " is not free: " + q);
}

// One band with one or two effects against every span around them.
void oneBand(mc::Run &r) {
  Chan m;
  BandD b;
  b.type = r.choose(3);
  int n = r.choose(3);
  for (int i = 0; i < n; i++) {
    Eff e = effectOf(b.type, r.pick(kAt), r.pick(kLong));
    if (r.flip()) e.kfs.insert(e.kfs.begin(), doc::KF{5, 0.1F, std::nullopt});
    b.effects.push_back(e);
  }
  std::stable_sort(b.effects.begin(), b.effects.end(), [](const Eff &x, const Eff &y) { return x.pos < y.pos; });
  m.bands = {b};
  if (!r.go()) return;
  auto c = doc::toChannel(m);
  r.describe([&] { return text(m); });
  int other = (b.type + 1) % 3;
  for (int at = 0; at <= 130; at++)
    for (int d : {0, 1, 5, 21, 22, 23, 50, 200}) ask(r, m, c, b.type, at, d);
  ask(r, m, c, other, 0, 10);
  REQUIRE(r, text(doc::fromChannel(c)) == text(m), "side-effect", "asking changed the channel:" + text(m));
  r.state(text(m));
}

// Effects without keyframes or without positions only take their instant.
void pointEffects(mc::Run &r) {
  Chan m;
  BandD b;
  b.type = r.choose(3);
  Eff e;
  e.pos = 20;
  switch (r.choose(3)) {
  case 1: e.kfs = {{std::nullopt, 0.5F, 10}}; break;
  case 2: e.kfs = {{4, 0.5F, 10}, {std::nullopt, 0.5F, 10}}; break;
  default: break;
  }
  b.effects = {e};
  m.bands = {b};
  if (!r.go()) return;
  auto c = doc::toChannel(m);
  for (int at = 0; at < 60; at++)
    for (int d : {0, 1, 10}) ask(r, m, c, b.type, at, d);
  r.describe([&] { return text(m); });
  r.state(text(m));
}

// Long spans, far away.
void far(mc::Run &r) {
  static const std::vector<int> scales = {1000, 65536, 1000000, 10000000};
  const int scale = r.pick(scales);
  Chan m;
  BandD b;
  b.type = r.choose(3);
  const int n = 1 + r.choose(2);
  for (int i = 0; i < n; i++) b.effects.push_back(effectOf(b.type, scale * r.choose(4), b.type == 0 ? 0 : scale * r.choose(4)));
  std::stable_sort(b.effects.begin(), b.effects.end(), [](const Eff &x, const Eff &y) { return x.pos < y.pos; });
  m.bands = {b};
  if (!r.go()) return;
  r.describe([&] { return text(m); });
  auto c = doc::toChannel(m);
  for (int at = 0; at <= 8; at++)
    for (int off : {-1, 0, 1, 22, 23})
      for (int d : {0, 1, scale - 1, scale, 2 * scale, 5 * scale})
        if (at || off >= 0) ask(r, m, c, b.type, at * scale + off, d);
  r.state(text(m));
}

// Effects that are changed between two requests.
void edited(mc::Run &r) {
  Chan m;
  BandD b;
  b.type = r.choose(3);
  b.effects = {effectOf(b.type, 10, 20), effectOf(b.type, 60, 5)};
  m.bands = {b};
  const int n = r.thorough() ? 3 : 2;
  const int first = r.choose(8);
  if (!r.go()) return;
  auto c = doc::toChannel(m);
  std::string did;
  for (int i = 0; i < n; i++) {
    for (int at : {0, 40, 200}) ask(r, m, c, b.type, at, 5); // whatever is remembered from it must not count
    auto &band = c.getBandAt(0);
    const int op = i == 0 ? first : r.choose(8);
    did += " " + std::to_string(op);
    if (band.getEffectsSize() > 0) {
      auto &e = band.getEffectAt(0);
      switch (op) {
      case 0: e.addAmplitudeAt(0.5F, 30 + 7 * i); break;
      case 1: e.removeKeyframeAt(static_cast<int>(e.getKeyframesSize()) - 1); break;
      case 2: {
        ht::Keyframe k(40, 0.5F, 70);
        e.replaceKeyframeAt(static_cast<int>(e.getKeyframesSize()) - 1, k);
        break;
      }
      case 3:
        if (e.getKeyframesSize() > 0) e.getKeyframeAt(static_cast<int>(e.getKeyframesSize()) - 1).setRelativePosition(3);
        break;
      case 4: e.setPosition(1); break;
      case 5: band.removeEffectAt(0); break;
      case 6: {
        auto x = doc::toEffect(effectOf(b.type, 10, 45));
        band.replaceEffectAt(0, x);
        break;
      }
      default: {
        auto x = doc::toEffect(effectOf(b.type, 35, 1));
        band.addEffect(x);
      }
      }
    }
    m = doc::fromChannel(c);
  }
  r.describe([&] { return "changes" + did + ", then" + text(m); });
  for (int at = 0; at <= 110; at++)
    for (int d : {0, 1, 22, 50}) ask(r, m, c, b.type, at, d);
  r.state(did + text(m));
}

// Several bands of several kinds.
void manyBands(mc::Run &r) {
  static const std::vector<std::vector<int>> kinds = {{0, 1}, {1, 1}, {2, 2}, {2, 1, 2}, {0, 0, 0}, {1, 2, 0}, {2, 2, 2}, {3, 2}, {}};
  auto &k = r.pick(kinds);
  Chan m;
  for (int type : k) {
    BandD b;
    b.type = type;
    switch (r.choose(5)) {
    case 1: b.effects = {effectOf(type, 0, 10)}; break;
    case 2: b.effects = {effectOf(type, 30, 30)}; break;
    case 3: b.effects = {effectOf(type, 0, 10), effectOf(type, 30, 30)}; break;
    case 4: b.effects = {effectOf(type, 0, 100)}; break;
    default: break;
    }
    m.bands.push_back(b);
  }
  if (!r.go()) return;
  auto c = doc::toChannel(m);
  r.describe([&] { return text(m); });
  for (int type = 0; type < 3; type++)
    for (int at : {0, 5, 10, 11, 20, 22, 23, 29, 30, 52, 60, 61, 82, 99, 100, 101, 123})
      for (int d : {0, 1, 8, 18, 30, 200}) ask(r, m, c, type, at, d);
  r.state(text(m));
}

// Content placed through the allocation, as the importers do it: a free band or a new one.
void placement(mc::Run &r) {
  int n = r.thorough() ? 5 : 4;
  Chan m;
  auto c = doc::toChannel(m);
  for (int i = 0; i < n; i++) {
    int type = r.choose(2) == 0 ? 2 : r.choose(2);
    int at = std::vector<int>{0, 10, 23, 30, 45}[static_cast<size_t>(r.choose(5))];
    int d = type == 0 ? 0 : std::vector<int>{7, 13, 40}[static_cast<size_t>(r.choose(3))];
    if (i == 1 && !r.go()) return;
    int span = type == 0 ? static_cast<int>(kTransient) : d;
    ask(r, m, c, type, at, span);
    auto *b = c.findBandAvailable(at, span, static_cast<ht::BandType>(type));
    size_t before = c.getBandsSize();
    if (b == nullptr) b = c.generateBand(static_cast<ht::BandType>(type), 0, 1000);
    auto e = doc::toEffect(effectOf(type, at, d));
    b->addEffect(e);
    m = doc::fromChannel(c);
    REQUIRE(r, c.getBandsSize() <= before + 1, "bands", "more than one band was added");
    for (auto &x : m.bands)
      for (size_t j = 0; j < x.effects.size(); j++)
        for (size_t k = j + 1; k < x.effects.size(); k++) {
          auto &e2 = x.effects[k];
          REQUIRE(r, !touches(x.effects[j], x.type, e2.pos, static_cast<int>(e2.pos + length(e2, x.type))), "placed", "effects of a band overlap:" + text(m));
        }
  }
  r.describe([&] { return text(m); });
  r.state(text(m));
}
} // namespace

int main(int argc, char **argv) {
  return mc::runMain(argc, argv, "C15", {{"one-band", oneBand}, {"point-effects", pointEffects}, {"many-bands", manyBands}, {"placement", placement}, {"far", far}, {"edited", edited}});
}
