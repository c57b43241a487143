// C13: editing an effect's keyframes behaves as editing an ordered list.
#include "doc.h"
#include "mc.h"
#include <climits>

namespace {
using doc::Eff;
using doc::KF;

const std::vector<int> kPos = {0, 5, 10};
const std::vector<doc::Opt<float>> kAmp = {0.25F, -1.0F, std::nullopt};
const std::vector<doc::Opt<int>> kFreq = {60, 90, std::nullopt};

std::string text(const Eff &e) {
  doc::Dump d;
  d.eff(e);
  return d.o.str();
}

// -- the list the operations act on
size_t slot(const Eff &m, int position) { // the first keyframe at or after the instant
  size_t i = 0;
  while (i < m.kfs.size() && !(m.kfs[i].pos && *m.kfs[i].pos >= position)) i++;
  return i;
}
bool at(const Eff &m, size_t i, int position) { return i < m.kfs.size() && m.kfs[i].pos == position; }

void derived(mc::Run &r, const std::string &op, const Eff &model, haptics::types::Effect &e);
void compare(mc::Run &r, const std::string &op, const Eff &model, haptics::types::Effect &e) {
  r.step();
  Eff got = doc::fromEffect(e);
  doc::Diff d;
  d.eff(model, got);
  REQUIRE(r, d.why.empty(), op, "after " + op + ": " + d.why + "\nis        " + text(got) + "\nshould be " + text(model));
  int last = INT_MIN;
  for (auto &k : got.kfs) {
    if (!k.pos) continue;
    REQUIRE(r, *k.pos >= last, "order", "after " + op + " keyframes are out of order: " + text(got));
    last = *k.pos;
  }
  derived(r, op, model, e);
}

// What is derived from the keyframes follows them: as of an effect that was made with them.
void derived(mc::Run &r, const std::string &op, const Eff &model, haptics::types::Effect &e) {
  namespace ht = haptics::types;
  auto fresh = doc::toEffect(model);
  for (int type = 0; type < 4; type++) {
    const auto t = static_cast<ht::BandType>(type);
    const double is = e.getEffectTimeLength(t, 22), want = fresh.getEffectTimeLength(t, 22);
    REQUIRE(r, is == want, "length", "after " + op + " the length is " + std::to_string(is) + ", not " + std::to_string(want) + ": " + text(model));
  }
  for (double t : {100.0, 102.5, 105.0, 110.0, 113.0}) {
    const double is = e.EvaluateVectorial(t, 0, 1000, 1000), want = fresh.EvaluateVectorial(t, 0, 1000, 1000);
    REQUIRE(r, is == want || (is != is && want != want), "value", "after " + op + " the value at " + std::to_string(t) + " is " + std::to_string(is) + ", not " + std::to_string(want) + ": " + text(model));
    const double isC = e.EvaluateKeyframes(t, ht::CurveType::Linear, 1000), wantC = fresh.EvaluateKeyframes(t, ht::CurveType::Linear, 1000);
    REQUIRE(r, isC == wantC || (isC != isC && wantC != wantC), "curve", "after " + op + " the curve at " + std::to_string(t) + " is " + std::to_string(isC) + ", not " + std::to_string(wantC) + ": " + text(model));
  }
  REQUIRE(r, e.isEquivalent(fresh) && fresh.isEquivalent(e), "equivalent", "after " + op + " it is not equivalent to " + text(model));
}

template <class F> bool throws(F f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}

void edit(mc::Run &r, Eff &m, haptics::types::Effect &e, bool full) {
  int size = static_cast<int>(m.kfs.size());
  switch (r.choose(full ? 7 : 5)) {
  case 0: { // set an amplitude
    int p = r.pick(kPos);
    auto a = full ? r.pick(kAmp) : kAmp[static_cast<size_t>(r.choose(2))];
    size_t i = slot(m, p);
    if (at(m, i, p)) m.kfs[i].amp = a;
    else m.kfs.insert(m.kfs.begin() + static_cast<long>(i), KF{p, a, std::nullopt});
    bool done = e.addAmplitudeAt(a, p);
    compare(r, "addAmplitudeAt", m, e);
    REQUIRE(r, done, "addAmplitudeAt:result", "addAmplitudeAt reports failure");
    break;
  }
  case 1: { // set a frequency
    int p = r.pick(kPos);
    auto f = full ? r.pick(kFreq) : kFreq[static_cast<size_t>(r.choose(2))];
    size_t i = slot(m, p);
    if (at(m, i, p)) m.kfs[i].freq = f;
    else m.kfs.insert(m.kfs.begin() + static_cast<long>(i), KF{p, std::nullopt, f});
    bool done = e.addFrequencyAt(f, p);
    compare(r, "addFrequencyAt", m, e);
    REQUIRE(r, done, "addFrequencyAt:result", "addFrequencyAt reports failure");
    break;
  }
  case 2: { // add a second amplitude at an instant (a jump)
    int p = r.pick(kPos);
    float a = 0.5F;
    size_t i = slot(m, p);
    if (at(m, i, p)) i++;
    m.kfs.insert(m.kfs.begin() + static_cast<long>(i), KF{p, a, std::nullopt});
    bool done = e.addAmplitudeAt(a, p, false);
    compare(r, "addAmplitudeAt:keep", m, e);
    REQUIRE(r, done, "addAmplitudeAt:result", "addAmplitudeAt reports failure");
    break;
  }
  case 3: { // remove, inside and outside
    int i = r.choose(size + 3) - 1;
    if (i == size + 1) i = INT_MIN;
    bool ok = i >= 0 && i < size;
    if (ok) m.kfs.erase(m.kfs.begin() + i);
    bool done = e.removeKeyframeAt(i);
    compare(r, "removeKeyframeAt", m, e);
    REQUIRE(r, done == ok, "removeKeyframeAt:result", "removeKeyframeAt(" + std::to_string(i) + ") of " + std::to_string(size) + " returns " + std::to_string(done));
    break;
  }
  case 4: { // replace, inside (same instant) and outside
    int i = r.choose(size + 2) - 1;
    bool ok = i >= 0 && i < size;
    KF k{7, -0.5F, 120};
    if (ok) {
      k.pos = m.kfs[static_cast<size_t>(i)].pos;
      m.kfs[static_cast<size_t>(i)] = k;
    }
    haptics::types::Keyframe kf(k.pos, k.amp, k.freq);
    bool done = e.replaceKeyframeAt(i, kf);
    compare(r, "replaceKeyframeAt", m, e);
    REQUIRE(r, done == ok, "replaceKeyframeAt:result", "replaceKeyframeAt(" + std::to_string(i) + ") of " + std::to_string(size) + " returns " + std::to_string(done));
    break;
  }
  case 5: { // append
    int p = 0;
    for (auto &k : m.kfs)
      if (k.pos) p = std::max(p, *k.pos);
    p += r.choose(2) * 3;
    m.kfs.push_back(KF{p, 0.125F, 30});
    if (r.flip()) e.addKeyframe(p, 0.125, 30);
    else {
      haptics::types::Keyframe kf(p, 0.125F, 30);
      e.addKeyframe(kf);
    }
    compare(r, "addKeyframe", m, e);
    break;
  }
  default: { // read outside
    int i = r.flip() ? -1 : size;
    bool said = throws([&] { (void)e.getKeyframeAt(i); });
    REQUIRE(r, said, "getKeyframeAt", "getKeyframeAt(" + std::to_string(i) + ") of " + std::to_string(size) + " goes through");
    compare(r, "getKeyframeAt", m, e);
    break;
  }
  }
}

void start(mc::Run &r, Eff &m) {
  m.pos = 100;
  m.id = 4;
  m.phase = 0.5F;
  m.base = 2;
  switch (r.choose(4)) {
  case 1: m.kfs = {{0, 1.0F, 10}, {5, 0.75F, std::nullopt}, {10, std::nullopt, 40}}; break;
  case 2: m.kfs = {{3, 1.0F, 10}}; break;
  case 3: m.kfs = {{5, 0.1F, 10}, {5, 0.2F, 20}, {12, 0.3F, 30}}; break;
  default: break;
  }
}

void sequences(mc::Run &r, int depth, bool full, int deal) {
  Eff m;
  start(r, m);
  auto e = doc::toEffect(m);
  for (int i = 0; i < deal; i++) edit(r, m, e, full);
  if (!r.go()) return;
  r.describe([&] { return text(m); });
  for (int i = deal; i < depth; i++) edit(r, m, e, full);
  r.state(text(m));
  // the copy is its own
  auto copy = e;
  copy.addAmplitudeAt(0.9F, 1);
  compare(r, "copy", m, e);
}
void wide(mc::Run &r) { sequences(r, r.thorough() ? 4 : 3, true, 2); }
void deep(mc::Run &r) { sequences(r, r.thorough() ? 5 : 4, false, 2); }

// Every insertion order of values at distinct instants leaves the same envelope.
void orders(mc::Run &r) {
  int n = r.thorough() ? 6 : 5;
  std::vector<int> left;
  for (int i = 0; i < n; i++) left.push_back(i);
  haptics::types::Effect e;
  Eff m;
  for (int i = 0; i < n; i++) m.kfs.push_back({i * 3, static_cast<float>(i) / 8, i * 10});
  std::vector<int> order;
  while (!left.empty()) {
    int i = r.choose(static_cast<int>(left.size()));
    order.push_back(left[static_cast<size_t>(i)]);
    left.erase(left.begin() + i);
  }
  int mode = r.choose(3);
  if (!r.go()) return;
  if (mode == 0)
    for (int i : order) {
      e.addAmplitudeAt(static_cast<float>(i) / 8, i * 3);
      e.addFrequencyAt(i * 10, i * 3);
    }
  if (mode == 1) {
    for (int i : order) e.addFrequencyAt(i * 10, i * 3);
    for (int i : order) e.addAmplitudeAt(static_cast<float>(i) / 8, i * 3);
  }
  if (mode == 2) {
    for (int i : order) e.addAmplitudeAt(0.99F, i * 3);
    for (int i = n - 1; i >= 0; i--) e.addFrequencyAt(i * 10, i * 3);
    for (int i : order) e.addAmplitudeAt(static_cast<float>(i) / 8, i * 3);
  }
  compare(r, "order-of-insertion", m, e);
  r.describe([&] { return text(m); });
  r.state(std::to_string(mode) + text(m));
}
} // namespace

int main(int argc, char **argv) {
  return mc::runMain(argc, argv, "C13", {{"wide", wide}, {"deep", deep}, {"orders", orders}});
}
