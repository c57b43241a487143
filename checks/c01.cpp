// C01: an experience written as HMPG and loaded again is the same experience.
#include "gen.h"
#include <IOHaptics/include/IOBinary.h>
using namespace doc;
using namespace gen;
using haptics::io::IOBinary;

namespace {
// What the format stores of a document; see the syntax of the binary file.
Eff stored(const Eff &e, int kind, bool library) {
  Eff r;
  r.type = e.type;
  r.pos = e.pos;
  if (library) {
    r.id = e.id;
    if (e.type == 0) {
      r.phase = e.phase.value_or(0.0F);
      r.base = e.base.value_or(0);
    }
    r.kfs = e.kfs;
    for (auto &t : e.timeline) r.timeline.push_back(stored(t, kind, true));
    return r;
  }
  if (e.type == 1) {
    r.id = e.id;
    return r;
  }
  if (e.type == 2) {
    for (auto &t : e.timeline) r.timeline.push_back(stored(t, kind, false));
    return r;
  }
  if (kind == 2) {
    r.phase = e.phase.value_or(0.0F);
    r.base = e.base.value_or(0);
  }
  if (kind == 3) {
    r.wave = e.wave;
    return r;
  }
  for (auto k : e.kfs) {
    if (kind < 2 && !k.amp) k.amp = 0.0F;
    if (!k.pos) k.pos = 0;
    if (kind == 0 && !k.freq) k.freq = 0;
    if (kind == 1) k.freq.reset();
    r.kfs.push_back(k);
  }
  return r;
}
Doc stored(Doc d) {
  d.timescale = 1000; // not stored; the default
  d.syncs.clear();
  for (auto &a : d.avatars)
    if (a.type == 0) a.mesh = a.mesh.value_or("");
    else a.mesh.reset();
  for (auto &p : d.percs) {
    p.priority.reset();
    p.scheme.reset();
    p.unitExp = p.unitExp.value_or(-3);
    p.percUnitExp = p.percUnitExp.value_or(0);
    for (auto &v : p.devices) v.mask = v.mask.value_or(0);
    for (auto &e : p.library) e = stored(e, 2, true);
    for (auto &c : p.channels) {
      c.priority.reset();
      if (!c.fs || *c.fs == 0) {
        c.fs.reset();
        c.samples.reset();
      } else c.samples = c.samples.value_or(0);
      if (c.res) {
        c.mask = 0;
        if (!c.parts) c.parts.emplace();
        if (!c.targets) c.targets.emplace();
      } else {
        c.parts.reset();
        c.targets.reset();
      }
      for (auto &b : c.bands) {
        b.priority.reset();
        if (b.type == 1) b.curve = b.curve.value_or(0);
        else b.curve.reset();
        if (b.type != 3) b.block.reset();
        for (auto &e : b.effects) e = stored(e, b.type, false);
      }
    }
  }
  return d;
}
const Tol TOL = {1.0 / 255 + 1e-6, 6.28319 / 65535, 0.0025};

void roundTrip(mc::Run &r, const Doc &d, bool memory = true) {
  r.describe([&] { return dump(d); });
  auto h = toHaptics(d);
  const auto path = mc::scratch() + "/c01.hmpg";
  REQUIRE(r, IOBinary::writeFile(h, path), "write", "writing failed: " + dump(d));
  r.step();
  const auto bytes = slurp(path);
  r.state(bytes);
  {
    haptics::types::Haptics back;
    REQUIRE(r, IOBinary::loadFile(path, back), "load", "loading failed: " + dump(d));
    r.step();
    const auto why = difference(stored(d), fromHaptics(back), TOL);
    REQUIRE(r, why.empty(), "differs", why + " in " + dump(d));
  }
  if (memory) {
    std::string copy = bytes;
    haptics::io::IOMemoryBuffer buf(copy.data(), copy.size());
    haptics::types::Haptics back;
    REQUIRE(r, IOBinary::loadMemory(buf, back), "load-memory", "loading from memory failed: " + dump(d));
    r.step();
    const auto why = difference(stored(d), fromHaptics(back), TOL);
    REQUIRE(r, why.empty(), "differs-memory", why + " in " + dump(d));
  }
}

void fields(mc::Run &r) {
  static const auto ts = tweaksFor(H);
  const bool isRich = r.flip();
  const int i = r.choose(static_cast<int>(ts.size()));
  if (!r.go()) return;
  r.tag(ts[i].name);
  Doc d = isRich ? rich() : lean();
  apply(d, {&ts[i]});
  roundTrip(r, d);
}
void pairs(mc::Run &r) {
  static const auto ts = tweaksFor(H);
  const int i = r.choose(static_cast<int>(ts.size()));
  if (!r.go()) return;
  const int j = r.choose(static_cast<int>(ts.size()));
  const bool isRich = r.flip();
  r.tag(ts[i].name + "+" + ts[j].name);
  Doc d = isRich ? rich() : lean();
  apply(d, {&ts[i], &ts[j]});
  roundTrip(r, d, false);
}
void keyframesOf(mc::Run &r) {
  const int where = r.choose(4); // transient, curve, vectorial, library
  const int n = r.choose(r.thorough() ? 5 : 4);
  const int form = r.choose(where == 3 ? 3 : 2); // plain; inside a composite; library: 0 basis, 1 nested, 2 reference
  if (!r.go()) return;
  r.tag("keyframes-" + std::to_string(where));
  Eff e = where == 2 || where == 3 ? vect(30, {}, 2, 1) : basis(30, {});
  e.kfs = keyframes(r, where, n);
  Doc d = lean();
  if (where == 3) {
    e.id = 77;
    if (form == 1) {
      Eff outer = comp(3, {e, e});
      outer.id = 78;
      outer.kfs = e.kfs;
      outer.timeline[1].id = 79;
      e = outer;
    }
    if (form == 2) {
      e.type = 1;
      e.phase.reset();
      e.base.reset();
    }
    P(d).library = {e, e};
  } else {
    C(d).bands = {band(where, 0, 1000, {form == 1 ? comp(2, {e, ref(50, 9)}) : e})};
  }
  roundTrip(r, d, false);
}
void timelines(mc::Run &r) {
  const int where = r.choose(5); // four band kinds, library
  if (!r.go()) return;
  r.tag("timeline-" + std::to_string(where));
  int budget = r.thorough() ? 8 : 6;
  Doc d = lean();
  if (where == 4) P(d).library = forest(r, 2, budget, 3, 25, true);
  else {
    // wavelet blocks that are not in a composite lie at whole block lengths
    auto f = forest(r, where, budget, 3, where == 3 ? 64 : 25);
    BandD b = band(where, 0, 1000, f);
    if (where == 3) b.block = 64;
    C(d).bands = {b, band(0, 3, 4, {basis(1, {kf(2, 1.0F, 3)})})};
  }
  roundTrip(r, d, false);
}
// Trees: which perceptions, channels, bands and effects there are.
void shapes(mc::Run &r) {
  int budget = r.thorough() ? 11 : 9;
  Doc d;
  while (budget > 0 && d.percs.size() < 3 && r.flip()) {
    budget--;
    Perc p;
    p.id = static_cast<int>(d.percs.size()) + 1;
    while (budget > 0 && p.channels.size() < 3 && r.flip()) {
      budget--;
      Chan c;
      c.id = static_cast<int>(p.channels.size()) * 2 + 1;
      while (budget > 0 && c.bands.size() < 3 && r.flip()) {
        budget--;
        const int kind = r.choose(4);
        BandD b = band(kind, 10 * budget, 1000, {});
        if (kind == 1) b.curve = 1 + budget % 5;
        if (kind == 3) b.block = 32;
        while (budget > 0 && b.effects.size() < 3 && r.flip()) {
          budget--;
          const int at = static_cast<int>(b.effects.size()) * 32;
          if (kind == 3) b.effects.push_back(wave(at, {static_cast<unsigned char>(budget), 1}));
          else if (kind == 2) b.effects.push_back(vect(at, {kf(budget, 0.5F, budget)}, 1, 3));
          else b.effects.push_back(basis(at, {kf(budget, 0.5F, kind ? Opt<int>() : Opt<int>(budget))}));
        }
        c.bands.push_back(b);
      }
      p.channels.push_back(c);
    }
    d.percs.push_back(p);
  }
  if (!r.go()) return;
  r.tag("shape");
  roundTrip(r, d, false);
}
// Every list at every length around the widths of its count field.
void counts(mc::Run &r) {
  const int what = r.choose(15);
  static const std::vector<int> byteCounts = {0, 1, 2, 3, 127, 128, 254, 255};
  static const std::vector<int> wordCounts = {0, 1, 2, 127, 128, 255, 256, 257, 300, 1000, 32768, 65535, 32767};
  const bool byteWide = what <= 5;
  const int n = byteWide ? r.pick(byteCounts) : wordCounts[r.choose(r.thorough() ? 13 : 11)];
  if (!r.go()) return;
  r.tag("count-" + std::to_string(what));
  Doc d = lean();
  auto &p = P(d);
  auto &c = C(d);
  switch (what) {
  case 0:
    for (int i = 0; i < n; i++) d.avatars.push_back({i, i, i % 4, {}});
    break;
  case 1:
    d.percs.clear();
    for (int i = 0; i < n; i++) {
      Perc q;
      q.id = i;
      d.percs.push_back(q);
    }
    break;
  case 2:
    for (int i = 0; i < n; i++) {
      Dev v;
      v.id = i;
      v.name = std::to_string(i);
      p.devices.push_back(v);
    }
    break;
  case 3:
    c.bands.clear();
    for (int i = 0; i < n; i++) c.bands.push_back(band(i % 3, i, 1000, {basis(i, {})}));
    for (auto &b : c.bands)
      if (b.type == 2) b.effects = {vect(3, {})};
    break;
  case 4:
    c.res = Vec{1, 1, 1};
    c.parts.emplace();
    for (int i = 0; i < n; i++) c.parts->push_back(i % 60);
    break;
  case 5:
    c.res = Vec{1, 1, 1};
    c.targets.emplace();
    for (int i = 0; i < n; i++) c.targets->push_back({i % 2, i % 100, 1});
    break;
  case 6:
    for (int i = 0; i < n; i++) {
      Eff e = vect(i, {});
      e.id = i;
      p.library.push_back(e);
    }
    break;
  case 7:
    p.channels.clear();
    for (int i = 0; i < n; i++) {
      Chan q;
      q.id = i;
      p.channels.push_back(q);
    }
    break;
  case 8:
    for (int i = 0; i < n; i++) c.verts.push_back(i * 3);
    break;
  case 9:
    c.bands[0].effects.clear();
    for (int i = 0; i < n; i++) c.bands[0].effects.push_back(ref(i, i));
    break;
  case 10: case 11: case 12: {
    const int kind = what - 10;
    Eff e = kind == 2 ? vect(0, {}) : basis(0, {});
    for (int i = 0; i < n; i++) e.kfs.push_back(kf(i, 1.0F, kind == 1 ? Opt<int>() : Opt<int>(i)));
    c.bands = {band(kind, 0, 1000, {e})};
    break;
  }
  case 13: {
    Eff e = comp(0, {});
    for (int i = 0; i < n; i++) e.timeline.push_back(ref(i, i));
    c.bands[0].effects = {e};
    break;
  }
  default: {
    BandD b = band(3, 0, 1000, {wave(0, std::vector<unsigned char>(n, 0xa5))});
    b.block = 32;
    c.bands = {b};
  }
  }
  roundTrip(r, d, false);
}
// Every code of the small fields, one document each.
void codes(mc::Run &r) {
  const int what = r.choose(7);
  if (!r.go()) return;
  r.tag("codes-" + std::to_string(what));
  Doc d = lean();
  switch (what) {
  case 0: K(d, 0).amp = static_cast<float>(r.choose(256)) / 127.5F - 1.0F; break;
  case 1: K(d, 1).amp = static_cast<float>(r.choose(256)) / 127.5F - 1.0F; break;
  case 2: K(d, 2).amp = static_cast<float>(r.choose(256)) / 127.5F - 1.0F; break;
  case 3: {
    D(d).mask = 1U << r.choose(32);
    break;
  }
  case 4: C(d).mask = 1U << r.choose(32); break;
  case 5: {
    const int m = r.choose(2048); // which figures a device has
    for (int i = 0; i < 11; i++)
      if (m >> i & 1) D(d).f[i] = 10.0F * static_cast<float>(i + 1);
    if (m % 3 == 0) D(d).type = 3;
    break;
  }
  default: {
    auto v = C(d).dir = Vec{r.choose(16) * 17 - 128, r.choose(16) * 17 - 128, 1};
    C(d).res = v;
  }
  }
  roundTrip(r, d, false);
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C01",
                     {{"fields", fields}, {"shapes", shapes}, {"keyframes", keyframesOf}, {"timelines", timelines}, {"codes", codes}, {"pairs", pairs}, {"counts", counts, false, 60}});
}
