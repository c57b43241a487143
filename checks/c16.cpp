// C16: factoring effects into a library and expanding them back keeps the meaning of the document.
#include "doc.h"
#include "mc.h"
#include <algorithm>
#include <map>

namespace {
using doc::BandD;
using doc::Chan;
using doc::Doc;
using doc::Eff;
using doc::Perc;

// ------------------------------------------------ effects the documents are made of
Eff basis(std::vector<doc::KF> k) {
  Eff e;
  e.kfs = std::move(k);
  return e;
}
Eff ref(int id, int pos = 0) {
  Eff e;
  e.type = 1;
  e.id = id;
  e.pos = pos;
  return e;
}
Eff comp(std::vector<Eff> t) {
  Eff e;
  e.type = 2;
  e.timeline = std::move(t);
  return e;
}
Eff at(Eff e, int pos) {
  e.pos = pos;
  return e;
}
Eff named(Eff e, int id) {
  e.id = id;
  return e;
}
const Eff &A() {
  static const Eff e = basis({{0, 0.5F, 100}, {20, 0.25F, 120}});
  return e;
}
std::vector<Eff> alphabet() {
  std::vector<Eff> v;
  v.push_back(A());
  auto B = basis({{0, 0.5F, 100}});
  v.push_back(B); // a prefix of A
  auto x = A();
  x.kfs[1].amp = 0.75F;
  v.push_back(x);
  x = A();
  x.kfs[0].freq = 101;
  v.push_back(x);
  x = A();
  x.kfs[1].pos = 21;
  v.push_back(x);
  x = A();
  x.semantic = "click";
  v.push_back(x);
  x = A();
  x.phase = 1.0F;
  v.push_back(x);
  x = A();
  x.base = 2;
  v.push_back(x);
  v.push_back(basis({}));
  x = A();
  x.kfs[0].amp.reset();
  v.push_back(x);
  v.push_back(ref(0));
  v.push_back(ref(1));
  v.push_back(ref(2));
  v.push_back(comp({at(A(), 0), at(B, 30)}));
  v.push_back(comp({at(ref(1), 5), at(comp({at(ref(0), 7), at(ref(3), 9)}), 11)}));
  return v;
}
std::vector<std::vector<Eff>> libraries() {
  auto B = basis({{0, 0.5F, 100}});
  auto W = A();
  W.base = 3;
  W.semantic = "wave";
  std::vector<std::vector<Eff>> v;
  v.push_back({});
  v.push_back({named(A(), 0)});
  v.push_back({named(B, 3), named(A(), 1)});
  v.push_back({named(W, 1), named(comp({at(ref(1), 4), at(B, 8)}), 2)});
  v.push_back({named(comp({at(ref(1), 1)}), 2), named(comp({at(ref(0), 2), at(ref(2), 3)}), 1), named(A(), 0)}); // 1 and 2 contain each other
  v.push_back({named(at(W, 40), 2), named(basis({}), 5)});
  return v;
}

// ------------------------------------------------ the meaning of a document, computed on the mirror
const Eff *lookup(const std::vector<Eff> &lib, int id) {
  for (const auto &e : lib)
    if (e.id == id) return &e;
  return nullptr;
}
Eff expand(const std::vector<Eff> &lib, const Eff &e, std::vector<int> open) {
  Eff r = e;
  if (e.type == 1) {
    const Eff *t = lookup(lib, e.id);
    if (t == nullptr || std::count(open.begin(), open.end(), e.id) != 0) return r; // stays a reference
    open.push_back(e.id);
    r = *t;
    r.pos = e.pos;
  }
  r.id = -1;
  for (auto &x : r.timeline) x = expand(lib, x, open);
  return r;
}
Doc meaning(Doc d) {
  for (auto &p : d.percs) {
    for (auto &c : p.channels)
      for (auto &b : c.bands)
        for (auto &e : b.effects) e = expand(p.library, e, {});
    p.library.clear();
  }
  return d;
}
std::string sameEffect(const Eff &a, const Eff &b) {
  doc::Diff d;
  d.eff(a, b);
  return d.why;
}

// A reference to nothing means nothing, so such documents are only expanded.
bool dangling(const std::vector<Eff> &lib, const std::vector<Eff> &v) {
  return std::any_of(v.begin(), v.end(), [&](const Eff &e) {
    return (e.type == 1 && lookup(lib, e.id) == nullptr) || dangling(lib, e.timeline);
  });
}
bool dangling(const Doc &d) {
  for (auto &p : d.percs) {
    if (dangling(p.library, p.library)) return true;
    for (auto &c : p.channels)
      for (auto &b : c.bands)
        if (dangling(p.library, b.effects)) return true;
  }
  return false;
}

struct World {
  Doc m;     // the document as the code has it now
  Doc sense; // what it meant at the start
  doc::ht::Haptics h;
};

void operation(mc::Run &r, World &w, bool refactor) {
  const std::string op = refactor ? "refactor" : "linearize";
  r.tag(op);
  r.step();
  if (refactor)
    w.h.refactor();
  else
    w.h.linearize();
  Doc now = doc::fromHaptics(w.h);
  auto why = doc::difference(w.sense, meaning(now));
  REQUIRE(r, why.empty(), op + "-meaning", "after " + op + " the document means something else: " + why);
  for (size_t p = 0; p < now.percs.size(); p++) {
    auto &np = now.percs[p];
    auto &op_ = w.m.percs[p];
    if (refactor) {
      std::map<int, int> ids;
      for (auto &e : op_.library) {
        auto *t = lookup(np.library, e.id);
        REQUIRE(r, t != nullptr, "library-kept", "refactoring removed library effect " + std::to_string(e.id));
        auto diff = sameEffect(expand(op_.library, *lookup(op_.library, e.id), {}), expand(np.library, *t, {}));
        REQUIRE(r, diff.empty(), "library-kept", "refactoring changed library effect " + std::to_string(e.id) + ": " + diff);
      }
      for (auto &e : np.library) {
        ids[e.id]++;
        REQUIRE(r, ids[e.id] == 1, "library-ids", "two library effects with identifier " + std::to_string(e.id));
      }
      std::vector<Eff> seen;
      for (auto &c : np.channels)
        for (auto &b : c.bands) {
          if (b.type == 3) continue;
          for (auto &e : b.effects) {
            if (e.type != 0) continue;
            for (auto &s : seen)
              REQUIRE(r, !sameEffect(at(named(s, 0), 0), at(named(e, 0), 0)).empty(), "still-repeated",
                      "an effect that occurs more than once was not put in the library");
            seen.push_back(e);
          }
        }
    } else {
      REQUIRE(r, np.library.empty(), "library-left", "the library still has effects after linearize");
    }
  }
  w.m = now;
  r.state(mc::hashStr(doc::dump(now)));
}

void history(mc::Run &r, World &w, int depth) {
  for (int i = 0; i < depth; i++) {
    bool can = !dangling(w.m);
    operation(r, w, can && r.flip());
  }
}

void place(Doc &d, int layout, int slot, const Eff &e) {
  // where the effect in that slot goes: perception, channel, band
  static const int where[8][5][3] = {
      {{0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}, {0, 0, 0}}, // one band
      {{0, 0, 0}, {0, 0, 1}, {0, 0, 0}, {0, 0, 1}, {0, 0, 1}}, // two bands
      {{0, 0, 0}, {0, 1, 0}, {0, 1, 0}, {0, 0, 0}, {0, 1, 0}}, // two channels
      {{0, 0, 1}, {0, 1, 0}, {0, 1, 1}, {0, 0, 0}, {0, 0, 0}}, // two of two
      {{0, 0, 0}, {1, 0, 0}, {1, 0, 0}, {0, 0, 0}, {1, 0, 0}}, // two perceptions
      {{0, 0, 0}, {0, 2, 0}, {0, 1, 0}, {0, 0, 1}, {0, 2, 0}}, // three channels
      {{0, 0, 0}, {0, 0, 2}, {0, 0, 1}, {0, 0, 2}, {0, 0, 0}}, // three bands
      {{0, 0, 0}, {1, 0, 0}, {0, 1, 1}, {1, 1, 0}, {0, 0, 0}},
  };
  auto [p, c, b] = std::tuple(where[layout][slot][0], where[layout][slot][1], where[layout][slot][2]);
  while (static_cast<int>(d.percs.size()) <= p) {
    Perc x;
    x.id = static_cast<int>(d.percs.size());
    d.percs.push_back(x);
  }
  auto &chans = d.percs[p].channels;
  while (static_cast<int>(chans.size()) <= c) {
    Chan x;
    x.id = static_cast<int>(chans.size());
    chans.push_back(x);
  }
  auto &bands = chans[c].bands;
  while (static_cast<int>(bands.size()) <= b) {
    BandD x;
    static const int types[] = {2, 1, 0};
    x.type = types[bands.size() % 3];
    if (x.type == 1) x.curve = 1;
    bands.push_back(x);
  }
  bands[b].effects.push_back(at(e, 100 * static_cast<int>(bands[b].effects.size())));
}

void histories(mc::Run &r, int depth, int slots, bool wave, const std::vector<int> &letters) {
  static const auto ALPHA = alphabet();
  static const auto LIBS = libraries();
  int layout = r.choose(8);
  int lib = r.choose(static_cast<int>(LIBS.size()));
  r.go();
  Doc d;
  int n = r.choose(slots + 1);
  for (int i = 0; i < n; i++) {
    auto e = ALPHA[letters.empty() ? static_cast<size_t>(r.choose(static_cast<int>(ALPHA.size()))) : static_cast<size_t>(r.pick(letters))];
    place(d, layout, i, e);
  }
  if (d.percs.empty()) d.percs.emplace_back();
  if (wave) { // wavelet blocks among the bands: no keyframes, told apart by their bits
    BandD b;
    b.type = 3;
    b.block = 16;
    Eff x;
    x.wave = {1, 2, 3};
    b.effects.push_back(x);
    x.wave = {4, 5};
    b.effects.push_back(at(x, 16));
    x.wave = {4, 5};
    b.effects.push_back(at(x, 32));
    if (d.percs[0].channels.empty()) d.percs[0].channels.emplace_back();
    auto &bands = d.percs[0].channels[0].bands;
    bands.insert(r.flip() ? bands.begin() : bands.end(), b);
  }
  d.percs[0].library = LIBS[static_cast<size_t>(lib)];
  if (d.percs.size() > 1) d.percs[1].library = LIBS[static_cast<size_t>(lib + 3) % LIBS.size()]; // another one
  World w;
  w.m = d;
  w.sense = meaning(d);
  w.h = doc::toHaptics(d);
  r.describe([d, layout, lib] { return "layout " + std::to_string(layout) + " library " + std::to_string(lib) + "\n" + doc::dump(d); });
  history(r, w, depth);
}

// A file of many repetitions: all ways to split n effects into groups of equal ones.
void partitions(mc::Run &r) {
  static const auto ALPHA = alphabet();
  int layout = r.choose(8);
  int lib = r.choose(3);
  r.go();
  Doc d;
  int groups = 0;
  for (int i = 0; i < 5; i++) {
    int g = r.choose(std::min(groups + 1, 5));
    groups = std::max(groups, g + 1);
    place(d, layout, i, ALPHA[static_cast<size_t>(g)]);
  }
  d.percs[0].library = libraries()[static_cast<size_t>(lib)];
  World w;
  w.m = d;
  w.sense = meaning(d);
  w.h = doc::toHaptics(d);
  r.describe([d] { return doc::dump(d); });
  history(r, w, 3);
}

// Near misses: every pair of effects over small sets of keyframe lists and other fields.
void pairs(mc::Run &r) {
  bool fields = r.flip();
  int layout = r.choose(4);
  r.go();
  auto effect = [&] {
    Eff e = A();
    if (fields) {
      if (int v = r.choose(3); v > 0) e.phase = static_cast<float>(v - 1);
      if (int v = r.choose(4); v > 0) e.base = v - 1;
      if (int v = r.choose(4); v > 0) e.semantic = v == 1 ? "" : v == 2 ? "click" : "Click";
      return e;
    }
    e.kfs.clear();
    int n = r.choose(r.thorough() ? 4 : 3);
    for (int i = 0; i < n; i++) {
      doc::KF k;
      if (int v = r.choose(3); v < 2) k.pos = 10 * i + v;
      if (int v = r.choose(n < 3 ? 3 : 2); v > 0) k.amp = static_cast<float>(v - 1);
      if (int v = r.choose(n < 3 ? 3 : 2); v > 0) k.freq = v - 1;
      e.kfs.push_back(k);
      if (!r.thorough() && n == 2 && i == 0) { // only one of the two varies freely
        e.kfs.push_back({20, 0.5F, 100});
        break;
      }
    }
    return e;
  };
  Doc d;
  auto a = effect();
  auto b = effect();
  place(d, layout, 0, a);
  place(d, layout, 1, b);
  place(d, layout, 2, a);
  World w;
  w.m = d;
  w.sense = meaning(d);
  w.h = doc::toHaptics(d);
  r.describe([d] { return doc::dump(d); });
  operation(r, w, true);
  operation(r, w, false);
}

// Many library effects: identifiers of new ones against every set of existing ones.
void identifiers(mc::Run &r) {
  static const auto ALPHA = alphabet();
  int mask = r.choose(64);
  bool down = r.flip();
  r.go();
  Doc d;
  Perc p;
  for (int i = 0; i < 6; i++) {
    int id = down ? 5 - i : i;
    if ((mask >> id) & 1) {
      auto e = A();
      e.base = 4;
      e.phase = 0.5F + static_cast<float>(id);
      p.library.push_back(named(e, id));
    }
  }
  d.percs.push_back(p);
  int pairs = 1 + r.choose(3);
  for (int i = 0; i < pairs; i++)
    for (int k = 0; k < 2; k++) place(d, 0, 0, ALPHA[static_cast<size_t>(i)]);
  int used = r.choose(7);
  if (used < 6) place(d, 0, 0, ref(used));
  World w;
  w.m = d;
  w.sense = meaning(d);
  w.h = doc::toHaptics(d);
  r.describe([d] { return doc::dump(d); });
  history(r, w, 2);
}
} // namespace

int main(int argc, char **argv) {
  auto H = [](int depth, int slots, bool wave, std::vector<int> letters) {
    return [=](mc::Run &r) { histories(r, depth, slots, wave, letters); };
  };
  return mc::runMain(argc, argv, "C16",
                     {
                         {"two-effects", H(3, 2, false, {})},
                         {"three-effects", H(2, 3, false, {0, 1, 2, 5, 8, 10, 11, 14})},
                         {"three-of-all", H(3, 3, false, {}), true},
                         {"with-wavelets", H(3, 2, true, {})},
                         {"partitions", partitions},
                         {"identifiers", identifiers},
                         {"pairs", pairs},
                         {"four-effects", H(3, 4, false, {}), true},
                         {"five-of-seven", H(3, 5, false, {0, 1, 5, 8, 10, 11, 14}), true},
                     });
}
