// Documents and packet durations for the checks of the stream format (C03, C04): every scenario hands each pair to `visit`.
#pragma once
#include <set>
#include "mihs.h"

namespace streams {
using namespace doc;
using namespace gen;
using Visit = void (*)(mc::Run &, const Doc &, int packetDuration, bool alsoFile);
inline Visit visit = nullptr;
inline bool mayRefuse = false; // the document needs a packet longer than its length field can say: the writer may refuse it
inline void hand(mc::Run &r, const Doc &d, int pd, bool file = false) { visit(r, d, pd, file); }

// Composites are taken apart: whether their own position counts is not written down, so it is 0 here.
inline Doc base(bool isRich) {
  Doc d = isRich ? rich() : lean();
  for (auto &p : d.percs)
    for (auto &c : p.channels)
      for (auto &b : c.bands)
        for (auto &e : b.effects)
          if (e.type == 2) {
            e.pos = 0;
            for (auto &t : e.timeline) t.pos += 40;
          }
  for (auto &p : d.percs)
    for (auto &c : p.channels)
      for (auto &b : c.bands) std::stable_sort(b.effects.begin(), b.effects.end(), [](const Eff &x, const Eff &y) { return x.pos < y.pos; });
  return d;
}
inline bool streamable(const Doc &d) {
  for (auto &p : d.percs)
    for (auto &c : p.channels)
      for (auto &b : c.bands)
        if (b.type == 3 && b.block.value_or(1) > 255) return false;
  return true;
}

inline void fields(mc::Run &r) {
  static const auto ts = tweaksFor(M);
  static const std::vector<int> pds = {128, 1000, 64};
  const bool isRich = r.flip();
  const int i = r.choose(static_cast<int>(ts.size()));
  const int pd = r.pick(pds);
  if (!r.go()) return;
  r.tag(ts[i].name);
  Doc d = base(isRich);
  apply(d, {&ts[i]});
  if (!streamable(d)) return;
  hand(r, d, pd, pd == 128);
}
inline void pairs(mc::Run &r) {
  static const auto all = tweaksFor(M);
  static const auto some = families(all);
  const auto &ts = r.thorough() ? all : some;
  const int i = r.choose(static_cast<int>(ts.size()));
  if (!r.go()) return;
  const int j = r.choose(static_cast<int>(ts.size()));
  r.tag(ts[i].name + "+" + ts[j].name);
  Doc d = base(true);
  apply(d, {&ts[i], &ts[j]});
  if (!streamable(d)) return;
  hand(r, d, 128);
}
// Where keyframes and effects lie with respect to the packets: every placement on a grid.
inline void timing(mc::Run &r) {
  static const std::vector<int> pds = {10, 7, 1, 15, 64};
  static const std::vector<int> at = {0, 5, 9, 10, 11, 20, 35};
  const int kind = r.choose(3);
  const int n = 1 + r.choose(2);
  const int pd = r.pick(pds);
  if (!r.go()) return;
  r.tag("timing-" + std::to_string(kind));
  Doc d = lean();
  BandD b = band(kind, 0, 1000, {});
  for (int i = 0; i < n; i++) {
    Eff e;
    const int what = r.choose(3); // basis; basis with an identifier; reference
    e.pos = r.pick(at);
    if (what == 2) {
      e.type = 1;
      e.id = 3;
    } else {
      if (kind == 2) {
        e.phase = 0.0F;
        e.base = i;
      }
      if (what == 1) e.id = 3 + i; // references and effects are named in different lists
      const int k = 1 + r.choose(r.thorough() ? 3 : 2);
      int t = 0;
      for (int j = 0; j < k; j++) {
        static const std::vector<int> steps = {0, 4, 10, 25};
        t += r.pick(steps);
        e.kfs.push_back(kf(t, 0.25F * static_cast<float>(j + 1), kind == 1 ? Opt<int>() : Opt<int>(50 + 10 * i + j)));
      }
    }
    b.effects.push_back(e);
  }
  // effects at one instant may come back in either order when their first keyframes lie in different packets
  if (n == 2 && b.effects[0].pos == b.effects[1].pos) return;
  std::stable_sort(b.effects.begin(), b.effects.end(), [](const Eff &x, const Eff &y) { return x.pos < y.pos; });
  C(d).bands = {b};
  hand(r, d, pd);
}
// Many effects of one band going on at once, each in several packets, ending in any of three orders.
inline void overlapped(mc::Run &r) {
  static const std::vector<int> ns = {3, 4, 5, 8, 9, 17, 40, 130};
  static const std::vector<int> pds = {50, 20, 128};
  const int kind = r.choose(3);
  const int order = r.choose(4); // all to the end; first in, last out; first in, first out; only the first is long
  const int n = r.pick(ns);
  const int pd = r.pick(pds);
  const bool named = r.flip();
  if (!r.go()) return;
  r.tag("overlapped");
  Doc d = lean();
  BandD b = band(kind, 0, 1000, {});
  const int step = 7, end = step * n + 60;
  for (int i = 0; i < n; i++) {
    const int at = step * i;
    const int stop = order == 0 ? end : order == 1 ? 2 * end - at : order == 2 ? end + at : i == 0 ? end : at + 1;
    auto k = [&](int t, float a) { return kf(t, a, kind == 1 ? Opt<int>() : Opt<int>(10 + i)); };
    std::vector<KF> ks = {k(0, 0.25F), k((stop - at) / 2, 0.5F), k(stop - at, 1.0F)};
    Eff e = kind == 2 ? vect(at, ks, 0, i % 5) : basis(at, ks);
    if (named) e.id = 200 - i;
    b.effects.push_back(e);
  }
  C(d).bands = {b};
  hand(r, d, pd, n == 9);
}
// Up to three bands, each with its own content, over the same time.
inline void together(mc::Run &r) {
  static const std::vector<int> pds = {64, 100, 32, 500};
  const int pd = r.pick(pds);
  const int shape = r.choose(4); // bands of one channel, of several channels, of several perceptions, all of them
  if (!r.go()) return;
  r.tag("together");
  Doc d = lean();
  P(d).library.clear();
  auto content = [&](int i) {
    const int kind = r.choose(4);
    const int start = r.choose(3) * 96;
    if (kind == 3) {
      BandD b = band(3, 0, 1000, {});
      b.block = r.flip() ? 32 : 64;
      for (int k = 0; k < 1 + i + start / 96; k++) b.effects.push_back(wave(k * *b.block, {static_cast<unsigned char>(k), 1, static_cast<unsigned char>(i)}));
      return b;
    }
    auto e = [&](int at, int len) {
      std::vector<KF> k = {kf(0, 0.5F, kind == 1 ? Opt<int>() : Opt<int>(100 + i)), kf(len, 1.0F, kind == 1 ? Opt<int>() : Opt<int>(i))};
      return kind == 2 ? vect(at, k, 0, i) : basis(at, k);
    };
    BandD b = band(kind, 0, 1000, {e(start, 70), ref(start + 80, 3), e(start + 200, 10)});
    if (kind == 1) b.curve = 1 + i;
    return b;
  };
  std::vector<BandD> bs = {content(0), content(1)};
  if (r.thorough() && r.flip()) bs.push_back(content(2));
  C(d).bands.clear();
  for (size_t i = 0; i < bs.size(); i++) {
    if (shape == 0 || i == 0) C(d).bands.push_back(bs[i]);
    else if (shape == 1) {
      Chan c;
      c.id = static_cast<int>(i);
      c.bands = {bs[i]};
      P(d).channels.push_back(c);
    } else {
      Perc p;
      p.id = static_cast<int>(i);
      Chan c;
      c.id = shape == 2 ? 0 : 5;
      c.bands = {bs[i]};
      if (shape == 3) {
        Chan c2;
        c2.id = 0;
        c2.bands = {bs[i], bs[0]};
        p.channels.push_back(c2);
      }
      p.channels.push_back(c);
      d.percs.push_back(p);
    }
  }
  hand(r, d, pd);
}
// Trees with parts that have no content: those are not carried, all others are.
inline void shapes(mc::Run &r) {
  int budget = r.thorough() ? 11 : 9;
  Doc d;
  while (budget > 0 && d.percs.size() < 3 && r.flip()) {
    budget--;
    Perc p;
    p.id = static_cast<int>(d.percs.size()) + 1;
    while (budget > 0 && p.channels.size() < 3 && r.flip()) {
      budget--;
      Chan c;
      c.id = static_cast<int>(p.channels.size()) * 2 + 1;
      while (budget > 0 && c.bands.size() < 3 && r.flip()) {
        budget--;
        const int kind = r.choose(2) * 2; // transient, vectorial
        BandD b = band(kind, 10 * budget, 1000, {});
        while (budget > 0 && b.effects.size() < 3 && r.flip()) {
          budget--;
          const int at = static_cast<int>(b.effects.size()) * 70;
          Eff e = kind == 2 ? vect(at, {}, 1, 3) : basis(at, {});
          if (r.flip()) e.kfs = {kf(budget, 0.5F, budget)};
          b.effects.push_back(e);
        }
        c.bands.push_back(b);
      }
      p.channels.push_back(c);
    }
    d.percs.push_back(p);
  }
  if (!r.go()) return;
  r.tag("shape");
  hand(r, d, 64);
}
inline void keyframesOf(mc::Run &r) {
  const int where = r.choose(4); // transient, curve, vectorial, library
  const int n = r.choose(r.thorough() ? 5 : 4);
  if (!r.go()) return;
  r.tag("keyframes-" + std::to_string(where));
  Eff e = where >= 2 ? vect(30, {}, 2, 1) : basis(30, {});
  e.kfs = keyframes(r, where, n);
  // in time order
  int last = 0;
  for (auto &k : e.kfs) {
    if (where < 3 && k.pos.value_or(0) < last) return;
    last = k.pos.value_or(0);
  }
  Doc d = lean();
  if (where == 3) {
    e.id = 77;
    Eff outer = comp(3, {e, ref(4, 77)});
    outer.id = 78;
    outer.timeline[0].id = 79;
    P(d).library = {e, outer};
  } else C(d).bands = {band(where, 0, 1000, {e})};
  hand(r, d, 32);
}
// Nested timelines are played one after the other.
inline void timelines(mc::Run &r) {
  const int where = r.choose(3);
  if (!r.go()) return;
  r.tag("timeline");
  int budget = r.thorough() ? 7 : 5;
  Doc d = lean();
  auto f = forest(r, where, budget, 3, 0);
  int t = 0;
  std::function<void(std::vector<Eff> &)> place = [&](std::vector<Eff> &es) {
    for (auto &e : es)
      if (e.type == 2) place(e.timeline);
      else e.pos = 25 * t++;
  };
  place(f);
  std::stable_sort(f.begin(), f.end(), [](const Eff &x, const Eff &y) { return x.pos < y.pos; });
  C(d).bands = {band(where, 0, 1000, f), band(0, 3, 4, {basis(1, {kf(2, 1.0F, 3)})})};
  hand(r, d, 40);
}
// Libraries of composites of composites.
inline void libraries(mc::Run &r) {
  int budget = r.thorough() ? 7 : 5;
  const bool semantic = r.flip();
  if (!r.go()) return;
  r.tag("library");
  Doc d = lean();
  P(d).library = forest(r, 2, budget, 4, 25, true);
  if (semantic)
    for (auto &e : P(d).library)
      for (auto &t : e.timeline) t.semantic = "UX/Click";
  hand(r, d, 128);
}
// Wavelet blocks: any length of block against any length of packet.
inline void blocks(mc::Run &r) {
  static const std::vector<int> lens = {16, 32, 64, 128, 85, 255};
  static const std::vector<int> pds = {16, 32, 50, 64, 128, 200, 256, 1000};
  const int len = r.pick(lens);
  const int pd = r.pick(pds);
  const int n = 1 + r.choose(9);
  const int other = r.choose(3);
  const int ts = r.choose(2);
  if (!r.go()) return;
  r.tag("blocks");
  Doc d = lean();
  if (ts) d.timescale = 8000;
  BandD b = band(3, 0, 1000, {});
  b.block = len;
  for (int i = 0; i < n; i++) {
    b.effects.push_back(wave(i * len, {static_cast<unsigned char>(i + 1), 2}));
    if (i % 2) b.effects.back().semantic = "UX/Click";
  }
  C(d).bands = {b};
  if (other) C(d).bands.push_back(band(2, 0, 1000, {vect(other == 1 ? 0 : 300, {kf(0, 0.5F, 100), kf(40, 1.0F, 3), kf(500, 0.0F, 4)})}));
  hand(r, d, pd);
}
// Textures, stiffness and friction are carried whole.
inline void spatial(mc::Run &r) {
  static const std::vector<ht::PerceptionModality> ms = {ht::PerceptionModality::VibrotactileTexture, ht::PerceptionModality::Stiffness, ht::PerceptionModality::Friction};
  const auto m = r.pick(ms);
  const int nb = 1 + r.choose(3);
  const bool also = r.flip();
  static const std::vector<int> gaps = {400, 65535, 65536, 70000, 1000000, 16000000};
  const int gap = r.pick(gaps);
  if (!r.go()) return;
  r.tag("spatial");
  Doc d = lean();
  P(d).modality = static_cast<int>(m);
  C(d).bands.clear();
  for (int i = 0; i < nb; i++) {
    const int kind = r.choose(3);
    auto k = [&](int at, float a) { return kf(at, a, kind == 1 ? Opt<int>() : Opt<int>(7 + i)); };
    Eff e1 = kind == 2 ? vect(0, {k(0, 0.5F), k(300, 1.0F)}, 0, 2) : basis(0, {k(0, 0.5F), k(300, 1.0F)});
    Eff e2 = e1;
    e2.pos = gap;
    C(d).bands.push_back(band(kind, 0, 1000, r.flip() ? std::vector<Eff>{e1} : std::vector<Eff>{e1, e2, ref(gap + 500, 4)}));
  }
  if (also) {
    Perc p;
    p.id = 9;
    p.modality = 6;
    Chan c;
    c.bands = {band(2, 0, 1000, {vect(0, {kf(0, 0.5F, 100)}), vect(300, {kf(0, 0.5F, 100), kf(50, 0.5F, 100)})})};
    p.channels = {c};
    d.percs.push_back(p);
  }
  hand(r, d, 128);
}
// Effects with ids of their own beside effects without, each over several packets.
inline void ids(mc::Run &r) {
  static const std::vector<int> pds = {20, 30};
  const int kind = r.choose(3);
  const int n = 2 + r.choose(r.thorough() ? 3 : 2);
  const int bands = 1 + r.choose(2);
  const int pd = r.pick(pds);
  std::vector<int> id;
  for (int i = 0; i < n * bands; i++) id.push_back(r.choose(bands == 2 && n == 3 && !r.thorough() ? 4 : 5) - 1);
  if (!r.go()) return;
  std::set<int> seen;
  for (int i : id)
    if (i >= 0 && !seen.insert(i).second) return;
  r.tag("ids");
  Doc d = lean();
  C(d).bands.clear();
  for (int k = 0; k < bands; k++) {
    BandD b = band(kind, 0, 1000, {});
    for (int i = 0; i < n; i++) {
      auto e = [&](int p) {
        std::vector<KF> ks = {kf(0, 0.5F, kind == 1 ? Opt<int>() : Opt<int>(9)), kf(25, 1.0F, kind == 1 ? Opt<int>() : Opt<int>(10)), kf(45, 0.25F, kind == 1 ? Opt<int>() : Opt<int>(11))};
        return kind == 2 ? vect(p, ks, 0, 1) : basis(p, ks);
      };
      b.effects.push_back(e(i * 50 + 5 + 3 * k));
      const int x = id[static_cast<size_t>(k * n + i)];
      if (x >= 0) b.effects.back().id = x;
    }
    C(d).bands.push_back(b);
  }
  hand(r, d, pd);
}
// Content far away, after long silences.
inline void far(mc::Run &r) {
  static const std::vector<int> at = {65535, 65536, 70000, 1000000, (1 << 24) - 1, 1 << 24, (1 << 24) + 1, 20000000, (1 << 25) - 30000};
  static const std::vector<int> pds = {1000, 30000, 65535, 65536, 1 << 20, 128};
  const int kind = r.choose(3);
  const int pos = r.pick(at);
  const int pd = r.pick(pds);
  const int before = r.choose(3); // nothing; an effect at 0; an effect halfway too
  if (!r.go()) return;
  r.tag("far");
  Doc d = lean();
  auto e = [&](int p) {
    std::vector<KF> ks = {kf(0, 0.5F, kind == 1 ? Opt<int>() : Opt<int>(9)), kf(20000, 1.0F, kind == 1 ? Opt<int>() : Opt<int>(10))};
    return kind == 2 ? vect(p, ks, 0, 1) : basis(p, ks);
  };
  BandD b = band(kind, 0, 1000, {});
  if (before) b.effects.push_back(e(0));
  if (before == 2) b.effects.push_back(e(pos / 2));
  b.effects.push_back(e(pos));
  C(d).bands = {b};
  hand(r, d, pd);
}
inline void counts(mc::Run &r) {
  const int what = r.choose(12);
  static const std::vector<int> ns = {0, 1, 2, 127, 128, 254, 255};
  static const std::vector<int> ws = {0, 1, 2, 127, 128, 255, 256, 257, 300, 1000, 4000};
  static const std::vector<int> xs = {0, 1, 2, 127, 128, 255, 256, 257, 300, 1000, 4000, 12000, 20000, 32767}; // packets of more than 2^16 bytes
  const int n = r.pick(what == 6 || what == 7 || what == 11 ? ws : what >= 8 ? xs : ns);
  if (!r.go()) return;
  r.tag("count-" + std::to_string(what));
  Doc d = lean();
  auto &p = P(d);
  auto &c = C(d);
  switch (what) {
  case 0:
    for (int i = 0; i < n; i++) d.avatars.push_back({i, i, i % 4, i % 4 ? Opt<std::string>() : Opt<std::string>(std::to_string(i))});
    break;
  case 1: {
    auto q = p;
    d.percs.clear();
    for (int i = 0; i < n; i++) {
      q.id = i;
      d.percs.push_back(q);
    }
    break;
  }
  case 2:
    for (int i = 0; i < n; i++) {
      Dev v;
      v.id = i;
      v.name = std::to_string(i);
      p.devices.push_back(v);
    }
    break;
  case 3:
    c.bands.clear();
    for (int i = 0; i < n; i++) c.bands.push_back(band(0, i, 1000, {basis(i, {kf(0, 0.5F, i)})}));
    break;
  case 4:
    c.res = Vec{1, 1, 1};
    c.parts.emplace();
    for (int i = 0; i < n; i++) c.parts->push_back(i % 60);
    break;
  case 5:
    c.res = Vec{1, 1, 1};
    c.targets.emplace();
    for (int i = 0; i < n; i++) c.targets->push_back({i % 2, i % 100, 1});
    break;
  case 6:
    for (int i = 0; i < n; i++) {
      Eff e = vect(i, {});
      e.id = i;
      p.library.push_back(e);
    }
    break;
  case 7: {
    auto q = c;
    p.channels.clear();
    for (int i = 0; i < n; i++) {
      q.id = i;
      p.channels.push_back(q);
    }
    break;
  }
  case 8:
    for (int i = 0; i < n; i++) c.verts.push_back(i * 3);
    break;
  case 9:
    c.bands[0].effects.clear();
    for (int i = 0; i < n; i++) c.bands[0].effects.push_back(i % 3 ? vect(i * 3, {kf(0, 0.5F, i % 1000)}) : ref(i * 3, i));
    break;
  case 10: {
    Eff e = vect(5, {});
    for (int i = 0; i < n; i++) e.kfs.push_back(kf(i, 0.25F * static_cast<float>(i % 5), i % 1000));
    c.bands[0].effects = {e, vect(40000, {kf(0, 0.5F, 5)})};
    break;
  }
  default: {
    std::vector<Eff> inner;
    for (int i = 0; i < n; i++) {
      Eff e = vect(i, {kf(0, 0.5F, i % 1000)});
      e.id = i + 1;
      inner.push_back(e);
    }
    Eff e = comp(0, inner);
    e.id = 20000;
    p.library = {e};
    break;
  }
  }
  mayRefuse = (what == 8 && n > 32000) || (what == 9 && n > 8000) || (what == 10 && n > 23000);
  hand(r, d, n > 300 && what >= 8 ? (what == 11 ? 128 : 65000) : 128);
  mayRefuse = false;
}
inline std::vector<mc::Scenario> scenarios() {
  return {{"fields", fields}, {"timing", timing}, {"overlapped", overlapped}, {"together", together}, {"shapes", shapes}, {"keyframes", keyframesOf},
          {"timelines", timelines}, {"libraries", libraries}, {"blocks", blocks}, {"spatial", spatial}, {"far", far}, {"ids", ids}, {"counts", counts, false, 60}, {"pairs", pairs}};
}
} // namespace streams
