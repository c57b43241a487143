// C05: what a receiver has after any losses, late joins and repeated initialisation units is what the units it received describe.
#include "streams.h"
#include <IOHaptics/include/IOStream.h>
using namespace doc;
using namespace gen;
using haptics::io::IOStream;
using namespace mihs;

namespace {
struct Case {
  std::string name;
  Doc d;
  int pd;
};
std::vector<Case> cases() {
  std::vector<Case> all;
  auto add = [&](const std::string &n, Doc d, int pd) { all.push_back({n, std::move(d), pd}); };
  auto v = [](int at, std::vector<KF> k, int base = 0) { return vect(at, std::move(k), 0, base); };
  { // one effect over several packets, twice
    Doc d = lean();
    Eff e = v(5, {kf(0, 0.5F, 10), kf(12, 0.25F, 20), kf(25, 1.0F, 30)});
    Eff f = v(45, {kf(0, 1.0F, 11), kf(12, {}, 21)}, 3);
    e.semantic = "UX/Click";
    C(d).bands = {band(2, 0, 1000, {e, f})};
    d.syncs = {{20, 1000U}, {50, 1000U}};
    add("spanning", d, 10);
  }
  { // several kinds of bands over the same time, the same channel number in two perceptions, the second one first
    Doc d = lean();
    C(d).bands = {band(0, 0, 1000, {basis(0, {kf(0, 0.5F, 1), kf(25, 0.25F, 2)}), basis(30, {kf(0, 1.0F, 3)})}), band(1, 5, 500, {basis(12, {kf(0, 0.5F, {}), kf(30, 1.0F, {})})})};
    C(d).bands[1].curve = 2;
    Perc p = P(d);
    p.id = 7;
    Chan c;
    c.id = 9;
    c.bands = {band(2, 0, 1000, {v(3, {kf(0, 0.5F, 7)})})};
    Chan c2 = C(d);
    c2.desc = "second";
    c2.bands = {band(2, 1, 1001, {v(13, {kf(0, 0.5F, 7), kf(15, 0.5F, 8)}), ref(31, 3)})};
    p.channels = {c, c2};
    d.percs.push_back(p);
    d.syncs = {{20, 1000U}};
    add("bands", d, 10);
    add("bands-15", d, 15);
  }
  { // silences
    Doc d = lean();
    C(d).bands = {band(0, 0, 1000, {basis(30, {kf(0, 0.5F, 1), kf(40, 0.25F, 2)}), basis(125, {kf(0, 1.0F, 3)})})};
    d.syncs = {{30, 1000U}, {70, 1000U}, {120, 1000U}};
    add("silence", d, 10);
  }
  { // wavelet blocks next to an effect
    Doc d = lean();
    BandD b = band(3, 0, 1000, {});
    b.block = 16;
    for (int i = 0; i < 5; i++) b.effects.push_back(wave(16 * i, {static_cast<unsigned char>(i), 1}));
    C(d).bands = {b, band(2, 0, 1000, {v(20, {kf(0, 0.5F, 7), kf(30, 0.5F, 8)})})};
    d.syncs = {{32, 1000U}, {64, 1000U}};
    add("wavelet-32", d, 32);
    add("wavelet-16", d, 16);
    add("wavelet-24", d, 24);
  }
  { // all the metadata there is
    Doc d = rich();
    for (auto &p : d.percs)
      for (auto &c : p.channels)
        for (auto &b : c.bands) {
          for (auto &e : b.effects)
            if (e.type == 2) {
              e.pos = 0;
              for (auto &t : e.timeline) t.pos += 40;
            }
          std::stable_sort(b.effects.begin(), b.effects.end(), [](const Eff &x, const Eff &y) { return x.pos < y.pos; });
        }
    d.syncs = {{0, d.timescale}, {128, d.timescale}};
    add("metadata", d, 128);
    for (auto &p : d.percs) {
      p.scheme.reset();
      p.priority = 4;
      for (auto &c : p.channels) {
        c.res = Vec{2, 3, 1};
        c.parts = std::vector<int>{1, 2};
        c.targets = std::vector<Vec>{{0, 1, 2}};
        c.mask = 0;
        c.priority = 5;
        for (auto &b : c.bands) b.priority = 6;
      }
    }
    add("metadata-2", d, 128);
  }
  { // a texture
    Doc d = lean();
    P(d).modality = static_cast<int>(ht::PerceptionModality::VibrotactileTexture);
    C(d).bands = {band(2, 0, 1000, {v(0, {kf(0, 0.5F, 7), kf(300, 0.5F, 8)}), ref(310, 2)})};
    Perc p;
    p.id = 1;
    Chan c;
    c.bands = {band(0, 0, 1000, {basis(5, {kf(0, 0.5F, 1), kf(20, 0.25F, 2)})})};
    p.channels = {c};
    d.percs.push_back(p);
    d.syncs = {{10, 1000U}, {20, 1000U}};
    add("texture", d, 10);
  }
  return all;
}
// The content of a document between two instants.
Doc between(Doc d, int64_t from, int64_t to) {
  for (auto &p : d.percs) {
    const bool s = spatial(p);
    for (auto &c : p.channels)
      for (auto &b : c.bands) {
        std::vector<Eff> keep;
        for (auto e : b.effects) {
          auto in = [&](int64_t t) { return s ? from <= 0 && to > 0 : t >= from && t < to; };
          if (e.type != 0 || b.type == 3) {
            if (!in(e.pos)) continue;
          } else {
            std::vector<KF> k;
            for (auto &x : e.kfs)
              if (in(e.pos + *x.pos)) k.push_back(x);
            if (k.empty()) continue;
            e.kfs = k;
          }
          keep.push_back(e);
        }
        b.effects = keep;
      }
  }
  return d;
}
void same(mc::Run &r, Doc want, Doc got, const char *key, const std::string &in) {
  want.syncs.clear();
  got.syncs.clear();
  const auto why = difference(want, got, TOL);
  REQUIRE(r, why.empty(), key, why + in);
}
void noIds(Doc &d) {
  for (auto &p : d.percs)
    for (auto &c : p.channels)
      for (auto &b : c.bands)
        for (auto &e : b.effects)
          if (e.type == 0) e.id = -1;
}
void lose(mc::Run &r, const Case &k, bool waiting) {
  auto h = toHaptics(k.d);
  Units raw;
  REQUIRE(r, IOStream::writeUnits(h, raw, k.pd), "write", "writing failed: " + dump(k.d));
  std::vector<Unit> units;
  try {
    for (auto &u : raw) units.push_back(parse(u));
  } catch (const Broken &b) {
    r.fail("stream", std::string(b.what()) + " in the stream of " + dump(k.d));
  }
  auto reader = IOStream::initializeStream();
  reader.waitSync = waiting;
  IOStream::CRC crc;
  Receiver model;
  model.waiting = waiting;
  std::string got; // per unit: how many times it was received
  std::vector<int64_t> starts;
  int64_t t = 0;
  for (size_t i = 0; i < units.size(); i++) {
    int times;
    if (units[i].type == INIT) times = r.choose(r.thorough() ? 4 : 3);
    else times = r.choose(2);
    got += static_cast<char>('0' + times);
    starts.push_back(t);
    t += units[i].duration;
    for (int j = 0; j < times; j++) {
      IOStream::readMIHSUnit(raw[i], reader, crc); // a unit it can make nothing of may be refused
      r.step();
      try {
        model.apply(units[i]);
      } catch (const Broken &b) {
        r.fail("stream", std::string(b.what()) + " in the stream of " + dump(k.d));
      }
    }
  }
  starts.push_back(t);
  const std::string in = " after receiving the units " + got + (waiting ? " (waiting for synchronisation)" : "") + ", packets of " + std::to_string(k.pd) + ", of " + dump(k.d);
  r.describe([&] { return in; });
  if (model.d.percs.empty()) return; // it never learned what the stream is about
  auto mine = fromHaptics(reader.haptic);
  mine.timescale = reader.timescale;
  r.state(mc::hashStr(k.name + dump(mine)));
  same(r, model.result(), mine, "differs", in);
  REQUIRE(r, reader.waitSync == model.waiting, "waiting", std::string("the receiver is ") + (reader.waitSync ? "still" : "no longer") + " waiting" + in);
  REQUIRE(r, static_cast<uint64_t>(reader.time) == model.time, "time", "the receiver's time is " + std::to_string(reader.time) + ", expected " + std::to_string(model.time) + in);
  // without the receiver's model: an unbroken run of units that starts with an initialisation unit gives the content of its time
  size_t a = 0, z = got.size();
  while (a < z && got[a] == '0') a++;
  while (z > a && got[z - 1] == '0') z--;
  if (a < z && !waiting && units[a].type == INIT && got.substr(a, z - a).find('0') == std::string::npos) {
    auto want = between(carried(k.d), starts[a], starts[z]);
    // An initialisation unit that is not the first one comes before the unit that starts at the same time
    noIds(want);
    noIds(mine);
    same(r, want, mine, "window-differs", in);
  }
}
void losses(mc::Run &r) {
  static const auto all = cases();
  auto &k = all[r.choose(static_cast<int>(all.size()))];
  const bool waiting = r.flip();
  if (!r.go()) return;
  r.tag(k.name + (waiting ? "-waiting" : ""));
  lose(r, k, waiting);
}
// Two effects of a band anywhere on a grid, a synchronisation point or none.
void grid(mc::Run &r) {
  static const std::vector<int> at = {0, 5, 10, 22};
  static const std::vector<int> len = {-1, 0, 6, 10, 21};
  const int kind = r.choose(3);
  const bool waiting = r.flip();
  const int a = r.pick(at), b = r.pick(at);
  if (!r.go()) return;
  if (a >= b) return;
  r.tag("grid");
  Case k;
  k.pd = r.thorough() && r.flip() ? 7 : 10;
  k.d = lean();
  auto effect = [&](int pos) {
    const int l = r.pick(len);
    if (l < 0) return ref(pos, 3);
    std::vector<KF> f = {kf(0, 0.5F, kind == 1 ? Opt<int>() : Opt<int>(10))};
    if (l > 0) f.push_back(kf(l, 0.25F, kind == 1 ? Opt<int>() : Opt<int>(20)));
    return kind == 2 ? vect(pos, f, 0, 1) : basis(pos, f);
  };
  C(k.d).bands = {band(kind, 0, 1000, {effect(a), effect(b)})};
  if (r.flip()) k.d.syncs = {{10, 1000U}};
  lose(r, k, waiting);
}
// A later initialisation unit that says something else is believed.
void updated(mc::Run &r, Doc a, Doc b, const std::string &how);
// What a band is: any kind after any other.
void bands(mc::Run &r) {
  const int from = r.choose(9), to = r.choose(9), limits = r.choose(4);
  if (!r.go()) return;
  auto of = [&](int k, int lo, int hi) {
    Doc d = lean();
    BandD b = band(k < 1 ? 0 : k < 6 ? 1 : k < 7 ? 2 : 3, lo, hi, {ref(5, 4)});
    if (b.type == 1) b.curve = k - 1;
    if (b.type == 3) b.block = k == 7 ? 16 : 64;
    C(d).bands = {b};
    return d;
  };
  updated(r, of(from, 0, 1000), of(to, limits & 1 ? 20 : 0, limits & 2 ? 300 : 1000), "band");
}
void updates(mc::Run &r) {
  static const auto all = tweaksFor(M);
  const int base = r.choose(2);
  const auto &t = all[static_cast<size_t>(r.choose(static_cast<int>(all.size())))];
  const bool back = r.flip();
  if (!r.go()) return;
  Doc a = base ? rich() : lean(), b = a;
  apply(b, {&t});
  auto shape = [](const Doc &d) {
    std::string s;
    for (auto &p : d.percs) {
      s += "p" + std::to_string(p.id);
      for (auto &c : p.channels) {
        s += "c" + std::to_string(c.id);
        for (auto &x : c.bands) s += "be" + std::to_string(x.effects.size());
      }
    }
    return s;
  };
  if (shape(a) != shape(b)) return;
  if (back) std::swap(a, b);
  updated(r, a, b, t.name);
}
void updated(mc::Run &r, Doc a, Doc b, const std::string &how) {
  auto units = [](const Doc &d, Units &u) {
    auto h = toHaptics(d);
    return IOStream::writeUnits(h, u, 128) && !u.empty();
  };
  Units ua, ub;
  if (!units(a, ua) || !units(b, ub)) return;
  const std::string in = " after the initialisation units of " + dump(a) + " and of " + dump(b) + " (" + how + ")";
  r.describe([&] { return in; });
  auto one = IOStream::initializeStream(), both = IOStream::initializeStream();
  IOStream::CRC crc;
  IOStream::readMIHSUnit(ub[0], one, crc);
  IOStream::readMIHSUnit(ua[0], both, crc);
  IOStream::readMIHSUnit(ub[0], both, crc);
  r.step(3);
  auto want = fromHaptics(one.haptic), got = fromHaptics(both.haptic);
  want.timescale = one.timescale;
  got.timescale = both.timescale;
  r.state(mc::hashStr(dump(want)));
  // (whether a value that is no longer there, or an avatar, stays is left open)
  std::vector<Av> still;
  for (auto &w : want.avatars)
    for (auto &g : got.avatars)
      if (g.id == w.id) still.push_back(g);
  got.avatars = still;
  for (size_t i = 0; i < want.percs.size() && i < got.percs.size(); i++) {
    auto &w = want.percs[i];
    auto &g = got.percs[i];
    if (!w.priority) g.priority.reset();
    if (!w.scheme) g.scheme.reset();
    for (size_t j = 0; j < w.channels.size() && j < g.channels.size(); j++) {
      auto &wc = w.channels[j];
      auto &gc = g.channels[j];
      if (!wc.priority) gc.priority.reset();
      if (!wc.device) gc.device.reset();
      for (size_t k = 0; k < wc.bands.size() && k < gc.bands.size(); k++) {
        if (!wc.bands[k].priority) gc.bands[k].priority.reset();
        if (!wc.bands[k].curve) gc.bands[k].curve.reset();
        if (!wc.bands[k].block) gc.bands[k].block.reset();
      }
    }
  }
  same(r, want, got, "update", in);
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C05", {{"losses", losses}, {"grid", grid}, {"updates", updates}, {"bands", bands}});
}
