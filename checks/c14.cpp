// C14: every container of the document tree behaves as a plain list.
#include "doc.h"
#include "mc.h"
#include <climits>

namespace {
using doc::Av;
using doc::BandD;
using doc::Chan;
using doc::Dev;
using doc::Doc;
using doc::Eff;
using doc::Perc;
namespace ht = haptics::types;

template <class F> bool throws(F f) {
  try {
    f();
  } catch (const std::exception &) {
    return true;
  }
  return false;
}

// -- distinguishable items
Eff effect(int n, int pos = 0) {
  Eff e;
  e.pos = pos;
  e.id = n;
  e.kfs = {{n, 0.5F, n * 10}};
  return e;
}
BandD band(int n) {
  BandD b;
  b.type = n % 4;
  if (b.type == 1) b.curve = n % 5;
  if (b.type == 3) b.block = 16 << (n % 3);
  b.lo = n;
  b.hi = 100 + n;
  b.priority = n;
  b.effects = {effect(n, 0), effect(n + 1, 10)};
  return b;
}
Chan channel(int n) {
  Chan c;
  c.id = n;
  c.desc = "c" + std::to_string(n);
  c.gain = 0.5F * static_cast<float>(n);
  c.mix = 0.25F * static_cast<float>(n);
  c.mask = static_cast<uint32_t>(n) << 8;
  c.device = n + 1;
  c.priority = n;
  c.verts = {n, n + 1};
  c.fs = 8000 + n;
  c.samples = 100 + n;
  c.dir = doc::Vec{n, 0, 1};
  c.res = doc::Vec{n, n, n};
  c.parts = std::vector<int>{n % 8};
  c.targets = std::vector<doc::Vec>{{n, 1, 2}};
  c.bands = {band(n)};
  return c;
}
Dev device(int n) {
  Dev d;
  d.id = n;
  d.name = "d" + std::to_string(n);
  d.mask = static_cast<uint32_t>(n);
  for (int i = 0; i < 11; i++) d.f[i] = static_cast<float>(n + i);
  d.type = n % 5;
  return d;
}
Perc perception(int n) {
  Perc p;
  p.id = n;
  p.avatar = n + 2;
  p.desc = "p" + std::to_string(n);
  p.modality = n % 15;
  p.priority = n;
  p.scheme = "s" + std::to_string(n);
  p.unitExp = n % 8;
  p.percUnitExp = -(n % 8);
  p.devices = {device(n)};
  p.library = {effect(n)};
  p.channels = {channel(n)};
  return p;
}

Doc base() {
  Doc d;
  d.desc = "tree";
  d.avatars = {{1, 0, 1, std::nullopt}};
  d.percs = {perception(40), perception(50)};
  d.percs[0].channels = {channel(60), channel(70)};
  d.percs[0].channels[0].bands = {band(80), band(85)};
  d.syncs = {{5, 1000}};
  return d;
}

struct World {
  Doc m;
  ht::Haptics h;
  int next = 1;
};

void compare(mc::Run &r, const std::string &op, const Doc &m, ht::Haptics &h) {
  r.step();
  auto why = doc::difference(m, doc::fromHaptics(h));
  REQUIRE(r, why.empty(), op, "after " + op + ": " + why);
}

// An index inside or just outside the list.
int index(mc::Run &r, size_t size) {
  int n = static_cast<int>(size);
  int i = r.choose(n + 2) - 1;
  return i;
}

enum { PERC, CHAN, BAND, EFF, VERT, DEV, AV, SYNC, LIB, TIME, KINDS };

// One operation on one kind of container of the tree, on the model and on the code.
void operate(mc::Run &r, World &w, int kind) {
  int n = w.next++;
  auto &mp = w.m.percs;
  // the place in the tree: always the first perception, channel, band that exists
  auto inside = [&](int i, size_t size) { return i >= 0 && i < static_cast<int>(size); };
  auto result = [&](const std::string &op, bool got, bool want) {
    compare(r, op, w.m, w.h);
    REQUIRE(r, got == want, op + ":result", op + " returns " + (got ? "true" : "false"));
  };
  bool noChannel = mp.empty() || mp[0].channels.empty();
  bool noBand = noChannel || mp[0].channels[0].bands.empty();
  switch (kind) {
  case PERC: {
    int op = r.choose(5);
    int i = op >= 1 && op <= 3 ? index(r, mp.size()) : 0;
    bool ok = inside(i, mp.size());
    auto item = perception(n);
    auto real = doc::toPerception(item);
    if (op == 0) {
      mp.push_back(item);
      w.h.addPerception(real);
      compare(r, "addPerception", w.m, w.h);
    } else if (op == 1) {
      if (ok) mp[static_cast<size_t>(i)] = item;
      result("replacePerceptionAt", w.h.replacePerceptionAt(i, real), ok);
    } else if (op == 2) {
      if (ok) mp.erase(mp.begin() + i);
      result("removePerceptionAt", w.h.removePerceptionAt(i), ok);
    } else if (op == 3) { // the content of the perception stays
      if (ok) {
        item.channels = mp[static_cast<size_t>(i)].channels;
        mp[static_cast<size_t>(i)] = item;
      }
      result("replacePerceptionMetadataAt", w.h.replacePerceptionMetadataAt(i, real), ok);
    } else {
      int size = static_cast<int>(mp.size());
      bool said = throws([&] { (void)w.h.getPerceptionAt(-1); }) && throws([&] { (void)w.h.getPerceptionAt(size); });
      REQUIRE(r, said, "getPerceptionAt", "getPerceptionAt outside the list goes through");
      REQUIRE(r, w.h.getPerceptionsSize() == mp.size(), "getPerceptionsSize", "wrong size");
    }
    break;
  }
  case CHAN: {
    if (mp.empty()) return;
    auto &l = mp[0].channels;
    auto &p = w.h.getPerceptionAt(0);
    int op = r.choose(6);
    int i = op >= 1 && op <= 3 ? index(r, l.size()) : 0;
    bool ok = inside(i, l.size());
    auto item = channel(n);
    auto real = doc::toChannel(item);
    if (op == 0) {
      l.push_back(item);
      p.addChannel(real);
      compare(r, "addChannel", w.m, w.h);
    } else if (op == 1) {
      if (ok) l[static_cast<size_t>(i)] = item;
      result("replaceChannelAt", p.replaceChannelAt(i, real), ok);
    } else if (op == 2) {
      if (ok) l.erase(l.begin() + i);
      result("removeChannelAt", p.removeChannelAt(i), ok);
    } else if (op == 3) {
      if (ok) {
        item.bands = l[static_cast<size_t>(i)].bands;
        l[static_cast<size_t>(i)] = item;
      }
      result("replaceChannelMetadataAt", p.replaceChannelMetadataAt(i, real), ok);
    } else if (op == 4) {
      l.clear();
      p.clearChannels();
      compare(r, "clearChannels", w.m, w.h);
    } else {
      int size = static_cast<int>(l.size());
      bool said = throws([&] { (void)p.getChannelAt(-1); }) && throws([&] { (void)p.getChannelAt(size); });
      REQUIRE(r, said, "getChannelAt", "getChannelAt outside the list goes through");
    }
    break;
  }
  case BAND: {
    if (noChannel) return;
    auto &l = mp[0].channels[0].bands;
    auto &c = w.h.getPerceptionAt(0).getChannelAt(0);
    int op = r.choose(10);
    int i = op >= 1 && op <= 3 ? index(r, l.size()) : 0;
    bool ok = inside(i, l.size());
    auto item = band(n);
    auto real = doc::toBand(item);
    auto generated = [&](ht::Band *b, BandD want) {
      REQUIRE(r, b == &c.getBandAt(static_cast<int>(l.size())), "generateBand:pointer", "generateBand does not give the band it added");
      want.priority = n; // what is done through the pointer is done to the document
      b->setPriority(n);
      want.effects = {effect(n, 3)};
      auto e = doc::toEffect(want.effects[0]);
      b->addEffect(e);
      l.push_back(want);
      compare(r, "generateBand", w.m, w.h);
    };
    BandD want;
    want.lo = n;
    want.hi = n + 50;
    if (op == 0) {
      l.push_back(item);
      c.addBand(real);
      compare(r, "addBand", w.m, w.h);
    } else if (op == 1) {
      if (ok) l[static_cast<size_t>(i)] = item;
      result("replaceBandAt", c.replaceBandAt(i, real), ok);
    } else if (op == 2) {
      if (ok) l.erase(l.begin() + i);
      result("removeBandAt", c.removeBandAt(i), ok);
    } else if (op == 3) { // same kind of band, other limits
      if (ok) {
        auto &old = l[static_cast<size_t>(i)];
        item.type = old.type;
        item.curve = old.type == 1 ? doc::Opt<int>(n % 5) : std::nullopt;
        item.block = old.type == 3 ? doc::Opt<int>(16 << (n % 4)) : std::nullopt;
        item.effects = old.effects;
        if (old.type != 1) item.curve = old.curve;
        if (old.type != 3) item.block = old.block;
        old = item;
      }
      auto meta = doc::toBand(item);
      result("replaceBandMetadataAt", c.replaceBandMetadataAt(i, meta), ok);
    } else if (op == 4) {
      l.clear();
      c.clearBands();
      compare(r, "clearBands", w.m, w.h);
    } else if (op == 5) {
      ht::Band fresh;
      generated(c.generateBand(), doc::fromBand(fresh));
    } else if (op == 6) {
      want.type = n % 3;
      generated(c.generateBand(static_cast<ht::BandType>(want.type), want.lo, want.hi), want);
    } else if (op == 7) {
      want.type = 1;
      want.curve = n % 5;
      generated(c.generateBand(ht::BandType::Curve, static_cast<ht::CurveType>(*want.curve), want.lo, want.hi), want);
    } else if (op == 8) {
      want.type = 3;
      want.block = 32;
      generated(c.generateBand(ht::BandType::WaveletWave, 32, want.lo, want.hi), want);
    } else {
      int size = static_cast<int>(l.size());
      bool said = throws([&] { (void)c.getBandAt(-1); }) && throws([&] { (void)c.getBandAt(size); });
      REQUIRE(r, said, "getBandAt", "getBandAt outside the list goes through");
    }
    break;
  }
  case EFF: {
    if (noBand) return;
    auto &l = mp[0].channels[0].bands[0].effects;
    auto &b = w.h.getPerceptionAt(0).getChannelAt(0).getBandAt(0);
    int op = r.choose(4);
    int i = op >= 1 && op <= 2 ? index(r, l.size()) : 0;
    bool ok = inside(i, l.size());
    if (op == 0) { // in time order, equal times in the order they were added
      auto item = effect(n, r.choose(5) * 5 - 5);
      auto at = l.begin();
      while (at != l.end() && at->pos <= item.pos) at++;
      l.insert(at, item);
      auto real = doc::toEffect(item);
      b.addEffect(real);
      compare(r, "addEffect", w.m, w.h);
    } else if (op == 1) {
      auto item = effect(n, ok ? l[static_cast<size_t>(i)].pos : 0);
      if (ok) l[static_cast<size_t>(i)] = item;
      auto real = doc::toEffect(item);
      result("replaceEffectAt", b.replaceEffectAt(i, real), ok);
    } else if (op == 2) {
      if (ok) l.erase(l.begin() + i);
      result("removeEffectAt", b.removeEffectAt(i), ok);
    } else {
      int size = static_cast<int>(l.size());
      bool said = throws([&] { (void)b.getEffectAt(-1); }) && throws([&] { (void)b.getEffectAt(size); });
      REQUIRE(r, said, "getEffectAt", "getEffectAt outside the list goes through");
    }
    for (size_t k = 1; k < b.getEffectsSize(); k++)
      REQUIRE(r, b.getEffectAt(static_cast<int>(k) - 1).getPosition() <= b.getEffectAt(static_cast<int>(k)).getPosition(), "effect-order", "effects are out of time order");
    break;
  }
  case VERT: {
    if (noChannel) return;
    auto &l = mp[0].channels[0].verts;
    auto &c = w.h.getPerceptionAt(0).getChannelAt(0);
    int op = r.choose(3);
    if (op == 0) {
      int v = n * 100;
      l.push_back(v);
      c.addVertex(v);
      compare(r, "addVertex", w.m, w.h);
    } else if (op == 1) {
      l.clear();
      c.clearVertices();
      compare(r, "clearVertices", w.m, w.h);
    } else {
      int size = static_cast<int>(l.size());
      bool said = throws([&] { (void)c.getVertexAt(-1); }) && throws([&] { (void)c.getVertexAt(size); });
      REQUIRE(r, said, "getVertexAt", "getVertexAt outside the list goes through");
    }
    break;
  }
  case DEV: {
    if (mp.empty()) return;
    auto &p = w.h.getPerceptionAt(0);
    int op = r.choose(4);
    auto item = device(n);
    if (op == 0) {
      mp[0].devices.push_back(item);
      auto real = doc::toDevice(item);
      p.addReferenceDevice(real);
      compare(r, "addReferenceDevice", w.m, w.h);
    } else if (op == 1) {
      mp[0].devices.clear();
      p.clearReferenceDevices();
      compare(r, "clearReferenceDevices", w.m, w.h);
    } else if (op == 2) { // from a table of values
      item.mask = std::nullopt;
      item.f[n % 11] = std::nullopt;
      mp[0].devices.push_back(item);
      p.addReferenceDevice({{item.id, item.name, std::nullopt, item.f[0], item.f[1], item.f[2], item.f[3], item.f[4], item.f[5], item.f[6], item.f[7],
                             item.f[8], item.f[9], item.f[10], static_cast<ht::ActuatorType>(*item.type)}});
      compare(r, "addReferenceDevice:values", w.m, w.h);
    } else {
      int size = static_cast<int>(mp[0].devices.size());
      bool said = throws([&] { (void)p.getReferenceDeviceAt(-1); }) && throws([&] { (void)p.getReferenceDeviceAt(size); });
      REQUIRE(r, said, "getReferenceDeviceAt", "getReferenceDeviceAt outside the list goes through");
    }
    break;
  }
  case AV: {
    Av item{n, n + 1, n % 4, std::nullopt};
    if (r.flip()) item.mesh = "m" + std::to_string(n);
    w.m.avatars.push_back(item);
    ht::Avatar real(item.id, item.lod, static_cast<ht::AvatarType>(item.type));
    if (item.mesh) real.setMesh(*item.mesh);
    w.h.addAvatar(real);
    compare(r, "addAvatar", w.m, w.h);
    int size = static_cast<int>(w.m.avatars.size());
    bool said = throws([&] { (void)w.h.getAvatarAt(-1); }) && throws([&] { (void)w.h.getAvatarAt(size); });
    REQUIRE(r, said, "getAvatarAt", "getAvatarAt outside the list goes through");
    break;
  }
  case SYNC: {
    doc::SyncD item{n * 7 % 11, 100 * n};
    w.m.syncs.push_back(item);
    ht::Sync real(item.ts, item.timescale);
    w.h.addSync(real);
    compare(r, "addSync", w.m, w.h);
    int size = static_cast<int>(w.m.syncs.size());
    bool said = throws([&] { (void)w.h.getSyncsAt(-1); }) && throws([&] { (void)w.h.getSyncsAt(size); });
    REQUIRE(r, said, "getSyncsAt", "getSyncsAt outside the list goes through");
    break;
  }
  case LIB: {
    if (mp.empty()) return;
    auto &p = w.h.getPerceptionAt(0);
    int op = r.choose(4);
    if (op == 0) {
      auto item = effect(r.choose(3));
      item.kfs[0].freq = n;
      mp[0].library.push_back(item);
      auto real = doc::toEffect(item);
      p.addBasisEffect(real);
      compare(r, "addBasisEffect", w.m, w.h);
    } else if (op == 1) {
      mp[0].library.clear();
      p.clearEffectLibrary();
      compare(r, "clearEffectLibrary", w.m, w.h);
    } else if (op == 2) { // by id: the first with that id
      int id = r.choose(4);
      auto got = p.getEffectById(id);
      const Eff *want = nullptr;
      for (auto &e : mp[0].library)
        if (want == nullptr && e.id == id) want = &e;
      REQUIRE(r, got.has_value() == (want != nullptr), "getEffectById", "library lookup of " + std::to_string(id) + (got ? " finds something" : " finds nothing"));
      if (want != nullptr) {
        doc::Diff d;
        d.eff(*want, doc::fromEffect(*got));
        REQUIRE(r, d.why.empty(), "getEffectById", "library lookup: " + d.why);
      }
      compare(r, "getEffectById", w.m, w.h);
    } else {
      int size = static_cast<int>(mp[0].library.size());
      bool said = throws([&] { (void)p.getBasisEffectAt(-1); }) && throws([&] { (void)p.getBasisEffectAt(size); });
      REQUIRE(r, said, "getBasisEffectAt", "getBasisEffectAt outside the list goes through");
    }
    break;
  }
  case TIME: {
    if (noBand || mp[0].channels[0].bands[0].effects.empty()) return;
    auto &l = mp[0].channels[0].bands[0].effects[0].timeline;
    auto &e = w.h.getPerceptionAt(0).getChannelAt(0).getBandAt(0).getEffectAt(0);
    auto item = effect(n, r.choose(2) * 10);
    l.push_back(item);
    auto real = doc::toEffect(item);
    e.addTimelineEffect(real);
    compare(r, "addTimelineEffect", w.m, w.h);
    int size = static_cast<int>(l.size());
    bool said = throws([&] { (void)e.getTimelineEffectAt(-1); }) && throws([&] { (void)e.getTimelineEffectAt(size); });
    REQUIRE(r, said, "getTimelineEffectAt", "getTimelineEffectAt outside the list goes through");
    break;
  }
  default: break;
  }
}

// Every sequence of operations on one kind of container.
void lists(mc::Run &r) {
  int kind = r.choose(KINDS);
  bool small = r.flip();
  static const int depths[KINDS] = {4, 4, 3, 4, 6, 4, 4, 4, 5, 5};
  int depth = depths[kind] + (r.thorough() ? 1 : 0);
  World w;
  w.m = base();
  if (small) { // from empty lists
    w.m.percs.resize(1);
    w.m.percs[0] = Perc{};
    if (kind != CHAN && kind != PERC) w.m.percs[0].channels = {Chan{}};
    if (kind == EFF || kind == TIME) w.m.percs[0].channels[0].bands = {BandD{}};
    if (kind == TIME) w.m.percs[0].channels[0].bands[0].effects = {Eff{}};
    if (kind == PERC) w.m.percs.clear();
  }
  w.h = doc::toHaptics(w.m);
  for (int i = 0; i < depth; i++) {
    if (i == 2 && !r.go()) return;
    operate(r, w, kind);
  }
  r.describe([&] { return doc::dump(w.m); });
  r.state(doc::dump(w.m));
}

// Operations at different places of the tree, with a copy taken on the way.
void mixed(mc::Run &r) {
  World w;
  w.m = base();
  w.h = doc::toHaptics(w.m);
  int copyAt = r.choose(2);
  World c;
  int depth = r.thorough() ? 3 : 2;
  for (int i = 0; i < depth; i++) {
    int kind = r.choose(KINDS);
    if (i == 1 && !r.go()) return;
    if (i == copyAt) {
      c.m = w.m;
      c.h = w.h;
      c.next = 30;
    }
    bool onCopy = i >= copyAt && i > 0 && r.flip();
    operate(r, onCopy ? c : w, kind);
    if (i >= copyAt) {
      compare(r, "copy", c.m, c.h);
      compare(r, "original", w.m, w.h);
    }
  }
  r.describe([&] { return doc::dump(w.m); });
  r.state(doc::dump(w.m));
}

// Every order of adding effects to a band.
void arrival(mc::Run &r) {
  int n = r.thorough() ? 7 : 6;
  std::vector<int> at;
  for (int i = 0; i < n; i++) at.push_back(r.choose(4) * 4 - 4);
  if (!r.go()) return;
  ht::Band b;
  std::vector<Eff> want;
  for (int i = 0; i < n; i++) {
    auto e = effect(i, at[static_cast<size_t>(i)]);
    want.push_back(e);
    auto real = doc::toEffect(e);
    b.addEffect(real);
    r.step();
  }
  std::stable_sort(want.begin(), want.end(), [](const Eff &x, const Eff &y) { return x.pos < y.pos; });
  auto got = doc::fromBand(b).effects;
  std::string s;
  for (auto &e : got) s += " " + std::to_string(e.id) + "@" + std::to_string(e.pos);
  r.describe([&] { return s; });
  REQUIRE(r, got.size() == want.size(), "arrival", "effects lost:" + s);
  for (size_t i = 0; i < want.size(); i++) REQUIRE(r, got[i].id == want[i].id && got[i].pos == want[i].pos, "arrival", "wrong order:" + s);
  r.state(s);
}
} // namespace

int main(int argc, char **argv) {
  return mc::runMain(argc, argv, "C14", {{"lists", lists}, {"mixed", mixed}, {"arrival", arrival}});
}
