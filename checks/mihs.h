// The stream format, written down independently of the code: a strict parser of units and packets, the receiver the
// format describes, and what a document becomes when it is streamed.
#pragma once
#include "gen.h"
#include <algorithm>
#include <map>
#include <tuple>

namespace mihs {
using namespace doc;
using Bits = std::vector<bool>;
using Units = std::vector<Bits>;
enum { TIMING, HAPTICS, PERCEPTION, CHANNEL, BAND, DATA, LIBRARY, CRC32, CRC16, GCRC16, GCRC32, INITTIMING };
enum { INIT, TEMPORAL, SPATIAL, SILENT };

struct Broken : std::runtime_error {
  using std::runtime_error::runtime_error;
};
class In {
public:
  In(const Bits &b, size_t from, size_t to) : bits(b), p(from), end(to) {}
  uint64_t u(int n) {
    if (p + static_cast<size_t>(n) > end) throw Broken("a field runs past the end of its packet");
    uint64_t v = 0;
    for (int i = 0; i < n; i++) v = v << 1 | (bits[p++] ? 1 : 0);
    return v;
  }
  int i(int n) { return static_cast<int>(u(n)); }
  int s(int n) {
    int64_t v = static_cast<int64_t>(u(n));
    if (v >> (n - 1)) v -= int64_t(1) << n;
    return static_cast<int>(v);
  }
  float f(int n, double lo, double hi) { return static_cast<float>(lo + static_cast<double>(u(n)) / (std::pow(2.0, n) - 1) * (hi - lo)); }
  std::string text() {
    std::string t;
    int n = i(8);
    while (n-- > 0) t += static_cast<char>(u(8));
    return t;
  }
  size_t left() const { return end - p; }
  size_t at() const { return p; }

private:
  const Bits &bits;
  size_t p, end;
};
struct Packet {
  int type = 0;
  size_t from = 0, to = 0; // payload, in the bits of its unit
};
struct Unit {
  int type = 0, sync = 0, layer = 0, duration = 0;
  Bits bits;
  std::vector<Packet> packets;
};
// Throws Broken when the lengths do not tile the unit.
inline Unit parse(const Bits &b) {
  Unit u;
  u.bits = b;
  In in(u.bits, 0, u.bits.size());
  u.type = in.i(6);
  u.sync = in.i(2);
  u.layer = in.i(4);
  u.duration = in.i(24);
  const uint64_t length = in.u(32);
  if (in.u(4) != 0) throw Broken("reserved bits of a unit are set");
  if (in.left() != length * 8)
    throw Broken("a unit says it has " + std::to_string(length) + " bytes of packets and has " + std::to_string(in.left()) + " bits");
  while (in.left() > 0) {
    Packet p;
    p.type = in.i(6);
    const uint64_t n = in.u(17) * 8;
    if (in.u(1) != 0) throw Broken("the reserved bit of a packet is set");
    if (n > in.left()) throw Broken("a packet of type " + std::to_string(p.type) + " says it has " + std::to_string(n) + " bits, there are " + std::to_string(in.left()));
    p.from = in.at();
    p.to = p.from + n;
    for (uint64_t i = 0; i < n; i++) in.u(1);
    u.packets.push_back(p);
  }
  return u;
}
inline void padding(In &in) {
  if (in.left() >= 8) throw Broken(std::to_string(in.left()) + " bits are left over in a packet");
  while (in.left() > 0)
    if (in.u(1)) throw Broken("padding bits are set");
}
inline Opt<std::string> semantic(In &in) {
  if (!in.u(1)) return {};
  const int code = in.i(12);
  for (auto &w : ht::stringToEffectSemantic)
    if (static_cast<int>(w.second) == code) return w.first;
  throw Broken("unknown semantic code");
}
struct Timing {
  uint64_t time = 0;
  unsigned timescale = 0;
};
inline Timing initTiming(In in) {
  Timing t;
  t.time = in.u(32);
  t.timescale = static_cast<unsigned>(in.u(32));
  in.u(24);
  in.u(24);
  in.u(1);
  padding(in);
  return t;
}
inline Dev device(In &in) {
  Dev v;
  v.id = in.i(8);
  v.name = in.text();
  v.mask = static_cast<uint32_t>(in.u(32));
  const int m = in.i(12);
  for (int i = 0; i < 11; i++)
    if (m >> (11 - i) & 1) v.f[i] = in.f(32, i == 10 ? -10000 : 0, 10000);
  if (m & 1) v.type = in.i(4);
  return v;
}
inline Eff libraryEffect(In &in, int depth = 0) {
  if (depth > 100) throw Broken("nested too deep");
  Eff e;
  e.id = in.i(16);
  e.type = in.i(2);
  e.semantic = semantic(in);
  e.pos = in.i(25);
  if (e.type == 0) {
    e.phase = in.f(16, 0, 6.28318);
    e.base = in.i(4);
  }
  int n = in.i(16);
  while (n-- > 0) {
    KF k;
    const int m = in.i(3);
    if (m & 1) k.pos = in.i(16);
    if (m & 2) k.amp = in.f(8, -1, 1);
    if (m & 4) k.freq = in.i(16);
    e.kfs.push_back(k);
  }
  n = in.i(16);
  while (n-- > 0) e.timeline.push_back(libraryEffect(in, depth + 1));
  return e;
}
struct Data {
  bool independent = false;
  int perception = 0, channel = 0, band = 0;
  std::vector<Eff> effects; // positions relative to the unit
};
struct Ids {
  int perception = 0, channel = 0, band = 0;
};
inline Data data(In in, int kind) {
  Data d;
  d.independent = in.u(1) == 0;
  d.perception = in.i(8);
  d.channel = in.i(16);
  d.band = in.i(8);
  if (kind < 0) return d;
  int n = in.i(16);
  while (n-- > 0) {
    Eff e;
    e.id = in.i(16);
    e.type = in.i(2);
    if (kind == 3) {
      e.semantic = semantic(in);
      int m = in.i(16);
      while (m-- > 0) e.wave.push_back(static_cast<unsigned char>(in.u(8)));
    } else {
      e.pos = in.s(25);
      if (e.type == 0) {
        e.semantic = semantic(in);
        int m = in.i(16);
        if (kind == 2) {
          e.phase = in.f(16, 0, 6.28318);
          e.base = in.i(4);
        }
        while (m-- > 0) {
          KF k;
          if (kind == 2) {
            const int mask = in.i(2);
            if (mask & 1) k.amp = in.f(8, -1, 1);
            k.pos = in.i(16);
            if (mask & 2) k.freq = in.i(16);
          } else {
            k.amp = in.f(8, -1, 1);
            k.pos = in.i(16);
            if (kind == 0) k.freq = in.i(16);
          }
          e.kfs.push_back(k);
        }
      }
    }
    d.effects.push_back(e);
  }
  padding(in);
  return d;
}

// The receiver the format describes.
struct Receiver {
  Doc d;
  uint64_t time = 0;
  bool waiting = false;
  unsigned timescale = 1000;
  struct Slot {
    int p, c, b;
  };
  std::map<std::tuple<int, int, int>, Slot> bands; // ids wrap around in large documents: unique in a channel only
  Receiver() {
    d.version = d.profile = d.date = "";
    d.level = 0;
    d.timescale = 1000;
  }
  int perc(int id) const {
    for (size_t i = 0; i < d.percs.size(); i++)
      if (d.percs[i].id == id) return static_cast<int>(i);
    return -1;
  }
  int chan(int p, int id) const {
    for (size_t i = 0; i < d.percs[p].channels.size(); i++)
      if (d.percs[p].channels[i].id == id) return static_cast<int>(i);
    return -1;
  }
  void apply(const Unit &u) {
    if (u.sync == 0) waiting = false;
    for (auto &p : u.packets) packet(u, p);
    time += static_cast<uint64_t>(u.duration);
  }
  void packet(const Unit &u, const Packet &p) {
    In in(u.bits, p.from, p.to);
    switch (p.type) {
    case INITTIMING: {
      auto t = initTiming(in);
      time = t.time;
      timescale = t.timescale;
      d.syncs.push_back({static_cast<int>(t.time), t.timescale});
      return;
    }
    case HAPTICS: {
      d.version = in.text();
      d.profile = in.text();
      d.level = in.i(8);
      d.date = in.text();
      d.desc = in.text();
      in.u(8);
      int n = in.i(8);
      std::vector<Av> avatars;
      while (n-- > 0) {
        Av a;
        a.id = in.i(8);
        a.lod = in.i(8);
        a.type = in.i(8);
        if (a.type == 0) a.mesh = in.text();
        avatars.push_back(a);
      }
      d.avatars = avatars;
      padding(in);
      return;
    }
    case PERCEPTION: {
      Perc q;
      q.id = in.i(8);
      if (int v = in.i(8)) q.priority = v;
      q.desc = in.text();
      q.modality = in.i(8);
      q.avatar = in.i(8);
      in.u(16);
      if (in.u(1)) q.scheme = in.text();
      q.unitExp = in.s(8);
      q.percUnitExp = in.s(8);
      int n = in.i(8);
      while (n-- > 0) q.devices.push_back(device(in));
      in.u(16);
      padding(in);
      int at = perc(q.id);
      if (at < 0) d.percs.push_back(q);
      else {
        q.channels = d.percs[at].channels;
        d.percs[at] = q; // its library follows
      }
      return;
    }
    case LIBRARY: {
      int at = perc(in.i(8));
      int n = in.i(16);
      std::vector<Eff> lib;
      while (n-- > 0) lib.push_back(libraryEffect(in));
      padding(in);
      if (at >= 0) d.percs[at].library = lib;
      return;
    }
    case CHANNEL: {
      Chan c;
      c.id = in.i(16);
      int at = perc(in.i(8));
      if (int v = in.i(8)) c.priority = v;
      c.desc = in.text();
      if (int v = in.i(8); v != 255) c.device = v;
      c.gain = in.f(32, -10000, 10000);
      c.mix = in.f(32, 0, 10000);
      const int m = in.i(8);
      auto vec = [&] {
        Vec v;
        v.x = in.s(8);
        v.y = in.s(8);
        v.z = in.s(8);
        return v;
      };
      if (m & 1) c.mask = static_cast<uint32_t>(in.u(32));
      else if (m & 2) {
        c.res = vec();
        c.parts.emplace();
        int n = in.i(8);
        while (n-- > 0) c.parts->push_back(in.i(8));
        c.targets.emplace();
        n = in.i(8);
        while (n-- > 0) c.targets->push_back(vec());
      }
      if (auto v = static_cast<uint32_t>(in.u(32))) {
        c.fs = v;
        c.samples = static_cast<uint32_t>(in.u(32));
      }
      if (m & 4) c.dir = vec();
      int n = in.i(16);
      while (n-- > 0) c.verts.push_back(static_cast<int>(in.u(32)));
      in.u(8);
      padding(in);
      if (at < 0) return;
      int to = chan(at, c.id);
      if (to < 0) d.percs[at].channels.push_back(c);
      else {
        c.bands = d.percs[at].channels[to].bands;
        d.percs[at].channels[to] = c;
      }
      return;
    }
    case BAND: {
      BandD b;
      const int bid = in.i(8);
      const int pid = in.i(8);
      const int at = perc(pid);
      const int cid = in.i(16);
      const auto id = std::make_tuple(pid, cid, bid);
      if (int v = in.i(8)) b.priority = v;
      b.type = in.i(3);
      if (b.type == 1) b.curve = in.i(4);
      if (b.type == 3) b.block = in.i(8);
      b.lo = in.i(16);
      b.hi = in.i(16);
      in.u(16);
      padding(in);
      const int to = at < 0 ? -1 : chan(at, cid);
      if (to < 0) return;
      auto &list = d.percs[at].channels[to].bands;
      if (bands.count(id)) {
        auto &old = d.percs[bands[id].p].channels[bands[id].c].bands[bands[id].b];
        b.effects = old.effects;
        old = b;
      } else {
        list.push_back(b);
        bands[id] = {at, to, static_cast<int>(list.size()) - 1};
      }
      return;
    }
    case DATA: {
      auto ids = data(in, -1);
      if (waiting && !ids.independent) return;
      waiting = false;
      const auto id = std::make_tuple(ids.perception, ids.channel, ids.band);
      if (!bands.count(id)) return; // nothing is known of this band yet
      auto &b = d.percs[bands[id].p].channels[bands[id].c].bands[bands[id].b];
      auto x = data(in, b.type);
      uint64_t next = b.type == 3 ? (time + *b.block - 1) / *b.block * *b.block : 0;
      for (auto &e : x.effects) {
        if (b.type == 3) {
          if (!b.effects.empty()) next = std::max<uint64_t>(next, static_cast<uint64_t>(b.effects.back().pos + *b.block));
          e.pos = static_cast<int>(next);
          next += *b.block;
        } else e.pos += static_cast<int>(time);
        bool known = false;
        if (e.type == 0 && b.type != 3)
          for (auto &o : b.effects)
            if (o.type == 0 && o.id == e.id) {
              o.kfs.insert(o.kfs.end(), e.kfs.begin(), e.kfs.end());
              known = true;
              break;
            }
        if (!known) {
          auto it = b.effects.end();
          while (it != b.effects.begin() && (it - 1)->pos > e.pos) --it;
          b.effects.insert(it, e);
        }
      }
      return;
    }
    default: throw Broken("unexpected packet of type " + std::to_string(p.type));
    }
  }
  Doc result() const {
    Doc r = d;
    r.timescale = timescale;
    return r;
  }
};

// What a document becomes when it is streamed (identifiers the stream gives to effects that have none: -1).
inline void flatten(const std::vector<Eff> &in, std::vector<Eff> &out) {
  for (auto &e : in)
    if (e.type == 2) flatten(e.timeline, out);
    else out.push_back(e);
}
inline bool spatial(const Perc &p) {
  static const int vt = static_cast<int>(ht::PerceptionModality::VibrotactileTexture), st = static_cast<int>(ht::PerceptionModality::Stiffness),
                   fr = static_cast<int>(ht::PerceptionModality::Friction);
  return p.modality == vt || p.modality == st || p.modality == fr;
}
inline Doc carried(Doc d) {
  d.timescale = d.timescale.value_or(1000);
  for (auto &a : d.avatars)
    if (a.type == 0) a.mesh = a.mesh.value_or("");
    else a.mesh.reset();
  std::vector<Perc> percs;
  for (auto &p : d.percs) {
    if (p.priority && *p.priority == 0) p.priority.reset();
    p.unitExp = p.unitExp.value_or(-3);
    p.percUnitExp = p.percUnitExp.value_or(0);
    for (auto &v : p.devices) v.mask = v.mask.value_or(0);
    std::function<void(Eff &)> lib = [&](Eff &e) {
      if (e.type == 0) {
        e.phase = e.phase.value_or(0.0F);
        e.base = e.base.value_or(0);
      } else {
        e.phase.reset();
        e.base.reset();
      }
      for (auto &t : e.timeline) lib(t);
    };
    for (auto &e : p.library) lib(e);
    std::vector<Chan> chans;
    for (auto &c : p.channels) {
      if (c.priority && *c.priority == 0) c.priority.reset();
      if (!c.fs || *c.fs == 0) {
        c.fs.reset();
        c.samples.reset();
      } else c.samples = c.samples.value_or(0);
      if (c.res) {
        c.mask = 0;
        if (!c.parts) c.parts.emplace();
        if (!c.targets) c.targets.emplace();
      } else {
        c.parts.reset();
        c.targets.reset();
      }
      std::vector<BandD> bands;
      for (auto &b : c.bands) {
        if (b.priority && *b.priority == 0) b.priority.reset();
        if (b.type == 1) b.curve = b.curve.value_or(0);
        else b.curve.reset();
        if (b.type != 3) b.block.reset();
        std::vector<Eff> flat, keep;
        flatten(b.effects, flat);
        std::stable_sort(flat.begin(), flat.end(), [](const Eff &x, const Eff &y) { return x.pos < y.pos; });
        for (auto &e : flat) {
          Eff x;
          x.pos = e.pos;
          x.id = e.id;
          x.type = e.type;
          if (e.type == 0) {
            x.semantic = e.semantic;
            if (b.type == 3) x.wave = e.wave;
            else {
              if (e.kfs.empty()) continue;
              x.kfs = e.kfs;
              for (auto &k : x.kfs) {
                k.pos = k.pos.value_or(0);
                if (b.type < 2) k.amp = k.amp.value_or(0.0F);
                if (b.type == 0) k.freq = k.freq.value_or(0);
                if (b.type == 1) k.freq.reset();
              }
              if (b.type == 2) {
                x.phase = e.phase.value_or(0.0F);
                x.base = e.base.value_or(0);
              }
            }
          }
          keep.push_back(x);
        }
        // only basis effects without keyframes count as nothing: a band of references or (even empty) composites is kept
        const bool content = std::any_of(b.effects.begin(), b.effects.end(), [&](const Eff &e) { return b.type == 3 || e.type != 0 || !e.kfs.empty(); });
        b.effects = keep;
        if (content) bands.push_back(b);
      }
      c.bands = bands;
      if (!c.bands.empty()) chans.push_back(c);
    }
    p.channels = chans;
    if (!p.channels.empty()) percs.push_back(p);
  }
  d.percs = percs;
  return d;
}
// Effects without identifier get one: forget those where the original has none.
inline void forgetIds(const Doc &like, Doc &d) {
  for (size_t p = 0; p < std::min(like.percs.size(), d.percs.size()); p++)
    for (size_t c = 0; c < std::min(like.percs[p].channels.size(), d.percs[p].channels.size()); c++)
      for (size_t b = 0; b < std::min(like.percs[p].channels[c].bands.size(), d.percs[p].channels[c].bands.size()); b++) {
        auto &x = like.percs[p].channels[c].bands[b].effects;
        auto &y = d.percs[p].channels[c].bands[b].effects;
        for (size_t e = 0; e < std::min(x.size(), y.size()); e++)
          if (x[e].id == -1) y[e].id = -1;
      }
}
const Tol TOL = {1.0 / 255 + 1e-6, 6.28319 / 65535, 0.0025};
} // namespace mihs
