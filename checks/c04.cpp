// C04: the units of a stream tile the timeline, every length is right, every packet lies in its unit's window.
#include "streams.h"
#include <IOHaptics/include/IOStream.h>
#include <set>
using namespace doc;
using namespace gen;
using haptics::io::IOStream;
using namespace mihs;

namespace {
Bits payload(const Unit &u, const Packet &p) {
  return Bits(u.bits.begin() + static_cast<long>(p.from), u.bits.begin() + static_cast<long>(p.to));
}
void check(mc::Run &r, const Doc &d, int pd, bool file) {
  r.describe([&] { return "packets of " + std::to_string(pd) + ": " + dump(d); });
  auto want = carried(d);
  auto h = toHaptics(d);
  Units raw;
  const bool written = IOStream::writeUnits(h, raw, pd);
  if (!written && streams::mayRefuse) return r.step();
  REQUIRE(r, written, "write", "writing failed: " + dump(d));
  r.step();
  std::vector<Unit> units;
  const std::string in = " with packets of " + std::to_string(pd) + " in " + dump(d);
  try {
    for (auto &u : raw) units.push_back(parse(u));
  } catch (const Broken &b) {
    r.fail("lengths", b.what() + in);
  }
  REQUIRE(r, !units.empty() && units[0].type == INIT, "starts", "the stream does not start with an initialisation unit" + in);
  // bands by number, in the order of the document
  struct Which {
    const Perc *p;
    const Chan *c;
    const BandD *b;
  };
  std::vector<Which> bands;
  size_t channels = 0, libraries = 0;
  for (auto &p : want.percs) {
    libraries += p.library.empty() ? 0 : 1;
    for (auto &c : p.channels) {
      channels++;
      for (auto &b : c.bands) bands.push_back({&p, &c, &b});
    }
  }
  int64_t lastEvent = -1;
  for (auto &w : bands)
    for (auto &e : w.b->effects) {
      if (spatial(*w.p)) {
        lastEvent = std::max<int64_t>(lastEvent, 0);
        continue;
      }
      if (e.type != 0 || w.b->type == 3) lastEvent = std::max<int64_t>(lastEvent, e.pos);
      for (auto &k : e.kfs) lastEvent = std::max<int64_t>(lastEvent, e.pos + *k.pos);
    }
  int64_t t = 0;
  std::vector<Bits> metadata;
  std::set<int64_t> borders, synced;
  std::map<std::pair<int, int>, int> begun; // band, effect -> seen
  std::map<int, int64_t> blocks;            // band -> end of its last block
  bool wasSilent = false;
  for (size_t i = 0; i < units.size(); i++) {
    auto &u = units[i];
    const std::string at = " (unit " + std::to_string(i) + " at " + std::to_string(t) + ")" + in;
    r.state(mc::hashStr(std::to_string(u.type) + "/" + std::to_string(u.sync) + "/" + std::to_string(u.duration) + "/" + std::to_string(u.packets.size())));
    REQUIRE(r, u.sync < 2, "sync-flag", "undefined sync flag" + at);
    borders.insert(t);
    try {
      switch (u.type) {
      case INIT: {
        REQUIRE(r, u.duration == 0 && u.sync == 0, "init", "an initialisation unit with a duration or no synchronisation point" + at);
        REQUIRE(r, !u.packets.empty() && u.packets[0].type == INITTIMING, "init", "an initialisation unit does not start with its timing" + at);
        const auto tm = initTiming(In(u.bits, u.packets[0].from, u.packets[0].to));
        REQUIRE(r, static_cast<int64_t>(tm.time) == t && tm.timescale == d.timescale.value_or(1000), "init-time",
                "the initialisation unit says it is at " + std::to_string(tm.time) + "/" + std::to_string(tm.timescale) + at);
        std::vector<Bits> m;
        std::map<int, size_t> count;
        for (size_t k = 1; k < u.packets.size(); k++) {
          m.push_back(payload(u, u.packets[k]));
          count[u.packets[k].type]++;
        }
        REQUIRE(r, count[HAPTICS] == 1 && count[PERCEPTION] == want.percs.size() && count[CHANNEL] == channels && count[BAND] == bands.size() && count[LIBRARY] == libraries &&
                       m.size() == 1 + want.percs.size() + channels + bands.size() + libraries,
                "metadata", "an initialisation unit does not hold all of the metadata once" + at);
        if (i == 0) metadata = m;
        REQUIRE(r, m == metadata, "metadata", "a later initialisation unit differs from the first" + at);
        synced.insert(t);
        break;
      }
      case SILENT:
        REQUIRE(r, u.packets.empty(), "silent", "a silent unit has packets" + at);
        REQUIRE(r, u.duration > 0 && u.duration % pd == 0, "silent", "a silence of " + std::to_string(u.duration) + at);
        // a silence is taken apart only if its duration field ends
        REQUIRE(r, !wasSilent || units[i - 1].type == INIT || units[i - 1].duration + pd >= 1 << 24, "silent", "two silences in a row" + at);
        break;
      case TEMPORAL: {
        REQUIRE(r, u.duration == pd, "duration", "a unit of duration " + std::to_string(u.duration) + at);
        REQUIRE(r, !u.packets.empty(), "empty-unit", "a temporal unit has no packets" + at);
        bool all = true;
        std::set<int> here;
        for (auto &p : u.packets) {
          r.step();
          REQUIRE(r, p.type == DATA, "packet-type", "a packet of type " + std::to_string(p.type) + " in a temporal unit" + at);
          auto id = data(In(u.bits, p.from, p.to), -1);
          // the bands are numbered through; the numbers wrap around
          int bi = id.band;
          while (bi < static_cast<int>(bands.size()) && (bands[bi].p->id != id.perception || bands[bi].c->id != id.channel)) bi += 256;
          REQUIRE(r, bi < static_cast<int>(bands.size()), "band", "data for band " + std::to_string(id.band) + " of channel " + std::to_string(id.channel) + " of perception " + std::to_string(id.perception) + " which does not exist" + at);
          auto &w = bands[bi];
          auto x = data(In(u.bits, p.from, p.to), w.b->type);
          REQUIRE(r, !x.effects.empty(), "empty-packet", "a data packet without effects" + at);
          REQUIRE(r, w.b->type == 3 || here.insert(bi).second, "split", "two packets of band " + std::to_string(bi) + " in one unit" + at);
          bool fresh = true;
          for (auto &e : x.effects) {
            if (w.b->type == 3) {
              // the next block, at the first border that is in the unit and free
              const int64_t bl = *w.b->block;
              const int64_t pos = std::max((t + bl - 1) / bl * bl, blocks.count(bi) ? blocks[bi] : 0);
              REQUIRE(r, spatial(*w.p) || (pos >= t && pos < t + pd), "window", "a wavelet block at " + std::to_string(pos) + at);
              blocks[bi] = pos + bl;
              continue;
            }
            if (e.type == 0) {
              REQUIRE(r, !e.kfs.empty(), "empty-effect", "an effect without keyframes" + at);
              if (begun[{bi, e.id}]++) fresh = false;
            } else
              REQUIRE(r, spatial(*w.p) || (e.pos >= 0 && e.pos < pd), "window", "a reference at " + std::to_string(t + e.pos) + at);
            for (auto &k : e.kfs)
              REQUIRE(r, spatial(*w.p) || (e.pos + *k.pos >= 0 && e.pos + *k.pos < pd), "window", "a keyframe at " + std::to_string(t + e.pos + *k.pos) + at);
          }
          REQUIRE(r, x.independent == fresh, "independent", std::string("a packet that ") + (fresh ? "begins all its effects is flagged dependent" : "continues an effect is flagged independent") + at);
          all = all && fresh;
        }
        REQUIRE(r, (u.sync == 0) == all, "sync-flag", std::string("a unit ") + (all ? "of independent packets is no synchronisation point" : "with dependent packets is a synchronisation point") + at);
        // a silence before it announces it
        if (wasSilent && units[i - 1].type == SILENT) REQUIRE(r, units[i - 1].sync == u.sync, "silent-flag", "the silence before has another synchronisation flag" + at);
        break;
      }
      default: r.fail("unit-type", "a unit of type " + std::to_string(u.type) + at);
      }
    } catch (const Broken &b) {
      r.fail("packet", b.what() + at);
    }
    wasSilent = u.type == SILENT;
    t += u.duration;
  }
  borders.insert(t);
  REQUIRE(r, lastEvent < 0 ? t == 0 : (lastEvent < t && lastEvent >= t - pd), "end",
          "the units end at " + std::to_string(t) + ", the experience's last event is at " + std::to_string(lastEvent) + in);
  for (auto &s : d.syncs)
    if (borders.count(s.ts)) REQUIRE(r, synced.count(s.ts) == 1, "sync-point", "no initialisation unit at the synchronisation point " + std::to_string(s.ts) + in);
  if (file) {
    const auto path = mc::scratch() + "/c04.mihs";
    REQUIRE(r, IOStream::writeFile(h, path, pd), "write-file", "writing failed" + in);
    Units back;
    REQUIRE(r, IOStream::loadFile(path, back), "load-file", "loading failed" + in);
    r.step(2);
    REQUIRE(r, back == raw, "file", "the file does not hold the units of the stream" + in);
    size_t bits = 0;
    for (auto &u : raw) bits += u.size();
    REQUIRE(r, slurp(path).size() * 8 == bits, "file", "the file is not as long as its units" + in);
  }
}
// Synchronisation points anywhere with respect to the units.
void syncs(mc::Run &r) {
  static const std::vector<int> pds = {10, 20, 7};
  static const std::vector<int> at = {0, 10, 15, 20, 30, 40, 50, 70};
  const int pd = r.pick(pds);
  const int start = r.choose(3) * 20;
  const int gap = r.choose(3) * 30;
  const int ts = r.choose(2);
  if (!r.go()) return;
  r.tag("syncs");
  Doc d = lean();
  if (ts) d.timescale = 8000;
  for (int x : at)
    if (r.flip()) d.syncs.push_back({x, ts ? 8000U : 1000U});
  C(d).bands = {band(2, 0, 1000, {vect(start, {kf(0, 0.5F, 3), kf(4, 1.0F, 4)}, 0, 1), vect(start + 5 + gap, {kf(0, 0.5F, 3), kf(25, 1.0F, 4)}, 0, 1)})};
  check(r, d, pd, false);
}
// Packet durations at and beyond the ends of what a unit's duration field can say.
void durations(mc::Run &r) {
  static const std::vector<int> pds = {1, 2, 3, 255, 256, 257, 65535, 65536, 65537, (1 << 24) - 1, 0, -1, -128, 1 << 24, (1 << 24) + 128, 1 << 30, 0x7fffffff, -0x7fffffff - 1};
  const int pd = r.pick(pds);
  const int start = r.choose(3) * 300;
  const int kind = r.choose(3);
  if (!r.go()) return;
  r.tag("duration");
  Doc d = lean();
  const auto ks = std::vector<KF>{kf(0, 0.5F, kind == 1 ? Opt<int>() : Opt<int>(3)), kf(70, 1.0F, kind == 1 ? Opt<int>() : Opt<int>(3))};
  C(d).bands = {band(kind, 0, 1000, {kind == 2 ? vect(start, ks, 0, 1) : basis(start, ks)})};
  if (pd >= 1 && pd < 1 << 24) return check(r, d, pd, true);
  r.describe([&] { return "packets of " + std::to_string(pd) + ": " + dump(d); });
  auto h = toHaptics(d);
  Units raw;
  REQUIRE(r, !IOStream::writeUnits(h, raw, pd), "refused", "packets of a duration no unit can have are written: " + std::to_string(pd));
  REQUIRE(r, !IOStream::writeFile(h, mc::scratch() + "/c04.mihs", pd), "refused", "packets of a duration no unit can have are written: " + std::to_string(pd));
  r.step(2);
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  streams::visit = check;
  auto all = streams::scenarios();
  all.push_back({"syncs", syncs});
  all.push_back({"durations", durations});
  return mc::runMain(argc, argv, "C04", all);
}
