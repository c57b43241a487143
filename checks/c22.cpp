// C22: stream integrity codes accept intact packet groups and reject damage.
#include "mc.h"
#include <Types/include/Haptics.h>
#include <bitset>
#include <fstream>
#include <map>
#include <sstream>
// The receiver's check is not part of the public interface, and nothing public shows its verdict.
#define private public
#include <IOHaptics/include/IOStream.h>
#undef private
#include "streams.h"

using haptics::io::IOStream;
using haptics::io::MIHSPacketType;
using Bits = std::vector<bool>;
using Group = std::vector<Bits>;

namespace {
std::string show(const Bits &b) {
  std::string s;
  for (bool x : b) s += x ? '1' : '0';
  return s.size() > 120 ? s.substr(0, 120) + "..." : s;
}
std::string show(const Group &g) {
  std::string s;
  for (auto &b : g) s += " " + show(b);
  return s;
}

// The protecting packet of a group, as the stream writer makes it.
Bits protect(mc::Run &r, const Group &g, bool wide) {
  auto type = g.size() == 1 ? (wide ? MIHSPacketType::CRC32 : MIHSPacketType::CRC16) : (wide ? MIHSPacketType::GlobalCRC32 : MIHSPacketType::GlobalCRC16);
  IOStream::StreamWriter w;
  Group bits = g;
  bool ok = IOStream::writeMIHSPacket(type, w, bits);
  r.step();
  REQUIRE(r, ok && bits.size() == 1, "write", "no check packet for" + show(g));
  size_t want = 24 + (wide ? 32 : 16) + (g.size() > 1 ? 8 : 0);
  REQUIRE(r, bits[0].size() == want, "write-size", "the check packet has " + std::to_string(bits[0].size()) + " bits for" + show(g));
  return bits[0];
}

bool accepted(mc::Run &r, const Group &g, const Bits &packet) {
  auto reader = IOStream::initializeStream();
  IOStream::CRC crc;
  bool read = IOStream::readMIHSPacket(packet, reader, crc);
  REQUIRE(r, read, "read", "the check packet is not readable: " + show(packet));
  Group copy = g;
  r.step();
  bool res = IOStream::checkCRC(copy, crc);
  REQUIRE(r, copy == g, "input-changed", "checking changed the packets");
  REQUIRE(r, crc.nbPackets == 0, "state", "the group is still open after its check");
  return res;
}

// Every packet of up to 16 bits, intact, and with every single bit changed.
void everyPacket(mc::Run &r) {
  bool wide = r.flip();
  int n = 1 + r.choose(r.thorough() ? 16 : 13);
  int high = n > 8 ? r.choose(1 << (n - 8)) : 0;
  if (!r.go()) return;
  r.describe([&] { return std::to_string(n) + " bits, " + (wide ? "32" : "16"); });
  for (int low = 0; low < (1 << std::min(n, 8)); low++) {
    int v = (high << 8) | low;
    Group g = {Bits()};
    for (int i = n - 1; i >= 0; i--) g[0].push_back(((v >> i) & 1) != 0);
    auto p = protect(r, g, wide);
    REQUIRE(r, accepted(r, g, p), "intact", "an intact packet is rejected: " + show(g[0]));
    r.state(show(p));
    for (int i = 0; i < n; i++) {
      auto d = g;
      d[0][static_cast<size_t>(i)] = !d[0][static_cast<size_t>(i)];
      REQUIRE(r, !accepted(r, d, p), "bit", "a changed bit is accepted: " + show(g[0]) + " bit " + std::to_string(i));
    }
  }
}

// Contents whose check code is any chosen value, zero included: the code of a 16-bit packet is a bijection of it.
void everyCode(mc::Run &r) {
  int high = r.choose(256);
  if (!r.go()) return;
  r.describe([&] { return std::to_string(high); });
  for (int low = 0; low < 256; low++) {
    int v = (high << 8) | low;
    Group g = {Bits()};
    for (int i = 15; i >= 0; i--) g[0].push_back(((v >> i) & 1) != 0);
    auto p = protect(r, g, false);
    r.state(show(p));
    REQUIRE(r, accepted(r, g, p), "intact", "an intact packet is rejected: " + show(g[0]) + " code " + show(p));
  }
}

Bits content(int kind, int n) {
  Bits b;
  unsigned x = static_cast<unsigned>(kind) * 2654435761U + static_cast<unsigned>(n) + 12345;
  for (int i = 0; i < n; i++) {
    x = x * 1103515245U + 12345U;
    b.push_back(kind == 0 ? false : kind == 1 ? true : kind == 2 ? i % 2 == 0 : ((x >> 17) & 1U) != 0);
  }
  return b;
}
Group menu(mc::Run &r) {
  static const std::vector<std::vector<int>> shapes = {{8}, {40}, {200}, {8, 8}, {24, 40}, {40, 24, 8}, {17, 1, 3}, {8, 16, 24, 32}};
  auto &s = r.pick(shapes);
  int kind = r.choose(5);
  Group g;
  for (size_t i = 0; i < s.size(); i++) g.push_back(content(kind == 4 ? static_cast<int>(i) + 3 : kind, s[i]));
  return g;
}
void flip(Group &g, size_t bit) {
  for (auto &p : g) {
    if (bit < p.size()) {
      p[bit] = !p[bit];
      return;
    }
    bit -= p.size();
  }
}

// Every burst: every length up to the code's, every pattern (up to a bound), at every place.
void bursts(mc::Run &r) {
  bool wide = r.flip();
  auto g = menu(r);
  int length = 1 + r.choose(wide ? 32 : 16);
  if (!r.go()) return;
  r.describe([&] { return show(g) + " bursts of " + std::to_string(length); });
  auto p = protect(r, g, wide);
  REQUIRE(r, accepted(r, g, p), "intact", "an intact group is rejected:" + show(g));
  r.state(show(p));
  size_t total = 0;
  for (auto &x : g) total += x.size();
  int inner = std::max(0, length - 2), full = r.thorough() ? 9 : 6;
  uint64_t patterns = inner <= full ? 1ULL << inner : 1ULL << full;
  for (size_t at = 0; at + static_cast<size_t>(length) <= total; at++) {
    for (uint64_t q = 0; q < patterns; q++) {
      uint64_t bits = inner <= full ? q : q * 0x9E3779B97F4A7C15ULL >> 20; // the longer ones: spread over the pattern
      auto d = g;
      flip(d, at);
      if (length > 1) flip(d, at + static_cast<size_t>(length) - 1);
      for (int i = 0; i < inner; i++)
        if ((bits >> i) & 1U) flip(d, at + 1 + static_cast<size_t>(i));
      REQUIRE(r, !accepted(r, d, p), "burst", "a burst of " + std::to_string(length) + " at " + std::to_string(at) + " is accepted:" + show(g) + " ->" + show(d));
    }
  }
}

// Damage of the code itself, and of the group after another group was checked with the same state.
void codeDamage(mc::Run &r) {
  bool wide = r.flip();
  auto g = menu(r);
  if (!r.go()) return;
  r.describe([&] { return show(g); });
  auto p = protect(r, g, wide);
  size_t first = 24 + (g.size() > 1 ? 8U : 0U);
  for (size_t i = first; i < p.size(); i++)
    for (size_t j = i; j < p.size(); j++) { // every run of changed bits
      auto d = p;
      for (size_t k = i; k <= j; k++) d[k] = !d[k];
      REQUIRE(r, !accepted(r, g, d), "code", "a changed code is accepted:" + show(g) + " " + show(p) + " -> " + show(d));
    }
  // one state for several groups
  auto reader = IOStream::initializeStream();
  IOStream::CRC crc;
  for (int round = 0; round < 4; round++) {
    bool w = (round % 2 == 0) == wide;
    auto q = protect(r, g, w);
    auto d = g;
    bool damage = round == 1 || round == 2;
    if (damage) flip(d, static_cast<size_t>(round));
    REQUIRE(r, IOStream::readMIHSPacket(q, reader, crc), "read", "the check packet is not readable");
    r.step();
    REQUIRE(r, IOStream::checkCRC(d, crc) == !damage, "history", "round " + std::to_string(round) + " of one receiver: " + (damage ? "damage accepted" : "intact group rejected") + show(g));
  }
  // a group that is not complete
  if (g.size() > 1) {
    auto d = g;
    d.pop_back();
    REQUIRE(r, IOStream::readMIHSPacket(p, reader, crc), "read", "the check packet is not readable");
    REQUIRE(r, !IOStream::checkCRC(d, crc), "incomplete", "an incomplete group is accepted:" + show(g));
  }
  r.state(show(p) + show(g));
}

// Groups of every number of packets: intact, and with one bit of one packet changed, for every packet.
void sizes(mc::Run &r) {
  const bool wide = r.flip();
  const int n = 2 + r.choose(254);
  if (!r.go()) return;
  r.describe([&] { return std::to_string(n) + " packets"; });
  Group g;
  for (int i = 0; i < n; i++) g.push_back(content(3, 8 + i % 5));
  auto p = protect(r, g, wide);
  REQUIRE(r, accepted(r, g, p), "intact", "an intact group of " + std::to_string(n) + " packets is rejected");
  r.state(show(p));
  for (int i = 0; i < n; i += n > 40 ? 7 : 1) {
    auto d = g;
    d[static_cast<size_t>(i)][static_cast<size_t>(i % 8)].flip();
    REQUIRE(r, !accepted(r, d, p), "bit", "a changed bit in packet " + std::to_string(i) + " of " + std::to_string(n) + " is accepted");
  }
  auto more = g;
  more.push_back(content(1, 8)); // what follows the group is not part of it
  REQUIRE(r, accepted(r, more, p), "longer", "a group of " + std::to_string(n) + " packets is rejected because of what follows it");
}

// Long packets: one changed bit, wherever it is.
void lengthy(mc::Run &r) {
  static const std::vector<int> lens = {4096, 32768, 65535, 65536, 65544, 131072, 200000};
  const bool wide = r.flip();
  const int len = r.pick(lens);
  const int place = r.choose(3); // alone; behind a short packet; before one
  const int part = r.choose(24);
  if (!r.go()) return;
  r.describe([&] { return "a packet of " + std::to_string(len) + " bits"; });
  Group g = {content(3, len)};
  if (place == 1) g.insert(g.begin(), content(3, 24));
  if (place == 2) g.push_back(content(3, 24));
  auto p = protect(r, g, wide);
  if (part == 0) REQUIRE(r, accepted(r, g, p), "intact", "an intact group is rejected: a packet of " + std::to_string(len) + " bits");
  r.state(show(p));
  size_t total = 0;
  for (auto &x : g) total += x.size();
  const size_t at = part == 0 ? 0 : part == 1 ? total - 1 : part == 2 ? std::min(total - 1, size_t{65536}) : part == 3 ? total - 17 : total * static_cast<size_t>(part - 3) / 21 + static_cast<size_t>(part);
  for (int burst = 1; burst <= (r.thorough() ? 16 : 1); burst += 5) {
    auto d = g;
    for (int i = 0; i < burst && at + static_cast<size_t>(i) < total; i++) flip(d, at + static_cast<size_t>(i));
    REQUIRE(r, !accepted(r, d, p), "bit", "a changed bit, number " + std::to_string(at) + " of " + std::to_string(total) + ", is accepted");
  }
}

// A file that holds the code of its first units: intact, everything is loaded; damaged, nothing that depends on earlier
// packets is used until the next independent one. The code is made from units that differ from the file's in one bit.
void files(mc::Run &r) {
  using namespace doc;
  using namespace gen;
  static const std::vector<int> pds = {10, 25};
  const bool wide = r.flip();
  const bool syncs = r.flip();
  const int pd = r.pick(pds);
  const int flag = r.choose(2);
  Doc d = lean();
  C(d).bands = {band(2, 0, 1000, {vect(5, {kf(0, 0.5F, 10), kf(12, 0.25F, 20), kf(25, 1.0F, 30), kf(40, 0.5F, 35)}), vect(60, {kf(0, 1.0F, 11), kf(12, {}, 21), kf(30, 0.5F, 31)})}),
                band(0, 0, 1000, {basis(12, {kf(0, 0.5F, 1), kf(25, 0.25F, 2), kf(50, 0.25F, 3)})})};
  if (syncs) d.syncs = {{20, 1000U}, {50, 1000U}, {70, 1000U}};
  auto h = toHaptics(d);
  Group raw;
  REQUIRE(r, IOStream::writeUnits(h, raw, pd), "write", "writing failed: " + dump(d));
  const int n = 1 + r.choose(static_cast<int>(raw.size()));
  if (!r.go()) return;
  Group first(raw.begin(), raw.begin() + n);
  size_t total = 0;
  for (auto &u : first) total += u.size();
  // -1: intact; otherwise the bit that differs: all of the last unit's, and some of the others'
  std::vector<long> damage = {-1};
  for (size_t i = 0; i < total; i += i + 1 < total - first.back().size() ? 37 : 1) damage.push_back(static_cast<long>(i));
  r.describe([&] { return std::to_string(n) + " units protected, packets of " + std::to_string(pd) + ": " + dump(d); });
  Doc whole, cut;
  for (int lost = 0; lost < 2; lost++) {
    mihs::Receiver model;
    for (size_t i = 0; i < raw.size(); i++) {
      model.apply(mihs::parse(raw[i]));
      if (static_cast<int>(i) + 1 == n && lost) model.waiting = true;
    }
    (lost ? cut : whole) = model.result();
  }
  for (long bit : damage) {
    auto g = first;
    if (bit >= 0) flip(g, static_cast<size_t>(bit));
    auto p = protect(r, g, wide);
    Bits unit;
    auto put = [&](unsigned long v, int w) {
      for (int i = w - 1; i >= 0; i--) unit.push_back(((v >> i) & 1U) != 0);
    };
    put(static_cast<unsigned long>(mihs::TEMPORAL), 6);
    put(static_cast<unsigned long>(flag), 2);
    put(0, 4);
    put(0, 24);
    put(p.size() / 8, 32);
    put(0, 4);
    unit.insert(unit.end(), p.begin(), p.end());
    Bits all;
    for (size_t i = 0; i < raw.size(); i++) {
      all.insert(all.end(), raw[i].begin(), raw[i].end());
      if (static_cast<int>(i) + 1 == n) all.insert(all.end(), unit.begin(), unit.end());
    }
    std::string bytes;
    for (size_t i = 0; i + 8 <= all.size(); i += 8) {
      int v = 0;
      for (size_t k = 0; k < 8; k++) v = v * 2 + (all[i + k] ? 1 : 0);
      bytes += static_cast<char>(v);
    }
    const auto path = mc::scratch() + "/c22.mihs";
    spew(path, bytes);
    haptics::types::Haptics got;
    r.step();
    REQUIRE(r, IOStream::readFile(path, got), "file", "a file with a check packet is refused");
    auto back = fromHaptics(got);
    auto want = bit < 0 ? whole : cut;
    want.syncs.clear();
    back.syncs.clear();
    const auto why = difference(want, back, mihs::TOL);
    r.state(mc::hashStr(dump(back)));
    REQUIRE(r, why.empty(), bit < 0 ? "file-intact" : "file-damaged", why + (bit < 0 ? " (intact)" : " (bit " + std::to_string(bit) + " of the first units is damaged)") + ", " + std::to_string(n) + " units protected, packets of " + std::to_string(pd) + " in " + dump(d));
  }
}
} // namespace

int main(int argc, char **argv) {
  return mc::runMain(argc, argv, "C22", {{"every-packet", everyPacket}, {"every-code", everyCode}, {"bursts", bursts}, {"code-damage", codeDamage}, {"sizes", sizes}, {"lengthy", lengthy}, {"files", files}});
}
