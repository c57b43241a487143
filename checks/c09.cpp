// C09: every sequence of bit fields reads back value for value, and the float quantiser is faithful.
#include "mc.h"
#include <IOHaptics/include/IOBinaryFields.h>
#include <IOHaptics/include/IOBinaryPrimitives.h>
#include <cmath>
#include <sstream>

using P = haptics::io::IOBinaryPrimitives;

namespace {

struct Field {
  std::string name;
  std::function<void(std::vector<bool> &)> write;
  // each reader returns "" when the value is right
  std::function<std::string(std::istream &, std::vector<bool> &)> readStream;
  std::function<std::string(const std::vector<bool> &, int &)> readBits; // may be empty
  int bits;
};

template <class T, size_t N> void addUInt(std::vector<Field> &out, std::vector<uint64_t> values) {
  for (uint64_t v64 : values) {
    T v = static_cast<T>(v64);
    Field f;
    f.bits = N;
    f.name = "u" + std::to_string(N) + "=" + std::to_string(v64);
    f.write = [v](std::vector<bool> &o) { P::writeNBits<T, N>(v, o); };
    f.readStream = [v](std::istream &s, std::vector<bool> &u) -> std::string {
      T g = P::readNBits<T, N>(s, u);
      return g == v ? "" : "read " + std::to_string(static_cast<int64_t>(g));
    };
    f.readBits = [v, v64](const std::vector<bool> &b, int &i) -> std::string {
      int g = P::readUInt(b, i, N);
      return static_cast<uint32_t>(g) == static_cast<uint32_t>(v64) ? "" : "readUInt " + std::to_string(g);
    };
    out.push_back(f);
  }
}

template <class T, size_t N> void addInt(std::vector<Field> &out, std::vector<int64_t> values) {
  for (int64_t v64 : values) {
    T v = static_cast<T>(v64);
    Field f;
    f.bits = N;
    f.name = "i" + std::to_string(N) + "=" + std::to_string(v64);
    f.write = [v](std::vector<bool> &o) { P::writeNBits<T, N>(v, o); };
    f.readStream = [v](std::istream &s, std::vector<bool> &u) -> std::string {
      T g = P::readNBits<T, N>(s, u);
      return g == v ? "" : "read " + std::to_string(static_cast<int64_t>(g));
    };
    f.readBits = [v64](const std::vector<bool> &b, int &i) -> std::string {
      int g = P::readInt(b, i, N);
      return g == v64 ? "" : "readInt " + std::to_string(g);
    };
    out.push_back(f);
  }
}

template <class T, size_t N> void addFloat(std::vector<Field> &out, float lo, float hi, std::vector<float> values) {
  for (float v : values) {
    Field f;
    f.bits = N;
    std::ostringstream nm;
    nm << "f" << N << "[" << lo << "," << hi << "]=" << v;
    f.name = nm.str();
    double step = (static_cast<double>(hi) - lo) / (std::pow(2.0, N) - 1);
    double slack = 3e-7 * std::max(std::fabs(lo), std::fabs(hi));
    double want = std::min<double>(hi, std::max<double>(lo, v));
    auto ok = [=](float g) -> std::string {
      return std::fabs(g - want) <= step + slack ? "" : "read float " + std::to_string(g);
    };
    f.write = [=](std::vector<bool> &o) { P::writeFloatNBits<T, N>(v, o, lo, hi); };
    f.readStream = [=](std::istream &s, std::vector<bool> &u) { return ok(P::readFloatNBits<T, N>(s, lo, hi, u)); };
    f.readBits = [=](const std::vector<bool> &b, int &i) {
      auto copy = b;
      return ok(P::readFloatNBits<N>(copy, i, lo, hi));
    };
    out.push_back(f);
  }
}

void addString(std::vector<Field> &out, const std::string &name, const std::string &text) {
  std::string want = text.substr(0, 255); // the length field has eight bits
  Field f;
  f.name = "string " + name;
  f.bits = 8 + 8 * static_cast<int>(want.size());
  f.write = [=](std::vector<bool> &o) { P::writeString(text, o); };
  f.readStream = [=](std::istream &s, std::vector<bool> &u) -> std::string {
    auto g = P::readString(s, u);
    return g == want ? "" : "read a string of " + std::to_string(g.size()) + " bytes, or other bytes";
  };
  f.readBits = [=](const std::vector<bool> &b, int &i) -> std::string {
    int n = P::readUInt(b, i, 8);
    auto g = P::readString(b, i, n);
    return g == want ? "" : "bit reader gives another string";
  };
  out.push_back(f);
}

void addVector(std::vector<Field> &out, int x, int y, int z) {
  Field f;
  f.name = "vector " + std::to_string(x) + "," + std::to_string(y) + "," + std::to_string(z);
  f.bits = 24;
  haptics::types::Vector v(static_cast<int8_t>(x), static_cast<int8_t>(y), static_cast<int8_t>(z));
  f.write = [=](std::vector<bool> &o) { P::writeVector(v, o); };
  f.readStream = [=](std::istream &s, std::vector<bool> &u) -> std::string {
    auto g = P::readVector(s, u);
    return g.X == x && g.Y == y && g.Z == z ? "" : "vector differs";
  };
  f.readBits = [=](const std::vector<bool> &b, int &i) -> std::string {
    int a = P::readInt(b, i, 8), c = P::readInt(b, i, 8), d = P::readInt(b, i, 8);
    return a == x && c == y && d == z ? "" : "vector differs in the bit reader";
  };
  out.push_back(f);
}

void addRaw(std::vector<Field> &out, const std::string &bits) {
  Field f;
  f.name = "raw " + bits;
  f.bits = static_cast<int>(bits.size());
  f.write = [=](std::vector<bool> &o) { P::writeStrBits(bits, o); };
  f.readStream = [=](std::istream &s, std::vector<bool> &u) -> std::string {
    for (char c : bits)
      if (P::readNBits<uint8_t, 1>(s, u) != (c == '1' ? 1 : 0)) return "raw bit differs";
    return "";
  };
  f.readBits = [=](const std::vector<bool> &b, int &i) -> std::string {
    for (char c : bits)
      if (P::readUInt(b, i, 1) != (c == '1' ? 1 : 0)) return "raw bit differs in the bit reader";
    return "";
  };
  out.push_back(f);
}

std::vector<Field> fullMenu() {
  std::vector<Field> m;
  addUInt<uint8_t, 1>(m, {0, 1});
  addUInt<uint8_t, 2>(m, {1, 3});
  addUInt<uint8_t, 3>(m, {5});
  addUInt<uint8_t, 4>(m, {9});
  addUInt<uint8_t, 5>(m, {0x15});
  addUInt<uint8_t, 6>(m, {0x2d});
  addUInt<uint8_t, 7>(m, {0x53});
  addUInt<uint8_t, 8>(m, {0, 0x80, 0xff, 0x5a});
  addUInt<uint16_t, 9>(m, {0x155});
  addUInt<uint16_t, 12>(m, {0xa5b});
  addUInt<uint16_t, 15>(m, {0x4d2d});
  addUInt<uint16_t, 16>(m, {0, 0xffff, 0x8001, 0x1234});
  addUInt<uint32_t, 17>(m, {0x1a5b7});
  addUInt<uint32_t, 24>(m, {0x800001, 0xffffff});
  addUInt<uint32_t, 25>(m, {0x1ffffff, 0x1000001});
  addUInt<int, 16>(m, {0xfffe});
  addUInt<short, 8>(m, {0xfe});
  addUInt<uint32_t, 31>(m, {0x7fffffff, 0x40000001});
  addUInt<uint32_t, 32>(m, {0, 0x80000001, 0xffffffff});
  addUInt<unsigned long, 32>(m, {0x80000000, 0xffffffff, 1});
  addUInt<uint64_t, 24>(m, {0x800001});
  addUInt<int, 8>(m, {0xff});
  addInt<int8_t, 8>(m, {-128, -1, 127});
  addInt<int, 32>(m, {-2, 2147483647, -2147483647});
  addFloat<uint8_t, 8>(m, -1, 1, {-1, -0.5F, 0, 1, 3});
  addFloat<uint8_t, 8>(m, 0, 1, {0.25F});
  addFloat<uint16_t, 16>(m, 0, 6.28318F, {0, 1.5F, 6.28318F});
  addFloat<uint32_t, 32>(m, 0, 10000, {0, 1, 9999.5F, 20000});
  addFloat<uint32_t, 32>(m, -10000, 10000, {-3, 10000});
  addString(m, "empty", "");
  addString(m, "a", "a");
  addString(m, "bytes", std::string("\0\xff\x80q\n", 5));
  addString(m, "255", std::string(255, 'x'));
  addString(m, "256", std::string(256, 'y'));
  addString(m, "300", std::string(300, '\xe9'));
  addVector(m, -127, 0, 127);
  addVector(m, 1, -128, -1);
  addRaw(m, "1");
  addRaw(m, "0");
  addRaw(m, "10110");
  return m;
}

std::vector<Field> smallMenu() {
  std::vector<Field> m;
  addUInt<uint8_t, 1>(m, {0, 1});
  addUInt<uint8_t, 3>(m, {5});
  addUInt<uint8_t, 7>(m, {0x53});
  addUInt<uint8_t, 8>(m, {0x81});
  addUInt<uint16_t, 9>(m, {0x155});
  addUInt<uint16_t, 16>(m, {0x8001});
  addUInt<uint32_t, 17>(m, {0x1a5b7});
  addUInt<uint32_t, 25>(m, {0x1000001});
  addUInt<uint32_t, 32>(m, {0x80000001});
  addInt<int8_t, 8>(m, {-1});
  addFloat<uint8_t, 8>(m, -1, 1, {0.5F});
  addString(m, "ab", "ab");
  return m;
}

void runSequence(mc::Run &r, const std::vector<const Field *> &seq, const std::vector<bool> &lead) {
  auto show = [&] {
    std::string s = "lead " + std::to_string(lead.size()) + " bits:";
    for (auto *f : seq) s += " [" + f->name + "]";
    return s;
  };
  r.describe(show);
  std::vector<bool> bits = lead;
  std::vector<int> ends;
  for (auto *f : seq) {
    f->write(bits);
    r.step();
    ends.push_back(static_cast<int>(bits.size()));
  }
  int expected = static_cast<int>(lead.size());
  for (size_t i = 0; i < seq.size(); i++) {
    expected += seq[i]->bits;
    REQUIRE(r, ends[i] == expected, "width", "field " + seq[i]->name + " occupies another number of bits: " + show());
  }
  auto padded = bits;
  P::fillBitset(padded);
  REQUIRE(r, padded.size() == (bits.size() + 7) / 8 * 8, "fill", "padding to " + std::to_string(padded.size()) + ": " + show());
  for (size_t i = 0; i < padded.size(); i++)
    REQUIRE(r, padded[i] == (i < bits.size() ? bits[i] : false), "fill", "padding changed a bit: " + show());
  std::ostringstream os, osPadded;
  P::writeBitset(bits, os);
  P::writeBitset(padded, osPadded);
  REQUIRE(r, os.str() == osPadded.str(), "bytes", "bytes differ with and without padding: " + show());
  REQUIRE(r, os.str().size() == padded.size() / 8, "bytes", "byte count: " + show());
  for (size_t i = 0; i < padded.size(); i++) {
    bool b = ((static_cast<unsigned char>(os.str()[i / 8]) >> (7 - i % 8)) & 1) != 0;
    REQUIRE(r, b == padded[i], "bytes", "byte " + std::to_string(i / 8) + " is not its bits: " + show());
  }
  r.state(mc::hashStr(os.str()) ^ lead.size());
  { // byte stream reader
    std::istringstream is(os.str());
    std::vector<bool> unused;
    for (size_t i = 0; i < lead.size(); i++) {
      REQUIRE(r, (P::readNBits<uint8_t, 1>(is, unused)) == (lead[i] ? 1 : 0), "lead", "leading bit differs: " + show());
    }
    for (auto *f : seq) {
      auto e = f->readStream(is, unused);
      r.step();
      REQUIRE(r, e.empty(), "stream-reader", f->name + ": " + e + " in " + show());
    }
    REQUIRE(r, unused.size() == padded.size() - bits.size(), "stream-reader-rest", "left-over bits: " + show());
  }
  { // bit vector reader
    int idx = static_cast<int>(lead.size());
    for (size_t i = 0; i < seq.size(); i++) {
      auto e = seq[i]->readBits(bits, idx);
      r.step();
      REQUIRE(r, e.empty(), "bit-reader", seq[i]->name + ": " + e + " in " + show());
      REQUIRE(r, idx == ends[i], "bit-reader-index", "index after " + seq[i]->name + ": " + show());
    }
  }
  { // bytes to bits
    std::istringstream is(os.str());
    std::vector<bool> back = lead;
    P::readNBytes(is, static_cast<int>(os.str().size()), back);
    REQUIRE(r, std::vector<bool>(back.begin() + static_cast<long>(lead.size()), back.end()) == padded, "readNBytes",
            "readNBytes differs: " + show());
  }
}

template <class T, size_t N> struct Quant {
  float lo, hi;
  uint64_t enc(float v) const {
    std::vector<bool> b;
    P::writeFloatNBits<T, N>(v, b, lo, hi);
    uint64_t c = 0;
    for (bool x : b) c = c * 2 + (x ? 1 : 0);
    return c;
  }
  float dec(uint64_t c) const {
    std::vector<bool> b;
    P::writeNBits<uint32_t, N>(static_cast<uint32_t>(c), b);
    int i = 0;
    return P::readFloatNBits<N>(b, i, lo, hi);
  }
};

template <class T, size_t N> void quantCodes(mc::Run &r, float lo, float hi, uint64_t from, uint64_t to, uint64_t stride) {
  Quant<T, N> q{lo, hi};
  double step = (static_cast<double>(hi) - lo) / (std::pow(2.0, N) - 1);
  double slack = 3e-7 * std::max(std::fabs(lo), std::fabs(hi));
  bool coarse = N <= 16;
  uint64_t top = (1ULL << N) - 1;
  for (uint64_t c = from; c < to; c += stride) {
    std::string at = " (code " + std::to_string(c) + " of " + std::to_string(N) + " bits in [" + std::to_string(lo) + "," + std::to_string(hi) + "])";
    float v = q.dec(c);
    r.step(4);
    double ideal = lo + static_cast<double>(c) * step;
    REQUIRE(r, std::fabs(v - ideal) <= slack + 1e-9, "decode", "decodes to " + std::to_string(v) + at);
    REQUIRE(r, v >= lo && v <= hi, "range", "decodes out of range" + at);
    uint64_t again = q.enc(v);
    if (coarse) {
      REQUIRE(r, again == c, "stable", "is written again as " + std::to_string(again) + at);
    } else {
      float w = v;
      for (int g = 0; g < 12; g++) w = q.dec(q.enc(w));
      REQUIRE(r, std::fabs(w - v) <= slack, "stable", "drifts to " + std::to_string(w) + at);
    }
    if (c < top) { // monotone, and no value is off by more than a step
      uint64_t prev = q.enc(v);
      for (int k = 1; k <= 8; k++) {
        float x = static_cast<float>(ideal + step * k / 8.0);
        if (x > hi) x = hi;
        uint64_t e = q.enc(x);
        REQUIRE(r, e + (coarse ? 0 : 512) >= prev, "monotone", "codes decrease" + at);
        prev = e;
        REQUIRE(r, std::fabs(q.dec(e) - x) <= step + slack, "error", "value " + std::to_string(x) + " comes back as " + std::to_string(q.dec(e)) + at);
      }
    }
  }
  r.state(from * 31 + N + static_cast<uint64_t>(hi));
}

template <class T, size_t N> void quantEnds(mc::Run &r, float lo, float hi) {
  Quant<T, N> q{lo, hi};
  uint64_t top = (1ULL << N) - 1;
  for (float v : {lo, std::nextafter(lo, lo - 1), lo - 1, lo * 2 - 5, -1e30F, -INFINITY})
    REQUIRE(r, q.enc(v) == 0, "low-end", "value " + std::to_string(v) + " is not the lowest code");
  for (float v : {hi, std::nextafter(hi, hi + 1), hi + 1, hi * 2 + 5, 1e30F, INFINITY})
    REQUIRE(r, q.enc(v) == top, "high-end", "value " + std::to_string(v) + " is not the highest code");
  REQUIRE(r, q.dec(0) == lo && std::fabs(q.dec(top) - hi) <= 1e-6 * std::fabs(hi), "ends", "end codes do not decode to the ends");
}

} // namespace

int main(int argc, char **argv) {
  std::vector<mc::Scenario> sc;
  sc.push_back({"sequences-full-menu", [](mc::Run &r) { // up to 2 (3) fields of the full menu at every alignment
                  static const auto m = fullMenu();
                  int n = 1 + r.choose(r.thorough() ? 3 : 2);
                  std::vector<const Field *> seq;
                  int lead = r.choose(n == 3 ? 2 : 8);
                  for (int i = 0; i < n; i++) seq.push_back(&m[static_cast<size_t>(r.choose(static_cast<int>(m.size())))]);
                  if (!r.go()) return;
                  std::vector<bool> l;
                  for (int i = 0; i < lead * (n == 3 ? 5 : 1); i++) l.push_back(i % 3 != 1);
                  runSequence(r, seq, l);
                }});
  sc.push_back({"sequences-small-menu", [](mc::Run &r) {
                  static const auto m = smallMenu();
                  int n = r.thorough() ? 5 : 4;
                  std::vector<const Field *> seq;
                  for (int i = 0; i < n; i++) seq.push_back(&m[static_cast<size_t>(r.choose(static_cast<int>(m.size())))]);
                  if (!r.go()) return;
                  runSequence(r, seq, {});
                }});
  sc.push_back({"amplitude8", [](mc::Run &r) {
                  int c = r.choose(256);
                  if (!r.go()) return;
                  quantCodes<uint8_t, 8>(r, -1, 1, static_cast<uint64_t>(c), static_cast<uint64_t>(c) + 1, 1);
                  quantCodes<uint8_t, 8>(r, 0, 1, static_cast<uint64_t>(c), static_cast<uint64_t>(c) + 1, 1);
                }});
  sc.push_back({"phase16", [](mc::Run &r) {
                  int c = r.choose(256);
                  if (!r.go()) return;
                  quantCodes<uint16_t, 16>(r, 0, 6.28318F, static_cast<uint64_t>(c) * 256, static_cast<uint64_t>(c) * 256 + 256, 1);
                }});
  sc.push_back({"figures32", [](mc::Run &r) { // device figures and gains: a grid of codes over the whole range
                  int c = r.choose(1024);
                  int range = r.choose(2);
                  if (!r.go()) return;
                  uint64_t from = static_cast<uint64_t>(c) << 22;
                  uint64_t stride = r.thorough() ? 509 : 40009;
                  quantCodes<uint32_t, 32>(r, range == 0 ? 0.F : -10000.F, 10000, from, from + (1ULL << 22), stride);
                  if (c == 0) quantCodes<uint32_t, 32>(r, range == 0 ? 0.F : -10000.F, 10000, 0, 3000, 1);
                  if (c == 1023) quantCodes<uint32_t, 32>(r, range == 0 ? 0.F : -10000.F, 10000, (1ULL << 32) - 3000, 1ULL << 32, 1);
                }});
  sc.push_back({"ends", [](mc::Run &r) {
                  int k = r.choose(5);
                  if (!r.go()) return;
                  if (k == 0) quantEnds<uint8_t, 8>(r, -1, 1);
                  if (k == 1) quantEnds<uint8_t, 8>(r, 0, 1);
                  if (k == 2) quantEnds<uint16_t, 16>(r, 0, 6.28318F);
                  if (k == 3) quantEnds<uint32_t, 32>(r, 0, 10000);
                  if (k == 4) quantEnds<uint32_t, 32>(r, -10000, 10000);
                }});
  return mc::runMain(argc, argv, "C09", sc);
}
