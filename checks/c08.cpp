// C08: damaged input. Every truncation and every byte changed, of files of the three formats; HJIF also value by value.
#include "streams.h"
#include "jsonw.h"
#include <IOHaptics/include/IOBinary.h>
#include <IOHaptics/include/IOJson.h>
#include <IOHaptics/include/IOStream.h>
#include <Tools/include/OHMData.h>
#include <ctime>
#include <functional>
using namespace doc;
using namespace gen;
using haptics::io::IOBinary;
using haptics::io::IOJson;
using haptics::io::IOStream;
namespace ht = haptics::types;

// rapidjson leaves wrong use undefined and only asserts: here the assertion ends the case.
void badJson(const char *what) {
  std::fprintf(stderr, "undefined use of a JSON value: %s\n", what);
  std::abort();
}

namespace {
const char *NAME[] = {"HMPG", "MIHS", "HJIF"};
struct Base {
  std::string name, bytes;
};
std::string encode(const Doc &d, int format) {
  const auto path = mc::scratch() + "/c08-out";
  std::filesystem::remove(path);
  auto h = toHaptics(d);
  if (format == 0) IOBinary::writeFile(h, path);
  else if (format == 1) IOStream::writeFile(h, path, 128);
  else IOJson::writeFile(h, path);
  return slurp(path);
}
// One file for every part a document can have: the lean document and one change.
const std::vector<Base> &bases(int format) {
  static std::vector<Base> all[3];
  auto &l = all[format];
  if (l.empty()) {
    l.push_back({"lean", encode(streams::base(false), format)});
    std::vector<std::string> seen = {l[0].bytes};
    for (auto &t : families(tweaksFor(1 << format))) {
      Doc d = streams::base(false);
      apply(d, {&t});
      if (format == 1 && !streams::streamable(d)) continue;
      auto b = encode(d, format);
      if (b.size() > 1500 || std::find(seen.begin(), seen.end(), b) != seen.end()) continue;
      seen.push_back(b);
      l.push_back({t.name, b});
    }
    l.push_back({"rich", encode(streams::base(true), format)});
  }
  return l;
}
// Loads the bytes: fails, gives a document, or throws. The document can be looked at all over.
bool load(mc::Run &r, int format, const std::string &bytes) {
  r.tag(NAME[format]);
  const auto path = mc::scratch() + "/c08-in";
  spew(path, bytes);
  ht::Haptics h;
  const auto begin = std::clock();
  std::string what;
  try {
    const bool ok = format == 0 ? IOBinary::loadFile(path, h) : format == 1 ? IOStream::readFile(path, h) : IOJson::loadFile(path, h);
    what = ok ? dump(fromHaptics(h)) : "refused";
  } catch (const std::exception &e) {
    what = std::string("error ") + e.what();
  }
  const double sec = static_cast<double>(std::clock() - begin) / CLOCKS_PER_SEC;
  REQUIRE(r, sec < 10, "slow", std::string(NAME[format]) + ": took " + std::to_string(sec) + " s for " + std::to_string(bytes.size()) + " bytes");
  r.step();
  r.state(std::to_string(format) + what);
  return what != "refused" && what.compare(0, 6, "error ") != 0;
}
std::string hex(const std::string &s) {
  std::string o;
  char b[4];
  for (unsigned char c : s) {
    std::snprintf(b, sizeof b, "%02x", c);
    o += b;
  }
  return o;
}
const Base &base(mc::Run &r, int format) { return bases(format)[static_cast<size_t>(r.choose(static_cast<int>(bases(format).size())))]; }

void truncated(mc::Run &r) {
  const int format = r.choose(3);
  const Base &b = base(r, format);
  if (!r.go()) return;
  const bool few = !r.thorough() && b.name != "lean" && b.name != "rich";
  if (format == 2 && few) return;
  const int n = r.choose(static_cast<int>(b.bytes.size()));
  std::string s = b.bytes.substr(0, static_cast<size_t>(n));
  const int tail = r.choose(r.thorough() ? 4 : few ? 1 : 2); // and garbage instead of the rest
  if (tail == 1) s += std::string(b.bytes.size() - s.size(), '\xff');
  if (tail == 2) s += std::string(b.bytes.size() - s.size(), '\0');
  if (tail == 3) s += b.bytes;
  r.describe([&] { return std::string(NAME[format]) + " " + b.name + " cut at " + std::to_string(n) + " of " + std::to_string(b.bytes.size()) + (tail == 1 ? ", rest ff" : tail == 2 ? ", rest 00" : tail == 3 ? ", and once more" : "") + (format == 2 ? ": " + s : ": " + hex(s)); });
  load(r, format, s);
}
void changed(mc::Run &r) { // one byte
  const int format = r.choose(3);
  const Base &b = base(r, format);
  if (!r.go()) return;
  if (format == 2 && b.name != "lean" && !r.thorough()) return; // value by value below
  const size_t n = static_cast<size_t>(r.choose(static_cast<int>(b.bytes.size())));
  std::string s = b.bytes;
  if (format == 2) s[n] = r.pick(std::vector<char>{'"', '{', '}', '[', ']', ',', ':', '0', '-', '9', 'e', 'Z', ' ', '\0', '\xff', '\\', '='});
  else if (r.thorough()) s[n] = static_cast<char>(s[n] ^ (1 + r.choose(255)));
  else if (b.name != "lean") s[n] = r.pick(std::vector<char>{'\0', '\xff', static_cast<char>(s[n] ^ 1), static_cast<char>(s[n] ^ 0x80)});
  else {
    const int k = r.choose(12);
    const char v = s[n];
    s[n] = static_cast<char>(k < 8 ? v ^ (1 << k) : k == 8 ? 0 : k == 9 ? 0xff : k == 10 ? v + 1 : v - 1);
    if (k >= 8) // a value that was tried already
      for (int i = 0; i < 8; i++)
        if (static_cast<char>(v ^ (1 << i)) == s[n]) return;
  }
  if (s[n] == b.bytes[n]) return;
  r.describe([&] { return std::string(NAME[format]) + " " + b.name + " with byte " + std::to_string(n) + " changed to " + std::to_string(static_cast<unsigned char>(s[n])) + (format == 2 ? ": " + s : ": " + hex(s)); });
  load(r, format, s);
}
void dropped(mc::Run &r) { // a run of bytes is missing, or there twice
  const int format = r.choose(3);
  const Base &b = base(r, format);
  if (!r.go()) return;
  if (format == 2 && b.name != "lean" && !r.thorough()) return; // value by value below
  const size_t n = static_cast<size_t>(r.choose(static_cast<int>(b.bytes.size())));
  const bool few = b.name != "lean" && !r.thorough();
  const size_t len = static_cast<size_t>(r.pick(few ? std::vector<int>{2} : std::vector<int>{1, 3, 9, 40}));
  const bool twice = few ? false : r.flip();
  std::string s = b.bytes.substr(0, n) + (twice ? b.bytes.substr(n, len) + b.bytes.substr(n) : b.bytes.substr(std::min(b.bytes.size(), n + len)));
  r.describe([&] { return std::string(NAME[format]) + " " + b.name + (twice ? " twice " : " without ") + std::to_string(len) + " bytes at " + std::to_string(n) + (format == 2 ? ": " + s : ": " + hex(s)); });
  load(r, format, s);
}
void twoBytes(mc::Run &r) { // thorough: two bytes at once, in small files
  const int format = r.choose(2);
  const Base &b = base(r, format);
  if (!r.go()) return;
  if (b.bytes.size() > 160) return;
  const size_t n = static_cast<size_t>(r.choose(static_cast<int>(b.bytes.size())));
  const size_t m = static_cast<size_t>(r.choose(static_cast<int>(b.bytes.size())));
  if (m <= n) return;
  std::string s = b.bytes;
  s[n] = r.pick(std::vector<char>{'\0', '\xff', '\x01', '\x80'});
  s[m] = r.pick(std::vector<char>{'\0', '\xff', '\x01', '\x80'});
  r.describe([&] { return std::string(NAME[format]) + " " + b.name + " with bytes " + std::to_string(n) + " and " + std::to_string(m) + " changed: " + hex(s); });
  load(r, format, s);
}

// ---- HJIF value by value
struct Spot {
  size_t from, to, key; // key: where the member starts, npos for elements
};
std::vector<Spot> spots(const std::string &s) {
  std::vector<Spot> l;
  size_t i = 0;
  auto blank = [&] {
    while (i < s.size() && std::isspace(static_cast<unsigned char>(s[i]))) i++;
  };
  auto text = [&] {
    for (i++; s[i] != '"'; i++)
      if (s[i] == '\\') i++;
    i++;
  };
  std::function<void(size_t)> value = [&](size_t key) {
    blank();
    const size_t from = i;
    if (s[i] == '{' || s[i] == '[') {
      const bool obj = s[i] == '{';
      i++;
      blank();
      while (s[i] != '}' && s[i] != ']') {
        const size_t k = i;
        if (obj) {
          text();
          blank();
          i++;
        }
        value(obj ? k : std::string::npos);
        blank();
        if (s[i] == ',') i++;
        blank();
      }
      i++;
    } else if (s[i] == '"') text();
    else
      while (i < s.size() && s[i] != ',' && s[i] != '}' && s[i] != ']' && !std::isspace(static_cast<unsigned char>(s[i]))) i++;
    l.push_back({from, i, key});
  };
  value(std::string::npos);
  return l;
}
const std::vector<std::string> OTHER = {"null", "true", "1", "-1", "0", "1.5", "-1.5", "1e300", "99999999999999999999", "4294967295", "-2147483649", "\"x\"", "\"\"", "\"Custom\"", "[]", "{}", "[1]", "[null]", "[\"x\"]", "[[]]", "[{}]", "{\"id\":1}", "{\"x\":null}"};
std::string documentOf(mc::Run &r, std::string &name) { // our own writer: everything is written
  static std::vector<Base> l;
  if (l.empty()) {
    auto add = [&](const std::string &n, const Doc &d) { l.push_back({n, jsonw::document(d, d.level)}); };
    add("rich", streams::base(true));
    add("lean", streams::base(false));
    for (auto &t : families(tweaksFor(J))) {
      Doc d = streams::base(false);
      apply(d, {&t});
      add(t.name, d);
    }
  }
  const Base &b = l[static_cast<size_t>(r.choose(r.thorough() ? static_cast<int>(l.size()) : 1))];
  name = b.name;
  return b.bytes;
}
void values(mc::Run &r) { // every value of every other kind
  std::string name;
  const std::string good = documentOf(r, name);
  const auto at = spots(good);
  const int i = r.choose(static_cast<int>(at.size()));
  if (!r.go()) return;
  const auto &s = at[static_cast<size_t>(i)];
  const std::string v = r.pick(OTHER);
  const std::string bad = good.substr(0, s.from) + v + good.substr(s.to);
  r.describe([&] { return "HJIF " + name + " with " + good.substr(s.key == std::string::npos ? s.from : s.key, std::min<size_t>(60, s.to - (s.key == std::string::npos ? s.from : s.key))) + " turned into " + v; });
  load(r, 2, bad);
}
void members(mc::Run &r) { // members and elements missing (two of them in the thorough tier), doubled, renamed
  std::string name;
  const std::string good = documentOf(r, name);
  const auto at = spots(good);
  const int i = r.choose(static_cast<int>(at.size()));
  if (!r.go()) return;
  auto without = [&](const std::string &t, const Spot &s) {
    size_t from = s.key == std::string::npos ? s.from : s.key, to = s.to;
    if (to < t.size() && t[to] == ',') to++;
    else if (from && t[from - 1] == ',') from--;
    return t.substr(0, from) + t.substr(to);
  };
  const auto &s = at[static_cast<size_t>(i)];
  const int how = r.choose(3);
  std::string bad;
  const size_t start = s.key == std::string::npos ? s.from : s.key;
  if (how == 0) bad = without(good, s);
  else if (how == 1) bad = good.substr(0, s.to) + (s.to < good.size() ? "," + good.substr(start, s.to - start) : "") + good.substr(s.to);
  else bad = s.key == std::string::npos ? good.substr(0, s.from) + "\"\\u0000\"" + good.substr(s.to) : good.substr(0, s.key + 1) + "_" + good.substr(s.key + 1);
  if (how == 0 && r.thorough()) {
    const auto more = spots(bad);
    const int j = r.choose(static_cast<int>(more.size()) + 1);
    if (j) bad = without(bad, more[static_cast<size_t>(j) - 1]);
  }
  r.describe([&] { return "HJIF " + name + (how == 0 ? " without " : how == 1 ? " with twice " : " without the name of ") + good.substr(start, std::min<size_t>(60, s.to - start)) + (r.thorough() ? ": " + bad : ""); });
  load(r, 2, bad);
}
void strings(mc::Run &r) { // every text replaced by texts of other members (enumerations!), long and odd ones
  std::string name;
  const std::string good = documentOf(r, name);
  std::vector<Spot> texts;
  for (auto &s : spots(good))
    if (good[s.from] == '"') texts.push_back(s);
  const int i = r.choose(static_cast<int>(texts.size()));
  if (!r.go()) return;
  static const std::vector<std::string> odd = {"", "A", "=", "====", "AB=C", "%%%%", "AAAA", "AAA", "\\u0000", "\\ud83d\\ude00", "Custom", "Vibrotactile", "Head face", "Basis", "Composite", "WaveletWave", "VectorialWave", "Sine", "2023-01-01", "99-99-99 99:99:99", std::string(300, 'A'), std::string(4000, '9')};
  const std::string v = r.pick(odd);
  const auto &s = texts[static_cast<size_t>(i)];
  const std::string bad = good.substr(0, s.from) + "\"" + v + "\"" + good.substr(s.to);
  r.describe([&] { return "HJIF " + name + " with the text " + good.substr(s.from, s.to - s.from) + " turned into \"" + v.substr(0, 40) + "\""; });
  load(r, 2, bad);
}
void units(mc::Run &r) { // streams put together from packets of our own: any types, any order, any lengths
  const int kind = r.choose(64);
  if (!r.go()) return;
  const int claimed = r.choose(4), has = r.choose(5), fill = r.choose(4), before = r.choose(2);
  std::vector<bool> b;
  auto put = [&](uint64_t v, int n) {
    for (int i = n - 1; i >= 0; i--) b.push_back(v >> i & 1);
  };
  static const int SIZES[] = {0, 1, 7, 60, 200};
  const int size = SIZES[has];
  const int len = claimed == 0 ? size : claimed == 1 ? size + 1 : claimed == 2 ? std::max(0, size - 1) : 0x1ffff;
  std::string s;
  if (before) s = bases(1)[0].bytes;
  put(1, 6), put(0, 2), put(0, 4), put(128, 24), put(static_cast<uint64_t>(size + 3), 32), put(0, 4);
  put(static_cast<uint64_t>(kind), 6), put(static_cast<uint64_t>(len), 17), put(0, 1);
  for (int i = 0; i < size; i++) put(fill == 0 ? 0 : fill == 1 ? 0xff : fill == 2 ? 0x55 : static_cast<uint64_t>(i), 8);
  for (size_t i = 0; i < b.size(); i += 8) {
    int c = 0;
    for (size_t j = 0; j < 8; j++) c = c << 1 | (b[i + j] ? 1 : 0);
    s += static_cast<char>(c);
  }
  r.describe([&] { return "MIHS packet of type " + std::to_string(kind) + " of " + std::to_string(size) + " bytes that says " + std::to_string(len) + ": " + hex(s); });
  load(r, 1, s);
}
// Whole numbers at the ends of their range, where one byte does not reach: times and counts of the stream
void extremes(mc::Run &r) {
  const int format = r.choose(2);
  const Base &b = base(r, format);
  if (!r.go()) return;
  const size_t n = static_cast<size_t>(r.choose(static_cast<int>(b.bytes.size())));
  if (!r.thorough() && b.name == "rich" && n > 200) return;
  const size_t width = static_cast<size_t>(r.pick(b.name != "lean" && !r.thorough() ? std::vector<int>{3} : std::vector<int>{2, 3, 4}));
  if (n + width > b.bytes.size()) return;
  const int k = r.choose(b.name != "lean" && !r.thorough() ? 2 : 3);
  std::string s = b.bytes;
  for (size_t i = 0; i < width; i++) s[n + i] = static_cast<char>(k == 0 ? 0xff : k == 1 ? (i ? 0xff : 0x7f) : (i ? 0 : 0x80));
  r.describe([&] { return std::string(NAME[format]) + " " + b.name + " with " + std::to_string(width) + " bytes at " + std::to_string(n) + " at an end of their range: " + hex(s); });
  load(r, format, s);
}
// Things put into each other, and texts, of any length.
struct Bits {
  std::string bytes;
  int free = 0;
  Bits &put(uint64_t v, int n) {
    for (int i = n - 1; i >= 0; i--) {
      if (!free) {
        bytes += '\0';
        free = 8;
      }
      if (v >> i & 1) bytes.back() = static_cast<char>(bytes.back() | 1 << (free - 1));
      free--;
    }
    return *this;
  }
  Bits &text(const std::string &s) {
    put(s.size(), 8);
    for (unsigned char c : s) put(c, 8);
    return *this;
  }
};
void unitOf(Bits &b, int packet, const Bits &payload) {
  b.put(0, 6).put(0, 2).put(0, 4).put(0, 24).put(payload.bytes.size() + 3, 32).put(0, 4);
  b.put(static_cast<uint64_t>(packet), 6).put(payload.bytes.size(), 17).put(0, 1);
  for (unsigned char c : payload.bytes) b.put(c, 8);
}
void huge(mc::Run &r) {
  const int shape = r.choose(8);
  const int size = r.pick(std::vector<int>{10, 300, 3000, 12000, 100000, 1000000});
  if (!r.go()) return;
  const int fill = r.choose(4);
  static const std::vector<std::string> FILL[] = {{"[", "]"}, {"{\"a\":", "}"}, {"[1,", "]"}, {"{\"a\":[", "]}"}};
  std::string s, what;
  int format = 2;
  if (shape == 0 || shape == 1) { // JSON: nothing else, or an unknown member of a document
    for (int i = 0; i < size; i++) s += FILL[fill][0];
    s += fill == 0 ? "" : "null";
    for (int i = 0; i < size; i++) s += FILL[fill][1];
    if (shape == 1) {
      auto d = jsonw::document(streams::base(false), 1);
      s = d.substr(0, d.rfind('}')) + ",\"more\":" + s + "}";
    }
    what = "HJIF nested";
  } else if (shape == 2) { // JSON: long texts
    const auto good = jsonw::document(streams::base(true), 2);
    std::vector<Spot> texts;
    for (auto &t : spots(good))
      if (good[t.from] == '"') texts.push_back(t);
    const auto &t = texts[static_cast<size_t>(r.choose(static_cast<int>(texts.size())))];
    const std::string v = fill == 0 ? "urn:mpeg:" + std::string(static_cast<size_t>(size), 'a') : fill == 1 ? "2023-01-01T00:00:00." + std::string(static_cast<size_t>(size), '9') + "+01:00" : fill == 2 ? "http://a" + std::string(static_cast<size_t>(size), '/') : std::string(static_cast<size_t>(size), '-');
    s = good.substr(0, t.from) + "\"" + v + "\"" + good.substr(t.to);
    what = "HJIF with " + good.substr(t.from, t.to - t.from) + " turned into " + v.substr(0, 30);
  } else if (shape == 3 || shape == 4) { // HMPG: timelines in timelines, in the library and in a band
    format = 0;
    Bits b;
    b.text("2023").text("Main").put(1, 8).text("2023-01-01").text("").put(0, 8); // no avatars
    b.put(1, 8).put(0, 8).put(2, 8).text("").put(0, 8).put(0, 8).put(0, 8);
    b.put(shape == 3 ? 1 : 0, 16);
    auto library = [&](int n) {
      for (int i = 0; i < n; i++) b.put(static_cast<uint64_t>(i), 16).put(0, 25).put(2, 2).put(0, 16).put(fill == 1 ? 2 : fill == 2 ? 0xffff : 1, 16);
      b.put(0, 16).put(0, 25).put(2, 2).put(0, 16).put(0, 16);
    };
    if (shape == 3) library(size);
    b.put(0, 8).put(1, 16); // no devices, a channel
    b.put(0, 16).text("").put(255, 8).put(1u << 31, 32).put(0, 32).put(1, 8).put(0, 32).put(0, 32).put(0, 16).put(1, 8);
    b.put(static_cast<uint64_t>(fill % 4), 3);
    if (fill == 1) b.put(0, 4);
    if (fill == 3) b.put(0, 8);
    b.put(0, 16).put(1000, 16).put(shape == 4 ? 1 : 0, 16);
    if (shape == 4) {
      for (int i = 0; i < size; i++) b.put(2, 2).put(0, 25).put(fill == 2 ? 0xffff : 1, 16);
      b.put(2, 2).put(0, 25).put(0, 16);
    }
    s = b.bytes;
    what = shape == 3 ? "HMPG library" : "HMPG band";
  } else if (shape == 7) { // MIHS: many packets in a unit, many units
    format = 1;
    if (size > (fill < 2 ? 30000 : 3000)) return;
    Bits b;
    const int n = size;
    static const int TYPE[] = {0, 63, 9, 4};
    const int payload = fill == 0 ? 4 : fill == 1 ? 0 : 3;
    if (fill < 2) {
      b.put(1, 6).put(0, 2).put(0, 4).put(0, 24).put(static_cast<uint64_t>(n) * static_cast<uint64_t>(3 + payload), 32).put(0, 4);
      for (int i = 0; i < n; i++) b.put(static_cast<uint64_t>(TYPE[fill]), 6).put(static_cast<uint64_t>(payload), 17).put(0, 1).put(0, 8 * payload);
    } else
      for (int i = 0; i < n; i++) {
        Bits p;
        p.put(1, 8).put(0x1234, 16);
        unitOf(b, TYPE[fill], p);
      }
    s = bases(1)[0].bytes + b.bytes;
    what = fill < 2 ? "MIHS packets" : "MIHS units";
  } else { // MIHS: timelines in timelines of the library; protected units
    format = 1;
    s = bases(1)[0].bytes;
    Bits b, p;
    if (shape == 5) {
      p.put(0, 8).put(1, 16);
      for (int i = 0; i < size && p.bytes.size() < 131000; i++) p.put(static_cast<uint64_t>(i), 16).put(2, 2).put(0, 1).put(0, 25).put(0, 16).put(fill == 1 ? 2 : fill == 2 ? 0xffff : 1, 16);
      p.put(0, 16).put(2, 2).put(0, 1).put(0, 25).put(0, 16).put(0, 16);
      unitOf(b, 6, p);
    } else {
      if (size > 100000) return;
      for (int i = 0; i < size / 8; i++) p.put(static_cast<uint64_t>(i), 8);
      unitOf(b, 0, p); // a timing packet of any length
      Bits c;
      c.put(fill == 0 ? 0 : 1, 8).put(0x1234, 16).put(0, 16);
      unitOf(b, fill == 0 ? 8 : fill == 1 ? 9 : fill == 2 ? 7 : 10, c);
    }
    if (shape == 5) s += b.bytes;
    else s = b.bytes;
    what = shape == 5 ? "MIHS library" : "MIHS protection of long units";
  }
  r.describe([&] { return what + ", size " + std::to_string(size) + ", kind " + std::to_string(fill); });
  const bool loaded = load(r, format, s);
  r.tag("huge-" + std::to_string(shape) + (loaded ? "-loaded" : "-refused"));
}
void nothing(mc::Run &r) { // no file, a folder, nothing in it
  const int format = r.choose(3);
  const int what = r.choose(3);
  if (!r.go()) return;
  r.tag(std::string(NAME[format]) + "-nothing");
  auto path = mc::scratch() + "/c08-none";
  std::filesystem::remove_all(path);
  if (what == 1) std::filesystem::create_directory(path);
  if (what == 2) spew(path, "");
  r.describe([&] { return std::string(NAME[format]) + (what == 0 ? ": no file" : what == 1 ? ": a folder" : ": an empty file"); });
  ht::Haptics h;
  bool ok = false;
  try {
    ok = format == 0 ? IOBinary::loadFile(path, h) : format == 1 ? IOStream::readFile(path, h) : IOJson::loadFile(path, h);
  } catch (const std::exception &) {
  }
  std::filesystem::remove_all(path);
  REQUIRE(r, !ok, "nothing-loaded", std::string(NAME[format]) + ": loading succeeded");
  r.step();
  r.state(static_cast<uint64_t>(format * 3 + what));
}
// OHM descriptors: cut off anywhere, every byte changed. What is loaded goes into a document and out again.
std::string descriptor(int shape) {
  using haptics::tools::OHMData;
  OHMData x;
  x.setHeader("OHM ");
  x.setVersion(1);
  x.setDescription("descriptor");
  for (int i = 0; i < shape; i++) {
    OHMData::HapticElementMetadata e;
    e.elementFilename = "element" + std::to_string(i) + ".hjif";
    e.elementDescription = i ? "Friction" : "Vibration";
    for (int j = 0; j < shape - i; j++) {
      OHMData::HapticChannelMetadata c;
      c.channelDescription = "channel";
      c.gain = 0.5F;
      c.bodyPartMask = OHMData::Body::HEAD_LEFT;
      e.channelsMetadata.push_back(c);
    }
    e.numHapticChannels = static_cast<short>(e.channelsMetadata.size());
    x.addHapticElementMetadata(e);
  }
  const auto path = mc::scratch() + "/c08-ohm";
  x.writeFile(path);
  return slurp(path);
}
void descriptors(mc::Run &r) {
  const int shape = r.choose(3);
  const bool cut = r.flip();
  if (!r.go()) return;
  r.tag("descriptor");
  std::string s = descriptor(shape);
  const auto n = static_cast<size_t>(r.choose(static_cast<int>(s.size())));
  if (cut) {
    s.resize(n);
    if (r.flip()) s += std::string(40, '\xff');
  } else {
    const auto v = static_cast<char>(r.choose(r.thorough() || n < 10 ? 256 : 3));
    s[n] = r.thorough() || n < 10 ? v : v == 0 ? '\0' : v == 1 ? '\xff' : static_cast<char>(s[n] ^ 1);
  }
  r.describe([&] { return "OHM: " + hex(s); });
  const auto path = mc::scratch() + "/c08-ohm-in";
  spew(path, s);
  const auto begin = std::clock();
  std::string what;
  try {
    haptics::tools::OHMData x;
    if (!x.loadFile(path)) what = "refused";
    else {
      ht::Haptics h;
      h.loadMetadataFromOHM(x);
      std::string name = "x";
      auto y = h.extractMetadataToOHM(name);
      what = std::to_string(y.getHapticElementMetadataSize());
      y.writeFile(path);
    }
  } catch (const std::exception &e) {
    what = std::string("error ") + e.what();
  }
  const double sec = static_cast<double>(std::clock() - begin) / CLOCKS_PER_SEC;
  REQUIRE(r, sec < 10, "slow", "OHM: took " + std::to_string(sec) + " s");
  r.step();
  r.state(what);
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  std::cout.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C08", {{"nothing", nothing}, {"descriptors", descriptors}, {"truncated", truncated}, {"changed", changed}, {"dropped", dropped}, {"extremes", extremes}, {"huge", huge}, {"units", units}, {"values", values}, {"members", members}, {"strings", strings}, {"two-bytes", twoBytes, true}});
}
