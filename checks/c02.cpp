// C02: encoding has no side effects, is repeatable whatever happened before, and does not drift over generations.
#include "streams.h"
#include <IOHaptics/include/IOBinary.h>
#include <IOHaptics/include/IOJson.h>
#include <IOHaptics/include/IOStream.h>
#include <map>
#include <unordered_map>
using namespace doc;
using namespace gen;
using haptics::io::IOBinary;
using haptics::io::IOJson;
using haptics::io::IOStream;
namespace ht = haptics::types;

namespace {
const char *NAME[] = {"HMPG", "MIHS", "HJIF"};

std::string file(const char *what) { return mc::scratch() + "/c02-" + what; }
std::string bits(const mihs::Units &us) {
  std::string s;
  for (auto &u : us) {
    for (bool b : u) s += b ? '1' : '0';
    s += '\n';
  }
  return s;
}
// Bytes of an encoding; empty when refused. The stream also through its list of units.
bool encode(int format, ht::Haptics &h, int pd, std::string &out, bool toFile = true) {
  const auto path = file("out");
  if (toFile) std::filesystem::remove(path);
  bool ok = true;
  if (format == 0) ok = IOBinary::writeFile(h, path);
  else if (format == 1 && !toFile) {
    mihs::Units us;
    ok = IOStream::writeUnits(h, us, pd);
    out = bits(us);
    return ok;
  } else if (format == 1) ok = IOStream::writeFile(h, path, pd);
  else IOJson::writeFile(h, path);
  if (ok) out = slurp(path);
  return ok;
}
// Effects of bands have no identifier of their own: the stream gives them one.
Doc read(int format, ht::Haptics &h) {
  Doc d = fromHaptics(h);
  if (format == 1)
    for (auto &p : d.percs)
      for (auto &c : p.channels)
        for (auto &b : c.bands)
          for (auto &e : b.effects)
            if (e.type != 1) e.id = -1;
  return d;
}
bool decode(int format, const std::string &bytes, ht::Haptics &h) {
  const auto path = file("in");
  spew(path, bytes);
  if (format == 0) return IOBinary::loadFile(path, h);
  if (format == 1) return IOStream::readFile(path, h);
  return IOJson::loadFile(path, h);
}

void check(mc::Run &r, const Doc &d, int format, int pd) {
  const std::string f = NAME[format];
  r.describe([&] { return f + (format == 1 ? " packets of " + std::to_string(pd) : "") + ": " + dump(d); });
  auto h = toHaptics(d);
  std::string first, again;
  REQUIRE(r, encode(format, h, pd, first), "write", f + " writing failed: " + dump(d));
  r.step();
  r.state(first);
  auto why = difference(d, fromHaptics(h));
  REQUIRE(r, why.empty(), "side-effect", f + " writing changed the document: " + why + " in " + dump(d));
  REQUIRE(r, encode(format, h, pd, again), "write-again", f + " writing again failed: " + dump(d));
  r.step();
  REQUIRE(r, first == again, "not-repeatable", f + " writing the document again gives other bytes: " + dump(d));
  // generations
  ht::Haptics g1, g2;
  REQUIRE(r, decode(format, first, g1), "load", f + " loading failed: " + dump(d));
  const bool ids = difference(read(format, g1), fromHaptics(g1)).empty();
  auto d1 = read(format, g1);
  std::string second, third;
  REQUIRE(r, encode(format, g1, pd, second), "write-second", f + " writing what was loaded failed: " + dump(d));
  why = difference(d1, read(format, g1));
  REQUIRE(r, why.empty(), "side-effect", f + " writing changed the loaded document: " + why + " in " + dump(d));
  REQUIRE(r, decode(format, second, g2), "load-second", f + " loading the second generation failed: " + dump(d));
  auto d2 = read(format, g2);
  why = difference(d1, d2);
  REQUIRE(r, why.empty(), "drift", f + " second generation differs: " + why + " in " + dump(d));
  REQUIRE(r, encode(format, g2, pd, third), "write-third", f + " writing the second generation failed: " + dump(d));
  if (ids) REQUIRE(r, second == third, "drift-bytes", f + " third encoding differs from the second: " + dump(d));
  r.step(4);
}

bool usable(const Tweak &t, int format) { return format != 2 || t.name.find("#nul") == std::string::npos; }
const std::vector<Tweak> &tweakList(int format) {
  static const std::vector<Tweak> all[3] = {tweaksFor(H), tweaksFor(M), tweaksFor(J)};
  return all[format];
}
Doc start(int format, bool isRich) { return format == 1 ? streams::base(isRich) : isRich ? rich() : lean(); }

void fields(mc::Run &r) {
  const int format = r.choose(3);
  const bool isRich = r.flip();
  auto &ts = tweakList(format);
  const int i = r.choose(static_cast<int>(ts.size()));
  if (!r.go()) return;
  if (!usable(ts[i], format)) return;
  r.tag(std::string(NAME[format]) + " " + ts[i].name);
  Doc d = start(format, isRich);
  apply(d, {&ts[i]});
  if (format == 1 && !streams::streamable(d)) return;
  check(r, d, format, 128);
}
void pairs(mc::Run &r) {
  static const std::vector<Tweak> fam[3] = {families(tweakList(0)), families(tweakList(1)), families(tweakList(2))};
  const int format = r.choose(3);
  auto &ts = r.thorough() ? tweakList(format) : fam[format];
  const int i = r.choose(static_cast<int>(ts.size()));
  if (!r.go()) return;
  const int j = r.thorough() ? r.choose(static_cast<int>(ts.size())) : i + r.choose(static_cast<int>(ts.size()) - i);
  if (!usable(ts[i], format) || !usable(ts[j], format)) return;
  r.tag(std::string(NAME[format]) + " " + ts[i].name + "+" + ts[j].name);
  Doc d = start(format, true);
  apply(d, {&ts[i], &ts[j]});
  if (format == 1 && !streams::streamable(d)) return;
  check(r, d, format, 128);
}
// Quantised values: every code, half-way values, and every generation of them.
void values(mc::Run &r) {
  const int format = r.choose(3);
  const int what = r.choose(9);
  const int part = r.choose(16);
  if (!r.go()) return;
  r.tag(std::string(NAME[format]) + " value-" + std::to_string(what));
  const int per = r.thorough() ? 256 : 48;
  const int i = part * per + r.choose(per);
  const double x = static_cast<double>(i) / (16 * per - 1); // 0..1
  Doc d = start(format, false);
  switch (what) {
  case 0: K(d, 0).amp = static_cast<float>(2 * x - 1); break;
  case 1: K(d, 1).amp = static_cast<float>(2 * x - 1); break;
  case 2: K(d, 2).amp = static_cast<float>(2 * x - 1); break;
  case 3: E(d, 2).phase = static_cast<float>(x * 6.28318); break;
  case 4: C(d).gain = static_cast<float>(x * 3 - 1); break;
  case 5: C(d).mix = static_cast<float>(x * x); break;
  case 6: D(d).f[3 + i % 8] = static_cast<float>(x * 900); break;
  case 7: {
    Eff e = vect(0, {kf(0, static_cast<float>(2 * x - 1), 10)}, static_cast<float>(x * 6.28318), i % 5);
    e.id = 3;
    P(d).library = {e};
    break;
  }
  default:
    for (int k = 0; k < 11; k++) D(d).f[k] = static_cast<float>(x * 300 + (k == 0 ? 20 : k == 1 ? 3 : k * 5));
    K(d, 0).amp = static_cast<float>(2 * x - 1) / 3;
    break;
  }
  check(r, d, format, 128);
}
void trees(mc::Run &r) {
  const int format = r.choose(3);
  const int where = r.choose(5);
  if (!r.go()) return;
  r.tag(std::string(NAME[format]) + " tree");
  int budget = r.thorough() ? 6 : 4;
  Doc d = lean();
  if (where == 4) P(d).library = forest(r, 2, budget, 2, 25, true);
  else {
    BandD b = band(where, 0, 1000, forest(r, where, budget, format == 1 ? 0 : 2, where == 3 ? 64 : 25));
    if (where == 1) b.curve = 2;
    if (where == 3) b.block = 64;
    C(d).bands = {b, band(0, 3, 4, {basis(1, {kf(2, 1.0F, 3)})})};
    for (int i = 0; i < 20; i++) { // what the references refer to
      Eff e = vect(0, {kf(0, 0.5F, i)});
      e.id = i;
      P(d).library.push_back(e);
    }
  }
  check(r, d, format, 128);
}
void packets(mc::Run &r) {
  static const std::vector<int> pds = {20, 64, 100, 128, 250, 1000};
  const int pd = r.pick(pds);
  const int kind = r.choose(4);
  if (!r.go()) return;
  r.tag("packets");
  Doc d = streams::base(r.flip());
  std::vector<Eff> es;
  const int n = 1 + r.choose(r.thorough() ? 3 : 2);
  int at = 0;
  for (int i = 0; i < n; i++) {
    at += r.choose(4) * 32;
    Eff e = kind == 2 ? vect(at, {kf(0, 0.5F, 100)}, 1, 2) : basis(at, {kf(0, 0.5F, kind == 1 ? Opt<int>() : Opt<int>(100))});
    if (kind == 3) e = wave(64 * i, {1, 2});
    else if (r.flip()) {
      e.kfs.push_back(kf(90, 0.25F, kind == 1 ? Opt<int>() : Opt<int>(100)));
      if (kind != 0) at += 90;
    }
    es.push_back(e);
  }
  BandD b = band(kind, 0, 1000, es);
  if (kind == 1) b.curve = 2;
  if (kind == 3) b.block = 64;
  C(d).bands = {b};
  if (r.flip()) d.syncs = {{0, 1000}, {100, 1000}};
  check(r, d, 1, pd);
}

// ---------------------------------------------------------------- whatever happened before
Doc sample(int i) {
  switch (i) {
  case 0: return streams::base(true);
  case 1: {
    Doc d = lean();
    d.timescale = 8000;
    d.desc = "other";
    Eff e = vect(0, {kf(0, 0.5F, 100), kf(700, 0.25F, 90)}, 1, 2);
    C(d).bands = {band(2, 10, 500, {e}), band(0, 1, 2, {basis(40, {kf(0, 1.0F, 3)})})};
    return d;
  }
  default: {
    Doc d = streams::base(true);
    P(d).scheme = "urn:other:words";
    P(d).id = 4;
    C(d).id = 9;
    C(d).fs.reset();
    return d;
  }
  }
}
struct Known { // what each operation gives in a fresh process
  std::string enc[3][3];
  Doc dec[3][3];
};
const Known &known() {
  static const Known k = [] {
    Known x;
    for (int i = 0; i < 3; i++)
      for (int f = 0; f < 3; f++) {
        auto h = toHaptics(sample(i));
        if (!encode(f, h, 128, x.enc[i][f])) throw std::runtime_error("reference encoding failed");
        ht::Haptics g;
        decode(f, x.enc[i][f], g);
        x.dec[i][f] = fromHaptics(g);
      }
    return x;
  }();
  return k;
}
// Bytes that are no document, or end in the middle of one.
std::string bad(int f, int i) {
  auto s = known().enc[i][f];
  return s.substr(0, s.size() / 2);
}
void histories(mc::Run &r) {
  const int depth = r.thorough() ? 4 : 3;
  const int a = r.choose(3);
  const int b = r.choose(3);
  if (!r.go()) return;
  auto &k = known();
  // documents that live through the whole history
  std::vector<ht::Haptics> live;
  std::vector<Doc> before;
  for (int i = 0; i < 3; i++) {
    before.push_back(sample(i));
    live.push_back(toHaptics(before.back()));
  }
  std::string story;
  r.describe([&] { return story; });
  for (int n = 0; n < depth; n++) {
    const int format = n == 0 ? a : r.choose(3);
    const int which = n == 0 ? b : r.choose(n + 1 == depth ? 2 : 3);
    const int op = r.choose(3); // encode, decode, try to decode a damaged one
    story += std::string(op == 0 ? "encode " : op == 1 ? "decode " : "decode damaged ") + NAME[format] + " of document " + std::to_string(which) + "; ";
    r.tag(std::string(op == 0 ? "encode " : op == 1 ? "decode " : "damaged ") + NAME[format]);
    r.step();
    if (op == 0) {
      std::string out;
      REQUIRE(r, encode(format, live[which], 128, out), "history-write", "writing failed after: " + story);
      REQUIRE(r, out == k.enc[which][format], "history-bytes", "encoding differs from that of a fresh process after: " + story);
      auto why = difference(before[which], fromHaptics(live[which]));
      REQUIRE(r, why.empty(), "side-effect", "writing changed the document: " + why + " after: " + story);
    } else if (op == 1) {
      ht::Haptics g;
      REQUIRE(r, decode(format, k.enc[which][format], g), "history-load", "loading failed after: " + story);
      auto why = difference(k.dec[which][format], fromHaptics(g));
      REQUIRE(r, why.empty(), "history-document", "decoding differs from that of a fresh process: " + why + " after: " + story);
    } else if (format == 0) {
      ht::Haptics g;
      try {
        decode(format, bad(format, which), g);
      } catch (const std::exception &) {
      }
    } else {
      ht::Haptics g;
      try {
        decode(format, format == 1 ? bad(format, which) : std::string("{"), g);
      } catch (const std::exception &) {
      }
    }
  }
  r.state(mc::hashStr(story));
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C02",
                     {{"fields", fields}, {"values", values}, {"trees", trees}, {"packets", packets}, {"histories", histories}, {"pairs", pairs, true}});
}
