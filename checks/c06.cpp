// C06: an experience written as HJIF and loaded again is the same experience, exactly.
#include "gen.h"
#include <IOHaptics/include/IOJson.h>
using namespace doc;
using namespace gen;
using haptics::io::IOJson;

namespace {
Eff stored(const Eff &e, int kind, bool library) {
  Eff r = e;
  if (library) {
    r.wave.clear();
    return r;
  }
  if (e.type != 1) r.id = -1;
  if (e.type != 0 || kind == 1 || kind == 3) {
    r.phase.reset();
    r.base.reset();
  }
  if (e.type != 0 || kind == 3) r.kfs.clear();
  if (e.type != 0 || kind != 3) r.wave.clear();
  return r;
}
Doc stored(Doc d) {
  for (auto &a : d.avatars)
    if (a.type != 0) a.mesh.reset();
  for (auto &s : d.syncs) s.timescale = s.timescale.value_or(1000);
  for (auto &p : d.percs) {
    for (auto &e : p.library) e = stored(e, 2, true);
    for (auto &c : p.channels)
      for (auto &b : c.bands) {
        if (b.type != 1) b.curve.reset();
        if (b.type != 3) b.block.reset();
        for (auto &e : b.effects) e = stored(e, b.type, false);
      }
  }
  return d;
}
Doc withoutTimelines(Doc d) {
  for (auto &p : d.percs) {
    for (auto &e : p.library) e.timeline.clear();
    for (auto &c : p.channels)
      for (auto &b : c.bands)
        for (auto &e : b.effects) e.timeline.clear();
  }
  return d;
}
void noTimelines(std::vector<Eff> &es) {
  for (size_t i = 0; i < es.size();)
    if (es[i].type == 2) es.erase(es.begin() + static_cast<long>(i));
    else i++;
}
Doc conformantRich() { // composites have a scenario of their own
  Doc d = rich();
  for (auto &p : d.percs) {
    noTimelines(p.library);
    for (auto &c : p.channels)
      for (auto &b : c.bands) noTimelines(b.effects);
  }
  return d;
}

void roundTrip(mc::Run &r, const Doc &d) {
  r.describe([&] { return dump(d); });
  auto h = toHaptics(d);
  const auto path = mc::scratch() + "/c06.hjif";
  try {
    IOJson::writeFile(h, path);
    r.step();
    r.state(slurp(path));
    haptics::types::Haptics back;
    const bool ok = IOJson::loadFile(path, back);
    r.step();
    REQUIRE(r, ok, "refused", "the file written from it is refused: " + dump(d));
    const auto got = fromHaptics(back);
    const auto why = difference(stored(d), got);
    if (!why.empty() && difference(withoutTimelines(stored(d)), got).empty())
      r.fail("timeline-lost", why + " in " + dump(d));
    REQUIRE(r, why.empty(), "differs", why + " in " + dump(d));
  } catch (const mc::Violation &) {
    throw;
  } catch (const std::exception &e) {
    r.fail("exception", std::string("ended with ") + e.what() + ": " + dump(d));
  }
}

void fields(mc::Run &r) {
  static const auto ts = tweaksFor(J);
  const bool isRich = r.flip();
  const int i = r.choose(static_cast<int>(ts.size()));
  if (!r.go()) return;
  r.tag(ts[i].name);
  Doc d = isRich ? conformantRich() : lean();
  if (ts[i].name.find("#nul") != std::string::npos) return; // NUL characters are outside the property
  apply(d, {&ts[i]});
  roundTrip(r, d);
}
void pairs(mc::Run &r) {
  static const auto ts = [] {
    std::vector<Tweak> t;
    for (auto &x : tweaksFor(J))
      if (x.name.find("#nul") == std::string::npos) t.push_back(x);
    return t;
  }();
  static const auto few = families(ts);
  const auto &use = r.thorough() ? ts : few;
  const int n = static_cast<int>(use.size());
  const int i = r.choose(n);
  if (!r.go()) return;
  const int j = i + r.choose(n - i);
  const bool isRich = r.flip();
  r.tag(use[i].name + "+" + use[j].name);
  Doc d = isRich ? conformantRich() : lean();
  apply(d, {&use[i], &use[j]});
  roundTrip(r, d);
}
void keyframesOf(mc::Run &r) {
  const int where = r.choose(4);
  const int n = r.choose(r.thorough() ? 5 : 4);
  if (!r.go()) return;
  r.tag("keyframes-" + std::to_string(where));
  Eff e = where >= 2 ? vect(30, {}, 2, 1) : basis(30, {});
  e.kfs = keyframes(r, where, n);
  Doc d = lean();
  if (where == 3) {
    e.id = 77;
    Eff f = e;
    f.id = 78;
    P(d).library = {e, f};
  } else C(d).bands = {band(where, 0, 1000, {e})};
  roundTrip(r, d);
}
// Every payload of up to two bytes; longer ones over bytes that matter to the text form.
void payloads(mc::Run &r) {
  const int n = r.choose(r.thorough() ? 8 : 7);
  static const std::vector<unsigned char> some = {0, 1, 0x80, 0xff, 0x3f, 0xc3};
  const int first = n ? r.choose(n <= 2 ? 256 : 6) : 0;
  if (!r.go()) return;
  r.tag("payload-" + std::to_string(n));
  std::vector<unsigned char> v;
  for (int i = 0; i < n; i++) {
    if (i == 0) v.push_back(static_cast<unsigned char>(n <= 2 ? first : some[first]));
    else v.push_back(static_cast<unsigned char>(n <= 2 ? r.choose(256) : some[r.choose(n <= 4 || r.thorough() ? 6 : 3)]));
  }
  Doc d = lean();
  C(d).bands = {band(3, 0, 1000, {wave(0, v)})};
  C(d).bands[0].block = 32;
  roundTrip(r, d);
}
// Floats of every exponent and sign, with low, high and mixed significands, in every float field.
void floats(mc::Run &r) {
  const int field = r.choose(7);
  const int exp = field == 0 || r.thorough() ? r.choose(254) : 9 * r.choose(29);
  if (!r.go()) return;
  r.tag("float-" + std::to_string(field));
  static const uint32_t sig[] = {0, 1, 2, 0x7fffff, 0x400000, 0x2aaaaa, 0x555555, 0x123456, 0x7ffffe};
  const uint32_t bits = static_cast<uint32_t>(exp) << 23 | sig[r.choose(9)] | (field != 6 && r.flip() ? 0x80000000U : 0U);
  float v = 0;
  static_assert(sizeof v == sizeof bits);
  std::memcpy(&v, &bits, 4);
  Doc d = lean();
  switch (field) {
  case 0: C(d).gain = v; break;
  case 1: C(d).mix = v; break;
  case 2: K(d, 2).amp = v; break;
  case 3: E(d, 2).phase = v; break;
  case 4: L(d).kfs[0].amp = v; break;
  case 5: D(d).f[10] = v; break;
  default: D(d).f[0] = v; break;
  }
  roundTrip(r, d);
}
// Every single character, and pairs of characters that JSON treats specially, in every text.
void characters(mc::Run &r) {
  const int field = r.choose(6);
  const bool two = r.flip();
  static const std::vector<std::string> special = {"\"", "\\", "/", "\n", "\x1f", "\x7f", "u0041", "\xc2\x80", "\xdf\xbf", "\xe0\xa0\x80", "\xef\xbf\xbf", "\xf0\x90\x80\x80", "\xf4\x8f\xbf\xbf", "'", "<", "a"};
  if (!r.go()) return;
  r.tag("characters");
  std::string s;
  if (two) s = special[r.choose(16)] + special[r.choose(16)];
  else {
    const unsigned c = 1 + static_cast<unsigned>(r.choose(field == 0 || r.thorough() ? 0x24ff : 0x17f));
    if (c < 0x80) s = std::string(1, static_cast<char>(c));
    else if (c < 0x800) s = {static_cast<char>(0xc0 | c >> 6), static_cast<char>(0x80 | (c & 63))};
    else s = {static_cast<char>(0xe0 | c >> 12), static_cast<char>(0x80 | (c >> 6 & 63)), static_cast<char>(0x80 | (c & 63))};
  }
  Doc d = lean();
  switch (field) {
  case 0: d.desc = s; break;
  case 1: P(d).desc = s; break;
  case 2: C(d).desc = s; break;
  case 3: D(d).name = s; break;
  case 4:
    P(d).scheme = "urn:example:words";
    E(d, 2).semantic = s;
    break;
  default:
    A(d).type = 0;
    A(d).mesh = "http://x/" + s;
  }
  roundTrip(r, d);
}
void shapes(mc::Run &r) {
  int budget = r.thorough() ? 9 : 7;
  Doc d;
  while (budget > 0 && d.percs.size() < 3 && r.flip()) {
    budget--;
    Perc p;
    p.id = static_cast<int>(d.percs.size()) + 1;
    while (budget > 0 && p.channels.size() < 3 && r.flip()) {
      budget--;
      Chan c;
      c.id = static_cast<int>(p.channels.size()) * 2 + 1;
      while (budget > 0 && c.bands.size() < 3 && r.flip()) {
        budget--;
        const int kind = r.choose(4);
        BandD b = band(kind, 10 * budget, 1000, {});
        if (kind == 1) b.curve = 1 + budget % 5;
        if (kind == 3) b.block = 32;
        while (budget > 0 && b.effects.size() < 3 && r.flip()) {
          budget--;
          const int at = static_cast<int>(b.effects.size()) * 32;
          if (kind == 3) b.effects.push_back(wave(at, {static_cast<unsigned char>(budget), 1}));
          else if (kind == 2) b.effects.push_back(vect(at, {kf(budget, 0.5F, budget)}, 1, 3));
          else b.effects.push_back(basis(at, {kf(budget, 0.5F, kind ? Opt<int>() : Opt<int>(budget))}));
        }
        c.bands.push_back(b);
      }
      p.channels.push_back(c);
    }
    d.percs.push_back(p);
  }
  if (!r.go()) return;
  r.tag("shape");
  roundTrip(r, d);
}
// Lists of every length.
void lists(mc::Run &r) {
  static const std::vector<int> ns = {0, 1, 2, 3, 4, 15, 16, 17, 255, 256, 300, 1000};
  const int what = r.choose(12);
  const int listed = r.pick(ns);
  // Level 2 ends at 63 bands in a channel: a document with more is turned down by rule.
  const int n = what == 8 ? std::min(listed, 63) : listed;
  if (!r.go()) return;
  r.tag("list-" + std::to_string(what));
  Doc d = lean();
  d.level = 2;
  auto &p = P(d);
  auto &c = C(d);
  switch (what) {
  case 0:
    for (int i = 0; i < n; i++) d.avatars.push_back({i + 1, i, i % 4, i % 4 ? Opt<std::string>() : Opt<std::string>(std::to_string(i))});
    break;
  case 1: {
    const auto q = p;
    d.percs.assign(static_cast<size_t>(n), q);
    for (int i = 0; i < n; i++) d.percs[static_cast<size_t>(i)].id = i;
    break;
  }
  case 2:
    for (int i = 0; i < n; i++) {
      Dev v;
      v.id = i;
      v.name = std::to_string(i);
      p.devices.push_back(v);
    }
    break;
  case 3: {
    const auto q = c;
    p.channels.assign(static_cast<size_t>(n), q);
    for (int i = 0; i < n; i++) p.channels[static_cast<size_t>(i)].id = i;
    break;
  }
  case 4:
    for (int i = 0; i < n; i++) {
      Eff e = vect(i, {});
      e.id = i;
      p.library.push_back(e);
    }
    break;
  case 5:
    for (int i = 0; i < n; i++) c.verts.push_back(i * 3);
    break;
  case 6:
    c.res = Vec{1, 1, 1};
    c.parts.emplace();
    for (int i = 0; i < n; i++) c.parts->push_back(i % 3 ? 1 : 20);
    break;
  case 7:
    c.res = Vec{1, 1, 1};
    c.targets.emplace();
    for (int i = 0; i < n; i++) c.targets->push_back({i % 2, 1, 0});
    break;
  case 8:
    c.bands.clear();
    for (int i = 0; i < n; i++) c.bands.push_back(band(0, i, 1000, {basis(i, {kf(0, 0.5F, i)})}));
    break;
  case 9:
    c.bands[0].effects.clear();
    for (int i = 0; i < n; i++) c.bands[0].effects.push_back(vect(i * 3, {kf(0, 0.5F, i)}));
    break;
  case 10:
    c.bands[0].effects = {vect(5, {})};
    for (int i = 0; i < n; i++) c.bands[0].effects[0].kfs.push_back(kf(i, 0.25F, i));
    break;
  default:
    d.syncs.clear();
    for (int i = 0; i < n; i++) d.syncs.push_back({i * 7, {}});
    break;
  }
  roundTrip(r, d);
}
void timelines(mc::Run &r) {
  const int where = r.choose(5);
  if (!r.go()) return;
  r.tag("timeline-" + std::to_string(where));
  int budget = r.thorough() ? 6 : 4;
  Doc d = lean();
  for (int i = 0; i < 12; i++) { // every id a reference may have
    Eff e = vect(0, {});
    e.id = i;
    P(d).library.push_back(e);
  }
  if (where == 4) {
    for (auto &e : forest(r, 2, budget, 3, 25, true)) P(d).library.push_back(e);
  } else {
    auto f = forest(r, where, budget, 3, where == 3 ? 64 : 25);
    BandD b = band(where, 0, 1000, f);
    if (where == 3) b.block = 64;
    C(d).bands = {b};
  }
  roundTrip(r, d);
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C06",
                     {{"fields", fields}, {"shapes", shapes}, {"keyframes", keyframesOf}, {"payloads", payloads}, {"floats", floats}, {"characters", characters}, {"timelines", timelines}, {"lists", lists}, {"pairs", pairs}});
}
