// C07: the HJIF loader accepts exactly the documents that obey the semantic rules.
#include <climits>
#include "gen.h"
#include "jsonw.h"
#include <IOHaptics/include/IOJson.h>
#include <regex>
#include <set>
using namespace doc;
using namespace gen;
using haptics::io::IOJson;

namespace {
struct Case {
  Doc d;
  long long level = 1; // the level as it stands in the file
};

// ---------------------------------------------------------------- the rules, stated independently
bool digits(const std::string &s) {
  for (char c : s)
    if (c < '0' || c > '9') return false;
  return !s.empty();
}
bool goodVersion(const std::string &v) { // YYYY or YYYY-A
  if (v.size() != 4 && v.size() != 6) return false;
  if (!digits(v.substr(0, 4)) || std::stoi(v.substr(0, 4)) < 2023) return false;
  return v.size() == 4 || (v[4] == '-' && v[5] >= '1' && v[5] <= '9');
}
bool fourDigits(const std::string &s) { // the dates used here are ISO dates, or have no year
  int n = 0;
  for (char c : s) {
    n = c >= '0' && c <= '9' ? n + 1 : 0;
    if (n == 4) return true;
  }
  return false;
}
bool goodUrn(const std::string &s) { // "urn:" NID ":" NSS
  if (s.size() < 5 || std::tolower(s[0]) != 'u' || std::tolower(s[1]) != 'r' || std::tolower(s[2]) != 'n' || s[3] != ':') return false;
  const auto c = s.find(':', 4);
  if (c == std::string::npos || c - 4 < 2 || c - 4 > 32 || c + 1 == s.size()) return false;
  for (size_t i = 4; i < c; i++)
    if (!std::isalnum(static_cast<unsigned char>(s[i])) && s[i] != '-') return false;
  return s[4] != '-' && s[c - 1] != '-';
}
bool known(const Perc &p, const Opt<std::string> &semantic) {
  static const std::set<std::string> words = [] {
    std::set<std::string> w;
    for (auto &x : ht::stringToEffectSemantic) w.insert(x.first);
    return w;
  }();
  if (!semantic || (p.scheme && *p.scheme != "urn:mpeg:mpegi:haptics:effectsemantic:2023")) return true;
  return words.count(*semantic) > 0;
}
// The first rule that is broken, or nothing.
std::string broken(const Case &q) {
  const Doc &d = q.d;
  if (!goodVersion(d.version)) return "version";
  const bool simple = d.profile == "Simple Parametric";
  if (!simple && d.profile != "Main") return "profile";
  if (q.level != 1 && q.level != 2) return "level";
  if (!fourDigits(d.date)) return "date";
  if (!d.timescale) return "timescale";
  if (simple ? *d.timescale != 1000 : *d.timescale > 48000) return "timescale";
  std::set<int> avatars;
  for (auto &a : d.avatars) {
    if (a.id == 0) return "avatar id 0";
    if (!avatars.insert(a.id).second) return "avatar id twice";
    if (a.mesh && a.mesh->empty()) return "mesh uri";
  }
  std::set<int> percs;
  for (auto &p : d.percs) {
    if (!percs.insert(p.id).second) return "perception id twice";
    if (p.avatar != 0 && !avatars.count(p.avatar)) return "unknown avatar";
    if (simple && q.level == 1 && p.modality != 9 && p.modality != 6 && p.modality != 11 && p.modality != 10) return "modality";
    if (p.scheme && !goodUrn(*p.scheme)) return "scheme urn";
    if (q.level == 1 && p.channels.size() > 127) return "too many channels";
    std::set<int> devices, library, channels;
    for (auto &v : p.devices) {
      if (!devices.insert(v.id).second) return "device id twice";
      if (v.f[0] && v.f[1] && *v.f[0] < *v.f[1]) return "device max < min";
      if (v.f[2] && v.f[1] && *v.f[2] < *v.f[1]) return "device resonance < min";
      if (v.f[2] && v.f[0] && *v.f[2] > *v.f[0]) return "device resonance > max";
    }
    for (auto &e : p.library) {
      if (!library.insert(e.id).second) return "library id twice";
      if (simple && e.type == 2) return "composite in library";
      if (!known(p, e.semantic)) return "library semantic";
    }
    for (auto &c : p.channels) {
      if (!channels.insert(c.id).second) return "channel id twice";
      if (c.device && !devices.count(*c.device)) return "unknown device";
      if (c.dir) {
        const double n = std::sqrt(static_cast<double>(c.dir->x * c.dir->x + c.dir->y * c.dir->y + c.dir->z * c.dir->z)) / 127;
        if (n < 0.99 || n > 1.01) return "direction";
      }
      if (q.level == 1 && c.bands.size() > 7) return "too many bands";
      if (q.level == 2 && c.bands.size() > 63) return "too many bands";
      if (c.res && (c.res->x < 0 || c.res->y < 0 || c.res->z < 0)) return "resolution";
      if (c.targets && !c.res) return "targets without resolution";
      if (c.targets)
        for (auto &t : *c.targets)
          if (t.x < 0 || t.y < 0 || t.z < 0 || t.x > c.res->x || t.y > c.res->y || t.z > c.res->z) return "target";
      for (auto &b : c.bands) {
        if (b.curve && b.type != 1) return "curve type";
        if (b.type == 3 && (!b.block || *b.block <= 0 || (*b.block & (*b.block - 1)))) return "block length";
        if (b.type == 3 && simple) return "wavelet band";
        if (b.hi < b.lo) return "band limits";
        for (auto &e : b.effects) {
          if (simple && e.type == 2) return "composite effect";
          if (b.type == 3 && !e.kfs.empty()) return "wavelet keyframes";
          if (e.type == 1 && !library.count(e.id)) return "unknown library effect";
          if (!known(p, e.semantic)) return "semantic";
        }
      }
    }
  }
  return "";
}

// ---------------------------------------------------------------- documents
Eff named(Eff e, const std::string &s) {
  e.semantic = s;
  return e;
}
Doc base(bool simple) {
  Doc d;
  d.profile = simple ? "Simple Parametric" : "Main";
  d.avatars = {{1, 0, 1, {}}, {2, 0, 0, std::string("http://mesh/uri")}};
  const int modality[2] = {6, 9};
  for (int i = 0; i < 2; i++) {
    Perc p;
    p.id = i;
    p.avatar = i ? 2 : 1;
    p.modality = modality[i];
    if (i) p.scheme = "urn:mpeg:mpegi:haptics:effectsemantic:2023";
    for (int k = 0; k < 2; k++) {
      Dev v;
      v.id = k;
      v.name = "d";
      v.f[0] = 300.0F;
      v.f[1] = 50.0F;
      v.f[2] = 100.0F;
      p.devices.push_back(v);
      Eff e = vect(0, {kf(0, 0.5F, 100)});
      e.id = k + 5;
      p.library.push_back(e);
      Chan c;
      c.id = k;
      c.device = k;
      c.dir = Vec{0, k ? 127 : 90, k ? 0 : -90};
      c.res = Vec{4, 3, 2};
      c.targets = std::vector<Vec>{{0, 0, 0}, {4, 3, 2}};
      BandD cu = band(1, 0, 100, {basis(0, {kf(0, 0.5F, {})}), ref(60, 5)});
      cu.curve = 1;
      c.bands = {band(2, 0, 1000, {named(vect(0, {kf(0, 0.5F, 100)}), "UX/Click"), ref(60, 6)}), cu};
      if (!simple) {
        BandD w = band(3, 0, 1000, {wave(0, {1}), wave(64, {2})});
        w.block = 64;
        c.bands.push_back(w);
        c.bands[0].effects.push_back(comp(90, {}));
      }
      p.channels.push_back(c);
    }
    d.percs.push_back(p);
  }
  return d;
}

struct Mutation {
  std::string name;
  std::function<void(Case &)> f;
};
// Every rule at every place it applies to, with values on both sides.
std::vector<Mutation> mutations(const Doc &of) {
  std::vector<Mutation> m;
  auto add = [&](const std::string &n, std::function<void(Case &)> f) { m.push_back({n, std::move(f)}); };
  for (const char *v : {"2022", "2024", "2023-0", "2023-1", "9999-9", "23", "2023-10", "v2023", "2023 ", "", "2023-", "2023-x", "20233"})
    add(std::string("version ") + v, [v](Case &c) { c.d.version = v; });
  for (const char *v : {"Main", "Simple Parametric", "main", "", "Simple", "Main ", "Advanced"})
    add(std::string("profile ") + v, [v](Case &c) { c.d.profile = v; });
  for (long long v : {0LL, 1LL, 2LL, 3LL, 127LL, 255LL, 256LL, 257LL, 258LL, 65537LL, 4294967295LL}) add("level " + std::to_string(v), [v](Case &c) { c.level = v; });
  for (const char *v : {"2023", "2023-05", "2023-12-31", "2023-12-31T23:59:59+00:00", "", "202", "yesterday", "20-1-1", "1/2/23"})
    add(std::string("date ") + v, [v](Case &c) { c.d.date = v; });
  for (unsigned v : {0U, 1U, 999U, 1000U, 1001U, 47999U, 48000U, 48001U, 4294967295U})
    add("timescale " + std::to_string(v), [v](Case &c) { c.d.timescale = v; });
  add("no timescale", [](Case &c) { c.d.timescale.reset(); });
  for (size_t i = 0; i < of.avatars.size(); i++) {
    const auto at = "avatar" + std::to_string(i);
    for (int v : {0, 1, 2, 3, 255}) add(at + " id " + std::to_string(v), [i, v](Case &c) { c.d.avatars[i].id = v; });
    for (const char *v : {"", "x"}) add(at + " mesh " + v, [i, v](Case &c) { c.d.avatars[i].mesh = v; });
    add(at + " removed", [i](Case &c) {
      if (i < c.d.avatars.size()) c.d.avatars.erase(c.d.avatars.begin() + static_cast<long>(i));
      while (c.d.avatars.size() < 2) c.d.avatars.push_back({9 + static_cast<int>(c.d.avatars.size()), 0, 1, {}});
    });
  }
  for (size_t i = 0; i < of.percs.size(); i++) {
    const auto p = "perception" + std::to_string(i) + " ";
    for (int v : {0, 1, 7}) add(p + "id " + std::to_string(v), [i, v](Case &c) { c.d.percs[i].id = v; });
    for (int v : {0, 1, 2, 3}) add(p + "avatar " + std::to_string(v), [i, v](Case &c) { c.d.percs[i].avatar = v; });
    for (int v = 0; v < 14; v++) add(p + "modality " + std::to_string(v), [i, v](Case &c) { c.d.percs[i].modality = v; });
    for (const char *v : {"urn:example:words", "URN:ex:a", "urn:mpeg:mpegi:haptics:effectsemantic:2023", "", "words", "urn:", "urn:example", "urn:example:", "urn::x", "http://example/words"})
      add(p + "scheme " + v, [i, v](Case &c) { c.d.percs[i].scheme = v; });
    add(p + "no scheme", [i](Case &c) { c.d.percs[i].scheme.reset(); });
    for (int n : {126, 127, 128, 129})
      add(p + std::to_string(n) + " channels", [i, n](Case &c) {
        auto &v = c.d.percs[i].channels;
        while (static_cast<int>(v.size()) < n) {
          Chan x;
          x.id = 1000 + static_cast<int>(v.size());
          v.push_back(x);
        }
      });
    for (size_t k = 0; k < 2; k++) {
      const auto q = p + "device" + std::to_string(k) + " ";
      for (int v : {0, 1, 2}) add(q + "id " + std::to_string(v), [i, k, v](Case &c) { c.d.percs[i].devices[k].id = v; });
      const float fig[][3] = {{300, 50, 300}, {300, 50, 50}, {300, 50, 301}, {300, 50, 49}, {50, 50, 50}, {49, 50, -1}, {50, 50, -1}, {-1, 50, 49}, {-1, 50, 50}, {100, -1, 101}, {100, -1, 100}, {-1, -1, 7}, {100.5F, 100.25F, 100.75F}, {0, 0.5F, -1}, {0, -1, 1}};
      for (auto &f : fig) {
        std::ostringstream n;
        n << q << "figures " << f[0] << "/" << f[1] << "/" << f[2];
        add(n.str(), [i, k, f](Case &c) {
          for (int j = 0; j < 3; j++) {
            if (f[j] >= 0) c.d.percs[i].devices[k].f[j] = f[j];
            else c.d.percs[i].devices[k].f[j].reset();
          }
        });
      }
      const auto l = p + "library" + std::to_string(k) + " ";
      for (int v : {5, 6, 7, 0}) add(l + "id " + std::to_string(v), [i, k, v](Case &c) { c.d.percs[i].library[k].id = v; });
      for (int v : {0, 1, 2}) add(l + "type " + std::to_string(v), [i, k, v](Case &c) { c.d.percs[i].library[k].type = v; });
      for (const char *v : {"UX/Click", "UX/Nothing", ""}) add(l + "semantic " + v, [i, k, v](Case &c) { c.d.percs[i].library[k].semantic = v; });
    }
    for (size_t k = 0; k < of.percs[i].channels.size(); k++) {
      const auto q = p + "channel" + std::to_string(k) + " ";
      for (int v : {0, 1, 2}) add(q + "id " + std::to_string(v), [i, k, v](Case &c) { c.d.percs[i].channels[k].id = v; });
      for (int v : {0, 1, 2}) add(q + "device " + std::to_string(v), [i, k, v](Case &c) { c.d.percs[i].channels[k].device = v; });
      add(q + "no device", [i, k](Case &c) { c.d.percs[i].channels[k].device.reset(); });
      const Vec dirs[] = {{0, 0, 0}, {127, 0, 0}, {-127, 0, 0}, {126, 0, 0}, {125, 0, 0}, {0, -128, 0}, {0, 12, 127}, {0, 20, 127}, {0, 22, 127}, {73, 73, 73}, {74, 74, 74}, {72, 72, 72}, {1, 0, 0}, {127, 127, 127}, {-73, 73, -73}};
      for (auto v : dirs) {
        std::ostringstream n;
        n << q << "direction " << v.x << "/" << v.y << "/" << v.z;
        add(n.str(), [i, k, v](Case &c) { c.d.percs[i].channels[k].dir = v; });
      }
      add(q + "no direction", [i, k](Case &c) { c.d.percs[i].channels[k].dir.reset(); });
      for (auto v : std::vector<Vec>{{4, 3, 2}, {3, 3, 2}, {4, 2, 2}, {4, 3, 1}, {127, 127, 127}, {-1, 3, 2}, {4, -1, 2}, {4, 3, -1}}) {
        std::ostringstream n;
        n << q << "resolution " << v.x << "/" << v.y << "/" << v.z;
        add(n.str(), [i, k, v](Case &c) { c.d.percs[i].channels[k].res = v; });
      }
      add(q + "no resolution", [i, k](Case &c) { c.d.percs[i].channels[k].res.reset(); });
      add(q + "no targets", [i, k](Case &c) { c.d.percs[i].channels[k].targets.reset(); });
      add(q + "empty targets", [i, k](Case &c) { c.d.percs[i].channels[k].targets = std::vector<Vec>(); });
      for (size_t j = 0; j < 2; j++)
        for (auto v : std::vector<Vec>{{5, 0, 0}, {0, 4, 0}, {0, 0, 3}, {-1, 0, 0}, {0, -1, 0}, {0, 0, -1}, {4, 0, 2}}) {
          std::ostringstream n;
          n << q << "target" << j << " " << v.x << "/" << v.y << "/" << v.z;
          add(n.str(), [i, k, j, v](Case &c) {
            auto &t = c.d.percs[i].channels[k].targets;
            if (!t) t = std::vector<Vec>{{0, 0, 0}, {4, 3, 2}};
            if (t->size() < 2) t->resize(2);
            (*t)[j] = v;
          });
        }
      for (int n : {6, 7, 8, 63, 64})
        add(q + std::to_string(n) + " bands", [i, k, n](Case &c) {
          auto &v = c.d.percs[i].channels[k].bands;
          while (static_cast<int>(v.size()) < n) v.push_back(gen::band(0, 0, 1000, {}));
        });
      for (size_t b = 0; b < of.percs[i].channels[k].bands.size(); b++) {
        const auto w = q + "band" + std::to_string(b) + " ";
        for (int v : {0, 1, 2, 3})
          add(w + "type " + std::to_string(v), [i, k, b, v](Case &c) {
            auto &x = c.d.percs[i].channels[k].bands[b];
            x.type = v;
            if (v == 3 && !x.block) x.block = 64;
          });
        for (int v : {0, 1, 5}) add(w + "curve " + std::to_string(v), [i, k, b, v](Case &c) { c.d.percs[i].channels[k].bands[b].curve = v; });
        add(w + "no curve", [i, k, b](Case &c) { c.d.percs[i].channels[k].bands[b].curve.reset(); });
        for (int v : {1, 2, 3, 0, -1, -64, 63, 65, 96, 1 << 30, (1 << 30) + 1, INT_MIN})
          add(w + "block " + std::to_string(v), [i, k, b, v](Case &c) { c.d.percs[i].channels[k].bands[b].block = v; });
        for (auto v : std::vector<std::pair<int, int>>{{0, 0}, {5, 5}, {6, 5}, {0, 65535}, {1, 0}, {65535, 65535}})
          add(w + "limits " + std::to_string(v.first) + "/" + std::to_string(v.second), [i, k, b, v](Case &c) {
            c.d.percs[i].channels[k].bands[b].lo = v.first;
            c.d.percs[i].channels[k].bands[b].hi = v.second;
          });
        for (size_t e = 0; e < of.percs[i].channels[k].bands[b].effects.size(); e++) {
          const auto x = w + "effect" + std::to_string(e) + " ";
          for (int v : {0, 1, 2})
            add(x + "type " + std::to_string(v), [i, k, b, e, v](Case &c) {
              auto &f = c.d.percs[i].channels[k].bands[b].effects[e];
              f.type = v;
              if (v == 1 && f.id < 0) f.id = 5;
            });
          for (int v : {5, 6, 4, 0})
            add(x + "reference " + std::to_string(v), [i, k, b, e, v](Case &c) {
              c.d.percs[i].channels[k].bands[b].effects[e].type = 1;
              c.d.percs[i].channels[k].bands[b].effects[e].id = v;
            });
          for (const char *v : {"UX/Click", "UX/Nothing", "", "ux/click"}) add(x + "semantic " + v, [i, k, b, e, v](Case &c) { c.d.percs[i].channels[k].bands[b].effects[e].semantic = v; });
          add(x + "keyframes", [i, k, b, e](Case &c) { c.d.percs[i].channels[k].bands[b].effects[e].kfs = {kf(0, 0.5F, 100)}; });
          add(x + "no keyframes", [i, k, b, e](Case &c) { c.d.percs[i].channels[k].bands[b].effects[e].kfs.clear(); });
        }
      }
    }
  }
  return m;
}

// ---------------------------------------------------------------- what an accepted file is read as
Doc read(Doc d) {
  for (auto &s : d.syncs) s.timescale = s.timescale.value_or(1000);
  for (auto &p : d.percs)
    for (auto &c : p.channels)
      for (auto &b : c.bands) {
        if (b.type != 3) b.block.reset();
        for (auto &e : b.effects) {
          if (e.type != 1) e.id = -1;
          e.timeline.clear();
          e.wave.clear();
        }
      }
  return d;
}
void withoutPayload(Doc &d) {
  for (auto &p : d.percs)
    for (auto &c : p.channels)
      for (auto &b : c.bands)
        for (auto &e : b.effects) e.wave.clear();
}

void decide(mc::Run &r, const Case &q) {
  r.describe([&] { return dump(q.d) + " level=" + std::to_string(q.level); });
  const auto path = mc::scratch() + "/c07.hjif";
  const auto text = jsonw::document(q.d, q.level);
  r.state(text);
  spew(path, text);
  const auto why = broken(q);
  ht::Haptics h;
  bool ok = false;
  std::string error;
  try {
    ok = IOJson::loadFile(path, h);
  } catch (const std::exception &e) {
    error = e.what();
  }
  r.step();
  REQUIRE(r, error.empty(), "exception", "loading ended with " + error + ": " + text);
  REQUIRE(r, why.empty() || !ok, "accepted: " + why, "accepted although it breaks the rule '" + why + "': " + text);
  REQUIRE(r, !why.empty() || ok, "refused", "refused although it breaks no rule: " + text);
  if (ok) {
    auto got = fromHaptics(h);
    withoutPayload(got);
    auto want = read(q.d);
    want.level = static_cast<int>(q.level);
    const auto diff = difference(want, got);
    REQUIRE(r, diff.empty(), "read-differently", diff + " in " + text);
  }
}
const std::vector<Mutation> &muts(bool simple) {
  static const std::vector<Mutation> m[2] = {mutations(base(false)), mutations(base(true))};
  return m[simple];
}
void singles(mc::Run &r) {
  const bool simple = r.flip();
  const int level = 1 + r.choose(2);
  const auto &m = muts(simple);
  const int i = r.choose(static_cast<int>(m.size()) + 1);
  if (!r.go()) return;
  Case q{base(simple), level};
  r.tag(i ? m[i - 1].name : "base");
  if (i) m[i - 1].f(q);
  decide(r, q);
}
// Two rules at once: one must not mask or trigger the other. Same place twice means the later one wins.
void pairs(mc::Run &r) {
  const bool simple = r.flip();
  const int level = 1 + r.choose(2);
  const auto &m = muts(simple);
  const int n = static_cast<int>(m.size());
  // quick: the document, avatars and first perception against everything in steps; thorough: every pair
  const int i = r.choose(n);
  if (!r.go()) return;
  const int stride = r.thorough() ? 1 : 23;
  const int j = (i + (r.thorough() ? 0 : i % stride)) % stride + stride * r.choose((n + stride - 1) / stride);
  if (j >= n || j <= i) return;
  r.tag("pair");
  Case q{base(simple), level};
  m[i].f(q);
  m[j].f(q);
  decide(r, q);
}
// Perceptions: three with every combination of ids; devices, channels, library effects and avatars alike.
void uniqueness(mc::Run &r) {
  const int what = r.choose(5);
  if (!r.go()) return;
  static const char *names[] = {"avatars", "perceptions", "devices", "channels", "library"};
  r.tag(std::string("unique-") + names[what]);
  const int n = 1 + r.choose(4);
  Case q{lean(), 1};
  auto &d = q.d;
  if (what == 0) d.avatars.clear();
  if (what == 1) d.percs.clear();
  if (what == 3) P(d).channels.clear();
  for (int i = 0; i < n; i++) {
    const int id = r.choose(n);
    if (what == 0) d.avatars.push_back({id + (r.thorough() ? 0 : 1), 0, 1, {}});
    if (what == 1) {
      d.percs.emplace_back();
      d.percs.back().id = id;
    }
    if (what == 2) {
      P(d).devices.emplace_back();
      P(d).devices.back().id = id;
    }
    if (what == 3) {
      P(d).channels.emplace_back();
      P(d).channels.back().id = id;
    }
    if (what == 4) {
      Eff e = vect(0, {});
      e.id = id;
      P(d).library.push_back(e);
    }
  }
  if (what == 2 || what == 4) { // and a reference to one of them
    const int id = r.choose(n + 1);
    if (what == 2) C(d).device = id;
    else B(d, 2).effects.push_back(ref(9, id));
  }
  if (what == 0) P(d).avatar = r.choose(n + 2);
  decide(r, q);
}
// References across perceptions do not count: each perception has its own devices and library.
void ownership(mc::Run &r) {
  const int mask = r.choose(64);
  if (!r.go()) return;
  r.tag("ownership");
  Case q{lean(), 1};
  auto &d = q.d;
  d.percs.push_back(d.percs[0]);
  d.percs[1].id = 1;
  for (int i = 0; i < 2; i++) {
    if (mask >> (3 * i) & 1) {
      d.percs[i].devices.emplace_back();
      d.percs[i].devices[0].id = 3;
    }
    if (mask >> (3 * i) & 2) {
      Eff e = vect(0, {});
      e.id = 4;
      d.percs[i].library.push_back(e);
    }
    if (mask >> (3 * i) & 4) {
      d.percs[i].channels.push_back(d.percs[i].channels[0]);
      d.percs[i].channels[1].id = 1;
    }
    for (auto &c : d.percs[i].channels) {
      if (r.flip()) c.device = 3;
      if (r.flip()) c.bands[0].effects.push_back(ref(9, 4));
    }
  }
  decide(r, q);
}
// Every semantic keyword with and without a scheme.
void keywords(mc::Run &r) {
  static const auto words = [] {
    std::vector<std::string> w;
    for (auto &x : ht::stringToEffectSemantic) w.push_back(x.first);
    return w;
  }();
  const int i = r.choose(static_cast<int>(words.size()));
  if (!r.go()) return;
  r.tag("keyword");
  const int how = r.choose(4);
  const auto w = words[i];
  const std::string s = how == 0 ? w : how == 1 ? w + "x" : how == 2 ? w.substr(1) : " " + w;
  Case q{lean(), 1};
  const int scheme = r.choose(3);
  if (scheme == 1) P(q.d).scheme = "urn:mpeg:mpegi:haptics:effectsemantic:2023";
  if (scheme == 2) P(q.d).scheme = "urn:example:words";
  const int where = r.choose(3);
  if (where == 2) L(q.d).semantic = s;
  else if (where == 1) {
    L(q.d);
    B(q.d, 2).effects.push_back(ref(9, 1));
    B(q.d, 2).effects.back().semantic = s;
  } else E(q.d, 2).semantic = s;
  decide(r, q);
}
// Directions and actuator targets over a lattice.
void vectors(mc::Run &r) {
  const int x = r.choose(33) * 8 - 128;
  if (!r.go()) return;
  r.tag("vector");
  Case q{lean(), 1};
  const int y = r.choose(33) * 8 - 128, z = r.thorough() ? r.choose(33) * 8 - 128 : (r.choose(5) - 2) * 56;
  auto clip = [](int v) { return std::min(v, 127); };
  C(q.d).dir = Vec{clip(x), clip(y), clip(z)};
  decide(r, q);
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C07", {{"singles", singles}, {"uniqueness", uniqueness}, {"ownership", ownership}, {"keywords", keywords}, {"vectors", vectors}, {"pairs", pairs}});
}
