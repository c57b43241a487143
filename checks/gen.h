// Documents to encode: two base documents, single changes to them, and enumerated shapes.
#pragma once
#include "../mc/mc.h"
#include "doc.h"
#include <cstring>
#include <filesystem>
#include <iostream>
#include <fstream>

namespace gen {
using namespace doc;
enum { H = 1, M = 2, J = 4, ALL = 7 }; // HMPG file, MIHS stream, HJIF file

inline KF kf(Opt<int> p, Opt<float> a, Opt<int> f) { return {p, a, f}; }
inline Eff basis(int pos, std::vector<KF> k) {
  Eff e;
  e.pos = pos;
  e.kfs = std::move(k);
  return e;
}
inline Eff vect(int pos, std::vector<KF> k, float phase = 0, int base = 0) {
  Eff e = basis(pos, std::move(k));
  e.phase = phase;
  e.base = base;
  return e;
}
inline Eff ref(int pos, int id) {
  Eff e;
  e.pos = pos;
  e.type = 1;
  e.id = id;
  return e;
}
inline Eff comp(int pos, std::vector<Eff> t) {
  Eff e;
  e.pos = pos;
  e.type = 2;
  e.timeline = std::move(t);
  return e;
}
inline Eff wave(int pos, std::vector<unsigned char> b) {
  Eff e;
  e.pos = pos;
  e.wave = std::move(b);
  return e;
}
inline BandD band(int type, int lo, int hi, std::vector<Eff> e) {
  BandD b;
  b.type = type;
  b.lo = lo;
  b.hi = hi;
  b.effects = std::move(e);
  return b;
}

inline Doc lean() {
  Doc d;
  Perc p;
  p.modality = 6;
  Chan c;
  c.bands.push_back(band(2, 0, 1000, {vect(0, {kf(0, 0.5F, 100)})}));
  p.channels.push_back(c);
  d.percs.push_back(p);
  return d;
}

// Every optional set somewhere and left out somewhere else, every band kind, every effect kind.
inline Doc rich() {
  Doc d;
  d.desc = "an experience";
  d.avatars = {{1, 2, 1, {}}, {2, 0, 0, std::string("http://mesh/uri")}};
  Perc p;
  p.id = 3;
  p.avatar = 2;
  p.desc = "perception";
  p.modality = 6;
  p.priority = 5;
  p.unitExp = -3;
  p.percUnitExp = 2;
  Dev v;
  v.id = 7;
  v.name = "device";
  v.mask = 0x80000001U;
  const float fig[11] = {1000, 10, 200, 2, 8, 5, 0.5F, 3, 100, 20, -7};
  for (int i = 0; i < 11; i++) v.f[i] = fig[i];
  v.type = 2;
  Dev v2;
  v2.id = 9;
  v2.name = "";
  p.devices = {v, v2};
  Eff l1 = vect(4, {kf(0, 0.25F, 80), kf(10, {}, 90), kf(20, -0.5F, {}), kf({}, 0.5F, {})}, 1.5F, 3);
  l1.id = 11;
  Eff l2 = vect(0, {kf(5, 1.0F, 60)});
  l2.id = 12;
  p.library = {l1, l2};
  Chan c;
  c.id = 4;
  c.desc = "first";
  c.gain = 0.5F;
  c.mix = 2;
  c.mask = 0xF0000003U;
  c.device = 7;
  c.priority = 1;
  c.verts = {0, 65536, 3};
  c.fs = 8000;
  c.samples = 16000;
  c.dir = Vec{0, 0, 127};
  BandD tr = band(0, 65, 300, {basis(0, {kf(0, 0.5F, 100), kf(20, 1.0F, 200)}), basis(150, {kf(10, -1.0F, 0)})});
  tr.priority = 3;
  BandD cu = band(1, 0, 72, {basis(0, {kf(0, 0.0F, {}), kf(50, 1.0F, {}), kf(90, 0.25F, {})}), basis(200, {kf(0, 0.5F, {}), kf(300, 0.0F, {})})});
  cu.curve = 2;
  BandD ve = band(2, 0, 1000,
                  {vect(0, {kf(0, 0.5F, 100), kf(30, 0.75F, 200), kf(60, {}, 300), kf(100, 1.0F, {})}, 3.14F, 1), ref(120, 11),
                   vect(250, {kf(0, 0.1F, 50), kf(400, 0.2F, 60)})});
  c.bands = {tr, cu, ve};
  Chan c2;
  c2.id = 6;
  c2.desc = "second";
  c2.res = Vec{4, 3, 0};
  c2.parts = std::vector<int>{1, 20};
  c2.targets = std::vector<Vec>{{0, 0, 0}, {4, 3, 0}};
  BandD wv = band(3, 72, 1000, {wave(0, {1, 2, 3, 200, 0, 5}), wave(128, {9, 128, 7})});
  wv.block = 128;
  BandD ve2 = band(2, 100, 500, {ref(10, 12), comp(40, {ref(0, 11), vect(30, {kf(0, 0.5F, 120), kf(40, 0.25F, 130)}, 0.5F, 4)})});
  c2.bands = {wv, ve2};
  p.channels = {c, c2};
  Perc q;
  q.id = 8;
  q.desc = "other";
  q.modality = 9;
  Chan c3;
  c3.id = 4;
  c3.bands = {band(0, 0, 1000, {basis(5, {kf(0, 1.0F, 150)})}), band(2, 0, 1000, {})};
  q.channels = {c3};
  d.percs = {p, q};
  return d;
}

// The last perception's first channel etc. of either base document, created when missing.
inline Perc &P(Doc &d) { return d.percs[0]; }
inline Chan &C(Doc &d) { return P(d).channels[0]; }
inline BandD &B(Doc &d, int type) {
  for (auto &b : C(d).bands)
    if (b.type == type) return b;
  BandD b = band(type, 0, 1000, {});
  if (type == 3) b.block = 64;
  C(d).bands.push_back(b);
  return C(d).bands.back();
}
inline Eff &E(Doc &d, int type) {
  auto &b = B(d, type);
  if (b.effects.empty()) b.effects.push_back(type == 2 ? vect(0, {}) : basis(0, {}));
  return b.effects[0];
}
inline KF &K(Doc &d, int type) {
  auto &e = E(d, type);
  if (e.kfs.empty()) e.kfs.push_back(kf(0, 0.5F, type == 1 ? Opt<int>() : Opt<int>(100)));
  return e.kfs[0];
}
inline Dev &D(Doc &d) {
  if (P(d).devices.empty()) {
    P(d).devices.emplace_back();
    P(d).devices[0].id = 1;
  }
  return P(d).devices[0];
}
inline Eff &L(Doc &d) {
  if (P(d).library.empty()) {
    Eff e = vect(0, {kf(0, 0.5F, 100)});
    e.id = 1;
    P(d).library.push_back(e);
  }
  return P(d).library[0];
}
inline Av &A(Doc &d) {
  if (d.avatars.empty()) d.avatars.push_back({1, 0, 1, {}});
  return d.avatars[0];
}

struct Tweak {
  std::string name;
  int formats;
  std::function<void(Doc &)> f;
};
inline std::string text(size_t n) {
  std::string s;
  for (size_t i = 0; i < n; i++) s += static_cast<char>('a' + i % 26);
  return s;
}

inline std::vector<Tweak> tweaks() {
  std::vector<Tweak> t;
  auto add = [&](const std::string &n, int f, std::function<void(Doc &)> g) { t.push_back({n, f, std::move(g)}); };
  // texts
  struct S {
    const char *n;
    std::function<void(Doc &, const std::string &)> f;
    int formats;
  };
  std::vector<S> texts = {
      {"version", [](Doc &d, const std::string &s) { d.version = s; }, H | M},
      {"profile", [](Doc &d, const std::string &s) { d.profile = s; }, H | M},
      {"date", [](Doc &d, const std::string &s) { d.date = s; }, H | M},
      {"description", [](Doc &d, const std::string &s) { d.desc = s; }, ALL},
      {"perception-description", [](Doc &d, const std::string &s) { P(d).desc = s; }, ALL},
      {"device-name", [](Doc &d, const std::string &s) { D(d).name = s; }, ALL},
      {"channel-description", [](Doc &d, const std::string &s) { C(d).desc = s; }, ALL},
      {"mesh",
       [](Doc &d, const std::string &s) {
         A(d).type = 0;
         A(d).mesh = s;
       },
       ALL},
  };
  const std::vector<std::string> samples = {"", "x", text(127), text(128), text(255), "q\"b\\s/\n\t\x01\x7f", "\xc3\xa9\xe2\x82\xac\xf0\x9f\x98\x80"};
  for (auto &x : texts) {
    auto f = x.f;
    for (size_t i = 0; i < samples.size(); i++) {
      const auto s = samples[i];
      int fm = x.formats;
      if (std::string(x.n) == "mesh" && s.empty()) fm &= ~J;
      add(std::string(x.n) + "#" + std::to_string(i), fm, [f, s](Doc &d) { f(d, s); });
    }
    add(std::string(x.n) + "#bytes", x.formats & ~J, [f](Doc &d) { f(d, std::string("\0\x80\xff", 3)); });
    add(std::string(x.n) + "#nul", x.formats, [f](Doc &d) { f(d, std::string("a\0b", 3)); });
  }
  // whole numbers: name, formats, values, setter
  auto ints = [&](const std::string &n, int fm, const std::vector<int64_t> &v, std::function<void(Doc &, int64_t)> f) {
    for (auto x : v) add(n + "=" + std::to_string(x), fm, [f, x](Doc &d) { f(d, x); });
  };
  ints("level", ALL, {1, 2}, [](Doc &d, int64_t v) { d.level = static_cast<int>(v); });
  ints("level", H | M, {0, 127, 128, 255}, [](Doc &d, int64_t v) { d.level = static_cast<int>(v); });
  ints("avatar-id", ALL, {1, 127, 128, 255}, [](Doc &d, int64_t v) {
    const int old = A(d).id;
    if (d.avatars.size() > 1 && d.avatars[1].id == v) return;
    for (auto &p : d.percs)
      if (p.avatar == old) p.avatar = static_cast<int>(v);
    A(d).id = static_cast<int>(v);
    P(d).avatar = static_cast<int>(v);
  });
  ints("avatar-lod", ALL, {0, 127, 128, 255}, [](Doc &d, int64_t v) { A(d).lod = static_cast<int>(v); });
  ints("avatar-type", ALL, {1, 2, 3}, [](Doc &d, int64_t v) { A(d).type = static_cast<int>(v); });
  ints("perception-id", ALL, {0, 127, 128, 255}, [](Doc &d, int64_t v) { P(d).id = static_cast<int>(v); });
  ints("perception-modality", ALL, {0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13}, [](Doc &d, int64_t v) { P(d).modality = static_cast<int>(v); });
  ints("perception-avatar", ALL, {0}, [](Doc &d, int64_t v) { P(d).avatar = static_cast<int>(v); });
  ints("perception-priority", ALL, {0, 127, 128, 255}, [](Doc &d, int64_t v) { P(d).priority = static_cast<int>(v); });
  ints("unit-exponent", ALL, {-128, -1, 0, 127}, [](Doc &d, int64_t v) { P(d).unitExp = static_cast<int>(v); });
  ints("perception-unit-exponent", ALL, {-128, -1, 0, 127}, [](Doc &d, int64_t v) { P(d).percUnitExp = static_cast<int>(v); });
  add("no-unit-exponents", ALL, [](Doc &d) {
    P(d).unitExp.reset();
    P(d).percUnitExp.reset();
  });
  ints("device-id", ALL, {0, 127, 128, 254}, [](Doc &d, int64_t v) {
    D(d).id = static_cast<int>(v);
    C(d).device = static_cast<int>(v);
  });
  ints("device-mask", ALL, {0, 1, 0x7fffffff, 0x80000000LL, 0xffffffffLL}, [](Doc &d, int64_t v) { D(d).mask = static_cast<uint32_t>(v); });
  ints("device-type", ALL, {0, 1, 2, 3, 4}, [](Doc &d, int64_t v) { D(d).type = static_cast<int>(v); });
  add("device-bare", ALL, [](Doc &d) {
    Dev v;
    v.id = D(d).id;
    v.name = "bare";
    D(d) = v;
  });
  for (int i = 0; i < 11; i++) {
    const float top = 10000;
    for (float v : {0.0F, 0.001F, 123.456F, top, -top}) {
      if (v < 0 && i != 10) continue;
      std::ostringstream n;
      n << "device-figure-" << i << "=" << v;
      add(n.str(), ALL, [i, v](Doc &d) {
        Dev x;
        x.id = D(d).id;
        x.name = "d";
        x.f[i] = v;
        D(d) = x;
      });
    }
    add("device-without-" + std::to_string(i), ALL, [i](Doc &d) { D(d).f[i].reset(); });
  }
  ints("channel-id", ALL, {0, 127, 128, 255, 256, 32767, 32768, 65535}, [](Doc &d, int64_t v) { C(d).id = static_cast<int>(v); });
  ints("channel-mask", ALL, {0, 1, 0x7fffffff, 0x80000000LL, 0xffffffffLL}, [](Doc &d, int64_t v) { C(d).mask = static_cast<uint32_t>(v); });
  ints("channel-priority", ALL, {0, 127, 128, 255}, [](Doc &d, int64_t v) { C(d).priority = static_cast<int>(v); });
  for (float v : {-10000.0F, -1.0F, 0.0F, 0.3F, 1.0F, 10000.0F}) {
    std::ostringstream n;
    n << v;
    add("gain=" + n.str(), ALL, [v](Doc &d) { C(d).gain = v; });
    if (v >= 0) add("mixing=" + n.str(), ALL, [v](Doc &d) { C(d).mix = v; });
  }
  ints("vertex", ALL, {0, 1, 255, 65535, 65536, 0x7fffffff}, [](Doc &d, int64_t v) { C(d).verts = {static_cast<int>(v), 1}; });
  ints("sampling", ALL, {1, 48000, 0x7fffffff, 0x80000000LL, 0xffffffffLL}, [](Doc &d, int64_t v) { C(d).fs = static_cast<uint32_t>(v); });
  ints("samples", ALL, {0, 1, 0x7fffffff, 0x80000000LL, 0xffffffffLL}, [](Doc &d, int64_t v) {
    C(d).fs = 8000;
    C(d).samples = static_cast<uint32_t>(v);
  });
  add("no-sampling", ALL, [](Doc &d) {
    C(d).fs.reset();
    C(d).samples.reset();
  });
  add("no-samples", ALL, [](Doc &d) {
    C(d).fs = 8000;
    C(d).samples.reset();
  });
  add("no-device", ALL, [](Doc &d) { C(d).device.reset(); });
  add("no-priorities", ALL, [](Doc &d) {
    P(d).priority.reset();
    C(d).priority.reset();
    for (auto &b : C(d).bands) b.priority.reset();
  });
  add("no-direction", ALL, [](Doc &d) { C(d).dir.reset(); });
  for (auto v : std::vector<Vec>{{127, 0, 0}, {0, -127, 0}, {0, 0, -128}, {90, -90, 0}}) {
    std::ostringstream n;
    n << "direction=" << v.x << "/" << v.y << "/" << v.z;
    add(n.str(), ALL, [v](Doc &d) { C(d).dir = v; });
  }
  add("direction=-128/5/127", H | M, [](Doc &d) { C(d).dir = Vec{-128, 5, 127}; });
  for (auto v : std::vector<Vec>{{0, 0, 0}, {127, 1, 0}, {1, 0, 127}, {5, 127, 2}}) {
    std::ostringstream n;
    n << "resolution=" << v.x << "/" << v.y << "/" << v.z;
    add(n.str(), ALL, [v](Doc &d) {
      C(d).res = v;
      C(d).targets = std::vector<Vec>{v, {0, 0, 0}};
    });
  }
  add("resolution-alone", ALL, [](Doc &d) {
    C(d).res = Vec{1, 2, 3};
    C(d).targets.reset();
    C(d).parts.reset();
  });
  add("resolution-empty-lists", ALL, [](Doc &d) {
    C(d).res = Vec{1, 2, 3};
    C(d).targets = std::vector<Vec>();
    C(d).parts = std::vector<int>();
  });
  add("all-body-parts", ALL, [](Doc &d) {
    C(d).res = Vec{1, 2, 3};
    C(d).targets = std::vector<Vec>{{1, 1, 1}};
    std::vector<int> all;
    for (auto &x : ht::stringToBodyPartTarget) all.push_back(static_cast<int>(x.second));
    C(d).parts = all;
  });
  // bands
  for (int k = 0; k < 4; k++) {
    const std::string n = "band" + std::to_string(k);
    ints(n + "-lower", ALL, {0, 127, 255, 256, 999}, [k](Doc &d, int64_t v) {
      B(d, k).lo = static_cast<int>(v);
      if (B(d, k).hi < v) B(d, k).hi = static_cast<int>(v);
    });
    ints(n + "-limits", ALL, {65535, 32768}, [k](Doc &d, int64_t v) {
      if (k == 3) return;
      B(d, k).lo = B(d, k).hi = static_cast<int>(v);
    });
    if (k != 3)
      ints(n + "-upper", ALL, {300, 32767, 32768, 65535}, [k](Doc &d, int64_t v) {
        B(d, k).hi = static_cast<int>(v);
        if (B(d, k).lo > v) B(d, k).lo = 0;
      });
    ints(n + "-priority", ALL, {0, 255}, [k](Doc &d, int64_t v) { B(d, k).priority = static_cast<int>(v); });
    ints(n + "-position", ALL, k == 3 ? std::vector<int64_t>{} : std::vector<int64_t>{0, 1, 255, 256, 65535, 65536}, [k](Doc &d, int64_t v) {
      auto &e = E(d, k);
      int i = 0;
      for (auto &x : B(d, k).effects) x.pos = static_cast<int>(v) + 500 * i++; // keep them in order
      (void)e;
    });
    ints(n + "-position", H | J, k == 3 ? std::vector<int64_t>{} : std::vector<int64_t>{0x1ffffffLL - 2000, 16777215}, [k](Doc &d, int64_t v) {
      E(d, k);
      int i = 0;
      for (auto &x : B(d, k).effects) x.pos = static_cast<int>(v) + 500 * i++;
    });
    if (k < 3) {
      add(n + "-last-position", H | J, [k](Doc &d) {
        E(d, k);
        B(d, k).effects.back().pos = (1 << 25) - 1;
      });
      ints(n + "-keyframe-position", ALL, {0, 1, 255, 256}, [k](Doc &d, int64_t v) {
        K(d, k);
        E(d, k).kfs.resize(1);
        E(d, k).kfs[0].pos = static_cast<int>(v);
      });
      ints(n + "-keyframe-position", H | J, {32767, 32768, 65535}, [k](Doc &d, int64_t v) {
        K(d, k);
        E(d, k).kfs.resize(1);
        E(d, k).kfs[0].pos = static_cast<int>(v);
      });
      for (float v : {-1.0F, -0.5F, 0.0F, 0.1F, 0.7F, 1.0F}) {
        std::ostringstream o;
        o << n << "-amplitude=" << v;
        add(o.str(), ALL, [k, v](Doc &d) { K(d, k).amp = v; });
      }
      if (k != 1) ints(n + "-frequency", ALL, {0, 1, 255, 256, 32768, 65535}, [k](Doc &d, int64_t v) { K(d, k).freq = static_cast<int>(v); });
      add(n + "-no-keyframes", H | J, [k](Doc &d) {
        E(d, k).kfs.clear();
      });
    }
    add(n + "-no-effects", ALL, [k](Doc &d) { B(d, k).effects.clear(); });
    add(n + "-removed", ALL, [k](Doc &d) {
      auto &b = C(d).bands;
      for (size_t i = 0; i < b.size(); i++)
        if (b[i].type == k) {
          b.erase(b.begin() + static_cast<long>(i));
          break;
        }
    });
  }
  ints("curve", ALL, {0, 1, 2, 3, 4, 5}, [](Doc &d, int64_t v) { B(d, 1).curve = static_cast<int>(v); });
  add("curve-absent", ALL, [](Doc &d) { B(d, 1).curve.reset(); });
  for (float v : {0.0F, 0.001F, 1.0F, 3.14159F, 6.28F}) {
    std::ostringstream o;
    o << "phase=" << v;
    add(o.str(), ALL, [v](Doc &d) { E(d, 2).phase = v; });
    add("library-" + o.str(), ALL, [v](Doc &d) { L(d).phase = v; });
  }
  ints("base-signal", ALL, {0, 1, 2, 3, 4}, [](Doc &d, int64_t v) { E(d, 2).base = static_cast<int>(v); });
  ints("library-base-signal", ALL, {0, 1, 2, 3, 4}, [](Doc &d, int64_t v) { L(d).base = static_cast<int>(v); });
  ints("library-id", ALL, {0, 127, 255, 256, 32767, 32768, 65535}, [](Doc &d, int64_t v) {
    const int old = L(d).id;
    std::function<void(Eff &)> fix = [&](Eff &e) {
      if (e.type == 1 && e.id == old) e.id = static_cast<int>(v);
      for (auto &x : e.timeline) fix(x);
    };
    for (auto &c : P(d).channels)
      for (auto &b : c.bands)
        for (auto &e : b.effects) fix(e);
    L(d).id = static_cast<int>(v);
  });
  ints("library-position", ALL, {0, 255, 256, 65535, 65536, (1 << 25) - 1}, [](Doc &d, int64_t v) { L(d).pos = static_cast<int>(v); });
  ints("library-keyframe-position", ALL, {0, 255, 256, 65535}, [](Doc &d, int64_t v) {
    L(d).kfs.resize(1);
    L(d).kfs[0].pos = static_cast<int>(v);
  });
  add("library-no-keyframes", ALL, [](Doc &d) { L(d).kfs.clear(); });
  add("reference", ALL, [](Doc &d) {
    auto &b = B(d, 2);
    b.effects.push_back(ref(b.effects.empty() ? 0 : std::min(b.effects.back().pos + 500, (1 << 25) - 1), L(d).id));
  });
  for (int k = 0; k < 3; k++) {
    add("reference-in-band" + std::to_string(k), ALL, [k](Doc &d) {
      auto &b = B(d, k);
      b.effects.push_back(ref(b.effects.empty() ? 0 : std::min(b.effects.back().pos + 500, (1 << 25) - 1), L(d).id));
    });
    add("composite-in-band" + std::to_string(k), H, [k](Doc &d) {
      auto &b = B(d, k);
      Eff in = k == 2 ? vect(7, {kf(1, 0.5F, 100), kf(9, 0.25F, {})}, 1, 2) : basis(7, {kf(1, 0.5F, k == 1 ? Opt<int>() : Opt<int>(100))});
      b.effects.push_back(comp(b.effects.empty() ? 0 : std::min(b.effects.back().pos + 500, (1 << 25) - 1), {ref(3, L(d).id), in, comp(9, {in})}));
    });
  }
  // what effects mean
  {
    static std::vector<std::string> words;
    if (words.empty())
      for (auto &x : ht::stringToEffectSemantic) words.push_back(x.first);
    for (size_t i = 0; i < words.size(); i++) {
      const auto w = words[i];
      add("semantic=" + w, ALL, [w, i](Doc &d) { E(d, static_cast<int>(i % 3)).semantic = w; });
      if (i % 3 == 0) add("library-semantic=" + w, ALL, [w](Doc &d) { L(d).semantic = w; });
    }
    add("reference-semantic", J, [](Doc &d) {
      auto &b = B(d, 2);
      b.effects.push_back(ref(b.effects.empty() ? 0 : std::min(b.effects.back().pos + 500, (1 << 25) - 1), L(d).id));
      b.effects.back().semantic = "UX/Click";
    });
    add("scheme=2023", ALL, [](Doc &d) { P(d).scheme = "urn:mpeg:mpegi:haptics:effectsemantic:2023"; });
    add("scheme=other", ALL, [](Doc &d) { P(d).scheme = "urn:example:words"; });
    add("scheme=long", ALL, [](Doc &d) { P(d).scheme = "urn:example:" + text(243); });
    add("own-words", J, [](Doc &d) {
      P(d).scheme = "urn:example:words";
      E(d, 2).semantic = "\xc3\xa9t\xc3\xa9 \"x\"";
    });
  }
  for (int v : {0, 1, 16777215, 0x7fffffff}) {
    add("sync=" + std::to_string(v), J, [v](Doc &d) {
      d.syncs.push_back({v, 8000U});
      d.syncs.push_back({3, {}});
      d.syncs.push_back({4, 0xffffffffU});
    });
  }
  ints("timescale", J | M, {1, 999, 8000, 48000}, [](Doc &d, int64_t v) { d.timescale = static_cast<unsigned>(v); });
  // wavelet blocks
  for (auto v : std::vector<std::vector<unsigned char>>{{1}, {0}, {0, 0}, {255, 0}, {0, 255}, {128}, {0, 1, 0, 0}, std::vector<unsigned char>(300, 0x5a)}) {
    std::ostringstream o;
    o << "wavelet-payload=" << v.size() << ":" << static_cast<int>(v[0]) << ":" << static_cast<int>(v.back());
    add(o.str(), ALL, [v](Doc &d) {
      B(d, 3).effects = {wave(0, v)};
    });
  }
  add("wavelet-three-blocks", ALL, [](Doc &d) {
    auto &b = B(d, 3);
    b.effects.clear();
    for (int i = 0; i < 3; i++) b.effects.push_back(wave(i * *b.block, {static_cast<unsigned char>(i + 1), 77}));
  });
  for (auto q : std::vector<std::pair<int, int>>{{16, 1000}, {32, 1000}, {1024, 1000}, {4, 8000}, {2, 8000}, {64, 8000}, {64, 500}}) {
    add("wavelet-block=" + std::to_string(q.first) + "@" + std::to_string(q.second), ALL, [q](Doc &d) {
      auto &b = B(d, 3);
      b.block = q.first;
      b.hi = q.second;
      b.lo = 0;
      b.effects = {wave(0, {1, 2, 3}), wave(q.first, {4, 5})};
    });
  }
  ints("wavelet-truncated-block", H, {3000, 44100, 48000}, [](Doc &d, int64_t v) { // as the encoder computes it
    auto &b = B(d, 3);
    b.block = static_cast<int>(512 * 1000 / v);
    b.hi = static_cast<int>(v);
    b.lo = 0;
    b.effects = {wave(0, {1, 2, 3}), wave(*b.block, {4, 5})};
  });
  // containers
  add("no-avatars", ALL, [](Doc &d) {
    d.avatars.clear();
    for (auto &p : d.percs) p.avatar = 0;
  });
  add("no-devices", ALL, [](Doc &d) {
    P(d).devices.clear();
    for (auto &c : P(d).channels) c.device.reset();
  });
  ints("vertices", ALL, {1, 2, 5}, [](Doc &d, int64_t v) {
    C(d).verts.clear();
    for (int i = 0; i < v; i++) C(d).verts.push_back(9 - i);
  });
  ints("actuator-targets", ALL, {1, 2, 3}, [](Doc &d, int64_t v) {
    auto &c = C(d);
    c.mask = 0;
    c.res = Vec{3, 2, 1};
    c.targets.emplace();
    for (int i = 0; i < v; i++) c.targets->push_back({i, i % 2, 1});
  });
  ints("body-part-targets", ALL, {1, 2}, [](Doc &d, int64_t v) {
    auto &c = C(d);
    c.mask = 0;
    if (!c.res) c.res = Vec{3, 2, 1};
    c.parts.emplace();
    for (int i = 0; i < v; i++) c.parts->push_back(i * 20);
  });
  add("no-vertices", ALL, [](Doc &d) { C(d).verts.clear(); });
  add("no-bands", ALL, [](Doc &d) { C(d).bands.clear(); });
  add("no-channels", ALL, [](Doc &d) { P(d).channels = {}; P(d).channels.clear(); });
  add("no-perceptions", ALL, [](Doc &d) { d.percs.clear(); });
  return t;
}
inline std::vector<Tweak> tweaksFor(int format) {
  std::vector<Tweak> r;
  for (auto &t : tweaks())
    if (t.formats & format) r.push_back(t);
  return r;
}
// One of every family (same field, other value).
inline std::vector<Tweak> families(const std::vector<Tweak> &all) {
  std::vector<Tweak> r;
  for (size_t i = 0; i < all.size(); i++) {
    auto fam = [](const std::string &n) { return n.substr(0, n.find_first_of("=#")); };
    const bool last = i + 1 == all.size() || fam(all[i + 1].name) != fam(all[i].name);
    if (last) r.push_back(all[i]);
  }
  return r;
}
// Changes that need parts another change removed would be applied to nothing: apply those that remove last.
inline void apply(Doc &d, std::vector<const Tweak *> ts) {
  for (int pass = 0; pass < 2; pass++)
    for (auto *t : ts) {
      const bool removes = t->name == "no-bands" || t->name == "no-channels" || t->name == "no-perceptions";
      if (removes != (pass == 1)) continue;
      if (d.percs.empty() || d.percs[0].channels.empty()) continue;
      t->f(d);
    }
}

// ---------------------------------------------------------------- enumerated parts
// n keyframes of a band of the given kind, every combination of present fields.
inline std::vector<KF> keyframes(mc::Run &r, int kind, int n, bool library = false) {
  std::vector<KF> k;
  for (int i = 0; i < n; i++) {
    const int m = r.choose(8);
    KF x;
    if (m & 1) x.pos = 7 + 20 * i;
    if (m & 2) x.amp = 0.25F * static_cast<float>(i + 1);
    if (m & 4) x.freq = 90 + i;
    (void)kind;
    (void)library;
    k.push_back(x);
  }
  return k;
}
// A forest of effects with at most `budget` nodes and `depth` levels of composites.
inline std::vector<Eff> forest(mc::Run &r, int kind, int &budget, int depth, int step, bool libraryForm = false) {
  std::vector<Eff> out;
  while (budget > 0 && r.flip()) {
    budget--;
    const int type = r.choose(depth > 0 ? 3 : 2);
    const int pos = static_cast<int>(out.size()) * step;
    Eff e;
    if (type == 0) {
      e = kind == 2 || libraryForm ? vect(pos, {kf(0, 0.5F, 100 + budget)}, 1, 2) : basis(pos, {kf(0, 0.5F, kind == 1 ? Opt<int>() : Opt<int>(100 + budget))});
      if (kind == 3) e = wave(pos, {static_cast<unsigned char>(budget + 1), 3});
    } else if (type == 1) e = ref(pos, 5 + budget);
    else {
      e = comp(pos, {});
      e.timeline = forest(r, kind, budget, depth - 1, step, libraryForm);
    }
    if (libraryForm) e.id = 40 + budget;
    out.push_back(e);
  }
  return out;
}
inline int place(mc::Run &r) { return r.choose(3); }

inline std::string slurp(const std::string &p) {
  std::ifstream f(p, std::ios::binary);
  return std::string(std::istreambuf_iterator<char>(f), {});
}
inline void spew(const std::string &p, const std::string &s) {
  std::ofstream f(p, std::ios::binary | std::ios::trunc);
  f.write(s.data(), static_cast<std::streamsize>(s.size()));
}
} // namespace gen
