// A plain mirror of the experience document, so that oracles share nothing with the code under test.
#pragma once
#include <Types/include/Haptics.h>
#include <cmath>
#include <cstdint>
#include <functional>
#include <optional>
#include <sstream>
#include <string>
#include <vector>

namespace doc {
namespace ht = haptics::types;
template <class T> using Opt = std::optional<T>;

struct KF {
  Opt<int> pos;
  Opt<float> amp;
  Opt<int> freq;
};
struct Vec {
  int x = 0, y = 0, z = 0;
};
struct Eff {
  int pos = 0;
  int id = -1;
  int type = 0; // 0 basis, 1 reference, 2 composite
  Opt<float> phase;
  Opt<int> base;
  Opt<std::string> semantic;
  std::vector<KF> kfs;
  std::vector<Eff> timeline;
  std::vector<unsigned char> wave;
};
struct BandD {
  int type = 0; // 0 transient, 1 curve, 2 vectorial, 3 wavelet
  Opt<int> curve;
  Opt<int> block;
  int lo = 0, hi = 1000;
  Opt<int> priority;
  std::vector<Eff> effects;
};
struct Chan {
  int id = 0;
  std::string desc;
  float gain = 1, mix = 1;
  uint32_t mask = 0;
  Opt<int> device, priority;
  std::vector<int> verts;
  Opt<uint32_t> fs, samples;
  Opt<Vec> dir, res;
  Opt<std::vector<int>> parts;
  Opt<std::vector<Vec>> targets;
  std::vector<BandD> bands;
};
struct Dev {
  int id = 0;
  std::string name;
  Opt<uint32_t> mask;
  Opt<float> f[11]; // max freq, min freq, resonance, max amp, impedance, max voltage, max current, max displacement, weight, size, custom
  Opt<int> type;
};
struct Perc {
  int id = 0, avatar = 0;
  std::string desc;
  int modality = 0;
  Opt<int> priority;
  Opt<std::string> scheme;
  Opt<int> unitExp, percUnitExp;
  std::vector<Dev> devices;
  std::vector<Eff> library;
  std::vector<Chan> channels;
};
struct Av {
  int id = 0, lod = 0, type = 0;
  Opt<std::string> mesh;
};
struct SyncD {
  int ts = 0;
  Opt<unsigned> timescale;
};
struct Doc {
  std::string version = "2023", profile = "Main", date = "2023-01-02", desc;
  int level = 1;
  Opt<unsigned> timescale = 1000;
  std::vector<Perc> percs;
  std::vector<Av> avatars;
  std::vector<SyncD> syncs;
};

// ---------------------------------------------------------------- to the code's types
inline ht::Effect toEffect(const Eff &e) {
  ht::Effect r;
  r.setId(e.id);
  r.setPosition(e.pos);
  r.setEffectType(static_cast<ht::EffectType>(e.type));
  if (e.phase) r.setPhase(*e.phase);
  if (e.base) r.setBaseSignal(static_cast<ht::BaseSignal>(*e.base));
  if (e.semantic) {
    std::string s = *e.semantic;
    r.setSemantic(s);
  }
  for (const auto &k : e.kfs) {
    ht::Keyframe kf(k.pos, k.amp, k.freq);
    r.addKeyframe(kf);
  }
  for (const auto &t : e.timeline) {
    auto x = toEffect(t);
    r.addTimelineEffect(x);
  }
  if (!e.wave.empty()) r.setWaveletBitstream(e.wave);
  return r;
}
inline ht::Band toBand(const BandD &b) {
  ht::Band r;
  r.setBandType(static_cast<ht::BandType>(b.type));
  if (b.curve) r.setCurveType(static_cast<ht::CurveType>(*b.curve));
  if (b.block) r.setBlockLength(*b.block);
  r.setLowerFrequencyLimit(b.lo);
  r.setUpperFrequencyLimit(b.hi);
  if (b.priority) r.setPriority(*b.priority);
  for (const auto &e : b.effects) {
    auto x = toEffect(e);
    r.addEffect(x);
  }
  return r;
}
inline ht::Vector toVec(const Vec &v) {
  return ht::Vector(static_cast<int8_t>(v.x), static_cast<int8_t>(v.y), static_cast<int8_t>(v.z));
}
inline ht::Channel toChannel(const Chan &c) {
  ht::Channel r(c.id, c.desc, c.gain, c.mix, c.mask);
  if (c.device) r.setReferenceDeviceId(*c.device);
  if (c.priority) r.setPriority(*c.priority);
  for (int v : c.verts) r.addVertex(v);
  if (c.fs) r.setFrequencySampling(*c.fs);
  if (c.samples) r.setSampleCount(*c.samples);
  if (c.dir) r.setDirection(toVec(*c.dir));
  if (c.res) r.setActuatorResolution(toVec(*c.res));
  if (c.parts) {
    std::vector<ht::BodyPartTarget> p;
    for (int x : *c.parts) p.push_back(static_cast<ht::BodyPartTarget>(x));
    r.setBodyPartTarget(p);
  }
  if (c.targets) {
    std::vector<ht::Vector> p;
    for (const auto &x : *c.targets) p.push_back(toVec(x));
    r.setActuatorTarget(p);
  }
  for (const auto &b : c.bands) {
    auto x = toBand(b);
    r.addBand(x);
  }
  return r;
}
inline ht::ReferenceDevice toDevice(const Dev &d) {
  ht::ReferenceDevice r(d.id, d.name);
  if (d.mask) r.setBodyPartMask(*d.mask);
  if (d.f[0]) r.setMaximumFrequency(*d.f[0]);
  if (d.f[1]) r.setMinimumFrequency(*d.f[1]);
  if (d.f[2]) r.setResonanceFrequency(*d.f[2]);
  if (d.f[3]) r.setMaximumAmplitude(*d.f[3]);
  if (d.f[4]) r.setImpedance(*d.f[4]);
  if (d.f[5]) r.setMaximumVoltage(*d.f[5]);
  if (d.f[6]) r.setMaximumCurrent(*d.f[6]);
  if (d.f[7]) r.setMaximumDisplacement(*d.f[7]);
  if (d.f[8]) r.setWeight(*d.f[8]);
  if (d.f[9]) r.setSize(*d.f[9]);
  if (d.f[10]) r.setCustom(*d.f[10]);
  if (d.type) r.setType(static_cast<ht::ActuatorType>(*d.type));
  return r;
}
inline ht::Perception toPerception(const Perc &p) {
  ht::Perception r(p.id, p.avatar, p.desc, static_cast<ht::PerceptionModality>(p.modality));
  if (p.priority) r.setPriority(*p.priority);
  if (p.scheme) {
    std::string s = *p.scheme;
    r.setEffectSemanticScheme(s);
  }
  if (p.unitExp) r.setUnitExponent(static_cast<int8_t>(*p.unitExp));
  if (p.percUnitExp) r.setPerceptionUnitExponent(static_cast<int8_t>(*p.percUnitExp));
  for (const auto &d : p.devices) {
    auto x = toDevice(d);
    r.addReferenceDevice(x);
  }
  for (const auto &e : p.library) {
    auto x = toEffect(e);
    r.addBasisEffect(x);
  }
  for (const auto &c : p.channels) {
    auto x = toChannel(c);
    r.addChannel(x);
  }
  return r;
}
inline ht::Haptics toHaptics(const Doc &d) {
  ht::Haptics h(d.version, d.date, d.desc);
  std::string prof = d.profile;
  h.setProfile(prof);
  h.setLevel(static_cast<uint8_t>(d.level));
  h.setTimescale(d.timescale);
  for (const auto &a : d.avatars) {
    ht::Avatar x(a.id, a.lod, static_cast<ht::AvatarType>(a.type));
    if (a.mesh) x.setMesh(*a.mesh);
    h.addAvatar(x);
  }
  for (const auto &p : d.percs) {
    auto x = toPerception(p);
    h.addPerception(x);
  }
  for (const auto &s : d.syncs) {
    ht::Sync x(s.ts, s.timescale);
    h.addSync(x);
  }
  return h;
}

// ---------------------------------------------------------------- from the code's types
inline Eff fromEffect(ht::Effect &e) {
  Eff r;
  r.pos = e.getPosition();
  r.id = e.getId();
  r.type = static_cast<int>(e.getEffectType());
  r.phase = e.getPhase();
  if (e.getBaseSignal()) r.base = static_cast<int>(*e.getBaseSignal());
  r.semantic = e.getSemantic();
  for (size_t i = 0; i < e.getKeyframesSize(); i++) {
    auto &k = e.getKeyframeAt(static_cast<int>(i));
    r.kfs.push_back({k.getRelativePosition(), k.getAmplitudeModulation(), k.getFrequencyModulation()});
  }
  for (size_t i = 0; i < e.getTimelineSize(); i++) r.timeline.push_back(fromEffect(e.getTimelineEffectAt(static_cast<int>(i))));
  r.wave = e.getWaveletBitstream();
  return r;
}
inline BandD fromBand(ht::Band &b) {
  BandD r;
  r.type = static_cast<int>(b.getBandType());
  if (b.getCurveType()) r.curve = static_cast<int>(*b.getCurveType());
  r.block = b.getBlockLength();
  if (r.block == 0) r.block.reset(); // a band starts with 0, there is no way to take it away
  r.lo = b.getLowerFrequencyLimit();
  r.hi = b.getUpperFrequencyLimit();
  r.priority = b.getPriority();
  for (size_t i = 0; i < b.getEffectsSize(); i++) r.effects.push_back(fromEffect(b.getEffectAt(static_cast<int>(i))));
  return r;
}
inline Vec fromVec(const ht::Vector &v) { return {v.X, v.Y, v.Z}; }
inline Chan fromChannel(ht::Channel &c) {
  Chan r;
  r.id = c.getId();
  r.desc = c.getDescription();
  r.gain = c.getGain();
  r.mix = c.getMixingWeight();
  r.mask = c.getBodyPartMask();
  r.device = c.getReferenceDeviceId();
  r.priority = c.getPriority();
  for (size_t i = 0; i < c.getVerticesSize(); i++) r.verts.push_back(c.getVertexAt(static_cast<int>(i)));
  r.fs = c.getFrequencySampling();
  r.samples = c.getSampleCount();
  if (c.getDirection()) r.dir = fromVec(*c.getDirection());
  if (c.getActuatorResolution()) r.res = fromVec(*c.getActuatorResolution());
  if (const auto parts = c.getBodyPartTarget()) {
    r.parts.emplace();
    for (auto x : *parts) r.parts->push_back(static_cast<int>(x));
  }
  if (const auto targets = c.getActuatorTarget()) {
    r.targets.emplace();
    for (auto x : *targets) r.targets->push_back(fromVec(x));
  }
  for (size_t i = 0; i < c.getBandsSize(); i++) r.bands.push_back(fromBand(c.getBandAt(static_cast<int>(i))));
  return r;
}
inline Dev fromDevice(const ht::ReferenceDevice &d) {
  Dev r;
  r.id = d.getId();
  r.name = d.getName();
  r.mask = d.getBodyPartMask();
  r.f[0] = d.getMaximumFrequency();
  r.f[1] = d.getMinimumFrequency();
  r.f[2] = d.getResonanceFrequency();
  r.f[3] = d.getMaximumAmplitude();
  r.f[4] = d.getImpedance();
  r.f[5] = d.getMaximumVoltage();
  r.f[6] = d.getMaximumCurrent();
  r.f[7] = d.getMaximumDisplacement();
  r.f[8] = d.getWeight();
  r.f[9] = d.getSize();
  r.f[10] = d.getCustom();
  if (d.getType()) r.type = static_cast<int>(*d.getType());
  return r;
}
inline Perc fromPerception(ht::Perception &p) {
  Perc r;
  r.id = p.getId();
  r.avatar = p.getAvatarId();
  r.desc = p.getDescription();
  r.modality = static_cast<int>(p.getPerceptionModality());
  r.priority = p.getPriority();
  r.scheme = p.getEffectSemanticScheme();
  if (p.getUnitExponent()) r.unitExp = *p.getUnitExponent();
  if (p.getPerceptionUnitExponent()) r.percUnitExp = *p.getPerceptionUnitExponent();
  for (size_t i = 0; i < p.getReferenceDevicesSize(); i++) r.devices.push_back(fromDevice(p.getReferenceDeviceAt(static_cast<int>(i))));
  for (size_t i = 0; i < p.getEffectLibrarySize(); i++) r.library.push_back(fromEffect(p.getBasisEffectAt(static_cast<int>(i))));
  for (size_t i = 0; i < p.getChannelsSize(); i++) r.channels.push_back(fromChannel(p.getChannelAt(static_cast<int>(i))));
  return r;
}
inline Doc fromHaptics(ht::Haptics &h) {
  Doc r;
  r.version = h.getVersion();
  r.profile = h.getProfile();
  r.level = h.getLevel();
  r.date = h.getDate();
  r.desc = h.getDescription();
  r.timescale = h.getTimescale();
  for (size_t i = 0; i < h.getAvatarsSize(); i++) {
    auto &a = h.getAvatarAt(static_cast<int>(i));
    r.avatars.push_back({a.getId(), a.getLod(), static_cast<int>(a.getType()), a.getMesh()});
  }
  for (size_t i = 0; i < h.getPerceptionsSize(); i++) r.percs.push_back(fromPerception(h.getPerceptionAt(static_cast<int>(i))));
  for (size_t i = 0; i < h.getSyncsSize(); i++) {
    auto &s = h.getSyncsAt(static_cast<int>(i));
    r.syncs.push_back({s.getTimestamp(), s.getTimescale()});
  }
  return r;
}

// ---------------------------------------------------------------- comparison
struct Tol { // absolute tolerances; 0 means exact
  double amp = 0, phase = 0, figure = 0;
};

class Diff {
public:
  explicit Diff(Tol t = {}) : tol(t) {}
  std::string why; // empty: equal

  bool docs(const Doc &a, const Doc &b) {
    eq("version", a.version, b.version);
    eq("profile", a.profile, b.profile);
    eq("level", a.level, b.level);
    eq("date", a.date, b.date);
    eq("description", a.desc, b.desc);
    eq("timescale", a.timescale, b.timescale);
    list("avatars", a.avatars, b.avatars, [&](const Av &x, const Av &y) {
      eq("id", x.id, y.id);
      eq("lod", x.lod, y.lod);
      eq("type", x.type, y.type);
      eq("mesh", x.mesh, y.mesh);
    });
    list("perceptions", a.percs, b.percs, [&](const Perc &x, const Perc &y) { perc(x, y); });
    list("syncs", a.syncs, b.syncs, [&](const SyncD &x, const SyncD &y) {
      eq("timestamp", x.ts, y.ts);
      eq("timescale", x.timescale, y.timescale);
    });
    return why.empty();
  }
  void perc(const Perc &x, const Perc &y) {
    eq("id", x.id, y.id);
    eq("avatar", x.avatar, y.avatar);
    eq("description", x.desc, y.desc);
    eq("modality", x.modality, y.modality);
    eq("priority", x.priority, y.priority);
    eq("semantic scheme", x.scheme, y.scheme);
    eq("unit exponent", x.unitExp, y.unitExp);
    eq("perception unit exponent", x.percUnitExp, y.percUnitExp);
    list("devices", x.devices, y.devices, [&](const Dev &p, const Dev &q) {
      eq("id", p.id, q.id);
      eq("name", p.name, q.name);
      eq("body part mask", p.mask, q.mask);
      eq("type", p.type, q.type);
      for (int i = 0; i < 11; i++) fl(("figure " + std::to_string(i)).c_str(), p.f[i], q.f[i], tol.figure);
    });
    list("library", x.library, y.library, [&](const Eff &p, const Eff &q) { eff(p, q); });
    list("channels", x.channels, y.channels, [&](const Chan &p, const Chan &q) { chan(p, q); });
  }
  void chan(const Chan &x, const Chan &y) {
    eq("id", x.id, y.id);
    eq("description", x.desc, y.desc);
    fl("gain", Opt<float>(x.gain), Opt<float>(y.gain), tol.figure);
    fl("mixing weight", Opt<float>(x.mix), Opt<float>(y.mix), tol.figure);
    eq("body part mask", x.mask, y.mask);
    eq("reference device", x.device, y.device);
    eq("priority", x.priority, y.priority);
    list("vertices", x.verts, y.verts, [&](int p, int q) { eq("", p, q); });
    eq("sampling", x.fs, y.fs);
    eq("sample count", x.samples, y.samples);
    vec("direction", x.dir, y.dir);
    vec("resolution", x.res, y.res);
    if (x.parts.has_value() != y.parts.has_value()) set("body part target presence");
    if (x.parts && y.parts) list("body part target", *x.parts, *y.parts, [&](int p, int q) { eq("", p, q); });
    if (x.targets.has_value() != y.targets.has_value()) set("actuator target presence");
    if (x.targets && y.targets)
      list("actuator target", *x.targets, *y.targets, [&](const Vec &p, const Vec &q) { vec("", Opt<Vec>(p), Opt<Vec>(q)); });
    list("bands", x.bands, y.bands, [&](const BandD &p, const BandD &q) { band(p, q); });
  }
  void band(const BandD &x, const BandD &y) {
    eq("type", x.type, y.type);
    eq("curve type", x.curve, y.curve);
    eq("block length", x.block, y.block);
    eq("lower limit", x.lo, y.lo);
    eq("upper limit", x.hi, y.hi);
    eq("priority", x.priority, y.priority);
    list("effects", x.effects, y.effects, [&](const Eff &p, const Eff &q) { eff(p, q); });
  }
  void eff(const Eff &x, const Eff &y) {
    eq("position", x.pos, y.pos);
    eq("id", x.id, y.id);
    eq("type", x.type, y.type);
    fl("phase", x.phase, y.phase, tol.phase);
    eq("base signal", x.base, y.base);
    eq("semantic", x.semantic, y.semantic);
    list("keyframes", x.kfs, y.kfs, [&](const KF &p, const KF &q) {
      eq("position", p.pos, q.pos);
      fl("amplitude", p.amp, q.amp, tol.amp);
      eq("frequency", p.freq, q.freq);
    });
    list("timeline", x.timeline, y.timeline, [&](const Eff &p, const Eff &q) { eff(p, q); });
    list("payload", x.wave, y.wave, [&](unsigned char p, unsigned char q) { eq("", static_cast<int>(p), static_cast<int>(q)); });
  }

private:
  Tol tol;
  std::vector<std::string> path;
  void set(const std::string &s) {
    if (!why.empty()) return;
    for (auto &p : path) why += p + ".";
    why += s;
  }
  template <class T> static std::string str(const T &v) {
    std::ostringstream o;
    o.precision(9);
    if constexpr (std::is_same_v<T, std::string>) o << '"' << v.substr(0, 80) << '"' << (v.size() > 80 ? "..." : "");
    else o << v;
    return o.str();
  }
  template <class T> static std::string str(const Opt<T> &v) { return v ? str(*v) : "absent"; }
  template <class T> void eq(const char *n, const T &a, const T &b) {
    if (!why.empty()) return;
    if (!(a == b)) set(std::string(n) + ": expected " + str(a) + ", got " + str(b));
  }
  void fl(const char *n, const Opt<float> &a, const Opt<float> &b, double t) {
    if (!why.empty()) return;
    bool ok = a.has_value() == b.has_value();
    if (ok && a) ok = *a == *b || std::fabs(static_cast<double>(*a) - *b) <= t;
    if (!ok) set(std::string(n) + ": expected " + str(a) + ", got " + str(b));
  }
  void vec(const char *n, const Opt<Vec> &a, const Opt<Vec> &b) {
    if (a.has_value() != b.has_value()) set(std::string(n) + " presence");
    if (a && b && (a->x != b->x || a->y != b->y || a->z != b->z)) set(n);
  }
  template <class T, class F> void list(const char *n, const std::vector<T> &a, const std::vector<T> &b, F f) {
    if (!why.empty()) return;
    if (a.size() != b.size()) {
      set(std::string(n) + ": expected " + std::to_string(a.size()) + ", got " + std::to_string(b.size()));
      return;
    }
    for (size_t i = 0; i < a.size() && why.empty(); i++) {
      path.push_back(std::string(n) + "[" + std::to_string(i) + "]");
      f(a[i], b[i]);
      path.pop_back();
    }
  }
};

inline std::string difference(const Doc &expected, const Doc &got, Tol t = {}) {
  Diff d(t);
  d.docs(expected, got);
  return d.why;
}

// ---------------------------------------------------------------- text
class Dump {
public:
  std::ostringstream o;
  template <class T> void opt(const char *n, const Opt<T> &v) {
    if (v) o << " " << n << "=" << *v;
  }
  void eff(const Eff &e) {
    static const char *ty[] = {"basis", "ref", "comp"};
    o << "(" << (e.type >= 0 && e.type < 3 ? ty[e.type] : "?") << " t=" << e.pos;
    if (e.id != -1) o << " id=" << e.id;
    opt("phase", e.phase);
    opt("base", e.base);
    opt("sem", e.semantic);
    for (auto &k : e.kfs) {
      o << " k[";
      if (k.pos) o << *k.pos;
      o << ":";
      if (k.amp) o << *k.amp;
      o << ":";
      if (k.freq) o << *k.freq;
      o << "]";
    }
    for (auto &t : e.timeline) eff(t);
    if (!e.wave.empty()) {
      o << " wave=";
      for (auto c : e.wave) o << static_cast<int>(c) << ",";
    }
    o << ")";
  }
  void band(const BandD &b) {
    static const char *ty[] = {"transient", "curve", "vectorial", "wavelet"};
    o << " band<" << (b.type >= 0 && b.type < 4 ? ty[b.type] : "?") << " " << b.lo << "-" << b.hi;
    opt("curve", b.curve);
    opt("block", b.block);
    opt("prio", b.priority);
    for (auto &e : b.effects) eff(e);
    o << ">";
  }
  void chan(const Chan &c) {
    o << " channel{id=" << c.id << " '" << c.desc << "' gain=" << c.gain << " mix=" << c.mix << " mask=" << c.mask;
    opt("dev", c.device);
    opt("prio", c.priority);
    opt("fs", c.fs);
    opt("n", c.samples);
    if (c.dir) o << " dir=" << c.dir->x << "/" << c.dir->y << "/" << c.dir->z;
    if (c.res) o << " res=" << c.res->x << "/" << c.res->y << "/" << c.res->z;
    if (c.parts) o << " parts=" << c.parts->size();
    if (c.targets) o << " targets=" << c.targets->size();
    if (!c.verts.empty()) o << " verts=" << c.verts.size() << ":" << c.verts[0];
    for (auto &b : c.bands) band(b);
    o << "}";
  }
  void doc(const Doc &d) {
    o << "v='" << d.version << "' " << d.profile << "/" << d.level << " '" << d.date << "' '" << d.desc << "'";
    opt("ts", d.timescale);
    for (auto &a : d.avatars) {
      o << " avatar{" << a.id << " " << a.lod << " " << a.type;
      opt("mesh", a.mesh);
      o << "}";
    }
    for (auto &p : d.percs) {
      o << " perception{id=" << p.id << " av=" << p.avatar << " '" << p.desc << "' mod=" << p.modality;
      opt("prio", p.priority);
      opt("scheme", p.scheme);
      opt("ue", p.unitExp);
      opt("pue", p.percUnitExp);
      for (auto &v : p.devices) {
        o << " dev{" << v.id << " '" << v.name << "'";
        opt("mask", v.mask);
        for (int i = 0; i < 11; i++)
          if (v.f[i]) o << " f" << i << "=" << *v.f[i];
        opt("type", v.type);
        o << "}";
      }
      if (!p.library.empty()) {
        o << " lib";
        for (auto &e : p.library) eff(e);
      }
      for (auto &c : p.channels) chan(c);
      o << "}";
    }
    for (auto &s : d.syncs) {
      o << " sync@" << s.ts;
      opt("ts", s.timescale);
    }
  }
};
inline std::string dump(const Doc &d) {
  Dump x;
  x.o.precision(9);
  x.doc(d);
  return x.o.str();
}

} // namespace doc
