// An HJIF writer of our own: everything that is present in the document is written, whether it makes sense or not.
#pragma once
#include "doc.h"
#include <cstdio>

namespace jsonw {
using namespace doc;
inline const char *modality(int i) {
  static const char *n[] = {"Other", "Pressure", "Acceleration", "Velocity", "Position", "Temperature", "Vibrotactile", "Water", "Wind", "Force", "Vibrotactile Texture", "Stiffness", "Friction", "Electrotactile"};
  return n[i];
}
inline std::string quote(const std::string &s) {
  std::string o = "\"";
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') o += '\\', o += static_cast<char>(c);
    else if (c < 0x20) {
      char b[8];
      std::snprintf(b, sizeof b, "\\u%04x", c);
      o += b;
    } else o += static_cast<char>(c);
  }
  return o + "\"";
}
struct Obj {
  std::string s = "{";
  Obj &raw(const char *k, const std::string &v) {
    if (s.size() > 1) s += ",";
    s += "\"" + std::string(k) + "\":" + v;
    return *this;
  }
  Obj &str(const char *k, const std::string &v) { return raw(k, quote(v)); }
  Obj &num(const char *k, long long v) { return raw(k, std::to_string(v)); }
  Obj &real(const char *k, double v) {
    char b[40];
    std::snprintf(b, sizeof b, "%.9g", v);
    return raw(k, b);
  }
  std::string end() const { return s + "}"; }
};
template <class T, class F> std::string list(const std::vector<T> &v, F f) {
  std::string s = "[";
  for (size_t i = 0; i < v.size(); i++) s += (i ? "," : "") + f(v[i]);
  return s + "]";
}
inline std::string vec(const Vec &v) { return Obj().num("X", v.x).num("Y", v.y).num("Z", v.z).end(); }
inline std::string effect(const Eff &e, bool library, bool wavelet) {
  static const char *types[] = {"Basis", "Reference", "Composite"};
  static const char *signals[] = {"Sine", "Square", "Triangle", "SawToothUp", "SawToothDown"};
  Obj o;
  o.str("effect_type", types[e.type]).num("position", e.pos);
  if (library || e.type == 1) o.num("id", e.id);
  if (e.phase) o.real("phase", *e.phase);
  if (e.base) o.str("base_signal", signals[*e.base]);
  if (e.semantic) o.str("semantic_keywords", *e.semantic);
  if (!e.kfs.empty())
    o.raw("keyframes", list(e.kfs, [](const KF &k) {
            Obj q;
            if (k.pos) q.num("relative_position", *k.pos);
            if (k.amp) q.real("amplitude_modulation", *k.amp);
            if (k.freq) q.num("frequency_modulation", *k.freq);
            return q.end();
          }));
  if (wavelet && e.type == 0) o.str("wavelet_stream", "AAAA");
  return o.end();
}
inline std::string band(const BandD &b) {
  static const char *types[] = {"Transient", "Curve", "VectorialWave", "WaveletWave"};
  static const char *curves[] = {"Unknown", "Cubic", "Linear", "Akima", "Bezier", "Bspline"};
  Obj o;
  o.str("band_type", types[b.type]);
  if (b.curve) o.str("curve_type", curves[*b.curve]);
  if (b.block) o.num("block_length", *b.block);
  o.num("lower_frequency_limit", b.lo).num("upper_frequency_limit", b.hi);
  if (b.priority) o.num("priority", *b.priority);
  o.raw("effects", list(b.effects, [&](const Eff &e) { return effect(e, false, b.type == 3); }));
  return o.end();
}
inline std::string channel(const Chan &c) {
  Obj o;
  o.num("id", c.id).str("description", c.desc).real("gain", c.gain).real("mixing_coefficient", c.mix).num("body_part_mask", c.mask);
  if (c.device) o.num("reference_device_id", *c.device);
  if (c.priority) o.num("priority", *c.priority);
  if (c.fs) o.num("frequency_sampling", *c.fs);
  if (c.samples) o.num("sample_count", *c.samples);
  if (c.dir) o.raw("direction", vec(*c.dir));
  if (c.res) o.raw("actuator_resolution", vec(*c.res));
  if (c.targets) o.raw("actuator_target", list(*c.targets, vec));
  if (!c.verts.empty()) o.raw("vertices", list(c.verts, [](int v) { return std::to_string(v); }));
  o.raw("bands", list(c.bands, band));
  return o.end();
}
inline std::string device(const Dev &d) {
  static const char *fields[] = {"maximum_frequency", "minimum_frequency", "resonance_frequency", "maximum_amplitude", "impedance", "maximum_voltage", "maximum_current", "maximum_displacement", "weight", "size", "custom"};
  static const char *types[] = {"Unknown", "LRA", "VCA", "ERM", "Piezo"};
  Obj o;
  o.num("id", d.id).str("name", d.name);
  if (d.mask) o.num("body_part_mask", *d.mask);
  for (int i = 0; i < 11; i++)
    if (d.f[i]) o.real(fields[i], *d.f[i]);
  if (d.type) o.str("type", types[*d.type]);
  return o.end();
}
inline std::string perception(const Perc &p) {
  Obj o;
  o.num("id", p.id).num("avatar_id", p.avatar).str("description", p.desc).str("perception_modality", modality(p.modality));
  if (p.priority) o.num("priority", *p.priority);
  if (p.scheme) o.str("effect_semantic_scheme", *p.scheme);
  if (p.unitExp) o.num("unit_exponent", *p.unitExp);
  if (p.percUnitExp) o.num("perception_unit_exponent", *p.percUnitExp);
  o.raw("reference_devices", list(p.devices, device));
  o.raw("effect_library", list(p.library, [](const Eff &e) { return effect(e, true, false); }));
  o.raw("channels", list(p.channels, channel));
  return o.end();
}
inline std::string document(const Doc &d, long long level) {
  static const char *types[] = {"Custom", "Vibration", "Pressure", "Temperature"};
  Obj o;
  o.str("version", d.version).str("profile", d.profile).num("level", level).str("date", d.date).str("description", d.desc);
  if (d.timescale) o.num("timescale", *d.timescale);
  o.raw("avatars", list(d.avatars, [](const Av &a) {
          Obj q;
          q.num("id", a.id).num("lod", a.lod).str("type", types[a.type]);
          if (a.mesh) q.str("mesh", *a.mesh);
          return q.end();
        }));
  o.raw("perceptions", list(d.percs, perception));
  o.raw("syncs", list(d.syncs, [](const SyncD &s) {
          Obj q;
          q.num("timestamp", s.ts);
          if (s.timescale) q.num("timescale", *s.timescale);
          return q.end();
        }));
  return o.end();
}
} // namespace jsonw
