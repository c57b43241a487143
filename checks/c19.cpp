// C19: OHM descriptors: file round trip, and the way into a document and back.
#include "mc.h"
#include <Tools/include/OHMData.h>
#include <Types/include/Haptics.h>
#include <cstring>
#include <fstream>
#include <iostream>
#include <sstream>

namespace ht = haptics::types;
using haptics::tools::OHMData;

namespace {
struct Ch {
  std::string desc;
  float gain = 1;
  uint32_t mask = 0;
};
struct El {
  std::string file, desc;
  std::vector<Ch> channels;
};
struct Ohm {
  int version = 1;
  std::string desc;
  std::vector<El> elements;
};
uint32_t bits(float f) {
  uint32_t u = 0;
  std::memcpy(&u, &f, 4);
  return u;
}
std::string hex(const std::string &s) {
  std::ostringstream o;
  for (unsigned char c : s) {
    if (c >= 32 && c < 127) o << static_cast<char>(c);
    else o << "\\x" << std::hex << static_cast<int>(c) << std::dec;
  }
  return o.str();
}
std::string show(const Ohm &d) {
  std::ostringstream o;
  o << "version " << d.version << " '" << hex(d.desc) << "' " << d.elements.size() << " elements";
  int n = 0;
  for (auto &e : d.elements) {
    if (n++ > 3) break;
    o << " element{'" << hex(e.file) << "' '" << hex(e.desc) << "'";
    for (size_t i = 0; i < e.channels.size() && i < 4; i++)
      o << " channel('" << hex(e.channels[i].desc) << "' gain " << e.channels[i].gain << " mask " << std::hex << e.channels[i].mask << std::dec << ")";
    o << " #" << e.channels.size() << "}";
  }
  return o.str();
}
OHMData real(const Ohm &d) {
  OHMData x;
  x.setHeader("OHM ");
  x.setVersion(static_cast<short>(d.version));
  x.setDescription(d.desc);
  for (auto &e : d.elements) {
    OHMData::HapticElementMetadata m;
    m.elementFilename = e.file;
    m.elementDescription = e.desc;
    m.numHapticChannels = static_cast<short>(e.channels.size());
    for (auto &c : e.channels) {
      OHMData::HapticChannelMetadata k;
      k.channelDescription = c.desc;
      k.gain = c.gain;
      k.bodyPartMask = static_cast<OHMData::Body>(c.mask);
      m.channelsMetadata.push_back(k);
    }
    x.addHapticElementMetadata(m);
  }
  return x;
}
std::string fixed(std::string s, size_t n) {
  s.resize(n, '\0');
  return s;
}
std::string layout(const Ohm &d) { // the descriptor file, by its definition
  auto big = [](uint32_t v, int n) {
    std::string s;
    for (int i = n - 1; i >= 0; i--) s += static_cast<char>(v >> (8 * i));
    return s;
  };
  std::string f = "OHM " + big(static_cast<uint32_t>(d.version), 2) + big(static_cast<uint32_t>(d.elements.size()), 2) + fixed(d.desc, 32);
  for (auto &e : d.elements) {
    f += fixed(e.file, 64) + fixed(e.desc, 32) + big(static_cast<uint32_t>(e.channels.size()), 2);
    for (auto &c : e.channels) {
      const uint32_t g = bits(c.gain);
      f += fixed(c.desc, 32);
      for (int i = 0; i < 4; i++) f += static_cast<char>(g >> (8 * i));
      f += big(c.mask, 4);
    }
  }
  return f;
}
void same(mc::Run &r, const Ohm &d, OHMData &x, const std::string &key) {
  auto bad = [&](const std::string &what) { r.fail(key, what + ": " + show(d)); };
  if (x.getHeader() != "OHM ") bad("header is '" + hex(x.getHeader()) + "'");
  if (x.getVersion() != d.version) bad("version is " + std::to_string(x.getVersion()));
  if (x.getDescription() != d.desc) bad("description is '" + hex(x.getDescription()) + "'");
  if (x.getHapticElementMetadataSize() != d.elements.size()) bad(std::to_string(x.getHapticElementMetadataSize()) + " elements");
  for (size_t i = 0; i < d.elements.size(); i++) {
    auto &e = d.elements[i];
    auto &m = x.getHapticElementMetadataAt(static_cast<int>(i));
    if (m.elementFilename != e.file) bad("file name of element " + std::to_string(i) + " is '" + hex(m.elementFilename) + "'");
    if (m.elementDescription != e.desc) bad("description of element " + std::to_string(i) + " is '" + hex(m.elementDescription) + "'");
    if (m.numHapticChannels != static_cast<int>(e.channels.size()) || m.channelsMetadata.size() != e.channels.size()) bad("element " + std::to_string(i) + " has " + std::to_string(m.numHapticChannels) + "/" + std::to_string(m.channelsMetadata.size()) + " channels");
    for (size_t j = 0; j < e.channels.size(); j++) {
      auto &c = e.channels[j];
      auto &k = m.channelsMetadata[j];
      const std::string where = " of channel " + std::to_string(i) + "/" + std::to_string(j) + " is ";
      if (k.channelDescription != c.desc) bad("description" + where + "'" + hex(k.channelDescription) + "'");
      if (bits(k.gain) != bits(c.gain)) bad("gain" + where + std::to_string(k.gain));
      if (static_cast<uint32_t>(k.bodyPartMask) != c.mask) {
        std::ostringstream o;
        o << std::hex << static_cast<uint32_t>(k.bodyPartMask);
        bad("mask" + where + o.str());
      }
    }
  }
}
void file(mc::Run &r, const Ohm &d) {
  r.describe([d] { return show(d); });
  auto x = real(d);
  const std::string name = mc::scratch() + "/a.ohm";
  REQUIRE(r, x.writeFile(name), "write", "not written: " + show(d));
  same(r, d, x, "changed-by-writing");
  std::ifstream in(name, std::ios::binary);
  std::stringstream bytes;
  bytes << in.rdbuf();
  REQUIRE(r, bytes.str() == layout(d), "layout", "the file is not laid out as an OHM file: " + show(d));
  OHMData y;
  REQUIRE(r, y.loadFile(name), "load", "not loaded: " + show(d));
  same(r, d, y, "round-trip");
  REQUIRE(r, y.loadFile(name), "load", "not loaded again: " + show(d));
  same(r, d, y, "load-again");
  OHMData z(name);
  same(r, d, z, "round-trip");
  r.step(4);
  r.state(mc::hashStr(bytes.str()));
}
void document(mc::Run &r, const Ohm &d, int already) {
  r.describe([d, already] { return std::to_string(already) + " perceptions before: " + show(d); });
  auto x = real(d);
  ht::Haptics h;
  h.loadMetadataFromOHM(x);
  r.step(2);
  REQUIRE(r, h.getDescription() == d.desc, "document", "description of the document is '" + hex(h.getDescription()) + "': " + show(d));
  REQUIRE(r, h.getVersion() == std::to_string(d.version), "document", "version of the document is '" + h.getVersion() + "': " + show(d));
  REQUIRE(r, h.getPerceptionsSize() == d.elements.size(), "document", std::to_string(h.getPerceptionsSize()) + " perceptions: " + show(d));
  for (size_t i = 0; i < d.elements.size(); i++) {
    auto &p = h.getPerceptionAt(static_cast<int>(i));
    auto &e = d.elements[i];
    REQUIRE(r, p.getId() == static_cast<int>(i) && p.getDescription() == e.desc && p.getChannelsSize() == e.channels.size(), "document", "perception " + std::to_string(i) + " differs: " + show(d));
    for (size_t j = 0; j < e.channels.size(); j++) {
      auto &c = p.getChannelAt(static_cast<int>(j));
      REQUIRE(r, c.getId() == static_cast<int>(j) && c.getDescription() == e.channels[j].desc && bits(c.getGain()) == bits(e.channels[j].gain) && c.getBodyPartMask() == e.channels[j].mask && c.getBandsSize() == 0, "document",
              "channel " + std::to_string(i) + "/" + std::to_string(j) + " differs: " + show(d));
    }
  }
  std::string name = "some.wav";
  auto y = h.extractMetadataToOHM(name);
  Ohm want = d;
  for (auto &e : want.elements) e.file = name;
  same(r, want, y, "extracted");
  r.state(mc::hashStr(layout(want)));
}
// Both ways with the same descriptor.
void both(mc::Run &r, const Ohm &d) {
  if (r.flip()) document(r, d, 0);
  else file(r, d);
}

std::vector<std::string> texts(size_t n) {
  return {"", "a", "Some description", std::string(n - 1, 'x'), std::string(n, 'y'), "tab\there", " lead and trail ", std::string("\xc3\xa9\xff\x80"), "OHM "};
}
void shapes(mc::Run &r) { // how many elements, how many channels
  const int n = r.choose(r.thorough() ? 6 : 5);
  if (!r.go()) return;
  r.tag("elements " + std::to_string(n));
  Ohm d;
  d.desc = "shape";
  for (int i = 0; i < n; i++) {
    El e;
    e.file = "f" + std::to_string(i);
    e.desc = "element " + std::to_string(i);
    for (int j = 0, m = r.choose(4); j < m; j++) e.channels.push_back({"channel " + std::to_string(i) + std::to_string(j), 0.25F * static_cast<float>(j + 1) + static_cast<float>(i), (i * 16U + j + 1U) << (5 * j + 3 * i)});
    d.elements.push_back(e);
  }
  both(r, d);
}
void masks(mc::Run &r) { // every bit, every pair of bits, every byte at every place
  const int how = r.choose(3);
  if (!r.go()) return;
  uint32_t m = 0;
  if (how == 0) m = 1U << r.choose(32) | 1U << r.choose(32);
  else if (how == 1) m = static_cast<uint32_t>(r.choose(256)) << (8 * r.choose(4));
  else m = ~(static_cast<uint32_t>(r.choose(256)) << (8 * r.choose(4)));
  r.tag("mask");
  Ohm d;
  d.elements.push_back({"f", "e", {{"c", 1, m}, {"after", 2, 3}}});
  both(r, d);
}
void numbers(mc::Run &r) {
  const int how = r.choose(3);
  const int part = r.choose(8);
  if (!r.go()) return;
  Ohm d;
  if (how == 0) { // every version
    d.version = part * 4096 + r.choose(4096);
    r.tag("version");
  } else if (how == 1) { // gains: every sign, exponent and some fractions
    const uint32_t u = static_cast<uint32_t>(part & 1) << 31 | static_cast<uint32_t>(r.choose(255)) << 23 | (part >> 1 == 0 ? 0U : part >> 1 == 1 ? 1U : part >> 1 == 2 ? 0x7fffffU : 0x2aaaaaU);
    float g = 0;
    std::memcpy(&g, &u, 4);
    d.elements.push_back({"f", "e", {{"c", g, 1}, {"after", 2, 3}}});
    r.tag("gain");
  } else { // many
    static const std::vector<int> many = {4, 10, 127, 128, 255, 256, 257, 1000};
    const int n = many[static_cast<size_t>(part)];
    r.tag("many");
    const bool elements = r.flip();
    if (elements)
      for (int i = 0; i < n; i++) d.elements.push_back({"f", std::to_string(i), {}});
    else {
      d.elements.push_back({"f", "e", {}});
      for (int i = 0; i < n; i++) d.elements[0].channels.push_back({std::to_string(i), 1, static_cast<uint32_t>(i)});
      d.elements.push_back({"f", "after", {{"c", 1, 1}}});
    }
  }
  both(r, d);
}
void strings(mc::Run &r) { // every length and every byte, in every text
  const int which = r.choose(4);
  const int how = r.choose(3);
  if (!r.go()) return;
  const size_t n = which == 1 ? 64 : 32;
  std::string s;
  if (how == 0) s = std::string(static_cast<size_t>(r.choose(static_cast<int>(n) + 1)), 'q');
  else if (how == 1) s = std::string("a") + static_cast<char>(1 + r.choose(255)) + (r.flip() ? "b" : "");
  else s = r.pick(texts(n));
  r.tag("text");
  Ohm d;
  El e{"file.hjif", "element", {{"channel", 0.5F, 7}}};
  if (which == 0) d.desc = s;
  if (which == 1) e.file = s;
  if (which == 2) e.desc = s;
  if (which == 3) e.channels[0].desc = s;
  d.elements = {e, {"b", "c", {{"d", 1, 2}}}};
  both(r, d);
}
void reuse(mc::Run &r) { // one object, several files
  const int a = r.choose(4);
  if (!r.go()) return;
  const int b = r.choose(4);
  const bool refused = r.flip();
  r.tag("reuse");
  auto make = [](int n) {
    Ohm d;
    d.version = n + 1;
    d.desc = "document " + std::to_string(n);
    for (int i = 0; i < n; i++) d.elements.push_back({"f" + std::to_string(n), "e", {{"c" + std::to_string(i), 1, 1}}});
    return d;
  };
  const std::string name = mc::scratch() + "/a.ohm";
  OHMData x;
  r.describe([=] { return show(make(a)) + " then " + show(make(b)); });
  real(make(a)).writeFile(name);
  REQUIRE(r, x.loadFile(name), "load", "not loaded");
  if (refused) {
    OHMData y;
    REQUIRE(r, !y.loadFile(mc::scratch() + "/none.ohm"), "missing", "a file that does not exist was loaded");
    std::ofstream(name, std::ios::binary) << (a % 2 ? "RIFFxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxxx" : "");
    REQUIRE(r, !y.loadFile(name), "other-file", "a file that is no OHM file was loaded");
  }
  real(make(b)).writeFile(name);
  REQUIRE(r, x.loadFile(name), "load", "not loaded");
  same(r, make(b), x, "reuse");
  REQUIRE(r, !x.writeFile(mc::scratch() + "/none/a.ohm"), "write-fails", "writing into a missing folder succeeded");
  r.step(3);
  r.state(static_cast<uint64_t>(a * 8 + b * 2 + refused));
}
} // namespace

// -- what an element's description says it is
void modalities(mc::Run &r) {
  using M = ht::PerceptionModality;
  static const std::vector<std::pair<std::string, M>> KINDS = {
      {"Other", M::Other}, {"Pressure", M::Pressure}, {"Acceleration", M::Acceleration}, {"Velocity", M::Velocity}, {"Position", M::Position},
      {"Temperature", M::Temperature}, {"Vibration", M::Vibrotactile}, {"Vibrotactile", M::Vibrotactile}, {"Water", M::Water}, {"Wind", M::Wind},
      {"Kinesthetic", M::Force}, {"Force", M::Force}, {"Vibrotactile Texture", M::VibrotactileTexture}, {"Texture", M::VibrotactileTexture},
      {"Stiffness", M::Stiffness}, {"Friction", M::Friction}, {"Electrotactile", M::Electrotactile}, {"", M::Other}, {"unheard of", M::Other}};
  const int n = 1 + r.choose(2);
  if (!r.go()) return;
  Ohm d;
  std::vector<M> want;
  for (int i = 0; i < n; i++) {
    const auto &[name, kind] = KINDS[static_cast<size_t>(r.choose(static_cast<int>(KINDS.size())))];
    const bool effect = !name.empty() && kind != M::Electrotactile && r.flip();
    El e;
    e.desc = name + (effect ? " effect" : "");
    e.channels.push_back({"c", 1, 1});
    d.elements.push_back(e);
    want.push_back(kind);
  }
  r.describe([d] { return show(d); });
  ht::Haptics h;
  auto x = real(d);
  h.loadMetadataFromOHM(x);
  r.step();
  REQUIRE(r, h.getPerceptionsSize() == want.size(), "document", "perceptions are missing: " + show(d));
  for (size_t i = 0; i < want.size(); i++)
    REQUIRE(r, h.getPerceptionAt(static_cast<int>(i)).getPerceptionModality() == want[i], "modality", "perception " + std::to_string(i) + " is of the wrong modality: " + show(d));
  r.state(mc::hashStr(show(d)));
}

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  std::cout.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C19", {{"shapes", shapes}, {"masks", masks}, {"numbers", numbers}, {"strings", strings}, {"reuse", reuse}, {"modalities", modalities}});
}
