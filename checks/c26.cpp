// C26: the encoder and synthesizer tools (their mains, called in the process) against the library.
#include "clock.h"
#include "streams.h"
#include <Encoder/include/AhapEncoder.h>
#include <Encoder/include/IvsEncoder.h>
#include <Encoder/include/PcmEncoder.h>
#include <IOHaptics/include/IOJson.h>
#include <IOHaptics/include/IOStream.h>
#include <Synthesizer/include/Helper.h>
#include <Tools/include/OHMData.h>
#include <WaveletDecoder/include/WaveletDecoder.h>
#include <cmath>
#include <filesystem>
#include <map>
#include <sstream>
using namespace doc;
using namespace gen;
using haptics::encoder::AhapEncoder;
using haptics::encoder::EncodingConfig;
using haptics::encoder::IvsEncoder;
using haptics::encoder::PcmEncoder;
using haptics::io::IOJson;
using haptics::io::IOStream;
using haptics::synthesizer::Helper;
using haptics::tools::OHMData;
namespace ht = haptics::types;
namespace fs = std::filesystem;
int Encoder_main(int argc, char *argv[]);
int Synthesizer_main(int argc, char *argv[]);

namespace {
using Words = std::vector<std::string>;
using Files = std::map<std::string, std::string>;
struct Result {
  int code = -1;
  std::string out, error;
};
Result tool(int (*entry)(int, char **), const Words &words) { // runs it in the current folder
  Result res;
  Words all = {"tool"};
  all.insert(all.end(), words.begin(), words.end());
  std::vector<char *> argv;
  for (auto &w : all) argv.push_back(w.data());
  argv.push_back(nullptr);
  std::ostringstream o;
  auto *old = std::cout.rdbuf(o.rdbuf());
  std::cout.clear();
  try {
    res.code = entry(static_cast<int>(all.size()), argv.data());
  } catch (const std::exception &e) {
    res.error = e.what();
  }
  std::cout.rdbuf(old);
  res.out = o.str();
  return res;
}
bool helpShown(const Result &r) { return r.out.find("usage") != std::string::npos && r.out.find("--output") != std::string::npos; }
struct Quiet { // no output of the library
  std::ostringstream o;
  std::streambuf *old = std::cout.rdbuf(o.rdbuf());
  ~Quiet() { std::cout.rdbuf(old); }
};
const std::string &folder() {
  static const std::string dir = [] {
    const auto d = mc::scratch() + "/c26";
    fs::create_directories(d);
    fs::current_path(d);
    return d;
  }();
  return dir;
}
void fresh(const Files &files) {
  for (auto &f : fs::directory_iterator(folder())) fs::remove_all(f.path());
  for (auto &[n, t] : files) spew(n, t);
}
Words filesHere() {
  Words l;
  for (auto &f : fs::directory_iterator(fs::current_path())) l.push_back(f.path().filename().string());
  std::sort(l.begin(), l.end());
  return l;
}
std::string line(const char *name, const Words &w) {
  std::string s = name;
  for (auto &x : w) s += " '" + x + "'";
  return s;
}
std::string after(const Words &w, const std::string &option) {
  for (size_t i = 0; i + 1 < w.size(); i++)
    if (w[i] == option) return w[i + 1];
  return "";
}
bool has(const Words &w, const std::string &option) { return std::count(w.begin(), w.end(), option) > 0; }
std::string either(const Words &w, const std::string &a, const std::string &b) {
  const auto v = after(w, a);
  return v.empty() ? after(w, b) : v;
}
std::string undated(std::string s) { // a document of no date gets the present one
  const auto at = s.find("\"date\":\"");
  if (at == std::string::npos) return s;
  return s.erase(at + 8, s.find('"', at + 8) - at - 8);
}
void le(std::string &s, uint32_t v, int n) {
  for (int i = 0; i < n; i++) s += static_cast<char>(v >> (8 * i));
}
std::string riff(const std::vector<std::vector<int>> &channels, uint32_t rate) {
  const auto n = static_cast<uint32_t>(channels.size()), m = static_cast<uint32_t>(channels[0].size());
  std::string s = "RIFF";
  le(s, 36 + 2 * n * m, 4);
  s += "WAVEfmt ";
  le(s, 16, 4), le(s, 1, 2), le(s, n, 2), le(s, rate, 4), le(s, rate * 2 * n, 4), le(s, 2 * n, 2), le(s, 16, 2);
  s += "data";
  le(s, 2 * n * m, 4);
  for (uint32_t i = 0; i < m; i++)
    for (auto &c : channels) le(s, static_cast<uint32_t>(c[i]), 2);
  return s;
}
std::string wav(int channels, int samples, uint32_t rate) {
  std::vector<std::vector<int>> c(static_cast<size_t>(channels));
  for (int k = 0; k < channels; k++)
    for (int i = 0; i < samples; i++) c[static_cast<size_t>(k)].push_back(static_cast<int>(9000 * std::sin(i * 0.03 * (k + 1)) + 5000 * std::sin(i * 0.9 + k)));
  return riff(c, rate);
}
std::string ohm(const std::vector<std::pair<std::string, int>> &elements) {
  OHMData o;
  o.setHeader("OHM ");
  o.setVersion(1);
  o.setDescription("made up");
  int k = 0;
  for (auto &[name, channels] : elements) {
    OHMData::HapticElementMetadata m;
    m.elementFilename = name;
    m.elementDescription = "element " + std::to_string(k);
    m.numHapticChannels = static_cast<short>(channels);
    for (int c = 0; c < channels; c++) {
      OHMData::HapticChannelMetadata cm;
      cm.channelDescription = "channel " + std::to_string(c);
      cm.gain = 0.5F + static_cast<float>(c + k);
      cm.bodyPartMask = OHMData::Body::LEFT_HAND_PALM;
      m.channelsMetadata.push_back(cm);
    }
    o.addHapticElementMetadata(m);
    k++;
  }
  const auto p = mc::scratch() + "/c26-ohm";
  o.writeFile(p);
  return slurp(p);
}
std::string hjif(const Doc &d) {
  const auto p = mc::scratch() + "/c26-hjif";
  auto h = toHaptics(d);
  IOJson::writeFile(h, p);
  return slurp(p);
}
std::string stream(const Doc &d) {
  const auto p = mc::scratch() + "/c26-stream";
  auto h = toHaptics(d);
  IOStream::writeFile(h, p, 128);
  return slurp(p);
}
const std::string AHAP = R"({"Version":1.0,"Pattern":[{"Event":{"Time":0.0,"EventType":"HapticTransient","EventParameters":[{"ParameterID":"HapticIntensity","ParameterValue":0.75}]}},{"Event":{"Time":0.5,"EventType":"HapticContinuous","EventDuration":0.75,"EventParameters":[{"ParameterID":"HapticIntensity","ParameterValue":0.5},{"ParameterID":"HapticSharpness","ParameterValue":0.25}]}},{"ParameterCurve":{"ParameterID":"HapticIntensityControl","Time":0.625,"ParameterCurveControlPoints":[{"Time":0,"ParameterValue":0.5},{"Time":0.25,"ParameterValue":1}]}},{"Event":{"Time":2.0,"EventType":"HapticTransient","EventParameters":[{"ParameterID":"HapticIntensity","ParameterValue":0.75}]}}]})";
const std::string AHAP2 = R"({"Version":1.0,"Pattern":[{"Event":{"Time":0.25,"EventType":"HapticContinuous","EventDuration":0.2,"EventParameters":[]}}]})";
const std::string IVS = R"(<?xml version="1.0"?><ivs-file><effects><basis-effect name="a" type="periodic" waveform="triangle" duration="100" magnitude="5000" period="20"/><basis-effect name="b" type="magsweep" duration="50" magnitude="10000" attack-time="10" attack-level="2000"/><timeline-effect name="t"><launch-event effect="a" time="10"/><launch-event effect="b" time="200"/><launch-event effect="a" time="300"/><repeat-event time="0" duration="400" count="1"/></timeline-effect></effects></ivs-file>)";

struct Input { // a file to encode and what it needs
  std::string name;
  bool sound;
  Files files;
};
const std::vector<Input> &inputs() {
  static const std::vector<Input> l = [] {
    std::vector<Input> v;
    v.push_back({"in.ahap", false, {{"in.ahap", AHAP}}});
    v.push_back({"in.json", false, {{"in.json", AHAP2}}});
    v.push_back({"in.ivs", false, {{"in.ivs", IVS}}});
    v.push_back({"in.xml", false, {{"in.xml", IVS}}});
    v.push_back({"in.hjif", false, {{"in.hjif", hjif(streams::base(false))}}});
    v.push_back({"in.hjif", false, {{"in.hjif", hjif(streams::base(true))}}});
    v.push_back({"in.ohm", false, {{"in.ohm", ohm({{"a.ahap", 1}, {"b.ivs", 1}})}, {"a.ahap", AHAP}, {"b.ivs", IVS}}});
    v.push_back({"in.ohm", false, {{"in.ohm", ohm({{"b.xml", 1}, {"b.xml", 1}, {"a.json", 1}})}, {"a.json", AHAP2}, {"b.xml", IVS}}});
    v.push_back({"in.ohm", false, {{"in.ohm", ohm({})}}});
    v.push_back({"in.wav", true, {{"in.wav", wav(1, 700, 8000)}}});
    v.push_back({"in.wav", true, {{"in.wav", wav(2, 130, 1000)}}});
    v.push_back({"in.ohm", true, {{"in.ohm", ohm({{"a.ahap", 1}, {"w.wav", 2}})}, {"a.ahap", AHAP}, {"w.wav", wav(2, 200, 2000)}}});
    // not usable
    v.push_back({"in.ahap", false, {{"in.ahap", AHAP.substr(0, 200)}}});
    v.push_back({"in.json", false, {{"in.json", "[]"}}});
    v.push_back({"in.ivs", false, {{"in.ivs", "<ivs-file>"}}});
    v.push_back({"in.xml", false, {{"in.xml", "<html/>"}}});
    v.push_back({"in.hjif", false, {{"in.hjif", "{}"}}});
    v.push_back({"in.hjif", false, {{"in.hjif", ""}}});
    v.push_back({"in.ohm", false, {{"in.ohm", ohm({{"a.ahap", 1}, {"b.ivs", 1}})}, {"a.ahap", AHAP}}});
    v.push_back({"in.ohm", false, {{"in.ohm", ohm({{"b.txt", 1}, {"a.ahap", 1}})}, {"a.ahap", AHAP}, {"b.txt", IVS}}});
    v.push_back({"in.ohm", false, {{"in.ohm", ohm({{"b.ivs", 1}, {"a.ahap", 1}})}, {"a.ahap", "{"}, {"b.ivs", IVS}}});
    v.push_back({"in.ohm", false, {{"in.ohm", ohm({{"a.ahap", 1}}).substr(0, 60)}, {"a.ahap", AHAP}}});
    v.push_back({"in.ohm", true, {{"in.ohm", ohm({{"w.wav", 3}})}, {"w.wav", wav(2, 200, 2000)}}}); // channels that are not there
    v.push_back({"in.wav", true, {{"in.wav", "RIFF"}}});
    v.push_back({"in.wav", true, {{"in.wav", ""}}});
    v.push_back({"in.txt", false, {{"in.txt", AHAP}}});
    v.push_back({"in", false, {{"in", AHAP}}});
    v.push_back({"in.mihs", false, {{"in.mihs", stream(streams::base(false))}}});
    return v;
  }();
  return l;
}
std::optional<double> number(const std::string &s, bool whole) {
  try {
    return whole ? std::stoi(s) : std::stod(s);
  } catch (const std::exception &) {
    return std::nullopt;
  }
}
// What the library makes of the files in the folder: the document written, or nothing. The present folder has the input.
std::optional<std::string> expected(const std::string &in, const Words &w, bool &dated) {
  Quiet q;
  dated = false;
  const auto value = [&](const std::string &option, bool whole, std::optional<double> otherwise) { return has(w, option) ? number(after(w, option), whole) : otherwise; };
  const auto ts = value("-ts", true, 1000), cutoff = value("-cf", false, 72.5), length = value("-bl", true, 1024), rate = value("-kb", true, 0), budget = value("-bu", true, 16);
  if (!ts || *ts < 1 || !cutoff || !length || !rate || !budget) return std::nullopt;
  const bool wavelet = !has(w, "--disable-wavelet"), vectorial = !has(w, "--disable-vectorial");
  EncodingConfig config = has(w, "-kb") ? EncodingConfig::generateConfigParam(static_cast<int>(*rate), *cutoff, wavelet, vectorial, static_cast<int>(*length)) : EncodingConfig(*cutoff, static_cast<int>(*length), static_cast<int>(*budget), wavelet, vectorial);
  const auto scale = static_cast<unsigned>(*ts);
  const auto one = [&](std::string name, ht::Perception &p) {
    if (!fs::is_regular_file(name)) return false;
    const auto ext = name.substr(std::min(name.size(), name.rfind('.') + 1));
    if (ext == "ahap" || ext == "json") return AhapEncoder::encode(name, p, scale) == 0;
    if (ext == "ivs" || ext == "xml") return IvsEncoder::encode(name, p, scale) == 0;
    return ext == "wav" && PcmEncoder::encode(name, config, scale, p) == 0;
  };
  ht::Haptics h;
  h.setTimescale(scale);
  try {
    if (in == "in.ohm") {
      OHMData o;
      if (!o.loadFile(in)) return std::nullopt;
      h.loadMetadataFromOHM(o);
      for (size_t i = 0; i < o.getHapticElementMetadataSize(); i++) {
        auto p = h.getPerceptionAt(static_cast<int>(i));
        if (!one(o.getHapticElementMetadataAt(static_cast<int>(i)).elementFilename, p)) return std::nullopt;
        h.replacePerceptionAt(static_cast<int>(i), p);
      }
    } else if (in == "in.hjif") {
      if (!IOJson::loadFile(in, h)) return std::nullopt;
    } else {
      ht::Perception p(0, 0, "", ht::PerceptionModality::Other);
      if (in.find('.') == std::string::npos || !one(in, p)) return std::nullopt;
      h.addPerception(p);
    }
    if (has(w, "-r") || has(w, "--refactor")) h.refactor();
    if (has(w, "-l") || has(w, "--linearize")) h.linearize();
    const auto path = mc::scratch() + "/c26-expected";
    fs::remove(path);
    if (has(w, "-b") || has(w, "--binary")) {
      const auto duration = value("--packet_duration", true, haptics::io::DEFAULT_PACKET_DURATION);
      if (!duration || !IOStream::writeFile(h, path, static_cast<int>(*duration))) return std::nullopt;
      dated = true;
      return slurp(path);
    }
    if (!IOJson::writeFile(h, path)) return std::nullopt;
    const auto text = slurp(path);
    dated = text.find("\"date\":\"" + h.getDate() + "\"") != std::string::npos;
    return text;
  } catch (const std::exception &) {
    return std::nullopt;
  }
}
void judge(mc::Run &r, const Input &in, const Words &w, const std::string &out, const Result &res) {
  bool dated = false;
  Words want;
  for (auto &[n, t] : in.files) want.push_back(n);
  REQUIRE(r, res.error.empty(), "crash", "the tool ended in the exception " + res.error);
  for (auto &[n, t] : in.files) REQUIRE(r, slurp(n) == t, "input-changed", "the tool changed " + n);
  std::string got;
  const bool there = fs::exists(out);
  if (there) got = slurp(out);
  auto text = expected(in.name, w, dated);
  const bool binary = has(w, "-b") || has(w, "--binary");
  for (int i = 0; i < 5 && binary && text && res.code == 0 && got != *text; i++) { // a second may have gone by between them
    tool(Encoder_main, w);
    got = slurp(out);
    text = expected(in.name, w, dated);
  }
  if (res.code == 0) want.push_back(out);
  std::sort(want.begin(), want.end());
  auto here = filesHere();
  here.erase(std::remove_if(here.begin(), here.end(), [&](auto &f) { return res.code != 0 && f == out; }), here.end()); // what is left of a failed output
  REQUIRE(r, (res.code == 0) == text.has_value(), "status", "exit status " + std::to_string(res.code) + " though the library " + (text ? "encodes" : "does not encode") + " the file");
  REQUIRE(r, here == want, "files", "the files in the folder afterwards are " + line("", here));
  if (text) REQUIRE(r, dated ? got == *text : undated(got) == undated(*text), "output", "the tool wrote " + got.substr(0, 700) + "\nthe library " + text->substr(0, 700));
  const auto ticks = number(has(w, "-ts") ? after(w, "-ts") : "1000", true);
  const bool fits = ticks && (in.sound ? *ticks == 1000 || *ticks == 8000 : *ticks >= 1 && *ticks <= 48000); // a block is a power of two of ticks
  if (text && fits) { // within the profile's limits: this software takes it
    ht::Haptics h;
    bool taken = false;
    {
      Quiet q;
      taken = binary ? IOStream::readFile(out, h) : IOJson::loadFile(out, h);
    }
    REQUIRE(r, taken, "refused", "the tool reports success for a file that the library does not load: " + got.substr(0, 700));
  }
  r.tag(text ? "good" : "bad");
  r.step();
  r.state(text ? undated(*text) : "bad");
}
void encode(mc::Run &r) { // every kind of input, with every combination of options
  const auto &in = inputs()[static_cast<size_t>(r.choose(static_cast<int>(inputs().size())))];
  const bool binary = r.flip();
  const int change = r.choose(4), ts = r.choose(6);
  if (!r.go()) return;
  Words w = {"-f", in.name, "-o", "out.x"};
  if (r.flip()) w = {"--output", "out.x", "-x", "--file", in.name};
  const bool lengthy = w[0] == "--output";
  if (binary) w.push_back(lengthy ? "--binary" : "-b");
  if (change & 1) w.push_back(lengthy ? "--refactor" : "-r");
  if (change & 2) w.push_back(lengthy ? "--linearize" : "-l");
  if (ts) w.insert(w.end(), {"-ts", std::vector<std::string>{"", "1", "37", "500", "8000", "1000000"}[static_cast<size_t>(ts)]});
  if (binary) {
    const int k = r.choose(4);
    if (k) w.insert(w.end(), {"--packet_duration", std::vector<std::string>{"", "1000", "37", "100000"}[static_cast<size_t>(k)]});
  }
  if (in.sound) {
    const bool few = !r.thorough() && (change || ts > 3 || lengthy);
    const int k = r.choose(few ? 2 : 10);
    static const std::vector<Words> SOUND = {{}, {"-kb", "8"}, {"-bu", "20", "-bl", "64"}, {"-kb", "100", "-bl", "16"}, {"-cf", "100"}, {"-cf", "0"}, {"-bl", "256"}, {"-kb", "4", "-cf", "30"}, {"-bu", "5", "-cf", "0"}, {"-bl", "8", "-cf", "200"}};
    w.insert(w.end(), SOUND[static_cast<size_t>(k)].begin(), SOUND[static_cast<size_t>(k)].end());
    const int off = few ? 0 : r.choose(4);
    if (off & 1) w.push_back("--disable-wavelet");
    if (off & 2) w.push_back("--disable-vectorial");
  }
  const bool before = !in.sound && r.flip(); // there is a file already
  r.describe([&] { return line("Encoder", w); });
  fresh(in.files);
  if (before) spew("out.x", std::string(200000, '?'));
  const auto res = tool(Encoder_main, w);
  if (before && res.code != 0) fs::remove("out.x");
  judge(r, in, w, "out.x", res);
}
void values(mc::Run &r) { // values of options that are out of range, or none at all
  const int which = r.choose(6);
  if (!r.go()) return;
  static const Words OPTIONS = {"-ts", "--packet_duration", "-kb", "-bu", "-bl", "-cf"};
  static const Words VALUES = {"0", "-1", "x", "", "1", "2", "3", "7", "12", "100", "5000", "99999999999", "1e3", "0.5", " 64", "nothing"};
  const auto &option = OPTIONS[static_cast<size_t>(which)];
  const auto value = r.pick(VALUES);
  static const std::vector<int> INPUTS = {0, 2, 5, 6, 9, 10, 11};
  const auto &in = inputs()[static_cast<size_t>(r.pick(INPUTS))];
  Words w = {"-f", in.name, "-o", "out.x"};
  if (r.flip()) w.push_back("-b");
  w.push_back(option);
  if (value != "nothing") w.push_back(value);
  // a wavelet block longer than the machine's memory, a bit budget below 1: not what is asked here
  if (option == "-bu" && (value == "0" || value == "-1" || value == "0.5")) return;
  r.describe([&] { return line("Encoder", w); });
  fresh(in.files);
  judge(r, in, w, "out.x", tool(Encoder_main, w));
}
void lines(mc::Run &r) { // every command line of a few words
  static const Words ALPHABET = {"-f", "--file", "-o", "--output", "-h", "--help", "in.hjif", "out.x", "missing", "-b", "--binary", ""};
  Words w;
  const int most = r.thorough() ? 6 : 4;
  for (int i = 0; i < most; i++) {
    const int k = r.choose(static_cast<int>(ALPHABET.size()) + 1);
    if (i == 1 || (i == 0 && !k))
      if (!r.go()) return;
    if (!k) break;
    w.push_back(ALPHABET[static_cast<size_t>(k) - 1]);
  }
  r.describe([&] { return line("Encoder", w); });
  const auto &in = inputs()[4];
  fresh(in.files);
  const auto res = tool(Encoder_main, w);
  REQUIRE(r, res.error.empty(), "crash", "the tool ended in the exception " + res.error);
  const auto name = either(w, "-f", "--file");
  auto out = either(w, "-o", "--output");
  const bool binary = has(w, "-b") || has(w, "--binary");
  if (out.empty()) out = binary ? "out.hmpg" : "out.hjif";
  r.step();
  r.state(std::to_string(res.code) + name + "|" + out + (helpShown(res) ? "help" : ""));
  Words want = {"in.hjif"};
  const bool asked = has(w, "-h") || has(w, "--help");
  if (asked || name != "in.hjif") {
    r.tag(asked ? "help" : "no input");
    REQUIRE(r, (res.code == 0) == asked && helpShown(res), "help", "status " + std::to_string(res.code) + ", printed " + res.out);
    REQUIRE(r, filesHere() == want && slurp("in.hjif") == in.files.at("in.hjif"), "help-files", "files changed though nothing was to encode");
    return;
  }
  r.tag("encoded");
  static std::map<bool, std::string> text;
  if (!text.count(binary)) {
    const Words plain = binary ? Words{"-b"} : Words{};
    fresh(in.files);
    bool dated = false;
    const auto t = expected("in.hjif", plain, dated);
    REQUIRE(r, t && dated, "library", "the library cannot encode the document");
    text[binary] = *t;
    fresh(in.files);
    tool(Encoder_main, w);
  }
  REQUIRE(r, res.code == 0, "good-status", "status " + std::to_string(res.code) + " for a good command line");
  if (out != "in.hjif") want.push_back(out);
  std::sort(want.begin(), want.end());
  REQUIRE(r, filesHere() == want, "good-files", "the output " + out + " is missing, or other files are there");
  REQUIRE(r, slurp(out) == text[binary], "good-output", "the output is " + slurp(out).substr(0, 400));
}
void places(mc::Run &r) { // outputs that cannot be written, for both tools
  const bool synth = r.flip();
  const int kind = r.choose(4), output = r.choose(6);
  if (!r.go()) return;
  fresh({{"in.hjif", hjif(streams::base(false))}, {"in.ahap", AHAP}, {"in.mihs", stream(streams::base(false))}, {"file", "x"}});
  fs::create_directory("folder");
  const std::string out = Words{"out.x", "folder", "nowhere/out.x", "file/out.x", "/dev/full", "folder/out.x"}[static_cast<size_t>(output)];
  Words w = {"-o", out};
  if (synth) {
    w.insert(w.end(), {"-f", kind & 1 ? "in.mihs" : "in.hjif"});
    if (kind & 1) w.push_back("-b");
    if (kind & 2) w.push_back("--generate_ohm");
    if ((kind & 2) && out == "/dev/full") return; // would go to /dev
  } else {
    w.insert(w.end(), {"-f", kind & 1 ? "in.ahap" : "in.hjif"});
    if (kind & 2) w.push_back("-b");
  }
  const bool good = output == 0 || output == 5;
  r.describe([&] { return line(synth ? "Synthesizer" : "Encoder", w); });
  const auto res = tool(synth ? Synthesizer_main : Encoder_main, w);
  REQUIRE(r, res.error.empty(), "crash", "the tool ended in the exception " + res.error);
  REQUIRE(r, (res.code == 0) == good, "status", "status " + std::to_string(res.code) + " for " + (good ? "a good" : "an unusable") + " output");
  REQUIRE(r, !good || (fs::is_regular_file(out) && fs::file_size(out) > 40), "output", "there is no output");
  REQUIRE(r, slurp("in.ahap") == AHAP && slurp("file") == "x", "others", "other files changed");
  r.step();
  r.state(static_cast<uint64_t>(output * 8 + kind * 2 + synth));
}
void folders(mc::Run &r) { // the elements of an OHM file are beside it, wherever that is
  const int where = r.choose(4);
  if (!r.go()) return;
  fresh({{"a.ahap", AHAP2}}); // not this one, except in the folder itself
  fs::create_directories("x/y z");
  const std::string dir = Words{"", "x/", "./x/y z/", folder() + "/x/"}[static_cast<size_t>(where)];
  spew(dir + "in.ohm", ohm({{"a.ahap", 1}}));
  spew(dir + "a.ahap", AHAP);
  const Words w = {"-f", dir + "in.ohm", "-o", "out.x"};
  r.describe([&] { return line("Encoder", w); });
  const auto res = tool(Encoder_main, w);
  REQUIRE(r, res.error.empty() && res.code == 0, "status", "status " + std::to_string(res.code) + " " + res.error);
  const auto got = slurp("out.x");
  const auto here = fs::current_path();
  fs::current_path(here / dir);
  bool dated = false;
  const auto text = expected("in.ohm", w, dated);
  fs::current_path(here);
  REQUIRE(r, text && undated(*text) == undated(got), "output", "the tool wrote " + got.substr(0, 600));
  r.step();
  r.state(static_cast<uint64_t>(where));
}

// The synthesizer
std::optional<std::vector<std::vector<long>>> parsed(const std::string &s, uint32_t rate, std::string &why) {
  const auto get = [&](size_t at, int n) {
    uint32_t v = 0;
    for (int i = n; i-- > 0;) v = v << 8 | static_cast<unsigned char>(s[at + static_cast<size_t>(i)]);
    return v;
  };
  why = "the header";
  if (s.size() < 44 || s.substr(0, 4) != "RIFF" || s.substr(8, 8) != "WAVEfmt " || get(20, 2) != 1 || get(34, 2) != 16 || s.substr(36, 4) != "data") return std::nullopt;
  const auto n = get(22, 2);
  why = "the sampling rate";
  if (get(24, 4) != rate) return std::nullopt;
  why = "the size";
  if (!n || get(40, 4) != s.size() - 44 || get(40, 4) % (2 * n) || get(4, 4) != s.size() - 8) return std::nullopt;
  std::vector<std::vector<long>> c(n);
  for (size_t at = 44, k = 0; at < s.size(); at += 2, k++) c[k % n].push_back(static_cast<int16_t>(get(at, 2)));
  return c;
}
std::vector<std::vector<double>> signal(ht::Haptics h, int fs, int pad) { // of every channel, from what the library says of its bands
  h.linearize();
  const unsigned ts = h.getTimescaleOrDefault();
  const double length = Helper::getTimeLength(h);
  const auto n = static_cast<uint32_t>(std::round(fs * (length / ts + 2 * pad * 0.001)));
  std::vector<std::vector<double>> out;
  haptics::waveletdecoder::WaveletDecoder decoder;
  for (uint32_t i = 0; i < h.getPerceptionsSize(); i++) {
    auto &p = h.getPerceptionAt(static_cast<int>(i));
    for (uint32_t j = 0; j < p.getChannelsSize(); j++) {
      auto c = p.getChannelAt(static_cast<int>(j));
      for (uint32_t k = 0; k < c.getBandsSize(); k++) {
        auto b = c.getBandAt(static_cast<int>(k));
        if (b.getBandType() != ht::BandType::WaveletWave) continue;
        decoder.transformBand(b, ts);
        c.replaceBandAt(static_cast<int>(k), b);
      }
      auto s = c.EvaluateChannel(n, fs, pad, ts);
      for (auto &v : s) v *= c.getGain() * std::pow(10.0, p.getPerceptionUnitExponentOrDefault());
      out.push_back(s);
    }
  }
  return out;
}
const std::vector<Doc> &documents(bool binary) {
  const auto make = [](int format) {
    std::vector<Doc> v = {streams::base(false), streams::base(true)};
    Doc loud = streams::base(false);
    for (auto &p : loud.percs)
      for (auto &c : p.channels) c.gain = 3;
    v.push_back(loud);
    Doc none = streams::base(false);
    none.percs.clear();
    v.push_back(none);
    for (auto &t : families(tweaksFor(format))) {
      Doc d = streams::base(false);
      apply(d, {&t});
      v.push_back(d);
    }
    return v;
  };
  static const std::vector<Doc> j = make(J), m = make(M);
  return binary ? m : j;
}
void play(mc::Run &r) { // what is played is what the library evaluates
  const bool binary = r.flip();
  const auto &d = documents(binary)[static_cast<size_t>(r.choose(static_cast<int>(documents(binary).size())))];
  if (!r.go()) return;
  const int fsKind = r.choose(7), padKind = r.choose(4);
  const bool meta = r.flip();
  if (binary && !streams::streamable(d)) return;
  const std::string in = binary ? "in.mihs" : "in.hjif";
  Words w = {"-f", in, "-o", "out.wav"};
  if (binary) w.push_back("-b");
  const Words RATES = {"", "1000", "48000", "0", "-1", "x", "1"};
  const Words PADS = {"", "10", "-5", "x"};
  const auto rate = RATES[static_cast<size_t>(fsKind)], pad = PADS[static_cast<size_t>(padKind)];
  if (!rate.empty()) w.insert(w.end(), {padKind ? "--sampling_frequency" : "-fs", rate});
  if (!pad.empty()) w.insert(w.end(), {"--pad", pad});
  if (meta) w.push_back("--generate_ohm");
  r.describe([&] { return line("Synthesizer", w) + " of " + dump(d); });
  const Files files = {{in, binary ? stream(d) : hjif(d)}};
  fresh(files);
  ht::Haptics h;
  bool good = true;
  {
    Quiet q;
    try {
      good = binary ? IOStream::readFile(in, h) : IOJson::loadFile(in, h);
    } catch (const std::exception &) {
      good = false;
    }
  }
  const int fs = rate.empty() ? 8000 : static_cast<int>(number(rate, true).value_or(0));
  good = good && fs > 0 && pad != "x";
  int channels = 0;
  if (good && meta && !number(h.getVersion(), true) && !h.getVersion().empty()) return; // OHM files number their versions
  if (good) {
    for (uint32_t i = 0; i < h.getPerceptionsSize(); i++) channels += static_cast<int>(h.getPerceptionAt(static_cast<int>(i)).getChannelsSize());
    auto copy = h;
    copy.linearize();
    if (fs * Helper::getTimeLength(copy) / copy.getTimescaleOrDefault() > 3e6) return; // hours: the synthesis of long documents is C25's
  }
  const auto res = tool(Synthesizer_main, w);
  REQUIRE(r, res.error.empty(), "crash", "the tool ended in the exception " + res.error);
  REQUIRE(r, slurp(in) == files.at(in), "input-changed", "the tool changed its input");
  r.step();
  if (!good) {
    REQUIRE(r, res.code != 0, "bad-status", "status 0 for an input or option that cannot be used");
    REQUIRE(r, filesHere() == Words{in}, "bad-files", "files were written");
    r.tag("bad");
    r.state("bad");
    return;
  }
  if (!channels) { // nothing to play: a WAV file needs a channel
    r.tag("silent");
    REQUIRE(r, res.code != 0, "silent-status", "status 0 though there is no channel");
    return;
  }
  REQUIRE(r, res.code == 0, "status", "status " + std::to_string(res.code));
  Words want = {in, "out.wav"};
  if (meta) want.push_back("out.ohm");
  std::sort(want.begin(), want.end());
  REQUIRE(r, filesHere() == want, "files", "the files in the folder afterwards are " + line("", filesHere()));
  std::string why;
  const auto got = parsed(slurp("out.wav"), static_cast<uint32_t>(fs), why);
  REQUIRE(r, got.has_value(), "wav", "the WAV file is wrong: " + why);
  const auto exp = signal(h, fs, std::max(0, static_cast<int>(number(pad, true).value_or(0))));
  REQUIRE(r, got->size() == exp.size(), "channels", std::to_string(got->size()) + " channels instead of " + std::to_string(exp.size()));
  uint64_t state = 0;
  for (size_t c = 0; c < exp.size(); c++) {
    REQUIRE(r, (*got)[c].size() == exp[c].size(), "samples", std::to_string((*got)[c].size()) + " samples instead of " + std::to_string(exp[c].size()));
    for (size_t i = 0; i < exp[c].size(); i++) {
      if (!std::isfinite(exp[c][i])) continue;
      const double v = std::min(32767.0, std::max(-32768.0, exp[c][i] * 32768));
      REQUIRE(r, std::abs(v - static_cast<double>((*got)[c][i])) < 1, "sample", "sample " + std::to_string(i) + " of channel " + std::to_string(c) + " is " + std::to_string((*got)[c][i]) + " instead of " + std::to_string(v));
      state = state * 31 + static_cast<uint64_t>((*got)[c][i]);
    }
  }
  if (meta) {
    Quiet q;
    auto copy = h;
    copy.linearize();
    std::string wavName = "out.wav";
    auto o = copy.extractMetadataToOHM(wavName);
    const auto path = mc::scratch() + "/c26-meta";
    REQUIRE(r, o.writeFile(path) && slurp(path) == slurp("out.ohm"), "metadata", "the OHM file is not the metadata of the document");
  }
  r.tag("played");
  r.state(state);
}
void playLines(mc::Run &r) { // every command line of a few words
  static const Words ALPHABET = {"-f", "--file", "-o", "--output", "-h", "--help", "in.hjif", "in.mihs", "out.x", "missing", "-b", "--binary", ""};
  Words w;
  const int most = r.thorough() ? 5 : 4;
  for (int i = 0; i < most; i++) {
    const int k = r.choose(static_cast<int>(ALPHABET.size()) + 1);
    if (i == 1 || (i == 0 && !k))
      if (!r.go()) return;
    if (!k) break;
    w.push_back(ALPHABET[static_cast<size_t>(k) - 1]);
  }
  r.describe([&] { return line("Synthesizer", w); });
  static const Files files = {{"in.hjif", hjif(streams::base(false))}, {"in.mihs", stream(streams::base(false))}};
  fresh(files);
  const auto res = tool(Synthesizer_main, w);
  REQUIRE(r, res.error.empty(), "crash", "the tool ended in the exception " + res.error);
  const auto name = either(w, "-f", "--file");
  auto out = either(w, "-o", "--output");
  const bool binary = has(w, "-b") || has(w, "--binary");
  if (out.empty()) out = "out.wav";
  r.step();
  r.state(std::to_string(res.code) + name + "|" + out + (helpShown(res) ? "help" : ""));
  Words want = {"in.hjif", "in.mihs"};
  const bool asked = has(w, "-h") || has(w, "--help");
  const auto untouched = [&] { return filesHere() == want && slurp("in.hjif") == files.at("in.hjif") && slurp("in.mihs") == files.at("in.mihs"); };
  if (asked || (name != "in.hjif" && name != "in.mihs")) {
    r.tag(asked ? "help" : "no input");
    REQUIRE(r, (res.code == 0) == asked && helpShown(res), "help", "status " + std::to_string(res.code) + ", printed " + res.out);
    REQUIRE(r, untouched(), "help-files", "files changed though nothing was to play");
    return;
  }
  if ((name == "in.mihs") != binary) { // the other format
    r.tag("format");
    REQUIRE(r, res.code != 0, "format", "status 0 though the input is of the other format");
    REQUIRE(r, untouched(), "format-files", "files changed though the input is of the other format");
    return;
  }
  r.tag("played");
  REQUIRE(r, res.code == 0, "good-status", "status " + std::to_string(res.code) + " for a good command line");
  if (!has(want, out)) want.push_back(out);
  std::sort(want.begin(), want.end());
  REQUIRE(r, filesHere() == want, "good-files", "the output " + out + " is missing, or other files are there");
  std::string why;
  REQUIRE(r, parsed(slurp(out), 8000, why).has_value(), "good-output", "the WAV file is wrong: " + why);
}
} // namespace

int main(int argc, char **argv) {
  std::cerr.setstate(std::ios::failbit);
  return mc::runMain(argc, argv, "C26", {{"places", places}, {"folders", folders}, {"encode", encode}, {"values", values}, {"lines", lines}, {"play", play}, {"play-lines", playLines}});
}
